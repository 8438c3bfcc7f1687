"""python -m mc.run C01 [--tier quick|thorough]"""

import argparse
import importlib
import os
import sys


def users_locale():
    """Run as in a user's session: with a UTF-8 locale that Python takes its encodings from."""
    import locale

    if os.environ.get("VERIF_LOCALE"):
        return
    try:
        locale.setlocale(locale.LC_ALL, "C.UTF-8")
    except locale.Error:
        return
    os.execve(sys.executable, [sys.executable, *sys.orig_argv[1:]], {**os.environ, "LC_ALL": "C.UTF-8", "PYTHONUTF8": "0", "VERIF_LOCALE": "1"})


def main():
    users_locale()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    # one thread per worker: the exploration itself is parallel
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["VERIF_TIER"] = a.tier
    from mc import core

    try:
        mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
        spaces = mod.spaces(a.tier)
    except ImportError as e:
        # the code under test cannot be imported or lacks a documented entry point
        import traceback

        traceback.print_exc()
        if "pyGCodeDecode" in str(e):
            f = core.write_replay(a.prop, "import", 0, {}, str(e))
            print(f"VIOLATION property={a.prop} replay={f}")
            sys.exit(1)
        sys.exit(2)
    sys.exit(
        core.run(
            a.prop,
            mod.TITLE,
            spaces,
            a.tier,
            level=getattr(mod, "LEVEL", "model_checking"),
            assumptions=getattr(mod, "ASSUMPTIONS", ()),
        )
    )


if __name__ == "__main__":
    main()
