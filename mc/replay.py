"""python -m mc.replay FILE: run one recorded case again, twice, and show what happens."""

import importlib
import json
import os
import shutil
import sys
import tempfile


def main():
    d = json.load(open(sys.argv[1]))
    from mc import core

    mod = importlib.import_module(f"mc.checks.{d['property'].lower()}")
    out = []
    for _ in range(2):
        os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif_replay_")
        try:
            msg = None
            for tier in ("quick", "thorough"):
                sp = [s for s in mod.spaces(tier) if s.name == d["space"]]
                if sp and d["index"] < len(sp[0].cases) and core.jsonable(sp[0].cases[d["index"]]) == d["case"]:
                    msg = core.explore_case(sp[0], sp[0].cases[d["index"]], core.Rec())
                    break
            else:
                sys.exit("case not found in the spaces of this check")
        finally:
            shutil.rmtree(os.environ["VERIF_SCRATCH"], ignore_errors=True)
        out.append(msg)
        from mc import adapter

        adapter._scratch = None
    print(json.dumps(d["case"], indent=1))
    print("recorded:", d["message"])
    print("replayed:", out[0])
    if out[0] != out[1]:
        print("NOT REPRODUCIBLE: second replay:", out[1])
    sys.exit(1 if out[0] else 0)


if __name__ == "__main__":
    main()
