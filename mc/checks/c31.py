"""C31: results never depend on where and how the process runs."""

import contextlib
import hashlib
import itertools
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys

from ..core import ROOT, Product, Space, require

TITLE = "results never depend on the environment of the process"
ASSUMPTIONS = [
    "the locales of this sandbox: C and C.UTF-8, and one which does not exist",
    "a path is given in a form which the process can open itself",
]

# the first value of each axis is the ordinary one
AXES = {
    "hash": ("0", "1", "42", "random"),
    "locale": ("C.UTF-8", "ascii", "missing", "utf8 mode", "unset"),
    "flags": ("", "-O", "-B", "-X dev", "-W always"),
    "stdio": ("pipes", "no stdout", "nothing open", "ascii console", "latin-1 console", "unbuffered"),
    "cwd": ("scratch", "/", "decoys"),
    "path": ("Path", "str", "relative", "relative str", "link", "dots", "blanks", "umlauts"),
    "host": ("main", "thread", "fork", "exec", "frozen name", "printoptions", "no gc"),
    "misc": ("", "TZ", "no HOME", "narrow", "no TMPDIR", "no columns"),
}

PROGRAMS = {
    "a": "G28\nG21 ; \u00dcbergang \u00b10,1 mm\nM83\nG1 X10 F3000\n;L\nG1 Y5 E0.4\nG29\nG10\nG4 P50\nM204 P300\nG1 X-7 Y2 E0.9\nG11\nG92 E0\n;L \u00e9\nG1 X0.3 Y0.1 E0.02\nG2 X1\nG28\nG1 E-0.8 F1200\n",
    "b": "G20\nG1 X1 E0.02 F150\nG1 Y-0.5 E0.03\n;L\nM205 X3\nG1 X0.2 E0.05\nG21\nG1 X30 Y-20 E2\nG40\nG42\n;L\nG1 X60 Y-42 E4\nG1 Z3\nG30\nM203 X20 Y10\nG1 X1 Y1 Z1 E5",
}
PRESETS = """# D\u00fcsen \u00b10,1 mm \u2300
mine:
  nozzle_diam: 0.4
  filament_diam: 1.75
  p_vel: 35
  p_acc: 1000
  jerk: 10
  vX: 180
  vY: 170
  vZ: 30
  vE: 33
  firmware: %s
"""
DECOYS = {
    "default_printer_presets.yaml": PRESETS.replace("mine", "prusa_mini") % "klipper",
    "data/default_printer_presets.yaml": PRESETS.replace("mine", "prusa_mini") % "klipper",
    "presets.yaml": PRESETS % "klipper",
    "prog.gcode": "G1 X99 F100 E4\n",
    "utils.py": "raise SystemExit(7)\n",
    "helpers.py": "raise SystemExit(7)\n",
    "state.py": "raise SystemExit(7)\n",
    "tools.py": "raise SystemExit(7)\n",
    "result.py": "raise SystemExit(7)\n",
    "pyGCodeDecode.yaml": PRESETS % "klipper",
    ".pygcd": "p_acc: 3\n",
}
FWS = ("marlin_jd", "klipper", "marlin_jerk", "MKA")


# ---------------------------------------------------------------- the process under test


def path(root, name, form):
    """One of the ways to name a file."""
    p = root / ({"prog.gcode": "in/prog.gcode", "presets.yaml": "etc/presets.yaml"}.get(name) or "out/" + name)
    name = p.name
    root = p.parent
    if form in ("blanks", "umlauts"):
        d = root / ("a dir of 100% #1;x" if form == "blanks" else "Teil \u00fc\u00e9")
        d.mkdir(exist_ok=True)
        if p.exists():
            shutil.copy(p, d / name)
        return d / name
    if form == "link":
        d = root / "linked"
        if not d.exists():
            d.symlink_to(root, target_is_directory=True)
        return d / name
    if form == "dots":
        (root / "sub").mkdir(exist_ok=True)
        return root / "sub" / ".." / name
    if form.startswith("relative"):
        p = pathlib.Path(os.path.relpath(p))
    return str(p) if form.endswith("str") else p


def session(c):
    root = pathlib.Path(c["root"])
    import pyGCodeDecode

    require(os.path.realpath(pyGCodeDecode.__file__).startswith(os.path.realpath(os.environ["VERIF_REPO"]) + "/"), "another package was imported: %s", pyGCodeDecode.__file__)
    from pyGCodeDecode import cli, tools
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
    from pyGCodeDecode.gcode_interpreter import setup, simulation

    at = lambda name: path(root, name, c["path"])  # noqa: E731
    out = {}

    def rows(sim):
        def seg(s):
            return [float(s.t_begin), float(s.t_end), *map(float, s.pos_begin.get_vec(True)), *map(float, s.pos_end.get_vec(True)), *map(float, s.vel_begin.get_vec(True)), *map(float, s.vel_end.get_vec(True))]

        return [seg(s) for b in sim.blocklist for s in b.get_segments()]

    def states(sim):
        return [[*map(float, s.state_position.get_vec(True)), float(s.state_p_settings.speed), float(s.state_p_settings.p_acc), float(s.state_p_settings.jerk), s.layer, s.comment, s.pause, s.line_number] for s in sim.states]

    su = setup(presets_file=at("presets.yaml"), printer="mine", layer_cue="L")
    su.set_initial_position((1.0, 2.0, 3.0, 4.0))
    sim = simulation(gcode_path=at("prog.gcode"), initial_machine_setup=su, output_unit_system="inch")
    out["segments"], out["states"] = rows(sim), states(sim)
    T = out["segments"][-1][1]
    out["values"] = [[list(map(float, x)) for x in sim.get_values(q * T / 7 if q < 7 else T)] for q in range(8)]
    out["extent"] = [[list(map(float, r)) for r in sim.extrusion_extent()], float(sim.extrusion_max_vel()), float(sim.get_width(T / 3, 0.2, 1.75))]
    out["settings"] = sorted((k, v) for k, v in su.get_dict().items() if not isinstance(v, (list, tuple)))
    sim.save_summary(at("summary.yaml"))
    out["metrics"] = repr(tools.save_layer_metrics(sim, at("metrics.csv")))
    out["metrics locale"] = repr(tools.save_layer_metrics(sim, at("metrics2.csv"), locale="xx_YY.utf8", delimiter=","))
    out["submodel"] = repr(tools.write_submodel_times(sim, [2, 1, 3], 8, 9, 10, at("submodel.yaml"), zwei=2, eins=1, drei={"a": 1, "b": [2]}))
    out["events"] = repr(generate_abaqus_event_series(sim, at("events.inp")))
    mesh = sim.plot_3d(extrusion_only=True, screenshot_path=at("none.png"), vtk_path=at("mesh.vtk"))
    out["mesh"] = [mesh.points.tolist(), mesh["velocity"].tolist()]
    sim.plot_vel(filepath=at("vel.png"), show=False)
    sim.plot_2d_position(filepath=at("pos.png"), show=False)
    sd = simulation(gcode_path=at("prog.gcode"), machine_name="prusa_mini")
    out["default"] = rows(sd)
    sd.save_summary(at("default.yaml"))
    argv, sys.argv = sys.argv, ["pygcd", "plot", "-g", str(at("prog.gcode")), "-p", str(at("presets.yaml")), "-o", str(at("cli_out")), "-pn", "mine", "-lc", "L"]
    try:
        out["cli"] = None
        cli._main()
    except SystemExit as e:
        out["cli"] = e.code
    finally:
        sys.argv = argv
    where = pathlib.Path(at("x")).parent
    names = [n for n in ("summary.yaml", "metrics.csv", "metrics2.csv", "submodel.yaml", "events.inp", "mesh.vtk", "vel.png", "pos.png", "default.yaml") if (where / n).exists()]
    names += sorted("cli_out/" + p.name for p in (where / "cli_out").iterdir()) if (where / "cli_out").is_dir() else []
    own = str(at("prog.gcode"))
    files = {}
    for n in names:
        data = (where / n).read_bytes()
        if n.endswith(".yaml") and "sub" not in n:  # names the file, in the form it was given
            import yaml

            d = yaml.safe_load(data.decode("ascii"))
            name = str(d.pop("filename"))
            require(os.path.realpath(name) == os.path.realpath(own), "the summary names %r", name)
            data = json.dumps(d).encode()
        files[n] = "image" if n.endswith(".png") else hashlib.sha256(data).hexdigest()[:12] + " %d" % len(data)
    out["files"] = files
    return out


def hosted(c):
    host = c["host"]
    res = {}

    def work():
        try:
            res["out"] = session(c)
        except BaseException as e:
            import traceback

            res["error"] = "%s: %s" % (type(e).__name__, traceback.format_exc()[-700:])

    if host == "thread":
        import threading

        t = threading.Thread(target=work)
        t.start()
        t.join()
    elif host == "fork":
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            work()
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            res = json.loads(f.read())
        os.waitpid(pid, 0)
    elif host == "exec":
        exec("work()", {"work": work, "__name__": "__main__"})
    else:
        if host == "frozen name":
            sys.argv[0] = ""
            sys.modules["__main__"].__dict__.pop("__file__", None)
        elif host == "printoptions":
            import numpy as np

            np.set_printoptions(precision=2, threshold=3, suppress=True)
        elif host == "no gc":
            import gc

            gc.disable()
            sys.dont_write_bytecode = True
        work()
    return res


# ---------------------------------------------------------------- in the check


def run(c, root):
    shutil.rmtree(root, ignore_errors=True)
    work, cwd = root / "work", root / "cwd"
    work.mkdir(parents=True)
    cwd.mkdir()
    for d in ("in", "etc", "out"):
        (work / d).mkdir()
    (work / "in" / "prog.gcode").write_text(PROGRAMS[c["program"]], encoding="utf-8")
    (work / "etc" / "presets.yaml").write_text(PRESETS % c["fw"], encoding="utf-8")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ")) and k not in ("DISPLAY", "COLUMNS", "TERM")}
    env.update(VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"), MPLBACKEND="Agg", PYTHONHASHSEED=c["hash"], PYTHONDONTWRITEBYTECODE="1", TMPDIR=str(root))
    if c["locale"] == "C.UTF-8":
        env["LC_ALL"] = "C.UTF-8"
    elif c["locale"] == "ascii":
        env.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    elif c["locale"] == "missing":
        env.update(LC_ALL="xx_YY.UTF-8", LANG="xx_YY")
    elif c["locale"] == "utf8 mode":
        env.update(LC_ALL="POSIX", PYTHONUTF8="1")
    if c["stdio"].endswith("console"):
        env["PYTHONIOENCODING"] = c["stdio"].split()[0]
    elif c["stdio"] == "unbuffered":
        env["PYTHONUNBUFFERED"] = "1"
    if c["misc"] == "TZ":
        env["TZ"] = "Asia/Kolkata"
    elif c["misc"] == "no HOME":
        env.pop("HOME", None)
        env["MPLCONFIGDIR"] = str(root / "mpl")
    elif c["misc"] in ("narrow", "no columns"):
        env.update(COLUMNS="20" if c["misc"] == "narrow" else "0", LINES="3", TERM="dumb")
    elif c["misc"] == "no TMPDIR":
        env.pop("TMPDIR")
    here = {"scratch": work, "/": pathlib.Path("/"), "decoys": cwd}[c["cwd"]]
    if c["cwd"] == "decoys":
        for name, text in DECOYS.items():
            (cwd / name).parent.mkdir(parents=True, exist_ok=True)
            (cwd / name).write_text(text, encoding="utf-8")
    result = root / "result.json"
    # the check itself is imported only after the library, from the end of the search path
    code = "import sys; sys.path.insert(0, %r); sys.path.append(%r); sys.argv[1:] = [%r]; import mc.checks.c31 as m; m.main()" % (env["VERIF_REPO"], str(ROOT), json.dumps({**c, "root": str(work), "result": str(result)}))
    argv = [sys.executable, *c["flags"].split(), "-c", code]
    if c["stdio"] in ("no stdout", "nothing open"):
        argv = ["/bin/sh", "-c", 'exec "$@" >&- 2>/dev/null' if c["stdio"] == "no stdout" else 'exec "$@" >&- 2>&- <&-', "sh", *argv]
    before = listing(here) if c["cwd"] != "scratch" else None
    p = subprocess.run(argv, cwd=here, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
    if not result.exists():
        raise RuntimeError("the process ended with %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-600:]))
    res = json.loads(result.read_text())
    if before is not None:
        require(listing(here) == before, "files appeared in the working directory: %s", sorted(set(listing(here)) - set(before)))
    said = None
    if c["stdio"] in ("pipes", "unbuffered") and c["locale"] != "ascii":
        said = console(p.stdout.decode("utf-8"))
    shutil.rmtree(root, ignore_errors=True)
    return res, said


def listing(d):
    if str(d) == "/":
        return sorted(x for x in os.listdir("/"))
    return sorted(str(p.relative_to(d)) for p in d.rglob("*") if "__pycache__" not in str(p))


def console(text):
    """What is reported about the program: its unsupported commands, with their numbers, and where the rest depends on paths and the clock."""
    text = re.sub(r"/[^\n]*", "<path>", text)
    text = re.sub(r"took [0-9.]+ ?s|[0-9.]+ ?s(?= in real)", "<time>", text)
    return [x for x in re.split(r"[\r\n]+", text) if re.search(r"\bG\d", x)]


_reference = {}


def reference(program, fw):
    """The results of an ordinary process."""
    from .. import prog

    if (program, fw) not in _reference:
        c = {k: v[0] for k, v in AXES.items()}
        _reference[program, fw] = run({**c, "program": program, "fw": fw}, prog.adapter().scratch() / "ref")
    return _reference[program, fw]


def explore(c, rec):
    from .. import prog

    want, said = reference(c["program"], c["fw"])
    require("error" not in want, "in an ordinary process: %s", want.get("error"))
    got, told = run(c, prog.adapter().scratch() / "env")
    rec.trace()
    where = {k: c[k] for k in AXES if c[k] != AXES[k][0]}
    require("error" not in got, "with %s: %s", where, got.get("error"))
    a, b = want["out"], got["out"]
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                bad = {n: (a[k].get(n), b[k].get(n)) for n in {**a[k], **b[k]} if a[k].get(n) != b[k].get(n)}
                require(False, "with %s the %s differ: %s", where, k, bad)
            x, y = json.dumps(a[k]), json.dumps(b[k])
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            require(False, "with %s %s differ: ...%s instead of ...%s", where, k, y[max(0, i - 60) : i + 60], x[max(0, i - 60) : i + 60])
    if told is not None:
        require(told == said, "with %s the console says %s instead of %s", where, told, said)
    rec.state(c["program"], c["fw"], json.dumps(where))
    for k, v in where.items():
        rec.step("ordinary", k + "=" + v)
    rec.compared(len(a))
    rec.outcome(c["program"], c["fw"], len(where))


def possible(c):
    # a name which cannot be spelled in the encoding of the process; a message before the library is reached
    return not (c["path"] == "umlauts" and c["locale"] == "ascii")


class Deviations(list):
    """All environments which differ from the ordinary one in lo..hi axes."""

    def __init__(self, lo, hi, programs, fws):
        super().__init__()
        base = {k: v[0] for k, v in AXES.items()}
        for n in range(lo, hi + 1):
            for ks in itertools.combinations(AXES, n):
                for vs in itertools.product(*(AXES[k][1:] for k in ks)):
                    c = {**base, **dict(zip(ks, vs))}
                    if possible(c):
                        self += [{**c, "program": p, "fw": f} for p in programs for f in fws]


def spaces(tier):
    deep = tier == "thorough"
    if deep:
        return [Space("environments", "all environments which differ from the ordinary one in 0..2 of 8 axes x 2 programs", Deviations(0, 2, ("a", "b"), ("marlin_jd",)), explore, chunk=1), Space("firmwares", "all environments which differ in one axis x 2 programs x 4 firmwares", Deviations(1, 1, ("a", "b"), FWS), explore, chunk=1)]
    return [Space("environments", "all environments which differ from the ordinary one in one of 8 axes x 2 programs", Deviations(0, 1, ("a", "b"), ("marlin_jd",)), explore, chunk=1)]


def main():
    c = json.loads(sys.argv[1])
    # the encoding of what is printed is that of the process, the result is written apart
    with contextlib.suppress(Exception):
        sys.path.remove("")
    sys.path.insert(0, "")
    res = hosted(c)
    with open(c["result"], "w", encoding="ascii") as f:
        f.write(json.dumps(res))
