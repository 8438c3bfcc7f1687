"""C30: the bundled examples do what they announce."""

import json
import os
import pathlib
import runpy
import shutil
import signal
import subprocess
import sys
import traceback

import numpy as np
import yaml

from .. import prog
from ..core import Product, Space, Violation, Words, require
from .c19 import View, hush
from .c21 import tree

TITLE = "what the examples simulate, write and show, for any bundled G-code and presets"
ASSUMPTIONS = [
    "the G-code files of the examples are pointers to Git LFS in this checkout; programs which extrude take their place in a copy of the package",
    "the window of the 3D plot is a stand-in which records what it is given",
]

END = "G1 X33 Y3 E9 F1500\n"
OPS = [
    "G1 X10 Y4 E1 F1800",
    ";LAYER_CHANGE",
    "G1 Z0.4 F600",
    "G1 E-0.8",
    "G4 P150",
    "G91",
    "G28 X",
    "G92 X5 E0",
    ";LAYER_CHANGE ",
]


def machine(p_vel, p_acc, jerk, vE, firmware):
    return {"nozzle_diam": 0.4, "filament_diam": 1.75, "p_vel": p_vel, "p_acc": p_acc, "jerk": jerk, "vX": 180, "vY": 170, "vZ": 12, "vE": vE, "firmware": firmware}


A4, MINI = (35, 1000, 10, 33, "MKA"), (35, 1250, 8, 80, "marlin_jd")
# (printers of the example, printers shipped as defaults)
PRESETS = [
    ({"anisoprint_a4": A4, "prusa_mini": MINI}, {"anisoprint_a4": A4, "prusa_mini": MINI}),
    ({"prusa_mini": (20, 300, 5, 30, "klipper"), "anisoprint_a4": (15, 100, 1, 20, "klipper")}, {"other": (9, 90, 9, 9, None), "prusa_mini": (70, 700, 17, 37, "marlin_jerk"), "anisoprint_a4": (50, 500, 3, 60, "marlin_jd")}),
    ({"anisoprint_a4": (61, 250, 0, 20, None), "prusa_mini": (45, 2500, 12, 33, "marlin_jerk"), "prusa_mini_2": (5, 50, 2, 3, "MKA")}, {"prusa_mini": (33, 333, 3, 33, None), "anisoprint_a4": (25, 800, 20, 33, None), "anisoprint_a3": (5, 80, 2, 33, None)}),
]
PROGRAMS = [
    {"benchy": ";LAYER_CHANGE\nG1 X10 Y4 E1 F1800\n;LAYER_CHANGE\nG1 Z0.3\n" + END, "brace": "G1 X5 F900\nG1 X9 Y9 E1\n"},
    {"benchy": "G1 X7 E.5 F3000\nG1 X8 Y2\n;layer_change\n;LAYER_CHANGE\nG1 X1 E2\n", "brace": "G91\nM83\nG1 X5 E1 F900\n;LAYER_CHANGE\nG1 Y9\nG1 X-9 E1\n"},
]
# what lies in the working directory
DIRS = {
    "empty": {},
    "old": {"output_benchy_example/keep.txt": "k", "output_benchy_example/benchy_summary.yaml": "old: 1\n" * 99, "output_benchy_example/benchy_layer_metrics.csv": "old\n" * 999, "output_benchy_example/benchy_prusa_mini_event_series.csv": "old\n" * 999, "output_benchy_example/benchy.vtk": "old", "output_benchy_example/benchy.stl": "x"},
    "decoys": {"benchy.gcode": "G1 X99 Y99 E9 F600\n", "brace.gcode": "G1 X88 E9 F600\n", "printer_presets.yaml": "P", "examples/data/benchy.gcode": "G1 X77 E1 F600\n", "data/default_printer_presets.yaml": "P", "output_brace_example/keep.txt": "k", "output_benchy/keep.txt": "k"},
}
STEPS = [["run", "cli", "benchy"], ["run", "cli", "brace"], ["run", "fn", "benchy"], ["run", "fn", "brace"], ["data", 1, 1], ["data", 0, 2]]


# ---------------------------------------------------------------- inside of the copy


def install(pkg, programs, presets):
    A = prog.adapter()
    for name, text in programs.items():
        (pkg / "examples/data" / f"{name}.gcode").write_text(text)
    for f, printers in zip(("examples/data/printer_presets.yaml", "data/default_printer_presets.yaml"), presets):
        (pkg / f).write_text(A.yaml_text({k: machine(*v) for k, v in printers.items()}))


def start(how, name):
    if how == "cli":
        import pyGCodeDecode.cli as cli

        keep, sys.argv = sys.argv, ["pygcd", "run_example", name]
        try:
            cli._main()
        finally:
            sys.argv = keep
    elif how == "fn":
        import pyGCodeDecode.examples.benchy as be
        import pyGCodeDecode.examples.brace as br

        {"benchy": be.benchy_example, "brace": br.brace_example}[name]()
    else:
        runpy.run_module(f"pyGCodeDecode.examples.{name}", run_name="__main__")


def session(c):
    """Runs one history of examples; returns what has been seen."""
    import pyvista as pv

    A = prog.adapter()
    pkg = pathlib.Path(A.REPO) / "pyGCodeDecode"
    root = A.scratch() / "ex"
    shutil.rmtree(root, ignore_errors=True)
    cwd, lib = root / "here", root / "lib"
    cwd.mkdir(parents=True)
    lib.mkdir()
    for name, text in DIRS[c["dir"]].items():
        (cwd / name).parent.mkdir(parents=True, exist_ok=True)
        (cwd / name).write_text(A.yaml_text({k: machine(9, 90, 9, 9, None) for k in ("anisoprint_a4", "prusa_mini")}) if text == "P" else text)
    data = [c["programs"], PRESETS[c["presets"]]]
    install(pkg, *data)
    seen = []
    os.environ.pop("DISPLAY", None)
    if c["display"]:
        os.environ["DISPLAY"] = ":77"
    pv.Plotter = View
    os.chdir(cwd)
    for k, step in enumerate(c["steps"]):
        if step[0] == "data":
            data = [PROGRAMS[step[1]], PRESETS[step[2]]]
            install(pkg, *data)
            continue
        _, how, name = step
        what = "example %s (%s, step %d, %s)" % (name, how, k, c["dir"])
        before = tree(root), tree(pkg)
        View.made = []
        try:
            with A.quiet(), hush():
                start(how, name)
        except (SystemExit, Exception) as e:
            require(False, "%s ends with %s %s", what, type(e).__name__, e)
        after = tree(cwd)
        views = View.made
        require(pathlib.Path.cwd() == cwd, "%s: changes the working directory", what)
        require(tree(pkg) == before[1], "%s: changes the package", what)
        changed = {x for x in set(before[0]) | set(tree(root)) if before[0].get(x, 0) != tree(root).get(x, 0)}
        # ---- what the library does with the same inputs
        f = pkg / "examples/data" / f"{name}.gcode"
        with A.quiet(), hush():
            if name == "brace":
                sim = A.gi.simulation(gcode_path=f, machine_name="anisoprint_a4")
            else:
                s = A.gi.setup(presets_file=pkg / "examples/data/printer_presets.yaml", printer="prusa_mini", layer_cue="LAYER_CHANGE")
                sim = A.gi.simulation(gcode_path=f, initial_machine_setup=s)
            View.made = []
            os.environ.pop("DISPLAY", None)
            mesh = sim.plot_3d(extrusion_only=True, vtk_path=lib / "m.vtk")
            if c["display"]:
                os.environ["DISPLAY"] = ":77"
        if name == "brace":
            require(not changed, "%s: writes %s", what, sorted(changed))
        else:
            from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
            from pyGCodeDecode.tools import save_layer_metrics

            with A.quiet():
                sim.save_summary(filepath=lib / "s.yaml")
                save_layer_metrics(simulation=sim, filepath=lib / "l.csv", locale="en_US.utf8", delimiter=",")
                generate_abaqus_event_series(simulation=sim, filepath=lib / "e.csv", tolerance=1e-12, output_unit_system="SImm")
            o = "output_benchy_example"
            names = {"summary": "benchy_summary.yaml", "l.csv": "benchy_layer_metrics.csv", "e.csv": "benchy_prusa_mini_event_series.csv", "m.vtk": "benchy.vtk"}
            may = {f"here/{o}", f"here/{o}/benchy.png"} | {f"here/{o}/{n}" for n in names.values()}
            require(changed <= may, "%s: also touches %s", what, sorted(changed - may))
            for want, n in names.items():
                got = after.get(f"{o}/{n}")
                require(got is not None, "%s: does not write %s", what, n)
                if want != "summary":
                    require(got == (lib / want).read_bytes(), "%s: %s differs from what the library writes for the bundled G-code", what, n)
            a, b = yaml.safe_load(after[f"{o}/benchy_summary.yaml"]), yaml.safe_load((lib / "s.yaml").read_text())
            require(os.path.realpath(a.pop("filename")) == os.path.realpath(b.pop("filename")), "%s: the summary names another file", what)
            require(a == b, "%s: summary %s, the library reports %s", what, a, b)
        shots = [x for v in views for x in v.shots]
        shown = [v for v in views for _ in range(v.shown)]
        png = [os.path.realpath(cwd / "output_benchy_example" / "benchy.png")] if name == "benchy" and c["display"] else []
        require([os.path.realpath(x) for x in shots] == png, "%s (display %s): screenshots %s", what, c["display"], shots)
        require(len(shown) == (1 if c["display"] else 0), "%s (display %s): shown %d times", what, c["display"], len(shown))
        for v in views:
            if v.shots or v.shown:
                require(len(v.meshes) == 1, "%s: %d meshes in a view", what, len(v.meshes))
            for m, _ in v.meshes:
                same = m.n_points == mesh.n_points and np.array_equal(m.points, mesh.points) and np.array_equal(m["velocity"], mesh["velocity"])
                require(same, "%s: the view does not show the extruded path", what)
        seen.append([name, mesh.n_points, len(sim.blocklist), sorted(changed)])
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    return seen


def serve():
    """One case per line on standard input, one answer per line; each case runs in a process of its own."""
    prog.adapter()
    import pyGCodeDecode.cli  # noqa: F401

    out = os.fdopen(os.dup(1), "w")
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.alarm(120)
            try:
                res = {"seen": session(json.loads(line))}
            except Violation as e:
                res = {"violation": str(e)}
            except BaseException:
                res = {"broken": traceback.format_exc()}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            answer = f.read()
        os.waitpid(pid, 0)
        out.write((answer or json.dumps({"violation": "the example does not end, or ends the process"})) + "\n")
        out.flush()


# ---------------------------------------------------------------- in the check

_child = None


def child():
    global _child
    if _child is None or _child[0] != os.getpid():
        A = prog.adapter()
        copy = A.scratch() / "copy"
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree(pathlib.Path(A.REPO) / "pyGCodeDecode", copy / "pyGCodeDecode", ignore=shutil.ignore_patterns("__pycache__"))
        env = {**os.environ, "VERIF_REPO": str(copy), "VERIF_SCRATCH": str(A.scratch())}
        p = subprocess.Popen([sys.executable, "-m", "mc.checks.c30"], cwd=pathlib.Path(__file__).resolve().parents[2], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        _child = os.getpid(), p
    return _child[1]


def explore(c, rec):
    p = child()
    p.stdin.write(json.dumps(c) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the process of the examples has ended")
    res = json.loads(line)
    if "broken" in res:
        raise RuntimeError(res["broken"])
    require("violation" not in res, "%s", res.get("violation"))
    rec.trace()
    at = c["dir"], json.dumps(c["programs"]), c["presets"]
    rec.state(at)
    for name, n, blocks, changed in res["seen"]:
        rec.step(at, name)
        rec.outcome(name, n, blocks, changed)
        rec.compared(8 if name == "benchy" else 3)


def case(dir, programs, presets, display, steps):
    return dict(dir=dir, programs=programs, presets=presets, display=display, steps=steps)


def programs(word):
    text = "".join(x + "\n" for x in word)
    return {"benchy": text + END, "brace": "G1 Y2 E.5 F1200\n" + text + "G1 X-5 E8\n"}


def spaces(tier):
    deep = tier == "thorough"
    B = (True, False)
    n = 3 if deep else 2
    h = 4 if deep else 2
    return [
        Space("programs", "bundled programs of 0..%d lines over %d and a last move x presets, both examples" % (n, len(OPS)), Product(Words(OPS, 0, n), range(3), make=lambda w, p: case("empty", programs(w), p, True, [STEPS[0], STEPS[1]])), explore, chunk=4),
        Space("histories", "all sequences of 1..%d runs and exchanges of the bundled files x working directory x display" % h, Product(Words(STEPS, 1, h), DIRS, B, make=lambda w, d, x: case(d, PROGRAMS[0], 0, x, w)), explore, chunk=4),
        Space("modules", "the examples run as modules, as functions and from the command line x working directory x display x presets", Product(("module", "fn", "cli"), ("benchy", "brace"), DIRS, B, range(3), make=lambda how, x, d, y, p: case(d, PROGRAMS[1], p, y, [["run", how, x]])), explore, chunk=4),
    ]


if __name__ == "__main__":
    serve()
