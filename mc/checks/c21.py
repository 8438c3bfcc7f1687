"""C21: the command line acts on the right inputs and outputs."""

import builtins
import os
import pathlib
import shutil
import sys

import numpy as np
import yaml

from .. import prog
from ..core import Product, Space, Words, require
from .c19 import View, hush

TITLE = "inputs, prompts, files written and their contents"
ASSUMPTIONS = [
    "no display is available, so no picture is taken; a picture named after the G-code file is accepted",
    "the exit code of a refused call is not prescribed",
    "directories called *.gcode and hidden files do not occur in the working directory",
]

GCODE = {
    "a": "G1 X10 Y5 F1800\nG1 X20 E1\n;LAYER\nG1 Z0.3\nG1 Y20 E2 F900\nG4 P100\n;LAYER\nG1 X0 E3\n",
    "b": "G28\nG92 E0\nG1 X30 Y30 E2 F3000\n;NEXT\nG91\nG1 X-7 Y7 Z1\nG1 X-3 E1\n;NEXT\nG1 X1 E.2\n",
    "c": "M204 P300\nG1 X5 Y5 F2400 E.3\nG1 X9 Y5 E.5\n",
}
PRINTERS = {
    "own": {"nozzle_diam": 0.4, "filament_diam": 1.75, "p_vel": 35, "p_acc": 200, "jerk": 5, "vX": 180, "vY": 180, "vZ": 30, "vE": 33, "firmware": "klipper"},
    "other": {"nozzle_diam": 0.6, "filament_diam": 2.85, "p_vel": 20, "p_acc": 900, "jerk": 8, "vX": 80, "vY": 90, "vZ": 20, "vE": 30, "firmware": "marlin_jerk"},
}
FILES = {
    "P": PRINTERS,
    # printers which are called like the shipped ones, and a file with a single printer
    "Q": {"own": PRINTERS["own"], "prusa_mini": {**PRINTERS["other"], "p_acc": 70}, "anisoprint_a4": {**PRINTERS["own"], "p_acc": 150, "jerk": 3}, "other": PRINTERS["other"]},
    "S": {"own": PRINTERS["own"]},
}
DEFAULT = "pyGCodeDecode/data/default_printer_presets.yaml"
YES, NO = ("y", "yes"), ("n", "no")

# what lies in the working directory: {path: content}
DIRS = {
    "none": {"readme.txt": "hello", "x.gco": GCODE["a"], "sub/hidden.gcode": GCODE["b"]},
    "one": {"part.v1.gcode": GCODE["a"], "notes.txt": "n", "sub/in.gcode": GCODE["b"], "my presets.yaml": "P"},
    "shop": {"part.gcode": GCODE["b"], "sub/in.gcode": GCODE["a"], "shop.yaml": "Q", "single.yaml": "S", "default_printer_presets.yaml": "Q", "presets.yaml": "Q"},
    "decoys": {"part.v1.gcode": GCODE["a"], "my presets.yaml": "P", **{x: GCODE["c"] for x in ("part.v1.gcode.bak", "part.gcode~", "x.gcode.txt", "gcode", "xgcode", "a.bgcode", "a.gco", "a.nc", "a.g", "a.gcode.d/b.txt", "sub/in.gcode", "part.v1.gcode.zip", "part_gcode", "a.gcode-old")}},
    "two": {"p.gcode": GCODE["b"], "q.gcode": GCODE["c"], "my presets.yaml": "P", "sub/in.gcode": GCODE["a"]},
    "names": {
        **{x: GCODE["a"] for x in ("a.gco", "x.nc", "noext", "PART.GCODE", "my part (1).gcode", "K\u00e4se.txt", "a.b.c.gcode.tmp")},
        **{x: "P" for x in ("p.yml", "presets", "P.YAML", "p.v2.txt", "p\u00e4.json")},
    },
    "old": {
        "p.gcode": GCODE["c"],
        "my presets.yaml": "P",
        "sub/in.gcode": GCODE["a"],
        "out/keep.txt": "k",
        "out/p_summary.yaml": "old",
        "out/p.vtk": "old",
        "out/other.vtk": "x",
        "out/p_layer_metrics.csv": "old",
        "p.gcode.bak": GCODE["a"],
        "output_p/keep.txt": "k",
    },
}


def tree(root):
    return {str(p.relative_to(root)): (p.read_bytes() if p.is_file() else None) for p in sorted(root.rglob("*"))}


def call(argv, answers):
    """Runs the command line; returns (how it ended, prompts seen)."""
    import pyGCodeDecode.cli as cli

    prompts = []

    def ask(text=""):
        prompts.append(text)
        if len(prompts) > len(answers):
            raise EOFError("asked again after %s" % (answers,))
        return answers[len(prompts) - 1]

    keep = builtins.input, sys.argv
    builtins.input, sys.argv = ask, ["pygcd"] + argv
    A = prog.adapter()
    try:
        with A.quiet(), hush():
            cli._main()
        return "done", prompts
    except SystemExit:
        return "exit", prompts
    except EOFError as e:
        return "asked again: %s" % e, prompts
    except Exception as e:
        return "refused: %s %s" % (type(e).__name__, e), prompts
    finally:
        builtins.input, sys.argv = keep


def value(x, cwd, absolute):
    return str(cwd / x) if absolute else x


def explore(c, rec):
    A = prog.adapter()
    root = A.scratch() / "cli"
    shutil.rmtree(root, ignore_errors=True)
    cwd = root / "here"
    cwd.mkdir(parents=True)
    (root / "beside.gcode").write_text(GCODE["a"])
    for name, text in DIRS[c["dir"]].items():
        p = cwd / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(A.yaml_text(FILES[text]) if text in FILES else text)
    # ---- what should happen
    here = [x for x in DIRS[c["dir"]] if "/" not in x and x.endswith(".gcode")]
    if c["g"] in (None, "noval"):
        g = cwd / here[0] if len(here) == 1 else None
    else:
        g = cwd / c["g"]
        if not g.is_file():
            g = None
    pf = pathlib.Path(A.REPO) / DEFAULT if c["p"] is None else cwd / c["p"]
    pn = c["pn"] or "anisoprint_a4"
    ok = g is not None and pf.is_file() and pn in yaml.safe_load(pf.read_text())
    out = None
    asked = 0
    if g is not None:
        if c["o"] is not None:
            out = cwd / c["o"]
        else:
            low = [a.lower() for a in c["answers"]]
            asked = next((i for i, a in enumerate(low) if a in YES + NO), None)
            require(asked is not None, "case without a decision")
            out = cwd / f"output_{g.stem}" if low[asked] in YES else None
            asked += 1
    before = tree(root)
    # ---- the call
    argv = ["plot"]
    long = c["long"]
    if c["g"] is not None:
        argv.append("--gcode" if long else "-g")
        if c["g"] != "noval":
            argv.append(value(c["g"], cwd, c["abs"]))
    for key, short, name in (("p", "-p", "--presets"), ("o", "-o", "--out_dir")):
        if c[key] is not None:
            argv += [name if long else short, value(c[key], cwd, c["abs"])]
    for key, short, name in (("pn", "-pn", "--printer_name"), ("lc", "-lc", "--layer_cue")):
        if c[key] is not None:
            argv += [name if long else short, c[key]]
    import pyvista as pv

    was, real = os.getcwd(), pv.Plotter
    os.chdir(cwd)
    try:
        if c.get("display"):
            View.made, pv.Plotter = [], View
            os.environ["DISPLAY"] = ":77"
        how, prompts = call(argv, c["answers"])
    finally:
        pv.Plotter = real
        os.environ.pop("DISPLAY", None)
        os.chdir(was)
    after = tree(root)
    rec.trace()
    rec.state(c["dir"], sorted(before))
    rec.state(c["dir"], sorted(after), how[:10])
    rec.step((c["dir"], sorted(before)), tuple(argv))
    rec.outcome(how[:10], len(prompts), sorted(after))
    what = "pygcd %s in %s" % (" ".join(argv).replace(str(cwd), "$PWD"), sorted(k for k in before if before[k] is not None))
    require(not how.startswith("asked"), "%s: %s", what, how)
    if g is None or c["o"] is not None:
        require(not prompts or g is None, "%s: asks although an output directory is given", what)
    elif ok:
        require(len(prompts) == asked, "%s: asked %d times for the answers %s", what, len(prompts), c["answers"])
    changed = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)}
    if not ok:
        require(how != "done", "%s: goes on without a unique G-code file, presets and printer", what)
        require(not changed, "%s: stops, but has written %s", what, sorted(changed))
        return
    require(how == "done", "%s: ends with %s", what, how)
    if c.get("display"):
        shown = [v for v in View.made for _ in range(v.shown)]
        shots = [os.path.realpath(cwd / x) for v in View.made for x in v.shots]
        require(len(shown) == 1, "%s: the path is shown %d times", what, len(shown))
        require(shots == ([os.path.realpath(out / f"{g.stem}.png")] if out is not None else []), "%s: screenshots %s", what, shots)
        with A.quiet(), hush():
            sim = A.gi.simulation(gcode_path=g, initial_machine_setup=A.gi.setup(presets_file=pf, printer=pn, layer_cue=c["lc"]))
            mesh = sim.plot_3d(extrusion_only=True)
        for v in View.made:
            for m, _ in v.meshes:
                require(m.n_points == mesh.n_points and np.array_equal(m.points, mesh.points), "%s: a view does not show the extruded path", what)
        require(all(v.meshes for v in shown), "%s: the view is empty", what)
        rec.compared(3)
    if out is None:
        require(not changed, "%s: writes %s although outputs are declined", what, sorted(changed))
        return
    o = pathlib.Path(os.path.normpath(out)).relative_to(root)
    want = {"summary": f"{g.stem}_summary.yaml", "mesh": f"{g.stem}.vtk"}
    if c["lc"] is not None:
        want["metrics"] = f"{g.stem}_layer_metrics.csv"
    may = {str(o / n) for n in want.values()} | {str(o / f"{g.stem}.png")} | {str(p) for p in [o, *o.parents]}
    require(changed <= may, "%s: also touches %s", what, sorted(changed - may))
    for n in want.values():
        require(after.get(str(o / n)) is not None, "%s: does not write %s", what, o / n)
    # ---- contents: what the library writes for these inputs
    from pyGCodeDecode.tools import save_layer_metrics

    lib = root / "lib"
    lib.mkdir()
    with A.quiet(), hush():
        s = A.gi.setup(presets_file=pf, printer=pn, layer_cue=c["lc"])
        sim = A.gi.simulation(gcode_path=g, initial_machine_setup=s)
        sim.save_summary(filepath=lib / "s.yaml")
        sim.plot_3d(extrusion_only=True, vtk_path=lib / "m.vtk")
        if c["lc"] is not None:
            save_layer_metrics(simulation=sim, filepath=lib / "l.csv", locale="en_US.utf8", delimiter=",")
    a, b = yaml.safe_load(after[str(o / want["summary"])]), yaml.safe_load((lib / "s.yaml").read_text())
    require(os.path.realpath(cwd / a.pop("filename")) == os.path.realpath(b.pop("filename")), "%s: the summary names another file", what)
    require(a == b, "%s: summary %s, the library reports %s", what, a, b)
    require(after[str(o / want["mesh"])] == (lib / "m.vtk").read_bytes(), "%s: the mesh differs from the mesh of the extruded path", what)
    if c["lc"] is not None:
        require(after[str(o / want["metrics"])] == (lib / "l.csv").read_bytes(), "%s: the layer metrics differ from those of the library", what)
    rec.compared(4)
    shutil.rmtree(root, ignore_errors=True)


def other(c, rec):
    """Calls which are not plot calls, or malformed ones, leave everything alone."""
    A = prog.adapter()
    root = A.scratch() / "cli2"
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir()
    (root / "p.gcode").write_text(GCODE["c"])
    before = tree(root)
    was = os.getcwd()
    os.chdir(root)
    try:
        import contextlib

        with open(os.devnull, "w") as n, contextlib.redirect_stderr(n):
            how, prompts = call(c["argv"], [])
    finally:
        os.chdir(was)
    rec.trace()
    rec.state(tuple(c["argv"]), how)
    rec.outcome(how)
    require(how == c["how"], "pygcd %s ends with %s", " ".join(c["argv"]), how)
    require(not prompts, "pygcd %s asks questions", c["argv"])
    require(tree(root) == before, "pygcd %s writes files", c["argv"])


def o(dir, g, p, pn, o, lc, answers, abs, long):
    # an own presets file goes with its own printers
    return dict(dir=dir, g=g, p=p, pn=pn, o=o, lc=lc, answers=answers, abs=abs, long=long)


DECIDED = [w + [d] for w in Words(["maybe", "", "ye"], 0, 2) for d in ("y", "Yes", "n", "NO")]
# answers that are nearly decisions, or decisions followed by others
NEAR = ["nope", "yess", "yep", "yeah", "no way", "nn", "yy", "0", "1", "true", "false", "j", "none", "not", "y n", "yes!", "q", "exit", "-", "on", "es", "yes no", "ok"]
DECIDED_NEAR = [[w, d] for w in NEAR for d in ("y", "n")] + [["n", "y"], ["y", "n"], ["yES", "no"], ["nO", "yes"], ["N"], ["YES"]]


def spaces(tier):
    deep = tier == "thorough"
    B = (False, True)
    D = [x for x in DIRS if x not in ("names", "shop")]
    G = (None, "noval", "sub/in.gcode", "p.gcode", "missing.gcode", "sub", "../beside.gcode")
    P = ((None, None), (None, "prusa_mini"), (None, "own"), ("my presets.yaml", "own"), ("my presets.yaml", None), ("gone.yaml", "own"), ("sub", "own"), (None, "prusa_mini_klipper"), ("my presets.yaml", "other"))
    O = ("out", "out/deep/er", "new", "../beside", ".")
    LC = (None, "LAYER", "NEXT", "absent", "")
    return [
        Space("inputs", "directory contents x G-code argument x presets and printer x output given, accepted or declined", Product(D, G, P, ("out", None), (None, "LAYER"), (["y"], ["n"]) if deep else (["y"],), B if deep else (False,), (False,), make=lambda d, g, p, *r: o(d, g, *p, *r)), explore, chunk=4),
        Space("declined", "directory contents x G-code argument x presets, declined", Product(D, G, P if deep else P[:6:2], (None,), (None, "LAYER"), (["n"],), (False,), (True,), make=lambda d, g, p, *r: o(d, g, *p, *r)), explore, chunk=4),
        Space("outputs", "output directories x cue x relative or absolute x spelling x contents", Product(("one", "old"), (None, "sub/in.gcode"), P if deep else P[:1] + P[3:4], O, LC, ([],), B, B, make=lambda d, g, p, *r: o(d, g, *p, *r)), explore, chunk=4),
        Space("answers", "all answer sequences of up to 2 undecided answers and a decision", Product(D, (None, "sub/in.gcode"), P[:1] if not deep else P[:4], (None,), (None, "LAYER") if deep else ("LAYER",), DECIDED, (False,), (True,), make=lambda d, g, p, *r: o(d, g, *p, *r)), explore, chunk=4),
        Space("names", "G-code and presets files with other, no, or unusual suffixes", Product(("names",), list(DIRS["names"])[:7] + [None], [(None, None)] + [(x, "own") for x in list(DIRS["names"])[7:]], ("out", None), (None, "LAYER"), (["y"],), B, (True,), make=lambda d, g, p, *r: o(d, g, *p, *r)), explore, chunk=4),
        Space("printers", "presets with printers called like the shipped ones or with a single one x printer given or not", Product(("shop",), (None, "sub/in.gcode"), [(f, n) for f in ("shop.yaml", "single.yaml", None) for n in (None, "own", "other", "anisoprint_a4", "prusa_mini", "Own")], ("out", None), ("LAYER",), (["y"],), B, B, make=lambda d, g, p, *r: o(d, g, *p, *r)), explore, chunk=4),
        Space("display", "calls with a display: what is shown and photographed", Product(("one", "old"), (None, "sub/in.gcode"), (P[0], P[3]), ("out", "../beside", None), (None, "LAYER"), (["y"], ["n"]), B, (False,), make=lambda d, g, p, *r: {**o(d, g, *p, *r), "display": True}), explore, chunk=4),
        Space("near answers", "answers that nearly are decisions, then a decision", Product(("one",), (None, "sub/in.gcode") if deep else (None,), P[:1], (None,), (None,), DECIDED_NEAR, (False,), (False,), make=lambda d, g, p, *r: o(d, g, *p, *r)), explore, chunk=4),
        Space(
            "others",
            "calls without a subcommand, for the version or the help, and malformed ones",
            [dict(argv=a, how=h) for a, h in (([], "done"), (["-v"], "exit"), (["--version"], "exit"), (["-h"], "exit"), (["plot", "-h"], "exit"), (["bogus"], "exit"), (["run_example"], "exit"), (["run_example", "bogus"], "exit"), (["plot", "--bogus"], "exit"), (["plot", "-o"], "exit"), (["plot", "-p"], "exit"), (["plot", "-pn"], "exit"), (["plot", "-lc"], "exit"), (["plot", "p.gcode"], "exit"))],
            other,
        ),
    ]
