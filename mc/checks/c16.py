"""C16: extent, maximum speed and summary match the trajectory."""

import contextlib
import io
import os
import re
import time

import yaml

from .. import prog
from ..core import Product, Space, require
from ..prog import close, n3

TITLE = "extent and maximum speed of extruding moves, and the summary file"
ASSUMPTIONS = ["a move advances filament when its commanded E increases"]
FACT = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def printed(r):
    """The summary on the console."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r.sim.print_summary(time.time())
    t = out.getvalue()
    nums = re.findall(r"(?<![\w./-])\d+(?:\.\d+)?(?![\w/-]|\.\d)", t.replace(str(r.sim.filename), "FILE"))
    require("FILE" in t.replace(str(r.sim.filename), "FILE"), "the printed summary does not name the file: %r", t)
    for what, n in (("states", str(len(r.obs))), ("planner blocks", str(len(r.blocks)))):
        require(n in nums, "the printed summary should tell %s %s: %r", n, what, t)
    t_end = r.t_end()
    require(any("." in x and len(x.split(".")[1]) == 2 and abs(float(x) - t_end) < 0.00501 for x in nums), "the printed summary should tell the end time %.4f s: %r", t_end, t)


def explore(c, rec):
    A = prog.adapter()
    r = prog.Run(c, rec, plan=False, units=c["unit"])
    before = [s.row() for s in r.segs]
    printed(r)
    k = FACT[c["unit"]]
    ext = [(it, segs) for it, segs in r.pairs() if it.kind == "move" and it.B[3] - it.A[3] > 0]
    f = A.scratch() / "sum" / c["path"]
    if len(c["lines"]) % 2:
        prog.leftover(f)
    else:
        f.unlink(missing_ok=True)
    if not ext:
        with A.quiet():
            require(refused(r.sim.extrusion_extent), "an extent is reported although nothing is extruded: %s", None)
        rec.outcome("refused")
        return
    lo = [min(min(it.A[a], it.B[a]) for it, _ in ext) for a in range(3)]
    hi = [max(max(it.A[a], it.B[a]) for it, _ in ext) for a in range(3)]
    vmax = max(max(n3(s.v0), n3(s.v1)) for _, segs in ext for s in segs)
    with A.quiet():
        e = r.sim.extrusion_extent()
        v = float(r.sim.extrusion_max_vel())
        r.sim.save_summary(str(f) if c["as_str"] else f)
    for a in range(3):
        require(close(float(e[0][a]), k * lo[a], 1e-8), "extent starts at %s, should be %s x %s", e[0], k, lo)
        require(close(float(e[1][a]), k * hi[a], 1e-8), "extent ends at %s, should be %s x %s", e[1], k, hi)
    require(close(v, k * vmax, 1e-7), "maximum extrusion speed %r, should be %r", v, k * vmax)
    d = yaml.safe_load(f.read_text())
    want = {"filename": str(r.sim.filename), "t_end": r.t_end(), "max_extrusion_travel_velocity": k * vmax}
    for a, ax in enumerate("xyz"):
        want[ax + "_min"], want[ax + "_max"] = k * lo[a], k * hi[a]
    require(set(d) == set(want), "the summary has the entries %s, should have %s", sorted(d), sorted(want))
    for key, w in want.items():
        ok = d[key] == w if isinstance(w, str) else close(float(d[key]), w, 1e-7)
        require(ok, "summary: %s is %r, should be %r", key, d[key], w)
    require(d["filename"].endswith("prog.gcode"), "summary names the file %r", d["filename"])
    require([s.row() for s in A.segs(r.sim)] == before, "reporting changed the simulation")
    rec.compared(16)
    rec.outcome([round(x, 9) for x in lo + hi + [vmax]])
    f.unlink()


NAMES = ("a b", "T\u00fcr \u00b10,1", "\u2300\U0001f388", "a: b #1", "'q\"", "back\\slash", "tab\tnew", "%s {x}", "[1, 2]", "1e5", "null", "2024-01-01", "-x", "x.tar", "latin\udce9", "n" * 120, "~", "w" * 40 + " " + "v" * 60)


def explore_names(c, rec):
    """The summary names the file which was simulated, whatever it is called."""
    A = prog.adapter()
    d = A.scratch() / ("names" if not c["odd"] else "n \u00fc: #")
    d.mkdir(exist_ok=True)
    p = d / (c["name"] + c["suffix"])
    p.write_text("G1 X10 E1 F3000\n")
    old = os.getcwd()
    out = io.StringIO()
    try:
        os.chdir(d)
        given = p if c["form"] == "path" else str(p) if c["form"] == "str" else p.name
        with contextlib.redirect_stdout(out):
            sim = A.gi.simulation(given, initial_machine_setup=A.make_setup(firmware="marlin_jd"))
            f = d / "summary.yaml"
            sim.save_summary(f)
        got = yaml.safe_load(f.read_text(encoding="utf-8"))
    finally:
        os.chdir(old)
    require(set(got) == {"filename", "t_end", "x_min", "y_min", "z_min", "x_max", "y_max", "z_max", "max_extrusion_travel_velocity"}, "%r: the summary has the entries %s", str(given), sorted(got))
    require(got["filename"] == str(given), "the summary names %r, the file is %r", got["filename"], str(given))
    shown = str(given).encode("utf-8", "ignore").decode()
    require(shown in out.getvalue(), "%r is not named on the console: %r", shown, out.getvalue())
    f.unlink()
    p.unlink()
    rec.compared(2)
    rec.outcome(got["filename"])


OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-3, Y=2, F=6000),
    prog.g1(E=-0.8),
    prog.g1(E=0.8),
    prog.g1(Y=-40, Z=-1, E=-0.2),
    prog.g1(X=0.3, Y=0.1, E=0.02),
    prog.op("G4", P=250),
    [{"G1": {"Z": 0.2, "E": 0.05}, "G4": {"P": 50.0}}, None],
    prog.g1(X=-25, Z=3, E=0.01, F=9000),
    prog.op("G92", X=0, Y=0, Z=0, E=0),
    prog.op("M204", P=150),
]
INITS = ((1.5, -2.25, 0.3, 7.125), (0.0, 0.0, 0.0, 0.0), (-50.0, -60.0, -2.0, -3.0))


LITTLE = [prog.g1(X=dx, Y=dy, E=e) for dx, dy in ((10, 1), (-30, 5), (1e-6, 80)) for e in (1, 5e-5, 5e-7, -5e-7)] + [prog.g1(X=8e-4, Y=-6e-5, E=0.02), prog.g1(Z=7, E=1e-5, F=6000)]


def words(ops, lo, hi, fws, inits, opts):
    return Product(prog.words(ops, lo, hi, fws=fws, inits=inits), opts, make=lambda c, o: {**c, "unit": o[0], "path": o[1], "as_str": o[2]})


def spaces(tier):
    deep = tier == "thorough"
    O = (("SImm", "s.yaml", False), ("SI", "deep/er/s.yml", True), ("inch", "x/s.yaml", False))
    return [
        Space("words", "all programs of 1..%d operations over 11" % (4 if deep else 3), words(OPS, 1, 4 if deep else 3, ("marlin_jd",) if not deep else ("marlin_jd", "marlin_jerk"), INITS[2:], O[:2] if not deep else O), explore),
        Space("starts", "all programs of 1..%d operations x initial positions x units x firmwares" % (3 if deep else 2), words(OPS, 1, 3 if deep else 2, prog.FWS, INITS, O), explore),
        Space("names", "%d names of G-code files x ending x folder x way to name them" % len(NAMES), Product(NAMES, (".gcode", ".g", ""), (False, True), ("path", "str", "name"), make=lambda n, x, o, f: {"name": n, "suffix": x, "odd": o, "form": f}), explore_names),
        Space("little", "all programs of 1..%d moves that extrude from half a nanometre to 1 mm" % (3 if deep else 2), words(LITTLE, 1, 3 if deep else 2, ("marlin_jd",), INITS[:2], O[:1]), explore),
        Space("long", "up to %d moves, then one of several endings" % (24000 if deep else 10400), Product(prog.repeats([OPS[5:6], [prog.g1(X=0.4, E=0.02), prog.g1(X=-0.4, Y=0.01, E=0.02)]], (30, 999, 1300, 5200) + ((12000,) if deep else ()), [[], [prog.g1(X=400, E=3, F=9000)], [prog.g1(X=400)], [prog.g1(Y=-300, Z=12, E=1, F=30000)], [prog.op("G4", P=10), prog.g1(X=-777, E=2)]]), O[:1], make=lambda c, o: {**c, "unit": o[0], "path": o[1], "as_str": o[2]}), explore, chunk=1),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", Product(prog.extremes(dwells=(1.0, 4e4), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR)), O[:1] if not deep else O, make=lambda c, o: {**c, "unit": o[0], "path": o[1], "as_str": o[2]}), explore),
        Space("deviations", "base programs with one operation inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[1:9:3], fws=prog.FWS if deep else ("marlin_jerk",)), O[:1], make=lambda c, o: {**c, "unit": o[0], "path": o[1], "as_str": o[2]}), explore),
    ]
