"""C14: the ABAQUS event series is the trajectory."""

import contextlib
import math

from .. import prog
from ..core import Product, Skip, Space, require
from ..prog import close

TITLE = "event rows are the ends of pieces, flags say where filament advances, file equals tuple"
ASSUMPTIONS = ["a trajectory without pieces has no event series"]
FACT = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}


def explore(c, rec):
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

    A = prog.adapter()
    r = prog.Run(c, rec, plan=False, units=c["sim_unit"])
    if not r.segs:
        raise Skip()
    before = [s.row() for s in r.segs]
    f = A.scratch() / "events" / (c["path"] or "wd/pyGcodeDecode_abaqus_events.inp")
    if len(c["lines"]) % 2:
        prog.leftover(f)
    else:
        f.unlink(missing_ok=True)
    kw = {}
    if c["unit"] is not None:
        kw["output_unit_system"] = c["unit"]
    if c["tol"] is not None:
        kw["tolerance"] = c["tol"]
    if c["path"]:
        kw["filepath"] = str(f) if c["as_str"] else f
    f.parent.mkdir(parents=True, exist_ok=True) if not c["path"] else None
    with A.quiet(), contextlib.chdir(f.parent if not c["path"] else "."):
        rows = generate_abaqus_event_series(r.sim, **kw)
    k = FACT[c["unit"] or c["sim_unit"]]
    tol = 1e-12 if c["tol"] is None else c["tol"]
    pts = [r.segs[0].p0] + [s.p1 for s in r.segs]
    ts = [0.0] + [s.t1 for s in r.segs]
    require(isinstance(rows, tuple), "the series is a %s", type(rows).__name__)
    require(len(rows) == len(pts), "%d rows for %d pieces", len(rows), len(r.segs))
    flags = []
    for i, row in enumerate(rows):
        require(len(row) == 5, "row %d is %s", i, row)
        require(close(float(row[0]), ts[i], 1e-9), "row %d is at time %r, should be %r", i, row[0], ts[i])
        for a in range(3):
            require(close(float(row[1 + a]), k * pts[i][a], 1e-9), "row %d: %s is %r, should be %r", i, "XYZ"[a], row[1 + a], k * pts[i][a])
        adv = pts[i + 1][3] - pts[i][3] if i + 1 < len(pts) else 0.0
        if abs(adv - tol) > 1e-12 or adv <= 0:
            want = 1 if i + 1 < len(pts) and adv > tol else 0
            require(row[4] == want, "row %d has flag %r, filament advances by %r until the next row", i, row[4], adv)
        flags.append(int(row[4]))
    text = f.read_text()
    lines = text.splitlines()
    require(len(lines) == len(rows), "the file has %d rows, the tuple %d", len(lines), len(rows))
    for i, (ln, row) in enumerate(zip(lines, rows)):
        x = ln.split(",")
        require(len(x) == 5, "line %d of the file is %r", i + 1, ln)
        require(float(x[0]) == float(row[0]), "line %d of the file: time %s, tuple %r", i + 1, x[0], row[0])
        for a in range(3):
            require(abs(float(x[1 + a]) - row[1 + a]) <= 0.5000001e-8, "line %d of the file: %s, tuple %r", i + 1, ln, row)
            digits = x[1 + a].split(".")[1] if "." in x[1 + a] and "e" not in x[1 + a] else ""
            require(len(digits) <= 8, "line %d of the file is not rounded to eight decimals: %s", i + 1, ln)
        require(float(x[4]) == row[4], "line %d of the file: flag %s, tuple %r", i + 1, x[4], row[4])
    require([s.row() for s in A.segs(r.sim)] == before, "exporting changed the simulation")
    # interpolation between rows of constant speed reproduces the path
    for i, s in enumerate(r.segs):
        if max(abs(a - b) for a, b in zip(s.v0, s.v1)) < 1e-9 and s.t1 - s.t0 > 1e-9:
            _, p = r.sim.get_values((s.t0 + s.t1) / 2, output_unit_system=c["unit"] or c["sim_unit"])
            for a in range(3):
                require(close((rows[i][1 + a] + rows[i + 1][1 + a]) / 2, p[a], 1e-7), "interpolating rows %d and %d gives %r, the path is at %r", i, i + 1, (rows[i][1 + a] + rows[i + 1][1 + a]) / 2, p[a])
    rec.compared(6 * len(rows))
    rec.outcome(flags, [round(t, 9) for t in ts])
    f.unlink()


OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-3, Y=2),
    prog.g1(E=-0.8),
    prog.g1(E=0.8),
    prog.g1(Y=4, E=-0.2),
    prog.g1(X=0.001, E=0.0005),
    prog.op("G4", P=250),
    [{"G1": {"Z": 0.2, "E": 0.05}, "G4": {"P": 50.0}}, None],
    prog.g1(Z=12.3456789012, E=0.3),
    prog.g1(Y=123456.789, E=1e-6, F=12000),
]


def words(ops, lo, hi, fws, opts):
    base = prog.words(ops, lo, hi, fws=fws, inits=((1.5, -2.25, 0.3, 7.125),))
    return Product(base, opts, make=lambda c, o: {**c, **o})


def opt(unit=None, sim_unit="SImm", tol=None, path="e.inp", as_str=False):
    return {"unit": unit, "sim_unit": sim_unit, "tol": tol, "path": path, "as_str": as_str}


NAMELESS = [opt(path=None), opt("SI", path=None, tol=1e-3)]
OPTS = [opt(), opt("SI", tol=0.01, as_str=True), opt("inch", "SI", 1e-3, "a/b/c.inp"), opt(None, "inch", 0.3), opt(tol=0.0)]
ALLOPTS = [opt(u, s, t, p, a) for u in (None, "SI", "SImm", "inch") for s in ("SI", "SImm", "inch") for t in (None, 0.0, 0.02, 0.4) for p, a in (("e.inp", False), ("n1/n2/e.txt", True))]


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("words", "all programs of 1..%d operations over 10 x option sets" % (4 if deep else 3), words(OPS, 1, 4 if deep else 3, ("marlin_jd",) if not deep else ("marlin_jd", "marlin_jerk"), OPTS), explore),
        Space("options", "all combinations of unit systems, tolerance and path x programs of 2 operations", words(OPS[:6], 2, 2, ("klipper", None), ALLOPTS), explore),
        Space("nameless", "all programs of 1..2 operations, written where no path is given", words(OPS[:6], 1, 2, ("marlin_jd",), NAMELESS), explore),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", Product(prog.extremes(lens=(0.001, 0.02, 1.0, 60.0), dwells=(1e-3, 1.0, 4e4), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR)), (OPTS[0], OPTS[2]), make=lambda c, o: {**c, **o}), explore),
        Space("endings", "all programs of 1..2 operations and a slow last one that ends at speed under classic jerk", Product(prog.words(OPS, 1, 2, fws=("marlin_jerk",), inits=((1.5, -2.25, 0.3, 7.125),)), (prog.g1(X=7, E=0.3, F=240), prog.g1(E=0.3, F=120), prog.g1(Y=-5, E=-0.1, F=240)), OPTS[:1], make=lambda c, e, o: {**c, "lines": c["lines"] + [e], **o}), explore),
        Space("long", "up to 1300 moves, then one of several endings", Product(prog.repeats([OPS[:2], OPS[5:6]], (600, 1300), [[], OPS[2:4], OPS[6:8]]), OPTS[:1], make=lambda c, o: {**c, **o}), explore, chunk=1),
        Space("deviations", "base programs with one operation inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[1:8:2], fws=prog.FWS if deep else ("MKA",)), OPTS[:1], make=lambda c, o: {**c, **o}), explore),
    ]
