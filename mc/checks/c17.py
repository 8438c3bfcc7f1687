"""C17: submodel entry and exit times are true crossing times."""

import contextlib
import itertools
import math

import yaml

from .. import prog
from ..core import Product, Skip, Space, require
from ..prog import close, n3

TITLE = "entry and exit times are exactly the crossing times of the box"
ASSUMPTIONS = [
    "paths that only touch the surface of the box, or run within it, are not compared (whether that is a crossing is not specified)",
    "a program without motion has no submodel times",
]
EPS = 1e-7


def clip(a, b, lo, hi):
    """Parameters (u0, u1) of the part of a -> b inside the closed box, or None."""
    u0, u1 = 0.0, 1.0
    for k in range(3):
        d = b[k] - a[k]
        if abs(d) < 1e-15:
            if a[k] < lo[k] or a[k] > hi[k]:
                return None
            continue
        s, e = (lo[k] - a[k]) / d, (hi[k] - a[k]) / d
        if s > e:
            s, e = e, s
        u0, u1 = max(u0, s), min(u1, e)
        if u0 > u1:
            return None
    return u0, u1


def time_at(segs, dist):
    """Time at which the pieces of a move have covered a distance."""
    for s in segs:
        va, vb, dt = n3(s.v0), n3(s.v1), s.t1 - s.t0
        d = (va + vb) / 2 * dt
        if dist <= d or s is segs[-1]:
            dist = min(dist, d)
            if dt <= 0 or d <= 0:
                return s.t0
            a = (vb - va) / dt
            disc = math.sqrt(max(0.0, va * va + 2 * a * dist))
            return s.t0 + (2 * dist / (va + disc) if va + disc > 0 else 0.0)
        dist -= d


def reference(r, lo, hi):
    """Crossing times; Skip when a path only touches the box."""
    spans = []  # [t_begin, t_end] inside, to be merged

    def near_plane(p, k):
        return min(abs(p[k] - lo[k]), abs(p[k] - hi[k])) < EPS

    def near_miss(a, b):
        """Some shrunken or grown box gives another answer."""
        x = clip(a, b, [l - EPS for l in lo], [h + EPS for h in hi])
        y = clip(a, b, [l + EPS for l in lo], [h - EPS for h in hi])
        return (x is None) != (y is None)

    first_in = None
    for it, segs in r.pairs():
        if it.kind != "move" or it.eonly:
            continue
        a, b = it.A[:3], it.B[:3]
        if first_in is None:
            first_in = a
        if near_miss(a, b):
            # a vertex on the surface is fine as long as the path goes on through it (checked by merging below)
            onA = any(near_plane(a, k) for k in range(3))
            onB = any(near_plane(b, k) for k in range(3))
            mid = clip(a, b, lo, hi)
            if not (onA or onB) or any(abs(a[k] - b[k]) < EPS and near_plane(a, k) for k in range(3)):
                raise Skip()
            if mid is not None and (mid[1] - mid[0]) * it.d > 10 * EPS:
                raise Skip()
        c = clip(a, b, lo, hi)
        if c is None:
            continue
        if any(abs(a[k] - b[k]) < EPS and near_plane(a, k) for k in range(3)):
            raise Skip()  # runs within a face
        t0 = segs[0].t0 if c[0] <= 0 else time_at(segs, c[0] * it.d)
        t1 = segs[-1].t1 if c[1] >= 1 else time_at(segs, c[1] * it.d)
        spans.append([t0, t1, it.line, c[0] <= 0, c[1] >= 1])
    merged = []
    for s in spans:
        # the machine stays where it is between moves (dwells, filament moves)
        if merged and merged[-1][4] and s[3]:
            merged[-1][1], merged[-1][4] = s[1], s[4]
        else:
            merged.append(list(s))
    pos0 = tuple(r.c["init"])[:3]
    end = r.obs[-1]["pos"][:3]
    tin, tout = [], []
    inside = lambda p, e=0.0: all(lo[k] - e <= p[k] <= hi[k] + e for k in range(3))
    if inside(pos0, EPS) != inside(pos0, -EPS) or inside(end, EPS) != inside(end, -EPS):
        raise Skip()  # starts or ends on the surface
    for i, s in enumerate(merged):
        if s[1] - s[0] < 1e-7:
            raise Skip()  # touches only
        if not (i == 0 and inside(pos0)):
            tin.append(s[0])
        if not (i == len(merged) - 1 and inside(end)):
            tout.append(s[1])
    return tin, tout


def explore(c, rec):
    from pyGCodeDecode.tools import write_submodel_times

    A = prog.adapter()
    r = prog.Run(c, rec, plan=False)
    if not r.segs:
        raise Skip()
    o, side = c["box"]
    lo = [o[k] - side[k] / 2 for k in range(3)]
    hi = [o[k] + side[k] / 2 for k in range(3)]
    tin, tout = reference(r, lo, hi)
    before = [s.row() for s in r.segs]
    extra = c.get("extra") or {}
    f = A.scratch() / "sub.yaml" if c.get("file", True) else None
    if f is not None and len(c["lines"]) % 2:
        prog.leftover(f)
    if c.get("nameless"):
        f = A.scratch() / "submodel_times.yaml"
    kw = {} if c.get("nameless") else {"filename": f}
    with A.quiet(), contextlib.chdir(A.scratch() if c.get("nameless") else "."):
        res = write_submodel_times(r.sim, list(o) if not c.get("tup") else tuple(o), *side, **kw, **extra)
    require(set(res) == {"time_process", "n_filaments", "time_in", "time_out"} | set(extra), "the result has the entries %s", sorted(res))
    for name, want in (("time_in", tin), ("time_out", tout)):
        got = [float(x) for x in res[name]]
        require(
            len(got) == len(want) and all(abs(x - y) <= 1e-6 * (1 + abs(y)) for x, y in zip(got, want)),
            "%s is %s, the path crosses at %s",
            name, got, want,
        )
        require(all(x <= y for x, y in zip(got, got[1:])), "%s is not in order: %s", name, got)
        for t in got:
            _, p = r.sim.get_values(min(max(t, 0.0), r.t_end()))
            out = max(max(lo[k] - p[k], p[k] - hi[k]) for k in range(3))
            require(abs(out) <= 1e-5, "at the reported time %r the head is at %s, not on the surface of %s..%s", t, p[:3], lo, hi)
    require(close(float(res["time_process"]), r.t_end(), 1e-9), "process time %r, should be %r", res["time_process"], r.t_end())
    require(res["n_filaments"] == len(tin), "%r filaments for %d entries", res["n_filaments"], len(tin))
    for k, v in extra.items():
        require(res[k] == v, "extra %s is %r", k, res[k])
    if f is not None:
        d = yaml.safe_load(f.read_text())
        require(set(d) == set(res), "the file has the entries %s", sorted(d))
        for k in d:
            if k in ("time_in", "time_out"):
                require(list(d[k]) == list(res[k]), "the file has %s %s, the result %s", k, d[k], res[k])
            else:
                require(d[k] == res[k], "the file has %s %r, the result %r", k, d[k], res[k])
        f.unlink()
    require([s.row() for s in A.segs(r.sim)] == before, "computing the times changed the simulation")
    rec.compared(2 + len(tin) + len(tout))
    rec.outcome([round(t, 9) for t in tin], [round(t, 9) for t in tout])


PATHS = {
    "line": [prog.g1(X=20, F=3000)],
    "line3d": [prog.g1(X=20, Y=7, Z=3, E=1, F=6000)],
    "there and back": [prog.g1(X=20, F=3000), prog.g1(X=-20, E=0.5)],
    "zigzag": [prog.g1(X=20, E=0.5, F=3000), prog.g1(Y=0.7), prog.g1(X=-20, E=0.5), prog.g1(Y=0.7), prog.g1(X=20, E=0.5), prog.op("G4", P=100), prog.g1(Y=0.7), prog.g1(X=-20)],
    "square": [prog.g1(X=10, F=2400), prog.g1(Y=10, E=1), prog.g1(X=-10, E=1), prog.g1(Y=-10, E=1), prog.g1(Z=0.4), prog.g1(X=10, E=1), prog.g1(Y=10, E=1)],
    "short": [prog.g1(X=0.9, Y=0.05 * (i % 3), E=0.01, F=6000) for i in range(22)],
    "retract inside": [prog.g1(X=10, F=3000), prog.g1(E=-1), prog.op("G4", P=200), prog.g1(E=1), prog.g1(Y=5), prog.g1(X=15)],
}


def sweep(path, ox, sx, oy, sy, fw, z):
    return prog.case(prog.REL + PATHS[path], fw=fw, init=(-1.0, -0.25, 0.1, 0.0), box=[[ox, oy, z], [sx, sy, 2.0]])


def grazing(dd, gap, fw, axis):
    """Up to a gap before the upper face, across it by little, along it, and back."""
    ax = "XYZ"[axis]
    al = "YZX"[axis]
    across, along = dd
    L = [prog.g1(**{ax: 2.5 + gap, "F": 3000}), prog.g1(**{ax: abs(across) + abs(gap), al: along}), prog.g1(**{al: 0.3, "E": 0.1}), prog.g1(**{ax: -abs(across) - abs(gap), al: -along / 3}), prog.g1(**{ax: -1})]
    return prog.case(prog.REL + L, fw=fw, init=(0.0, 0.0, 0.0, 0.0), box=[[0.0, 0.0, 0.0], [5.0 if k == axis else 200.0 for k in range(3)]])


def many(n, fw, dy):
    """A path going through the box again and again."""
    L = []
    for i in range(n):
        L += [prog.g1(X=20.0 * (-1) ** i, E=0.5, **({"F": 6000} if i == 0 else {})), prog.g1(Y=0.01 * dy)]
    return prog.case(prog.REL + L, fw=fw, init=(-10.0, -1.0, 0.1, 0.0), box=[[0.3, 0.0, 0.0], [3.0, 50.0, 4.0]])


OPS = [prog.g1(X=4), prog.g1(X=-4), prog.g1(Y=4), prog.g1(Y=-4), prog.g1(X=7, Y=5, E=0.2), prog.g1(X=-7, Y=-6), prog.g1(Z=3), prog.g1(Z=-3), prog.g1(E=-0.8), prog.op("G4", P=100)]
LATTICE = (-1.43, -0.94, -0.27, 0.92, 1.51)  # along an axis, in half sides of the box


def pair(a, b, box, fw):
    """One move between two points of a lattice around a box."""
    c, side = box
    p, q = ([round(c[i] + u[i] * side[i] / 2, 6) for i in range(3)] for u in (a, b))
    return {**prog.case([prog.g1(X=q[0], Y=q[1], Z=q[2], F=1800)], fw=fw, init=(*p, 0.0)), "box": box}


BOXES = [
    [[1.0, 1.0, 0.3], [5.0, 4.0, 3.0]],
    [[3.0, 0.0, 0.0], [2.0, 20.0, 20.0]],
    [[100.0, 0.0, 0.0], [5.0, 5.0, 5.0]],
    [[0.0, 0.0, 0.0], [500.0, 500.0, 500.0]],
    [[2.0, 2.0, 1.5], [0.5, 50.0, 1.0]],
    [[-3.0, 3.0, 0.0], [5.0, 5.0, 1.5]],
]


def spaces(tier):
    deep = tier == "thorough"
    xs = [round(-1.63 + 0.47 * i, 3) for i in range(50)] if deep else [round(-1.63 + 1.31 * i, 3) for i in range(18)]
    return [
        Space("sweep", "7 paths x box positions and sizes x firmware", Product(PATHS, xs, (0.31, 3.3, 14.9) if deep else (0.31, 6.7), (-0.2, 0.33, 5.1), (1.1, 8.3), prog.FWS if deep else ("marlin_jd", "marlin_jerk"), (0.2,) if not deep else (0.2, 3.05), make=sweep), explore),
        Space("pairs", "all moves between the %d points of a lattice around a box" % (len(LATTICE) ** 3), Product(list(itertools.product(LATTICE, repeat=3)), list(itertools.product(LATTICE, repeat=3)), ([[1.03, -0.47, 2.11], [4.1, 6.3, 2.9]],) + (([[-7.0, 11.0, 0.5], [20.0, 0.3, 1.0]],) if deep else ()), ("marlin_jd",), make=pair), explore),
        Space("words", "all programs of 1..%d operations over 10 x 6 boxes" % (4 if deep else 3), Product(prog.words(OPS, 1, 4 if deep else 3, fws=("marlin_jd",), inits=((-1.3, -1.7, 0.1, 0.0),)), BOXES if deep else BOXES[:1] + BOXES[4:], make=lambda c, b: {**c, "box": b}), explore),
        Space("start", "all programs of 1..2 operations x boxes x start points inside and outside", Product(prog.words(OPS, 1, 2, fws=("klipper",), inits=((0.1, 0.2, 0.3, 0.0), (3.0, 3.1, 1.2, 0.0), (-9.0, 0.0, 0.0, 0.0))), BOXES, make=lambda c, b: {**c, "box": b}), explore),
        Space("grazing", "paths that end or turn within micrometres of a face, or come slowly out of it", Product([[d * s for d in dd] for s in (1.0, -1.0) for dd in ((1e-6, 3.0), (4e-6, 3.0), (2e-5, -7.0), (5e-4, 2.0), (0.004, 0.5), (0.004, 30.0))], (-1e-3, -2e-4, -3e-6), prog.FWS if deep else ("marlin_jd",), (0, 1, 2), make=grazing), explore),
        Space("many", "up to %d crossings" % (1500 if deep else 300), Product((7, 50, 52, 120, 150) + ((750,) if deep else ()), ("marlin_jd", "marlin_jerk"), (0.0, 1.0), make=many), explore, chunk=1),
        Space("output", "extra information, file or none", Product(("zigzag", "line", "square"), (0.7, 40.0), ({}, {"layer_height": 0.2, "name": "x"}, {"note": [1, 2, {"a": "b"}]}), (True, False), (True, False), make=lambda p, x, e, f, t: {**sweep(p, x, 5.0, 0.33, 3.0, "marlin_jd", 0.2), "extra": e, "file": f, "tup": t}), explore),
        Space("nameless", "written where no name is given", Product(("zigzag", "line", "there and back"), (0.7, 40.0), (0.33, 5.0), ({}, {"layer_height": 0.2}), make=lambda p, x, y, e: {**sweep(p, x, 5.0, y, 3.0, "marlin_jd", 0.2), "extra": e, "nameless": True}), explore),
        Space("deviations", "base programs with one operation inserted anywhere x 2 boxes", Product(prog.deviations(alphabet=OPS if deep else OPS[4:9:2], fws=("marlin_jd", "MKA") if deep else ("marlin_jd",), inits=((1.5, -2.0, 0.3, 7.0),)), ([[10.2, 0.0, 0.5], [7.1, 5.3, 4.0]], [[3.03, -1.0, 0.0], [2.57, 3.3, 9.0]]), make=lambda c, b: {**c, "box": b}), explore),
    ]
