"""C24: extrusion width conserves material."""

import math

from .. import prog
from ..core import Product, Skip, Space, require
from ..prog import close, n3
from .c09 import expected

TITLE = "width x height x speed equals filament cross-section x filament speed"
ASSUMPTIONS = ["heights and diameters positive; at the instants where the head's speed is zero the width is zero; below 2e-5 mm/s it counts as zero or not"]


def explore(c, rec):
    A = prog.adapter()
    r = prog.Run(c, rec, plan=False, units=c["unit"])
    if not r.segs:
        raise Skip()
    before = [s.row() for s in r.segs]
    ts = set()
    for s in r.segs:
        for q in c["at"]:
            ts.add(s.t0 + q * (s.t1 - s.t0))
        ts.add(s.t1)
    ts = sorted(ts)
    order = ts if c["order"] == "up" else ts[::-1] if c["order"] == "down" else ts[::2] + ts[1::2][::-1]
    got = {}
    for h, dia in c["hd"]:
        for t in order:
            w = float(r.sim.get_width(t, h, dia))
            v, p = expected(r.segs, t)
            f = n3(v)
            if f == 0.0:
                require(w == 0, "width %r at %r where the head does not move", w, t)
            elif f > 2e-5:
                area = math.pi * dia * dia / 4
                require(close(w / (area / h), v[3] / f, 1e-6), "at %r: width %r for the height %r, speeds %r and %r", t, w, h, f, v[3])
                require(close(w * h * f, area * v[3], 1e-6), "at %r: width %r x height %r x speed %r = %r, filament brings %r", t, w, h, f, w * h * f, area * v[3])
            got[h, dia, t] = w
            rec.compared()
            rec.outcome(round(w, 6))
    h0, d0 = c["hd"][0]
    for (h, dia, t), w in got.items():
        require(close(w, got[h0, d0, t] * (dia / d0) ** 2 * (h0 / h), 1e-9), "width %r for height %r and diameter %r, %r for %r and %r", w, h, dia, got[h0, d0, t], h0, d0)
    require([s.row() for s in A.segs(r.sim)] == before, "asking changed the simulation")
    v, p = r.sim.get_values(ts[len(ts) // 2], output_unit_system="SImm")
    ve, pe = expected(r.segs, ts[len(ts) // 2])
    require(all(close(x, y, 1e-7) for x, y in zip(tuple(v) + tuple(p), tuple(ve) + tuple(pe))), "asking changed the values at a time")


OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-4, Y=2, E=0.1),
    prog.g1(Y=4, Z=0.3),
    prog.g1(E=-0.8),
    prog.g1(E=0.8),
    prog.g1(X=3, E=-0.1),
    prog.op("G4", P=250),
    [{"G1": {"Z": 0.4, "E": 0.05}, "G4": {"P": 50.0}}, None],
    prog.g1(X=0.3, Y=0.1, E=0.05, F=9000),
]
SLOW = [prog.g1(X=0.0005, E=0.00002, F=0.03), prog.g1(X=0.01, Y=-0.02, E=0.001, F=0.6), prog.g1(Y=1, E=0.05, F=30), prog.g1(X=10, E=0.5, F=3000), prog.g1(E=-0.001, F=0.01), prog.g1(Z=0.0001, E=0.00001, F=0.001)]
HD = [(0.2, 1.75), (0.05, 1.75), (0.2, 2.85), (1, 1), (0.33, 0.4)]


def spaces(tier):
    deep = tier == "thorough"
    at = [0, 0.1, 0.25, 0.5, 0.9, 0.999] if deep else [0, 0.37, 0.5]
    o = lambda c, unit, order: {**c, "unit": unit, "order": order, "hd": HD, "at": at}
    return [
        Space("words", "all programs of 1..%d operations over 9 x all critical times x heights and diameters" % (4 if deep else 3), Product(prog.words(OPS, 1, 4 if deep else 3, fws=("marlin_jd",), inits=((1.5, -2.25, 0.3, 7.125),)), ("SImm",), ("up",), make=o), explore),
        Space("options", "programs of 1..2 operations x unit systems x order of the times x firmware", Product(prog.words(OPS, 1, 2, fws=prog.FWS), ("SI", "SImm", "inch"), ("up", "down", "mixed"), make=o), explore),
        Space("slow", "slow moves: all programs of 1..%d operations over 6 x start points" % (3 if deep else 2), Product(prog.words(SLOW, 1, 3 if deep else 2, fws=("marlin_jd",), cfgs=({"p_acc": 1}, {"p_acc": 1000}), inits=((0.0, 0.0, 0.0, 0.0), (1.5, -2.25, 0.3, 7.125))), ("SImm", "SI"), ("up",), make=lambda c, u, q: {**o(c, u, q), "hd": HD[:3], "at": [0, 1e-5, 1e-3, 0.37, 0.5]}), explore),
        Space("deviations", "base programs with one operation inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[2:8:3], fws=("marlin_jerk",), bases=("layers", "spiral") if not deep else ("layers", "spiral", "zigzag", "line")), ("inch",), ("mixed",), make=lambda c, u, q: {**o(c, u, q), "hd": HD[:1]}), explore),
    ]
