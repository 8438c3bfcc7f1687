"""C18: timing depends on geometry, not on how it is written."""

import bisect
import math

from .. import prog, refplan
from ..core import Product, Rec, Skip, Space, require
from ..prog import FWS, close, g1, op

TITLE = "transformed and rewritten programs give the transformed trajectory"
ASSUMPTIONS = [
    "numerically straight continuations at zero jerk are not compared (rounding decides whether they are a change of velocity)",
    "splitting is compared for non-zero jerk and parts longer than the positional resolution",
]


class Traj:
    """Plain function of time of a list of pieces."""

    def __init__(self, segs):
        self.s = [s for s in segs if s.t1 > s.t0]
        self.t = [s.t0 for s in self.s]
        self.end = segs[-1].t1 if segs else 0.0

    def at(self, t):
        s = self.s[max(0, bisect.bisect_right(self.t, t) - 1)]
        u = min(max(t - s.t0, 0.0), s.t1 - s.t0)
        q = u / (s.t1 - s.t0)
        v = [a + (b - a) * q for a, b in zip(s.v0, s.v1)]
        return [p + (a + b) / 2 * u for p, a, b in zip(s.p0, s.v0, v)], v


def compare(what, a, b, fp=lambda p: p, fv=None, tol=2e-6):
    fv = fv or fp
    require(close(a.end, b.end, tol), "%s: total time %r becomes %r", what, a.end, b.end)
    for s in a.s:
        d = s.t1 - s.t0
        if d < 1e-5:
            continue
        for q in (0.0, 0.31, 0.5, 0.83):
            t = s.t0 + q * d
            pa, va = a.at(t)
            pb, vb = b.at(t)
            want = fp(pa)
            scale = max(map(abs, fv(va))) * 5e-6
            require(all(abs(x - y) <= tol * (1 + max(abs(x), abs(y))) + scale for x, y in zip(want, pb)), "%s: at %r the position is %s, should be %s", what, t, pb, want)
            if 0 < q and d > 1e-4:
                wv = fv(va)
                require(all(abs(x - y) <= 1e-3 + 1e-4 * max(map(abs, wv)) for x, y in zip(wv, vb)), "%s: at %r the velocity is %s, should be %s", what, t, vb, wv)


def mapmoves(lines, fn, fF=lambda v: v, other=None):
    """Transform the axis words of moves."""
    out = []
    for w, k in lines:
        nw = {}
        for word, args in w.items():
            if word in ("G0", "G1"):
                na = {}
                for p, v in args.items():
                    if p == "F":
                        na["F"] = fF(v)
                    else:
                        p2, v2 = fn(p, v)
                        na[p2] = v2
                nw[word] = na
            elif other is not None and word in other:
                nw[word] = {p: other[word] * v for p, v in args.items()}
            else:
                nw[word] = dict(args)
        out.append([nw, k])
    return out


SHIFT = {"X": 37.25, "Y": -110.5, "Z": 3.75, "E": 512.125}
PERM = [("Y", "X", "Z"), ("Z", "Y", "X"), ("Y", "Z", "X")]


def rezero(lines, init, every, value):
    """Absolute coordinates with set-position commands after every n-th move."""
    off = dict.fromkeys("XYZE", 0.0)  # logical = physical - off
    pos = dict(zip("XYZE", init))
    out, n = [], 0
    for w, k in lines:
        nw = {}
        moved = False
        for word, args in w.items():
            if word in ("G0", "G1"):
                na = {}
                for p, v in args.items():
                    if p in pos:
                        pos[p] = v
                        na[p] = round(v - off[p], 9)
                        moved = True
                    else:
                        na[p] = v
                nw[word] = na
            else:
                nw[word] = dict(args)
        out.append([nw, k])
        if moved:
            n += 1
            if n % every == 0:
                z = {p: value for p in ("XYZE", "E", "XY")[n % 3]}
                for p in z:
                    off[p] = pos[p] - value
                out.append([{"G92": z}, None])
    return out


NOISE = [[{}, "comment"], [{}, None], [{"M104": {"S": 210.0}}, None], [{}, "G1 X50 F1 G4 P900"], [{"G28": {}}, "home"], [{"T0": {}}, None], [{"G21": {}}, None]]


def noise(lines, k=0):
    out = []
    for i, (w, c) in enumerate(lines):
        out.append(NOISE[(i + k) % len(NOISE)])
        out.append([dict(w), c if c is not None else "X1 Y1"])
    return out + [NOISE[k % len(NOISE)]]


def inches(lines, style):
    I = 25.4
    conv = lambda L: mapmoves(L, lambda p, v: (p, v / I), lambda v: v / I, {"M204": 1 / I, "M205": 1 / I, "G92": 1 / I, "M203": 1 / I})
    if style == "all":
        return [[{"G20": {}}, None]] + conv(lines)
    out = []
    for i, ln in enumerate(lines):
        if i % 2:
            out += [[{"G20": {}}, None]] + conv([ln]) + [[{"G21": {}}, None]]
        else:
            out.append(ln)
    return out


def split(lines, init, parts):
    """Absolute moves cut into collinear parts."""
    pos = dict(zip("XYZE", init))
    out = []
    for w, k in lines:
        if len(w) == 1 and "G1" in w and any(p in w["G1"] for p in "XYZ"):
            a = w["G1"]
            new = dict(pos, **{p: a[p] for p in a if p in pos})
            d3 = math.dist([pos[p] for p in "XYZ"], [new[p] for p in "XYZ"])
            if d3 > 0.25:
                for q in parts:
                    na = {p: pos[p] + q * (new[p] - pos[p]) for p in a if p in pos}
                    if "F" in a and q == parts[0]:
                        na["F"] = a["F"]
                    out.append([{"G1": {p: round(v, 9) for p, v in na.items()}}, k])
                a = {p: v for p, v in a.items() if p != "F"}
                out.append([{"G1": a}, k])
                pos = new
                continue
            pos = new
        else:
            for args in w.values():
                for p, v in args.items():
                    if p in pos and ("G1" in w or "G0" in w):
                        pos[p] = v
        out.append([w, k])
    return out


def explore(c, rec):
    A = prog.adapter()
    init = tuple(c["init"])
    rel = c["lines"]
    lines = prog.to_abs(rel, init)
    base = prog.case(lines, fw=c["fw"], cfg=c["cfg"], init=init)
    obs = prog.observe(base)
    prog.record(rec, base, obs)
    items = refplan.items_of(obs)
    if prog.ambiguous(items, c["fw"]):
        raise Skip()

    def sim(lines, cfg=None, init=init):
        s = A.simulate(prog.text_of({"lines": lines}), setup=A.make_setup(firmware=c["fw"], initial=tuple(init), **{**c["cfg"], **(cfg or {})}))
        rec.trace()
        return Traj(A.segs(s))

    a = sim(lines)
    if not a.s:
        raise Skip()
    todo = c["do"]
    cfg = {**A.BASE, **c["cfg"]}
    for w in todo:
        rec.step((c["fw"], len(lines)), w)
        rec.compared(len(a.s))
        if w == "rel":
            compare("relative coordinates", a, sim(rel))
        elif w == "translate":
            f = lambda p: [x + SHIFT[k] for x, k in zip(p, "XYZE")]
            b = sim(mapmoves(lines, lambda p, v: (p, round(v + SHIFT[p], 6))), init=f(init))
            compare("translated", a, b, f, lambda v: v)
        elif w.startswith("mirror"):
            k = "XYZ".index(w[-1])
            f = lambda p: [-x if i == k else x for i, x in enumerate(p)]
            compare("mirrored " + w[-1], a, sim(mapmoves(lines, lambda p, v: (p, -v if p == w[-1] else v)), init=f(init)), f)
        elif w.startswith("perm"):
            pm = PERM[int(w[-1])]  # axis i goes to axis pm[i]
            to = dict(zip("XYZ", pm), E="E")

            def f(p):
                q = dict(zip((to[k] for k in "XYZE"), p))
                return [q[k] for k in "XYZE"]

            compare("axes exchanged %s" % (pm,), a, sim(mapmoves(lines, lambda p, v: (to[p], v)), init=f(init)), f)
        elif w.startswith("scale"):
            k = float(w[5:])
            f = lambda p: [k * x for x in p]
            b = sim(mapmoves(lines, lambda p, v: (p, k * v), lambda v: k * v, {"M204": k, "M205": k, "M203": k}), cfg={x: k * cfg[x] for x in ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE")}, init=f(init))
            compare("scaled by %r" % k, a, b, f)
        elif w.startswith("rezero"):
            e, v = w[6:].split("@")
            compare("re-zeroed coordinates", a, sim(rezero(lines, init, int(e), float(v))))
        elif w.startswith("noise"):
            compare("with comments, blank lines and unsupported commands", a, sim(noise(lines, int(w[5:]))))
        elif w.startswith("inch"):
            compare("in inches (%s)" % w[4:], a, sim(inches(lines, w[4:])))
        elif w.startswith("split"):
            if c["fw"] in ("marlin_jd", "marlin_jerk", "MKA") and all(i.kind == "dwell" or i.jerk > 0.5 for i in items):
                parts = [float(x) for x in w[5:].split(",")]
                compare("split at %s" % parts, a, sim(split(lines, init, parts)), tol=1e-5)
    rec.outcome(round(a.end, 6))


ALL = ["rel", "translate", "mirrorX", "mirrorZ", "perm0", "perm2", "scale10", "scale0.37", "rezero1@0", "noise0", "inchall", "inchmixed", "split0.5"]
DEEP = ALL + ["mirrorY", "perm1", "scale25.4", "rezero2@12.5", "rezero1@-3.25", "noise3", "split0.2,0.45,0.9", "split0.999"]
OPS = [
    g1(X=10, F=4567),
    g1(Y=10, E=0.4),
    g1(X=-9, Y=1),
    g1(X=0.7, E=0.05),
    g1(X=3, Y=2, Z=0.4, E=0.5, F=1009),
    g1(E=-0.8),
    g1(Z=-0.6),
    op("G4", P=250),
    op("M204", P=300),
    op("M205", X=3),
]


def spaces(tier):
    deep = tier == "thorough"
    do = DEEP if deep else ALL
    mk = lambda c, d: {**c, "do": d}
    quick2 = ["mirrorX", "perm0", "scale10", "rezero1@0", "inchmixed", "split0.5"]
    I = ((1.5, -2.25, 0.3, 7.125),)
    return [
        Space("words", "all programs of 1..%d operations over 10 x %d transformations" % (3 if deep else 2, len(do)), Product(prog.words(OPS, 1, 3 if deep else 2, inits=I), (do,), make=mk), explore),
        Space("moves", "all programs of %d moves over 6 x 6 transformations" % (4 if deep else 3), Product(prog.words(OPS[:6], 4 if deep else 3, 4 if deep else 3, fws=FWS if deep else FWS[1:], inits=I), (do if deep else quick2,), make=mk), explore),
        Space("deviations", "base programs with one operation inserted anywhere x transformations", Product(prog.deviations(alphabet=OPS if deep else OPS[5:6], fws=FWS if deep else ("MKA", "marlin_jd")), (do if deep else ALL[1:9:2] + ALL[9:],), make=mk), explore),
    ]
