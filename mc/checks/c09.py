"""C09: queries by time depend on the time only."""

import itertools
import math

from .. import prog
from ..core import Product, Space, Words, require
from ..prog import close

TITLE = "values at a time are those of the trajectory, whatever was asked before"
ASSUMPTIONS = [
    "a piece holds from its begin up to but excluding its end, the last piece includes its end",
    "times before the first piece of a list are not asked for",
]

PROGRAMS = {
    "corner": [prog.g1(X=10, F=3000), prog.g1(Y=6, E=0.3), prog.g1(X=-0.2, E=0.01)],
    "dwell": [prog.op("G4", P=120), prog.g1(X=4, Y=1), prog.op("G4", P=0), prog.op("G4", P=300), prog.g1(E=-0.8), prog.g1(X=-4)],
    "same": [prog.g1(X=8), prog.g1(X=8), [{"G1": {"Y": 2.0}, "G4": {"P": 40.0}}, None], [{"G4": {"P": 0.0}}, None]],
    "long": [prog.g1(X=1.5, Y=0.4 * (i % 3), E=0.05) for i in range(14)],
    "chain": [prog.g1(X=0.9 + 0.3 * (i % 4), Y=0.7 * (-1) ** i, E=0.05, F=1200 + 600 * (i % 3)) for i in range(130)],
    "retract": [prog.g1(E=-1), prog.g1(Z=0.4), prog.g1(X=30, F=9000), prog.g1(E=1), prog.g1(X=5, E=0.4, F=1200)],
}


def make(name, fw):
    lines = prog.REL + PROGRAMS[name]
    return prog.adapter().simulate("".join(prog.refvm.text(w, k) + "\n" for w, k in lines), firmware=fw, initial=(1.5, -2.0, 0.3, 7.0))


def expected(segs, t):
    s = segs[-1]
    if t != segs[-1].t1:
        for x in segs:
            if x.t0 <= t < x.t1:
                s = x
                break
        else:
            raise AssertionError("time %r is in no piece" % t)
    dt = s.t1 - s.t0
    q = (t - s.t0) / dt if dt > 0 else 0.0
    v = [a + (b - a) * q for a, b in zip(s.v0, s.v1)]
    p = [a + (x + y) / 2 * (t - s.t0) for a, x, y in zip(s.p0, s.v0, v)]
    return v, p


def times(segs, rich):
    out = {0.0: "0", segs[-1].t1: "end"}
    for s in segs:
        out.setdefault(s.t0, "begin")
        out.setdefault(s.t1, "end of a piece")
        if s.t1 > s.t0:
            out.setdefault(s.t0 + 0.3 * (s.t1 - s.t0), "inside")
            if rich:
                out.setdefault(math.nextafter(s.t0, math.inf), "just behind a begin")
                out.setdefault(math.nextafter(s.t1, 0.0), "just before an end")
                out.setdefault(s.t0 + 0.75 * (s.t1 - s.t0), "inside")
    return sorted(t for t in out if 0 <= t <= segs[-1].t1)


def pick(ts, n):
    """n of the times, evenly spread over the list, both ends included."""
    return [ts[round(i * (len(ts) - 1) / (n - 1))] for i in range(n)]


UNITS = (None, "SI", "inch")
FACT = {None: 1.0, "SImm": 1.0, "SI": 1e-3, "inch": 1 / 25.4}


def ask(sim, segs, t, unit, trail, rec):
    v, p = sim.get_values(t) if unit is None else sim.get_values(t, output_unit_system=unit)
    ve, pe = expected(segs, t)
    f = FACT[unit]
    for k in range(4):
        require(close(v[k], f * ve[k], 1e-7), "velocity at t=%r (after %s) is %r on axis %d, the trajectory has %r", t, trail, v[k], k, f * ve[k])
        require(close(p[k], f * pe[k], 1e-7), "position at t=%r (after %s) is %r on axis %d, the trajectory has %r", t, trail, p[k], k, f * pe[k])
    for x in (v, p):  # what the caller does with an answer is no matter of later answers
        if isinstance(x, list):
            x[0] += 1e3
    rec.compared()


def outside(sim, t):
    try:
        sim.get_values(t)
    except Exception:
        pass


def explore_seq(c, rec):
    name, fw, idx, n = c["program"], c["fw"], c["seq"], c["n"]
    A = prog.adapter()
    with A.quiet():
        sim = make(name, fw)
        segs = A.segs(sim)
        before = [s.row() for s in segs]
        ts = pick(times(segs, False), n)
        trail = []
        for i in idx:
            if i >= n:  # asking for a time outside the trajectory, whatever it does, must not matter later
                t = (-1.0, segs[-1].t1 + 1.0)[i - n]
                outside(sim, t)
            else:
                t = ts[i]
                ask(sim, segs, t, None, trail, rec)
            rec.step((name, fw, tuple(trail[-1:])), t)
            trail.append(t)
            rec.state(name, fw, t)
        require([s.row() for s in A.segs(sim)] == before, "asking changed the trajectory")
    rec.trace()
    rec.outcome(name, fw, [expected(segs, t)[1] for t in ts])


def debruijn(k, n):
    """Sequence that contains every word of length n over range(k)."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def explore_debruijn(c, rec):
    """One simulation, asked so that every word of queries of the given length occurs."""
    name, fw, n, depth = c["program"], c["fw"], c["n"], c["depth"]
    A = prog.adapter()
    with A.quiet():
        sim = make(name, fw)
        segs = A.segs(sim)
        before = [s.row() for s in segs]
        ts = pick(times(segs, True), n) if n else times(segs, True)
        last = None
        for j, i in enumerate(debruijn(len(ts), depth)):
            ask(sim, segs, ts[i], UNITS[j % 3], [last], rec)
            rec.state(name, fw, ts[i])
            rec.step((name, fw, last), ts[i])
            last = ts[i]
        require([s.row() for s in A.segs(sim)] == before, "asking changed the trajectory")
    rec.trace()
    rec.outcome(name, fw, [expected(segs, t)[1] for t in ts])


# ---------------------------------------------------------------- lists of pieces, with gaps


def build(shape):
    """Pieces of durations/gaps given by shape: (gap before, duration) ..."""
    from pyGCodeDecode.utils import position, segment, velocity

    t, x = 0.5, 1.0
    out = []
    for i, (gap, dur) in enumerate(shape):
        t += gap
        v0, v1 = (2.0, 4.0) if i % 2 == 0 else (3.0, 3.0)
        if i % 3 == 2:
            v0 = v1 = 0.0
        d = (v0 + v1) / 2 * dur
        out.append(
            segment(
                t_begin=t,
                t_end=t + dur,
                pos_begin=position(x, 2.0, -1.0, 0.5 * x),
                vel_begin=velocity(v0, 0.0, 0.0, 0.5 * v0),
                pos_end=position(x + d, 2.0, -1.0, 0.5 * (x + d)),
                vel_end=velocity(v1, 0.0, 0.0, 0.5 * v1),
            )
        )
        t, x = t + dur, x + d
    return out


def explore_gaps(c, rec):
    from pyGCodeDecode.gcode_interpreter import find_current_segment

    A = prog.adapter()
    path = build(c["shape"])
    if not c["keep"] and any(g for g, _ in c["shape"][1:]):
        from ..core import Skip

        raise Skip()
    segs = [A.Seg(s, i) for i, s in enumerate(path)]
    rows = [s.row() for s in segs]
    ts = set()
    for s in segs:
        ts |= {s.t0, s.t1, (s.t0 + s.t1) / 2}
    for a, b in zip(segs, segs[1:]):
        ts |= {(a.t1 + b.t0) / 2, math.nextafter(b.t0, 0.0)}
    ts = sorted(t for t in ts if segs[0].t0 <= t <= segs[-1].t1)

    def want(t):
        if t == segs[-1].t1:
            s = segs[-1]
        else:
            s = None
            for x in segs:
                if x.t0 <= t < x.t1:
                    s = x
                    break
            if s is None:  # in a gap: standstill at the end of the last piece that ended by now
                s = [x for x in segs if x.t1 <= t][-1]
                return (0.0,) * 4, s.p1
        dt = s.t1 - s.t0
        q = (t - s.t0) / dt if dt else 0.0
        v = tuple(a + (b - a) * q for a, b in zip(s.v0, s.v1))
        return v, tuple(a + (x + y) / 2 * (t - s.t0) for a, x, y in zip(s.p0, s.v0, v))

    def check(t, start):
        with A.quiet():
            seg, idx = find_current_segment(path=path, t=t, last_index=start, keep_position=c["keep"])
        require(seg is not None, "no piece found at t=%r from index %r", t, start)
        v, p = A.vec(seg.get_velocity(t)), A.vec(seg.get_position(t))
        ve, pe = want(t)
        require(all(close(a, b, 1e-9) for a, b in zip(v, ve)), "from index %r: velocity %s at t=%r, should be %s", start, v, t, ve)
        require(all(close(a, b, 1e-9) for a, b in zip(p, pe)), "from index %r: position %s at t=%r, should be %s", start, p, t, pe)
        rec.compared()
        rec.state(repr(c["shape"]), t, start)
        rec.step((repr(c["shape"]), start), t)
        return idx

    for start in [None] + list(range(len(path) + 2)):
        for t in ts:
            check(t, start)
    # the returned index is a valid start of any later search
    for a in ts:
        for b in ts:
            i = check(a, None)
            j = check(b, i)
            for d in ts[:: max(1, len(ts) // 4)]:
                check(d, j)
    require([A.Seg(s, i).row() for i, s in enumerate(path)] == rows, "searching changed the pieces")
    rec.trace()
    rec.outcome(repr(c["shape"]))


def spaces(tier):
    deep = tier == "thorough"
    names = [x for x in PROGRAMS if x != "chain"]
    gd = [(g, d) for g in (0.0, 0.75) for d in (0.0, 0.25, 1.0)]
    return [
        Space(
            "sequences",
            "fresh simulation, every sequence of %d queries over %d times and 2 times outside" % (4 if deep else 3, 9 if deep else 7),
            Product(names, prog.FWS if deep else ("marlin_jd", "marlin_jerk"), Words(range(11 if deep else 9), 4 if deep else 3, 4 if deep else 3), make=lambda p, fw, s: {"program": p, "fw": fw, "seq": s, "n": 9 if deep else 7}),
            explore_seq,
        ),
        Space(
            "debruijn",
            "one simulation, every word of queries of a length (all times: words of 2; 8 times: words of 4)",
            Product(names, prog.FWS, [(0, 2), (8, 5) if deep else (8, 4)], make=lambda p, fw, d: {"program": p, "fw": fw, "n": d[0], "depth": d[1]}),
            explore_debruijn,
            chunk=1,
        ),
        Space(
            "chain",
            "a trajectory of more than 300 pieces, every pair of %d times in a row" % (60 if deep else 24),
            Product(["chain"], prog.FWS, [(60 if deep else 24, 2)], make=lambda p, fw, d: {"program": p, "fw": fw, "n": d[0], "depth": d[1]}),
            explore_debruijn,
            chunk=1,
        ),
        Space(
            "gaps",
            "lists of 1..%d pieces x gap or not x duration, every start index, every pair of times" % (4 if deep else 3),
            Product([list(x) for n in range(1, 5 if deep else 4) for x in itertools.product(gd, repeat=n)], (True, False), make=lambda s, k: {"shape": [list(x) for x in s], "keep": k}),
            explore_gaps,
        ),
    ]
