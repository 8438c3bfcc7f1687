"""C07: look-ahead yields the fastest feasible speed profile (greatest fixpoint computed independently)."""

from .. import prog
from ..core import Concat, Map, Product, Space, require
from ..prog import TOL_T, TOL_V, close, n3

TITLE = "boundary speeds and durations equal the greatest feasible profile"
ASSUMPTIONS = [
    "the cornering laws themselves are the subject of C06; the fixpoint is computed by refplan.plan",
    "classic jerk may start a filament-only move with a jump of at most twice the jerk",
]

TOL_JUMP = 1e-7  # a speed has to be continuous, whatever it is


def explore(c, rec):
    r = prog.Run(c, rec)
    prev_v, prev_kind, prev_line = 0.0, None, None
    for it, segs in r.pairs():
        require(segs, "line %d has no trajectory", it.line)
        vb, ve = n3(segs[0].v0), n3(segs[-1].v1)
        if it.kind == "move" and not it.eonly:
            require(close(vb, it.vb, TOL_V), "line %d starts at %r, fastest feasible is %r", it.line, vb, it.vb)
            require(close(ve, it.ve, TOL_V), "line %d ends at %r, fastest feasible is %r", it.line, ve, it.ve)
            peak = max(max(n3(s.v0), n3(s.v1)) for s in segs)
            require(close(peak, it.peak, TOL_V), "line %d peaks at %r, fastest feasible is %r", it.line, peak, it.peak)
        require(close(vb, prev_v, TOL_JUMP), "path speed jumps from %r to %r before line %d", prev_v, vb, it.line)
        for a, b in zip(segs, segs[1:]):
            require(close(n3(a.v1), n3(b.v0), TOL_JUMP), "path speed jumps from %r to %r within line %d", n3(a.v1), n3(b.v0), it.line)
        dur, want = segs[-1].t1 - segs[0].t0, it.t1 - it.t0
        require(close(dur, want, TOL_T), "line %d takes %r s, the fastest profile takes %r s", it.line, dur, want)
        require(close(segs[-1].t1, it.t1, TOL_T), "line %d ends at %r s, the fastest profile ends at %r s", it.line, segs[-1].t1, it.t1)
        prev_v = ve
        rec.compared(5)
    rec.outcome([round(it.t1, 9) for it in r.items])


def chain(kind, n, fw, acc, f, last):
    """A long run of n short moves, then a stop of a given kind."""
    L = []
    x = y = 0.0
    for i in range(n):
        d = 0.05 + 0.01 * (i % 3)
        if kind == "straight":
            x += d
        elif kind == "arc":
            import math

            x, y = x + d * math.cos(0.02 * i), y + d * math.sin(0.02 * i)
        elif kind == "accel":
            x += 0.002 * (1 + i % 7)
        elif kind == "mixed":
            x, y = x + d, y + (0.3 * d if i % 2 else 0.1 * d)
        L.append(prog.g1(X=round(x, 5), Y=round(y, 5), E=round(0.01 * (i + 1), 5)))
    L[0][0]["G1"]["F"] = float(f * 60)
    if last == "corner":
        L.append(prog.g1(X=round(x - 5, 5)))
    elif last == "dwell":
        L += [prog.op("G4", P=100), prog.g1(X=round(x + 5, 5))]
    elif last == "slow":
        L.append(prog.g1(X=round(x + 5, 5), F=120))
    elif last == "retract":
        L += [prog.g1(E=0.0), prog.g1(X=round(x + 5, 5))]
    elif last == "acc":
        L[n // 2:n // 2] = [prog.op("M204", P=acc / 3.0)]
    return prog.case(L, fw=fw, cfg={"p_acc": acc, "jerk": 10})


def spaces(tier):
    deep = tier == "thorough"
    big = prog.MOTION
    out = [
        Space("words", "all programs of 1..%d operations over %d operations" % (3 if deep else 2, len(big)), prog.words(big, 1, 3 if deep else 2, cfgs=({}, {"p_acc": 150, "jerk": 3, "p_vel": 80})), explore),
        Space("words_small", "all programs of 3..%d operations over 6 operations" % (6 if deep else 4), prog.words(prog.SMALL, 3, 6 if deep else 4, fws=prog.FWS if deep else prog.CORNERING), explore),
        Space("kinematics", "3 moves: lengths x feeds x turn x acceleration x jerk", prog.kin_grid((0.05, 0.7, 12.0), (8.0, 60.0), (100, 1500), (2.0, 8.0, 30.0) if deep else (8.0,), fws=prog.CORNERING, turns=(0.0, 20.0, 45.0, 90.0) if deep else (0.0, 20.0, 90.0)), explore),
        Space("brink", "moves as long as they need to speed up or brake, but for a hair of 1e-2 to 1e-8", prog.brink(fws=prog.FWS if deep else ("marlin_jd", "klipper", "MKA"), accs=(200, 1000) if deep else (1000,)), explore),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", prog.extremes(lens=(0.001, 0.02, 1.0, 60.0, 1000.0), feeds=(0.001, 0.02, 1.0, 25.0, 200.0), accs=(1, 1000, 30000), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR) if deep else (prog.FAR,), fws=prog.FWS if deep else ("marlin_jd", "marlin_jerk"), jerks=(0, 0.5, 8, 200) if deep else (8,)), explore),
        Space("deviations", "4 base programs with one operation inserted anywhere or one line removed", prog.deviations(alphabet=prog.MOTION if deep else prog.MOTION[0:14:2], fws=prog.FWS if deep else prog.CORNERING), explore),
        Space(
            "chains",
            "long runs of short moves x kind x length x acceleration x feed x what ends the run",
            Product(("straight", "arc", "accel", "mixed"), (40, 150, 2500) if not deep else (40, 150, 600, 2500, 8000), ("marlin_jd", "klipper", "marlin_jerk", "MKA"), (100, 1000), (50, 150), ("end", "corner", "dwell", "slow", "retract", "acc"), make=lambda k, n, fw, acc, f, last: chain(k, n, fw, acc, f, last)) if deep else
            Concat(Product(("straight", "arc", "accel", "mixed"), (40, 150), ("marlin_jd", "klipper", "marlin_jerk", "MKA"), (100,), (150,), ("end", "corner", "dwell", "slow", "retract", "acc"), make=chain), Product(("straight",), (6000,), ("marlin_jd",), (50,), (150,), ("end",), make=chain), Product(("straight",), (2500,), ("marlin_jd", "marlin_jerk"), (100,), (150,), ("end", "dwell"), make=chain)),
            explore,
            chunk=1,
        ),
    ]
    return out
