"""C06: cornering speed follows the selected firmware's rule."""

import math

from .. import prog, refplan
from ..core import Concat, Map, Product, Skip, Space, require
from ..prog import TOL_V, close, n3

TITLE = "hand-over speeds equal the cornering rule of the firmware"
ASSUMPTIONS = [
    "the jerk and acceleration in force for the first of the two moves apply at their corner",
    "junction deviation: full speed within 18 degrees of straight, stop within 18 degrees of a reversal, delta = 0.4 jerk^2/acceleration",
    "zero jerk on a numerically straight continuation is not compared (rounding decides whether it is a change of velocity)",
]


def explore(c, rec):
    r = prog.Run(c, rec)
    moves = []
    for it, segs in r.pairs():
        require(segs, "line %d has no trajectory", it.line)
        if it.kind == "move":
            moves.append((it, segs))
    if not moves:
        raise Skip()
    fw = c["fw"]
    require(n3(moves[0][1][0].v0) <= 1e-9, "the path starts with speed %r", n3(moves[0][1][0].v0))
    last, segs = moves[-1]
    v = n3(segs[-1].v1)
    lim = min(last.speed, 2 * last.jerk) if fw == "marlin_jerk" else 0.0
    require(v <= lim * (1 + 1e-6) + 1e-9, "the path ends with speed %r, allowed %r", v, lim)
    for (a, sa), (b, sb) in zip(moves, moves[1:]):
        ve, vb = n3(sa[-1].v1), n3(sb[0].v0)
        if a.eonly or b.eonly:
            continue
        want = a.ve
        require(close(ve, want, TOL_V), "line %d hands over at %r, the rule gives %r", a.line, ve, want)
        require(close(vb, b.vb, TOL_V), "line %d starts at %r, the rule gives %r", b.line, vb, b.vb)
        dwell = any(i.kind == "dwell" and a.line <= i.line < b.line for i in r.items)
        ample = a.d >= 2.5 * max(a.speed, b.speed) ** 2 / a.acc and b.d >= 2.5 * max(a.speed, b.speed) ** 2 / b.acc
        if dwell:
            require(ve <= 1e-9, "speed %r into a dwell", ve)
            continue
        rule = min(refplan.LAWS[fw](a, b), a.speed, b.speed)
        require(ve <= rule * (1 + TOL_V) + TOL_V, "line %d hands over at %r, above the rule's %r", a.line, ve, rule)
        va = [a.speed * x for x in a.unit]
        vb4 = [b.speed * x for x in b.unit]
        dv = max(abs(x - y) for x, y in zip(va[:3], vb4[:3]))
        if fw is None:
            require(ve <= 1e-9, "no cornering rule, but speed %r at a corner", ve)
        elif ample:
            require(close(ve, rule, TOL_V), "line %d hands over at %r, the rule gives %r", a.line, ve, rule)
            if a.jerk > 0.5 and max(abs(x - y) for x, y in zip(va, vb4)) < 1e-9 * (1 + a.speed):
                require(close(ve, a.speed, TOL_V), "straight continuation at %r passed at %r", a.speed, ve)
        turn = max(abs(x - y) for x, y in zip(a.unit[:3], b.unit[:3]))
        # MKA first slows down to the slower move, so only a turn is a change of velocity there
        if a.jerk == 0 and (turn > 1e-4 if fw == "MKA" else dv > 1e-3):
            require(ve <= 1e-6, "zero jerk, but speed %r at a change of velocity", ve)
        rec.compared(3)
    rec.outcome([round(n3(s[-1].v1), 6) for _, s in moves])


PLANES = {
    "xy": ((1, 0, 0), (0, 1, 0)),
    "yx": ((0, -1, 0), (-1, 0, 0)),
    "xz": ((-1, 0, 0), (0, 0, 1)),
    "yz": ((0, 1, 0), (0, 0, -1)),
    "xyz": ((0.6, 0.48, 0.64), (-0.8, 0.36, 0.48)),
}
IDLE = {
    "none": [],
    "comment": [[{}, "note"], [{}, None]],
    "acc": [prog.op("M204", P=444)],
    "jerk": [prog.op("M205", X=1.25)],
    "zero": [prog.op("G92", E=0)],
    "mode": [[{"G90": {}}, None], [{"M82": {}}, "x"], [{"G91": {}}, None], [{"M83": {}}, None]],
    "feed": [prog.g1(F=2400)],
    "same": [[{"G1": {"X": 0.0}}, None], [{"G0": {"Z": 0.0, "E": 0.0}}, None]],
    "many": [[{}, "note"]] * 60 + [prog.op("G92", E=0)] * 60,
    "very many": [[{}, "note"]] * 900 + [prog.op("G92", E=0)] * 300,
    "dwell0": [prog.op("G4", P=0)],
}


SPECKS = [prog.g1(X=20, E=0.4, F=2400), prog.g1(Y=-20), prog.g1(X=3e-7), prog.g1(Y=2e-7, E=1e-8), prog.g1(E=-4e-7), prog.g1(Z=6e-6)]


def corner(fw, plane, angle, v0, v1, jerk, acc, e, idle, d=(400.0, 400.0)):
    u, w = PLANES[plane]
    t = math.radians(angle)
    L = [[{"G91": {}}, None], [{"M83": {}}, None]]

    def mv(dirn, dist, ratio, v):
        a = {k: round(x * dist, 7) for k, x in zip("XYZ", dirn) if x}
        if ratio:
            a["E"] = round(ratio * dist, 7)
        if v is not None:
            a["F"] = v * 60.0
        return [{"G1": a}, None]

    dir1 = [math.cos(t) * x + math.sin(t) * y for x, y in zip(u, w)]
    L += [mv(u, d[0], e[0], v0)] + [list(x) for x in IDLE[idle]] + [mv(dir1, d[1], e[1], v1)]
    return prog.case(L, fw=fw, cfg={"p_acc": acc, "jerk": jerk})


ANGLES = (0, 0.5, 2, 5, 10, 17, 17.9, 18.1, 19, 30, 45, 60, 89, 90, 100, 120, 135, 150, 161, 161.9, 162.1, 163, 170, 178, 179, 179.5, 179.97, 180, -30, -90, -120)
ES = ((0, 0), (0.05, 0.05), (0, 0.05), (0.05, 0), (0.3, -0.4), (-0.2, -0.2), (1.5, 0.05))


def poly(fw, turns, ds, v, jerk, acc):
    """Closed-ish polylines of short and long moves: the mid-move rule and repeated corners."""
    L = [[{"G91": {}}, None], [{"M83": {}}, None]]
    a = 0.0
    for i, (t, d) in enumerate(zip(turns, ds)):
        a += math.radians(t)
        args = {"X": round(d * math.cos(a), 6), "Y": round(d * math.sin(a), 6), "E": round(0.04 * d, 6)}
        if i == 0:
            args["F"] = v * 60.0
        L.append([{"G1": args}, None])
    return prog.case(L, fw=fw, cfg={"p_acc": acc, "jerk": jerk})


def critical(fw, angle, v0, v1):
    """The jerk from which on the corner does not limit the speed, by the closed form of the rule."""
    t = math.radians(angle)
    u, w = (1.0, 0.0), (math.cos(t), math.sin(t))
    if fw == "marlin_jerk":
        return 0.5 * math.hypot(*(v0 * x - v1 * y for x, y in zip(u, w)))
    if fw == "MKA":
        return min(v0, v1) * max(max(x, y, 0.0) - min(x, y, 0.0) if x * y > 0 or not x * y else max(abs(x), abs(y)) for x, y in zip(u, w))
    h = math.sqrt(0.5 * (1 + math.cos(t)))
    return min(v0, v1) / math.sqrt((0.4 if fw == "marlin_jd" else math.sqrt(2) - 1) * h / (1 - h))


def near(fw, angle, v0, v1, q, acc):
    return corner(fw, "xy", angle, v0, v1, q * critical(fw, angle, v0, v1), acc, (0.0, 0.0), "none")


def spaces(tier):
    deep = tier == "thorough"
    import itertools

    TURN = (0.0, 3.0, 25.0, 90.0, 150.0) if deep else (3.0, 25.0, 90.0, 150.0)
    return [
        Space(
            "angle",
            "two long moves: angle x speeds x jerk x firmware",
            Product(prog.FWS, ("xy",), ANGLES, (10.0, 60.0, 150.0), (10.0, 60.0, None), (0, 0.6, 1, 8, 30, 200) if deep else (0, 1, 8, 30), (1000, 150) if deep else (1000,), ((0, 0), (0.05, 0.05)) if deep else ((0.05, 0.05),), ("none",), make=corner),
            explore,
        ),
        Space(
            "threshold",
            "two long moves with a jerk just below or above the one which does not limit the speed any more",
            Product(prog.CORNERING, (21, 30, 45, 60, 90, 120, 135, 155), (10.0, 60.0, 150.0), (10.0, 60.0, 150.0), (0.9, 0.99, 0.995, 0.999, 0.9999, 1.0, 1.0001, 1.001, 1.005, 1.01, 1.1), (1000, 150) if deep else (1000,), make=near),
            explore,
        ),
        Space(
            "slow",
            "two moves at the slowest speeds and with the smallest jerks: angle x speeds x jerk x firmware",
            Product(prog.FWS, ("xy",), (0, 3, 17, 25, 90, 135, 178, 180), (0.01, 0.5, 1.5), (0.01, 0.7, 20.0), (1e-4, 0.02, 0.3), (1000, 20) if deep else (1000,), ((0.05, 0.05), (0.05, 0)), ("none",), [(20.0, 20.0)], make=corner),
            explore,
        ),
        Space(
            "space",
            "two long moves: plane x angle x extrusion ratios x jerk x acceleration x firmware",
            Product(prog.CORNERING, tuple(PLANES), ANGLES if deep else ANGLES[0::4] + (90, 18.1, 179), (60.0,), (60.0, 25.0), (1, 8) if deep else (8,), (200, 3000) if deep else (3000,), ES, ("none",), make=corner),
            explore,
        ),
        Space(
            "idle",
            "two long moves with lines without displacement in between",
            Product(prog.FWS, ("xy", "xyz"), (0, 5, 30, 90, 135, 180), (60.0,), (60.0, 25.0, None), (0, 8), (1000,), ((0, 0), (0.05, 0.02)), tuple(x for x in IDLE if x != "very many"), make=corner),
            explore,
        ),
        Space("very idle", "two long moves with 1200 lines without displacement in between", Product(prog.FWS, ("xy",), (0, 30), (60.0,), (60.0,), (8,), (1000,), ((0.05, 0.02),), ("very many",), make=corner), explore, chunk=1),
        Space("specks", "all programs of 2..3 moves and moves of less than a micrometre, and one more move", Map(prog.words(SPECKS, 2, 3, fws=prog.FWS if deep else ("marlin_jd", "MKA")), lambda c: {**c, "lines": c["lines"] + [prog.g1(X=20, Y=3, F=1800)]}), explore),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", prog.extremes(lens=(0.001, 0.02, 1.0, 60.0, 1000.0), feeds=(0.001, 0.02, 1.0, 25.0, 200.0), accs=(1, 1000, 30000), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR) if deep else (prog.FAR,), fws=prog.FWS if deep else ("marlin_jd", "marlin_jerk"), jerks=(0, 0.5, 8, 200) if deep else (8,)), explore),
        Space(
            "midmove",
            "two moves of any lengths: angle x lengths x jerk x acceleration",
            Product(
                prog.CORNERING, ("xy",), (0, 10, 30, 90, 120, 165), (60.0,), (60.0, 20.0), (0.7, 8, 40), (100, 2000), ((0.05, 0.05),), ("none",),
                [(a, b) for a in (0.05, 0.8, 5.0, 60.0) for b in (0.05, 0.8, 5.0, 60.0)], make=corner,
            ),
            explore,
        ),
        Space(
            "poly",
            "polylines of 4 moves: turns x lengths",
            Product(prog.CORNERING, [(0.0,) + x for x in itertools.product(TURN, repeat=3)], [x for x in itertools.product((0.4, 30.0), repeat=4)], (50.0,), (2, 12) if deep else (6,), (200, 2000) if deep else (600,), make=poly),
            explore,
        ),
    ]
