"""C22: every well-formed program simulates to completion."""

import itertools
import math

from .. import prog
from ..core import Concat, Product, Space, require

TITLE = "no valid program fails, whatever its numbers"
ASSUMPTIONS = ["feed rates and accelerations positive, jerk not negative, program within the supported commands"]


def explore(c, rec):
    r = prog.Run(c, rec, plan=False)
    r.pairs()
    require(len(r.sim.states) == len(c["lines"]) + 1, "%d states for %d lines", len(r.sim.states), len(c["lines"]))
    require(math.isfinite(r.t_end()) and r.t_end() >= 0, "end time %r", r.t_end())
    if not r.items:
        require(not r.segs, "a program without motion has a trajectory: %s", [s.row() for s in r.segs][:3])
    for it in r.items:
        if it.kind == "move":
            require(r.t_end() > 0, "no time passes")
    rec.compared(2)
    rec.outcome(round(r.t_end(), 9))


def numbers(d1, d2, f1, f2, acc, jerk, turn, fw):
    """Three moves with extreme lengths and feeds and a turn, mixed with filament moves."""
    a = math.radians(turn)
    L = [
        prog.g1(X=d1, F=f1),
        prog.g1(X=round(d1 + d2 * math.cos(a), 9), Y=round(d2 * math.sin(a), 9), E=0.1, F=f2),
        prog.g1(X=round(d1 + d2 * math.cos(a) + d1, 9), Y=round(d2 * math.sin(a), 9)),
    ]
    return prog.case(L, fw=fw, cfg={"p_acc": acc, "jerk": jerk})


def long_chain(n, fw, jerk, rev):
    L = [prog.g1(X=0.01, F=9000)]
    x = 0.0
    for i in range(n):
        x += 0.004 + 0.001 * (i % 5)
        L.append(prog.g1(X=round(x, 4), Y=round(0.0007 * (i % 2), 4)))
    if rev:
        L.append(prog.g1(X=0))
    return prog.case(L, fw=fw, cfg={"p_acc": 150, "jerk": jerk})


DIRS3 = [v for v in itertools.product((-3, 0, 1, 2, 7), repeat=3) if any(v)]
CORNERS = prog.CORNERING


def direction(v, k, scale, e, fw):
    """One move, then k times the same vector."""
    d = [round(x * scale, 6) for x in v]
    L = [prog.g1(X=d[0], Y=d[1], Z=d[2], F=1800), prog.g1(X=round(d[0] * (1 + k), 6), Y=round(d[1] * (1 + k), 6), Z=round(d[2] * (1 + k), 6), E=e)]
    return prog.case(L, fw=fw)


def nothing(lines, fw, cue):
    return prog.case([x for x in lines], fw=fw, cue=cue)


def edges(v, acc, eps, d2, back, fw, jerk):
    """A first move exactly as long as the way up to its feed rate (or short of it by a hair), then straight on, and the same at the end."""
    up = v * v / 60**2 / (2 * acc) * (1 + eps)
    L = [prog.g1(X=up, F=v), prog.g1(X=up + d2), prog.g1(X=2 * up + d2)]
    if back:
        L = [prog.g1(X=-3, F=v)] + L[:2] + [prog.op("G4", P=1)] + L[2:] + [prog.g1(X=up + d2)]
    return prog.case(L, fw=fw, cfg={"p_acc": acc, "jerk": jerk})


def exact(v, acc, fw):
    """Moves exactly as long as the ways to the feed rate, in decimal numbers: rounding decides which profile they get."""
    up = round(v * v / 60**2 / (2 * acc), 9)
    L = [prog.g1(X=up, F=v), prog.g1(X=up + 300), prog.op("G4", P=1), prog.g1(Y=2 * up), prog.op("G4", P=1), prog.g1(Y=0), prog.op("G4", P=1), prog.g1(X=up), prog.g1(X=0)]
    return prog.case(L, fw=fw, cfg={"p_acc": acc, "jerk": 8})


IDLE = [[{}, None], [{}, "LAYER"], prog.op("G92", X=5, E=0), prog.op("M204", P=100), prog.g1(F=1200), [{"G90": {}}, None], [{"G20": {}}, None], prog.g1(X=0)]
TINY = [
    prog.g1(X=0.1),
    prog.g1(X=0.2),
    prog.g1(X=-0.3),
    prog.g1(X=1e-6),
    prog.g1(X=-1e-6, E=1e-6),
    prog.op("G92", X=0.7),
    prog.g1(X=1 / 3, Y=1e-5),
    [{"G20": {}}, None],
    prog.g1(E=1e-6),
    prog.op("G4", P=0),
]


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("idle", "all programs of 0..%d lines without motion" % (4 if deep else 3), Product(prog.Words(IDLE, 0, 4 if deep else 3), (None, "marlin_jd"), (None, "LAYER"), make=nothing), explore),
        Space("tiny", "all programs of 1..%d operations with rounding residues and tiny moves" % (4 if deep else 3), prog.words(TINY, 1, 4 if deep else 3, inits=((0.0, 0.0, 0.0, 0.0), (200.1, -33.3, 7.7, 0.1)) if deep else ((200.1, -33.3, 7.7, 0.1),)), explore),
        Space(
            "numbers",
            "three moves: extreme lengths x feeds x accelerations x jerks x turns",
            Product((1e-5, 0.02, 3.7, 4000.0) if deep else (1e-5, 0.2, 400.0), (1e-5, 0.31, 900.0), (0.6, 1800, 60000), (1.0, 3000, 120000), (1, 800, 50000) if deep else (1, 2000), (0, 0.1, 12, 1000), (0, 0.01, 17.9, 90, 179.99, 180) if deep else (0, 17.9, 180), prog.FWS, make=numbers),
            explore,
        ),
        Space(
            "edges",
            "moves as long as the way to accelerate to the feed rate, exactly or nearly, on every firmware",
            Product((600, 1234.5, 2400, 3000, 4500, 7200, 8000), (150, 1000, 1300, 3333), (0.0, 1e-15, -1e-15, 1e-12, -1e-12, 1e-9, -1e-9, 1e-7, -1e-7) if deep else (0.0, 1e-12, -1e-12, 1e-9, -1e-9), (1e-6, 7.0) if deep else (7.0,), (False, True), prog.FWS, (0, 8, 100), make=edges),
            explore,
        ),
        Space(
            "exact",
            "moves exactly as long as the way to accelerate to the feed rate: feed rates x accelerations",
            [exact(v, a, fw) for fw in (prog.FWS if deep else ("klipper", "marlin_jerk")) for v in range(60, 9001, 30) for a in (100, 200, 500, 625, 700, 800, 875, 1000, 1250, 2000, 3125) if abs(v * v / 7200 / a - round(v * v / 7200 / a, 9)) < 1e-15],
            explore,
        ),
        Space(
            "directions",
            "forth and back or straight on along every direction of a lattice x lengths x firmware",
            Product(DIRS3, (1.0, -1.0, -0.37, 2.6), (1.0, 0.1) if deep else (1.0,), (0.0, 0.3), CORNERS, make=direction),
            explore,
        ),
        Space("long", "long chains of short moves", Product((300, 1000, 3000, 10000) if deep else (300, 2600), prog.FWS, (0, 8), (False, True), make=long_chain), explore, chunk=1),
        Space("deviations", "base programs with one operation inserted anywhere", prog.deviations(alphabet=TINY + prog.MOTION if deep else TINY[2:9:2] + prog.MOTION[5:12:3]), explore),
    ]
