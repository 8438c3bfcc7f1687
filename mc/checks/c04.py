"""C04: the trajectory visits every commanded position, gap-free."""

from .. import prog
from ..core import Space, require
from ..prog import TOL_P, close, vclose

TITLE = "trajectory complete and gap-free"
ASSUMPTIONS = ["times agree within 1e-9 relative, positions within 1e-6 mm relative; feed rates are positive"]


def explore(c, rec):
    r = prog.Run(c, rec, plan=False)
    pairs = r.pairs()
    init = tuple(c["init"])
    if r.items:
        require(abs(r.segs[0].t0) <= 1e-12, "trajectory starts at t=%r instead of 0", r.segs[0].t0)
    pos, t = init, 0.0
    for s in r.segs:
        require(s.t1 >= s.t0, "time runs backwards in a piece: %r..%r", s.t0, s.t1)
        require(abs(s.t0 - t) <= 1e-9 * (1 + abs(t)), "gap in time: piece begins at %r, previous ended at %r", s.t0, t)
        require(vclose(s.p0, pos, 1e-8), "gap in position: piece begins at %s, previous ended at %s", s.p0, pos)
        pos, t = s.p1, s.t1
    for it, segs in pairs:
        require(segs, "line %d has no trajectory", it.line)
        require(vclose(segs[0].p0, it.A, TOL_P), "line %d starts at %s, commanded %s", it.line, segs[0].p0, it.A)
        require(vclose(segs[-1].p1, it.B, TOL_P), "line %d ends at %s, commanded %s", it.line, segs[-1].p1, it.B)
        if it.kind == "dwell":
            require(close(segs[-1].t1 - segs[0].t0, it.pause, 1e-9), "dwell of line %d lasts %r", it.line, segs[-1].t1 - segs[0].t0)
    require(vclose(pos, r.obs[-1]["pos"], TOL_P), "trajectory ends at %s, program at %s", pos, r.obs[-1]["pos"])
    if r.items:
        _, p = r.sim.get_values(0.0)
        require(vclose(p, init, TOL_P), "position at t=0 is %s, initial position is %s", p, init)
        _, p = r.sim.get_values(t)
        require(vclose(p, pos, TOL_P), "position at t_end is %s instead of %s", p, pos)
    rec.compared(len(r.segs) + 2 * len(pairs))
    rec.outcome([round(s.t1, 9) for s in r.segs])


EDGE = prog.MOTION + [
    prog.g1(F=1200),
    prog.op("G4", P=0),
    prog.op("G4", S=1),
    [{"G1": {"Z": -0.2}, "G4": {"P": 50.0}}, None],
    [{"G92": {"X": 3.0, "E": 0.0}}, None],
]


LATTICE = [prog.g1(X=x, Y=y, Z=z, E=e) for x in (-5, 0, 5) for y in (-5, 0, 5) for z in (-5, 0, 5) for e in (-5, 0, 5)]


MICRO = [prog.g1(X=x, **a) for x in (10.0, 5e-5, 5e-6, 5e-7, -5e-7) for a in ({}, {"E": 5e-6})] + [prog.g1(E=5e-6), prog.g1(E=-5e-7), prog.g1(Z=5e-7), prog.g1(X=5e-7, Y=5e-7), prog.op("G4", P=0.001)]


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space(
            "words",
            "all programs of 0..%d operations over 20 operations, 5 firmwares" % (3 if deep else 2),
            prog.words(EDGE, 0, 3 if deep else 2, inits=((0.0, 0.0, 0.0, 0.0), (1.5, -2.25, 0.3, 7.125)), styles=("rel", "abs")),
            explore,
        ),
        Space(
            "lattice",
            "two moves, each over all signs of four axes (components that cancel included)",
            prog.words(LATTICE, 1, 2 if deep else 1, fws=prog.FWS, inits=((1.5, -2.25, 0.3, 7.125),)),
            explore,
        ),
        Space(
            "words_small",
            "all programs of 3..%d operations over 6 operations, 5 firmwares" % (5 if deep else 4),
            prog.words(prog.SMALL, 3, 5 if deep else 4, inits=((-3.0, 4.0, 0.2, 1.0),)),
            explore,
        ),
        Space("micro", "moves between 10 mm and half a nanometre: all sequences of 1..%d of 15" % (3 if deep else 2), prog.words(MICRO, 1, 3 if deep else 2, fws=prog.FWS, inits=((0.0, 0.0, 0.0, 0.0), (10.0, 0.0, 0.2, 3.0))), explore),
        Space("brink", "moves as long as they need to speed up or brake, but for a hair of 1e-2 to 1e-8", prog.brink(fws=prog.FWS if deep else ("marlin_jd", "klipper", "MKA"), accs=(200, 1000) if deep else (1000,)), explore),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", prog.extremes(lens=(0.001, 0.02, 1.0, 60.0, 1000.0), feeds=(0.001, 0.02, 1.0, 25.0, 200.0), accs=(1, 1000, 30000), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR) if deep else (prog.FAR,), fws=prog.FWS if deep else ("marlin_jd", "marlin_jerk"), jerks=(0, 0.5, 8, 200) if deep else (8,)), explore),
        Space(
            "deviations",
            "4 base programs with every operation inserted at every place and every line removed",
            prog.deviations(alphabet=EDGE if deep else EDGE[3:14:2] + EDGE[-4:]),
            explore,
        ),
    ]
