"""C08: a dwell stops the machine for exactly its duration."""

from .. import prog, refvm
from ..core import Product, Skip, Space, Words, require
from ..prog import TOL_T, close, n3, vclose

TITLE = "dwells hold the position for exactly their duration and change nothing else"
ASSUMPTIONS = [
    "the parts before and after a dwell are simulated separately with the position and the settings reached there; the part before is brought to rest at its end",
    "on a line with a move and a dwell the move comes first",
]


def explore(c, rec):
    r = prog.Run(c, rec)
    A = prog.adapter()
    pairs = r.pairs()
    if not any(it.kind == "dwell" for it, _ in pairs):
        raise Skip()
    prev = None
    for it, segs in pairs:
        if it.kind == "dwell":
            require(segs, "the dwell of line %d is not in the trajectory", it.line)
            dur = segs[-1].t1 - segs[0].t0
            require(close(dur, it.pause, 1e-9), "the dwell of line %d lasts %r s instead of %r", it.line, dur, it.pause)
            for s in segs:
                require(max(map(abs, s.v0 + s.v1)) <= 1e-9, "line %d: velocity %s %s during a dwell", it.line, s.v0, s.v1)
                require(vclose(s.p0, it.A, 1e-7) and vclose(s.p1, it.A, 1e-7), "line %d: dwell at %s to %s instead of %s", it.line, s.p0, s.p1, it.A)
            if prev is not None and prev[1]:
                v = max(map(abs, prev[1][-1].v1))
                require(v <= 1e-7, "velocity %s at the beginning of the dwell of line %d", prev[1][-1].v1, it.line)
        elif prev is not None and prev[0].kind == "dwell":
            require(n3(segs[0].v0) <= 1e-7, "velocity %s after a dwell in line %d", segs[0].v0, it.line)
        require(close(segs[-1].t1 - segs[0].t0, it.t1 - it.t0, TOL_T), "line %d takes %r s instead of %r s", it.line, segs[-1].t1 - segs[0].t0, it.t1 - it.t0)
        prev = (it, segs)
    # position and velocity reported while dwelling
    for it, segs in pairs:
        if it.kind == "dwell" and it.pause > 1e-6:
            for q in (0.0, 0.5, 1 - 1e-9):
                v, p = r.sim.get_values(segs[0].t0 + q * it.pause)
                require(vclose(p, it.A, 1e-7) and max(map(abs, v)) <= 1e-7, "values %s %s during the dwell of line %d at %s", v, p, it.line, it.A)
    # the same program without dwells: same path
    lines = []
    for w, k in c["lines"]:
        lines.append([{a: b for a, b in w.items() if a != "G4"}, k])
    bare = prog.case(lines, fw=c["fw"], cfg=c["cfg"], init=c["init"])
    with_, without = [b.B for b in r.blocks], None
    sim = A.simulate(prog.text_of(bare), setup=A.make_setup(firmware=c["fw"], initial=tuple(c["init"]), **c["cfg"]))
    rec.trace()
    without = [b.B for b in A.trace(sim)]
    want = [it.B for it in r.items if it.kind == "move"]
    require(len(without) == len(want) and all(vclose(a, b, 1e-7) for a, b in zip(without, want)), "without its dwells the program visits %s instead of %s", without, want)
    # the sum of the parts, split at every dwell
    for it, segs in pairs:
        if it.kind != "dwell":
            continue
        o = r.obs[it.line]
        head = [list(x) for x in c["lines"][: it.line]]
        w = {a: b for a, b in head[-1][0].items() if a != "G4"}
        w["G4"] = {"P": 0.0}
        head[-1] = [w, None]
        A1 = prog.case(head, fw=c["fw"], cfg=c["cfg"], init=c["init"])
        modes = [x for x in c["lines"][: it.line] if set(x[0]) <= {"G90", "G91", "M82", "M83"} and x[0]]
        s = o["set"]
        A2 = prog.case(modes + [list(x) for x in c["lines"][it.line :]], fw=c["fw"], cfg={**c["cfg"], "p_vel": s["speed"], "p_acc": s["p_acc"], "jerk": s["jerk"]}, init=o["pos"])
        t = 0.0
        for part in (A1, A2):
            sim = A.simulate(prog.text_of(part), setup=A.make_setup(firmware=part["fw"], initial=tuple(part["init"]), **part["cfg"]))
            sg = A.segs(sim)
            t += sg[-1].t1 if sg else 0.0
            rec.trace()
        require(close(r.t_end(), t + it.pause, TOL_T), "total time %r, parts and dwell of line %d take %r", r.t_end(), it.line, t + it.pause)
    rec.compared(5 * len(pairs))
    rec.outcome([round(s.t1, 9) for s in r.segs])


DW = [
    prog.op("G4", P=250),
    prog.op("G4", S=2),
    prog.op("G4", P=0),
    prog.op("G4", P=900, S=0.4),
    [{"G1": {"X": 7.0, "E": 0.2}, "G4": {"P": 60.0}}, None],
    [{"G1": {"X": 0.0}, "G4": {"S": 0.5}}, "nothing moves here"],
    [{"G1": {"E": -0.8}, "G4": {"P": 35.0}}, None],
]
MV = [
    prog.g1(X=10),
    prog.g1(X=0.3, Y=0.1, E=0.1),
    prog.g1(Y=-5, E=0.4, F=4800),
    prog.g1(E=0.8),
    prog.op("M204", P=300),
    [{}, "G4 P100"],
]


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("words", "all programs of 1..%d operations over 13, five firmwares" % (4 if deep else 2), prog.words(DW + MV, 1, 4 if deep else 2, inits=((1.5, -2.25, 0.3, 7.125),)), explore),
        Space("between", "all programs of %d operations with dwells, moves on both sides" % (5 if deep else 3), prog.words([DW[0], DW[4], DW[2], MV[0], MV[1], MV[2], MV[3]], 3, 5 if deep else 3, fws=prog.FWS if deep else (None, "marlin_jd", "klipper", "marlin_jerk", "MKA")), explore),
        Space("extremes", "base program with dwells at unusual magnitudes of length, feed rate, dwell and acceleration", prog.extremes(bases=("layers",), lens=(0.001, 0.02, 1.0, 60.0), feeds=(0.02, 1.0, 25.0), dwells=(1e-3, 0.01, 1.0, 50.0, 4e4, 1e7), fws=prog.FWS if deep else ("marlin_jd", "marlin_jerk"), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR)), explore),
        Space("long", "dwells of unusual durations on a line of their own, with a move and with lines repeated", prog.repeats([[MV[0]], [MV[1], DW[0]], [DW[4]]], (1, 60), [[prog.op("G4", **{k: v}), MV[2]] for k in "PS" for v in (0.001, 0.5, 999.9, 3599.0, 3601.0, 86400.0, 1e6, 1e7)], fws=("marlin_jd", None)), explore),
        Space("deviations", "base programs with one dwell inserted anywhere", prog.deviations(alphabet=DW if deep else DW[0:6:2], fws=prog.FWS if deep else ("marlin_jd", "marlin_jerk"), bases=("layers", "zigzag", "spiral", "line") if deep else ("layers", "zigzag")), explore),
    ]
