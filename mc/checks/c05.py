"""C05: motion obeys physics and the configured limits (monitor on every piece of every trajectory)."""

import math

from .. import prog
from ..core import Concat, Space, require
from ..prog import close, n3, vclose

TITLE = "piecewise linear velocity, straight paths, speed and acceleration limits"
ASSUMPTIONS = ["speeds within 1e-6 relative, positions within 1e-6 mm, accelerations compared as speed changes within 1e-6"]


def explore(c, rec):
    r = prog.Run(c, rec, plan=False)
    for it, segs in r.pairs():
        if it.kind == "dwell":
            for s in segs:
                require(max(map(abs, s.v0 + s.v1)) <= 1e-9, "line %d: velocity %s/%s during a dwell", it.line, s.v0, s.v1)
            continue
        v_lim, acc = it.speed, it.acc
        done = 0.0
        for s in segs:
            dt = s.t1 - s.t0
            for k in range(4):
                want = (s.v0[k] + s.v1[k]) / 2 * dt
                require(
                    abs(s.p1[k] - s.p0[k] - want) <= 1e-7 * (1 + abs(want)),
                    "line %d: axis %d moves %r in a piece, its velocities give %r",
                    it.line, k, s.p1[k] - s.p0[k], want,
                )
            # along the commanded straight line, forwards
            a = [s.v0[k] for k in range(4)]
            b = [s.v1[k] for k in range(4)]
            va = sum(x * u for x, u in zip(a, it.unit)) / sum(u * u for u in it.unit)
            vb = sum(x * u for x, u in zip(b, it.unit)) / sum(u * u for u in it.unit)
            for k in range(4):
                require(abs(a[k] - va * it.unit[k]) <= 1e-6 * (1 + abs(va)), "line %d: velocity %s leaves the line of the move %s", it.line, a, it.unit)
                require(abs(b[k] - vb * it.unit[k]) <= 1e-6 * (1 + abs(vb)), "line %d: velocity %s leaves the line of the move %s", it.line, b, it.unit)
            require(va >= -1e-9 and vb >= -1e-9, "line %d: moves backwards (%r, %r)", it.line, va, vb)
            require(max(va, vb) <= v_lim * (1 + 1e-6) + 1e-9, "line %d: speed %r exceeds the feed rate %r", it.line, max(va, vb), v_lim)
            dv = abs(vb - va)
            require(
                dv <= 1e-6 * (1 + v_lim) or abs(dv - acc * dt) <= 1e-6 * (1 + dv) + acc * 1e-15 * s.t1,
                "line %d: acceleration %r, setting %r (speeds %r to %r in %r s)",
                it.line, dv / dt if dt else math.inf, acc, va, vb, dt,
            )
            done += (va + vb) / 2 * dt
            end = [it.A[k] + done * it.unit[k] for k in range(4)]
            require(vclose(s.p1, end, 1e-6), "line %d: piece ends at %s, the line of the move is at %s there", it.line, s.p1, end)
            # the public evaluation of the piece is the same motion
            rec.compared(4)
        require(abs(done - it.d) <= 1e-6 * (1 + it.d), "line %d: travels %r of %r", it.line, done, it.d)
    # velocity and position reported at times inside the pieces
    for s in r.segs[:40]:
        dt = s.t1 - s.t0
        if dt < 1e-9 * (1 + s.t1):
            continue
        for q in (0.25, 0.5):
            v, p = r.sim.get_values(s.t0 + q * dt)
            for k in range(4):
                vw = s.v0[k] + (s.v1[k] - s.v0[k]) * q
                pw = s.p0[k] + (s.v0[k] + vw) / 2 * q * dt
                require(close(v[k], vw, 1e-6) and close(p[k], pw, 1e-6), "values at t=%r: %s %s, piece gives %r %r on axis %d", s.t0 + q * dt, v, p, vw, pw, k)
    rec.outcome([(round(n3(s.v1), 6), round(s.t1, 9)) for s in r.segs])


def spaces(tier):
    deep = tier == "thorough"
    E = [prog.g1(X=1, Y=1, Z=1, E=3), prog.g1(X=0.001, E=2), prog.g1(Z=-5, E=-1), prog.op("M203", X=1, Y=1, Z=1, E=1), prog.g1(E=0.3, F=120), [{"M204": {"P": 300.0}, "G1": {"X": 6.0, "E": 0.1}}, None], [{"G1": {"X": -6.0, "Y": 1.0, "F": 2400.0}, "M205": {"X": 1.0}, "M204": {"P": 900.0}}, None], [{"G1": {"E": 1.5}, "M204": {"P": 2100.0}}, None]]
    return [
        Space("words", "all programs of 1..%d operations over 23 operations" % (3 if deep else 2), prog.words(prog.MOTION + E, 1, 3 if deep else 2, cfgs=({}, {"p_acc": 150, "jerk": 1, "p_vel": 80}), inits=((1.5, -2.25, 0.3, 7.125),)), explore),
        Space("kinematics", "3 moves: lengths x feeds x turn x acceleration x jerk", prog.kin_grid((0.05, 1.0, 12.0), (8.0, 60.0), (100, 1500), (0.0, 8.0) if not deep else (0.0, 2.0, 8.0, 30.0), turns=(0.0, 20.0, 90.0, 180.0) if deep else (20.0, 90.0)), explore),
        Space("brink", "moves as long as they need to speed up or brake, but for a hair of 1e-2 to 1e-8", prog.brink(fws=prog.FWS if deep else ("marlin_jd", "klipper", "MKA"), accs=(200, 1000) if deep else (1000,)), explore),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", prog.extremes(lens=(0.001, 0.02, 1.0, 60.0, 1000.0), feeds=(0.001, 0.02, 1.0, 25.0, 200.0), accs=(1, 20, 1000, 30000), dwells=(1e-3, 1.0, 4e4) if deep else (1.0,), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR) if deep else (prog.FAR,), fws=prog.FWS if deep else ("marlin_jd", "marlin_jerk")), explore),
        Space("deviations", "4 base programs with one operation inserted anywhere or one line removed", prog.deviations(alphabet=prog.MOTION + E if deep else prog.MOTION[0:11:3] + E[1:]), explore),
    ]
