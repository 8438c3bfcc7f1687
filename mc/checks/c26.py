"""C26: trajectory pieces evaluate and validate correctly."""

import itertools
import math

from ..core import Product, Space, require

TITLE = "pieces evaluate to the integral of a linear velocity and are validated"
ASSUMPTIONS = [
    "tolerance of the position check 1e-6: errors up to 5e-7 are accepted, from 2e-6 refused, in between not compared",
    "the end position of the filament axis is not part of the check",
    "the target speed is a limit on the head's speed; up to rounding (1e-9) it is met, beyond 0.01 % it is exceeded",
]


def K():
    from .. import adapter  # noqa: F401
    from pyGCodeDecode.utils import position, segment, velocity

    return position, velocity, segment


class Settings:
    def __init__(self, speed):
        self.speed = speed
        self.p_acc, self.jerk, self.vX, self.vY, self.vZ, self.vE, self.units = 1000, 10, 180, 180, 30, 33, "SImm"


def comps(v):
    return [float(x) for x in v.get_vec(withExtrusion=True)]


def near(a, b, tol=1e-9):
    return all(abs(x - y) <= tol * (1 + max(abs(x), abs(y))) for x, y in zip(a, b))


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def make(c):
    position, velocity, segment = K()
    t0, dt, p0, v0, v1 = c["t0"], c["dt"], c["p0"], c["v0"], c["v1"]
    p1 = [p + (a + b) / 2 * dt for p, a, b in zip(p0, v0, v1)]
    return dict(t_begin=t0, t_end=t0 + dt, pos_begin=position(*p0), vel_begin=velocity(*v0), pos_end=position(*p1), vel_end=velocity(*v1)), p1


def row(s):
    return [float(s.t_begin), float(s.t_end), comps(s.pos_begin), comps(s.vel_begin), comps(s.pos_end), comps(s.vel_end)]


def evaluate(c, rec):
    position, velocity, segment = K()
    kw, p1 = make(c)
    s = segment(**kw)
    before = row(s)
    t0, t1, p0, v0, v1 = kw["t_begin"], kw["t_end"], c["p0"], c["v0"], c["v1"]
    dt = t1 - t0
    for q in c["at"]:
        t = t0 + q * dt if q < 1 else t1
        tau = t - t0
        v = [a + (b - a) * (tau / dt if dt > 0 else 0) for a, b in zip(v0, v1)]
        p = [x + (a + b) / 2 * tau for x, a, b in zip(p0, v0, v)]
        gv, gp = s.get_velocity(t), s.get_position(t)
        require(type(gv) is velocity and type(gp) is position, "kinds %s %s", type(gv).__name__, type(gp).__name__)
        require(near(comps(gv), v), "velocity at %r of the duration is %s, should be %s", q, comps(gv), v)
        require(near(comps(gp), p), "position at %r of the duration is %s, should be %s", q, comps(gp), p)
        rec.compared(2)
    if dt > 0:
        require(near(comps(s.get_velocity(t1)), v1) and near(comps(s.get_position(t1)), p1), "values at the end: %s %s, should be %s %s", comps(s.get_velocity(t1)), comps(s.get_position(t1)), v1, p1)
    require(near(comps(s.get_velocity(t0)), v0) and near(comps(s.get_position(t0)), p0), "values at the begin: %s %s", comps(s.get_velocity(t0)), comps(s.get_position(t0)))
    for t in (t0 - 1e-3, t0 - 1e-6, t0 - 1e3, t1 + 1e-3, t1 + 1e-6, t1 + 1e3):
        require(raises(lambda: s.get_velocity(t)), "velocity at %r accepted for a piece %r..%r", t, t0, t1)
        require(raises(lambda: s.get_position(t)), "position at %r accepted for a piece %r..%r", t, t0, t1)
    d = [b - a for a, b in zip(p0, p1)]
    require(near([float(s.get_segm_len())], [math.sqrt(sum(x * x for x in d[:3]))]), "length %r", s.get_segm_len())
    require(near([float(s.get_segm_duration())], [dt]), "duration %r, should be %r", s.get_segm_duration(), dt)
    if abs(d[3]) > 1e-9 or d[3] == 0:
        require(bool(s.is_extruding()) == (d[3] > 1e-9), "is_extruding is %s for filament %r", s.is_extruding(), d[3])
    require(row(s) == before, "evaluating changed the piece")
    # shifting, repeatedly
    tot = 0.0
    for dlt in c["shift"]:
        s.move_segment_time(dlt)
        tot += dlt
        r = row(s)
        require(near(r[:2], [t0 + tot, t1 + tot], 1e-12), "shifted by %r to %r..%r, was %r..%r", tot, r[0], r[1], t0, t1)
        require(r[2:] == before[2:], "shifting in time changed positions or velocities")
        rec.compared()
        if dt > 1e-4:  # shorter ones lose digits to the shift
            tm = s.t_begin + 0.25 * (s.t_end - s.t_begin)
            v = [a + (b - a) * 0.25 for a, b in zip(v0, v1)]
            require(near(comps(s.get_velocity(tm)), v, 1e-6), "velocity after the shift %s, should be %s", comps(s.get_velocity(tm)), v)
    rec.state(repr(before))
    rec.step(repr(before), c["shift"])
    rec.trace()
    rec.outcome(repr(p1))


def validate(c, rec):
    """A consistent piece with one or two fields changed."""
    position, velocity, segment = K()
    kw, p1 = make(c)
    good = dict(kw)
    s = segment(**kw)
    ok = True
    for field, k, dlt in c["change"]:
        if field in ("pos_end", "pos_begin", "vel_begin", "vel_end"):
            x = comps(kw[field])
            x[k] += dlt
            kw[field] = type(kw[field])(*x)
        else:
            kw[field] = kw[field] + dlt
    t0, t1 = kw["t_begin"], kw["t_end"]
    p0, v0, v1, pe = (comps(kw[f]) for f in ("pos_begin", "vel_begin", "vel_end", "pos_end"))
    err = math.sqrt(sum((p + (a + b) / 2 * (t1 - t0) - e) ** 2 for p, a, b, e in list(zip(p0, v0, v1, pe))[:3]))
    if 5e-7 < err < 2e-6:
        rec.skipped += 1
        return
    ok = err <= 5e-7 and t0 <= t1
    bad = raises(lambda: segment(**kw))
    require(bad != ok, "a piece with position error %r and times %r..%r is %s", err, t0, t1, "refused" if bad else "accepted")
    # the same, checking after the change of a good one
    for f in ("t_begin", "t_end", "pos_begin", "pos_end", "vel_begin", "vel_end"):
        setattr(s, f, kw[f])
    bad = raises(lambda: s.self_check())
    require(bad != ok, "checking a piece with position error %r and times %r..%r: %s", err, t0, t1, "refused" if bad else "accepted")
    # settings
    m = [math.sqrt(sum(x * x for x in v[:3])) for v in (v0, v1)]
    # limits just kept and just exceeded by one end or both
    for speed in c["speeds"] + [x / q for x in m for q in (1.0, 1 - 1e-6, 1.0002, 1.0102, 1.5, 1e3) if x > 1e-2]:
        if any(speed * (1 + 1e-9) < x < speed * 1.0001 for x in m):
            rec.skipped += 1
            continue
        over = any(x >= speed * 1.0001 and x > 0 for x in m)
        g = segment(**good) if not ok else segment(**kw)
        if not ok:
            for f in kw:
                setattr(g, f, kw[f])
        refused = raises(lambda: g.self_check(p_settings=Settings(speed)))
        require(refused == (over or not ok), "speeds %s with a target of %r: %s (consistent: %s)", m, speed, "refused" if refused else "accepted", ok)
        rec.step(repr(kw["t_begin"]), (speed, over))
        rec.compared()
    rec.state(repr((c["v0"], c["v1"], c["dt"], c["change"])))
    rec.trace()
    rec.compared(2)
    rec.outcome(ok, repr(c["change"]))


def initial(c, rec):
    position, velocity, segment = K()
    p = c["p"]
    s = segment.create_initial(position(*p)) if p is not None else segment.create_initial()
    want = p or [0, 0, 0, 0]
    require(float(s.t_begin) == 0 and float(s.t_end) == 0, "initial piece from %r to %r", s.t_begin, s.t_end)
    require(comps(s.pos_begin) == list(map(float, want)) == comps(s.pos_end), "initial piece at %s, should be %s", comps(s.pos_begin), want)
    require(not any(comps(s.vel_begin) + comps(s.vel_end)), "initial piece moves")
    rec.state(repr(p))
    rec.trace()
    rec.outcome(repr(p))


def results(c, rec):
    """Stored results of a piece along one direction: speeds, their shortfalls from the target, the shortfall along the way."""
    position, velocity, segment = K()
    kw, p1 = make(c)
    s = segment(**kw)
    other = segment(**kw)
    before = row(s)
    require(raises(lambda: s.get_result("vel")), "a result is returned before any was calculated")
    a, b = (math.hypot(*v[:3]) for v in (c["v0"], c["v1"]))
    for vt in c["targets"]:
        s.calc_results(vt)
        got = {k: [float(x) for x in s.get_result(k)] for k in ("vel", "rel_vel_err", "segm_error")}
        require(near(got["vel"], [a, b]), "stored speeds %s, should be %s", got["vel"], [a, b])
        short = [(vt - a) / vt, (vt - b) / vt] if vt > 0 else [0, 0]
        require(near(got["rel_vel_err"], short), "stored shortfalls %s of the speeds %s from %r, should be %s", got["rel_vel_err"], [a, b], vt, short)
        require(len(got["segm_error"]) == 2 and got["segm_error"][0] == got["segm_error"][1], "stored error %s", got["segm_error"])
        if vt > 0 and abs(a - b) > 1e-7 and c["dt"] > 1e-6:
            want = c["dt"] * ((a + b) / 2 - (a * a + a * b + b * b) / (3 * vt))
            tol = 1e-6 * (1 + abs(want)) + 1e-14 * max(a, b) ** 3 * c["dt"] / (abs(a - b) * vt)
            require(abs(got["segm_error"][0] - want) <= tol, "stored error %r along the piece with speeds %s and target %r, should be %r", got["segm_error"][0], [a, b], vt, want)
        elif vt == 0 or c["dt"] == 0:
            require(got["segm_error"][0] == 0, "stored error %r", got["segm_error"][0])
        rec.step((a, b, c["dt"]), vt)
        rec.compared(5)
    require(raises(lambda: s.get_result("nothing")), "an unknown result is returned")
    require(raises(lambda: other.get_result("vel")), "results of another piece are returned")
    require(row(s) == before, "calculating results changed the piece")
    rec.state(a, b, c["dt"])
    rec.trace()
    rec.outcome(a, b, c["dt"])


VELS = ([0, 0, 0, 0], [30, 0, 0, 0], [0, -12.5, 0, 0.6], [18, -24, 7, 1.25], [0, 0, 0, -25.0], [-1e-3, 2e-3, 0, 0], [120, 160, 0, 9])
POS = ([0, 0, 0, 0], [12.3, -4.5, 0.6, 789.1], [-1e3, 2e3, 250.0, -5.0])


TARGETS = [list(t) for k in (1, 2) for t in itertools.product((0.0, 0.4, 1.0, 30.0, 200.0), repeat=k)]


def spaces(tier):
    deep = tier == "thorough"
    at = [i / 16 for i in range(17)] if deep else [0, 0.1, 0.5, 0.83, 1]
    shifts = [[1.5], [-0.25, 0.25], [1e3, -999.0, 0.125], [0.0]]
    ch = [[]] + [[[f, k, d]] for f in ("pos_begin", "pos_end", "vel_begin", "vel_end") for k in range(4) for d in (1e-12, 4e-7, -3e-6, 2e-4, -0.3, 5.0)]
    ch += [[["t_end", 0, d]] for d in (1e-13, 0.07, -0.03, -10.0)] + [[["t_end", 0, -d], ["t_begin", 0, e]] for d, e in ((0.03, 1e-6), (0.03, 5e-4), (1.7, 1e-7), (1.7, 0.9), (9.0, 1e-5))] + [[["t_begin", 0, d]] for d in (0.07, -0.04, 10.0)]
    two = [a + b for a, b in itertools.combinations(ch[1:], 2)] if deep else [a + b for a, b in itertools.combinations(ch[4::9] + ch[-4:], 2)]
    mk = lambda t0, dt, p0, v0, v1, sh: {"t0": t0, "dt": dt, "p0": p0, "v0": v0, "v1": v1, "at": at, "shift": sh}
    mv = lambda t0, dt, p0, v0, v1, chg: {"t0": t0, "dt": dt, "p0": p0, "v0": v0, "v1": v1, "change": chg, "speeds": [5.0, 13.0, 30.0, 60.0, 200.0]}
    mr = lambda t0, dt, p0, d, a, b, tg: {"t0": t0, "dt": dt, "p0": p0, "v0": [a * x for x in d], "v1": [b * x for x in d], "targets": tg}
    return [
        Space("evaluate", "times x durations x positions x begin and end velocities x shifts", Product((0.0, 0.7, 1234.5, 86400.0), (1e-4, 0.03, 1.7, 60.0, 9000.0), POS, VELS, VELS, shifts, make=mk), evaluate),
        Space("brief", "pieces shorter than the tolerance of the check would tell", Product((0.0, 0.7), (5e-8, 3e-6), POS, VELS, VELS, shifts[:2], make=mk), evaluate),
        Space("rest", "pieces of zero duration", Product((0.0, 3.25), (0.0,), POS, VELS, VELS, shifts[:2], make=lambda t0, dt, p0, v0, v1, sh: mk(t0, dt, p0, v0, v1, sh)), evaluate),
        Space("validate", "pieces with one field changed x target speeds", Product((0.0, 41.5, 7200.0) if not deep else (0.0, 41.5, 7200.0, 86400.0), (0.03, 1.7) if not deep else (1e-4, 0.03, 1.7, 9.0), POS[:2], VELS, VELS, ch, make=mv), validate),
        Space("backwards", "pieces at rest and slow pieces with times just or far backwards", Product((0.0, 41.5, 9e3), (0.0, 1e-6, 5e-4, 0.03, 9.0), POS, ([0, 0, 0, 0], [1e-9, 0, 0, 0], [0, 0, 0, 5.0]), ([0, 0, 0, 0], [0, 0, 0, -5.0]), [-1e-12, -1e-7, -1e-6, -5e-4, -0.02, -1.0, -50.0], make=lambda t0, dt, p0, v0, v1, d: mv(t0, dt, p0, v0, v1, [["t_end", 0, -dt + d]])), validate),
        Space("validate two", "pieces with two fields changed", Product((0.5,), (0.6,), POS[1:2], VELS[1:4], VELS[2:5], two, make=mv), validate),
        Space("results", "speeds x direction x duration x all sequences of 1..2 targets", Product((0.0, 3.5), (0.0, 5e-6, 4e-5, 1e-3, 0.4, 20.0), POS[1:2], ([1, 0, 0, 0.03], [-0.6, 0, 0.8, 0], [0, 0, -1, 0]), (0.0, 0.06, 1.0, 12.5, 60.0, 200.0), (0.0, 0.06, 1.0, 12.5, 60.0, 200.0), TARGETS, make=mr), results),
        Space("results of hardly changing speeds", "speeds x changes of 1e-6 to 0.01 x duration x targets", Product((0.0, 3.5), (1e-3, 0.4, 20.0), POS[1:2], ([1, 0, 0, 0.03], [-0.6, 0, 0.8, 0]), (1.0, 12.5, 60.0), (1e-2, -1e-2, 5e-4, -5e-4, 1e-4, 1e-5, -1e-6), TARGETS[:4], make=lambda t0, dt, p0, d, a, e, tg: mr(t0, dt, p0, d, a, a + e, tg)), results),
        Space("initial", "initial pieces", [{"p": p} for p in (None,) + POS], initial),
    ]
