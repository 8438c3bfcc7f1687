"""C27: move-level queries agree with the trajectory."""

from .. import prog
from ..core import Product, Skip, Space, require
from ..prog import close, n3
from .c17 import time_at

TITLE = "times at distances, lengths and flags of moves equal the trajectory's"
ASSUMPTIONS = ["distances beyond the move by more than 1e-4 are refused; blocks that only dwell are not moves"]


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def explore(c, rec):
    A = prog.adapter()
    r = prog.Run(c, rec, plan=False)
    before = [s.row() for s in r.segs]
    moves = {it.line: it for it in r.items if it.kind == "move"}
    pairs = {it.line: segs for it, segs in r.pairs() if it.kind == "move"}
    seen = 0
    blocks = list(r.sim.blocklist)
    order = range(len(blocks)) if not c.get("rev") else range(len(blocks) - 1, -1, -1)
    for bi in order:
        b, k = blocks[bi], r.blocks[bi]
        it = moves.get(k.line)
        if it is None:
            continue
        seen += 1
        segs = pairs[k.line]
        d3 = n3([x - y for x, y in zip(it.B, it.A)])
        require(close(float(b.get_block_travel()), d3, 1e-9), "line %d: travel length %r, should be %r", k.line, b.get_block_travel(), d3)
        adv = it.B[3] - it.A[3]
        require(bool(b.is_extruding) == (adv > 0), "line %d: extrusion flag %s, filament advances by %r", k.line, b.is_extruding, adv)
        vm = b.extrusion_block_max_vel()
        if adv > 0:
            want = [max(max(abs(s.v0[a]), abs(s.v1[a])) for s in segs) for a in range(4)]
            require(vm is not None and len(vm) == 4 and all(close(float(x), y, 1e-9) for x, y in zip(vm, want)), "line %d: maximum speeds while extruding %s, should be %s", k.line, vm, want)
        else:
            require(vm is None, "line %d: maximum speeds while extruding %s although nothing is extruded", k.line, vm)
        t0, t1 = segs[0].t0, segs[-1].t1
        require(raises(lambda: b.inverse_time_at_pos(-1e-3)), "line %d: distance -1e-3 is accepted", k.line)
        require(raises(lambda: b.inverse_time_at_pos(d3 + 1e-4)), "line %d: distance %r beyond its length %r is accepted", k.line, d3 + 1e-4, d3)
        require(raises(lambda: b.inverse_time_at_pos(2 * d3 + 1)), "line %d: distance %r beyond its length %r is accepted", k.line, 2 * d3 + 1, d3)
        if it.eonly:
            continue
        ds = [d3 * q for q in c["at"]]
        acc = 0.0
        for s in segs:
            acc += n3([x - y for x, y in zip(s.p1, s.p0)])
            ds += [x for x in (acc - 1e-4 * d3, acc, acc + 1e-4 * d3) if 0 <= x <= d3]
        last = None
        for d in sorted(ds):
            t = float(b.inverse_time_at_pos(d))
            want = t0 if d <= 0 else t1 if d >= d3 else time_at(segs, d)
            # at standstill the distance hardly changes with time: compare by position there
            if abs(t - want) > 1e-7 * (1 + want):
                v, p = r.sim.get_values(min(max(t, 0.0), r.t_end()))
                got = n3([x - y for x, y in zip(p, it.A)])
                require(abs(got - d) <= 1e-9 * (1 + d3) and t0 - 1e-9 <= t <= t1 + 1e-9 and abs(t - want) <= 1e-4, "line %d: distance %r at time %r, the trajectory covers it at %r (piece %r..%r)", k.line, d, t, want, t0, t1)
            require(last is None or t >= last - 1e-9, "line %d: time at %r before that of a shorter distance", k.line, d)
            last = t
            rec.compared()
    require(seen == len(moves), "%d moves in the trajectory, %d in the program", seen, len(moves))
    require([s.row() for s in A.segs(r.sim)] == before, "asking changed the trajectory")
    rec.outcome([round(t.t1, 9) for t in r.segs])


OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-0.4, Y=0.2, E=0.02),
    prog.g1(E=-0.8),
    prog.g1(E=0.8),
    prog.g1(Y=4, Z=0.3),
    prog.g1(X=3, E=-0.1, F=9000),
    prog.op("G4", P=250),
    [{"G1": {"X": 2.0, "E": 0.05}, "G4": {"P": 50.0}}, None],
    prog.op("M204", P=300),
]


def spaces(tier):
    deep = tier == "thorough"
    at = [i / 32 for i in range(33)] if deep else [0, 0.03, 0.25, 0.5, 0.77, 0.99, 1]
    f = lambda c: {**c, "at": at}
    return [
        Space("words", "all programs of 1..%d operations over 9" % (4 if deep else 3), Product(prog.words(OPS, 1, 4 if deep else 3, fws=("marlin_jd", "marlin_jerk") if not deep else prog.FWS, inits=((1.5, -2.25, 0.3, 7.125),)), (False,), make=lambda c, r: {**f(c), "rev": r}), explore),
        Space("grid", "polylines of 3 moves: lengths x feeds x turns x accelerations", Product(prog.kin_grid((0.05, 1.3, 40.0), (10.0, 120.0), (300, 4000), (8, 20) if deep else (8,), fws=prog.FWS if deep else ("klipper", None), turns=(0.0, 30.0, 90.0)), (False, True) if deep else (False,), make=lambda c, r: {**f(c), "rev": r}), explore),
        Space("deviations", "base programs with one operation inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[2:8:3], fws=prog.FWS if deep else ("MKA",)), (True,), make=lambda c, r: {**f(c), "rev": r}), explore),
    ]
