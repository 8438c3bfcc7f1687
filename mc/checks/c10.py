"""C10: unit systems scale lengths uniformly, never time."""

import yaml

from .. import prog
from ..core import Product, Space, Words, require
from ..prog import close

TITLE = "every reported length scales with the chosen unit system, nothing else does"
ASSUMPTIONS = ["metre 1e-3, millimetre 1, inch 1/25.4 for outputs; the inverses for initial positions"]
FACT = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}
INV = {"SI": 1e3, "SImm": 1.0, "inch": 25.4}
CALLS = (None, "SI", "SImm", "inch", "parsec", "")

P1 = [prog.g1(X=12, Y=3, E=0.5, F=3000), prog.g1(E=-0.8), prog.op("G4", P=200), prog.g1(Z=0.4), prog.g1(X=-7, Y=0.5, E=1.5)]
P2 = [[{"G20": {}}, None], prog.g1(X=1, E=0.02, F=100), prog.g1(Y=-0.5), prog.g1(X=-0.25, E=0.05), [{"G21": {}}, None], prog.g1(Z=3, E=0.2)]
# unusual magnitudes: fast, far and slow
P3 = [prog.g1(X=5000, Y=3, E=500, F=1800000), [{"M204": {"P": 60000.0}}, None], prog.g1(X=-4000, Z=90, E=0.5), prog.g1(X=0.002, E=0.0001, F=2), prog.op("G4", P=900)]
PROGS = {"mm": P1, "mixed": P2, "extreme": P3}
INIT = (1.5, -2.0, 0.3, 7.0)


def reference(name, fw):
    A = prog.adapter()
    sim = A.simulate("".join(prog.refvm.text(w, k) + "\n" for w, k in prog.REL + PROGS[name]), firmware=fw, initial=INIT, output_unit_system="SImm")
    return sim, A.trace(sim)


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def expected_extent(blocks):
    pts = [p for b in blocks if b.segs and b.B[3] - b.A[3] > 0 for p in (b.A[:3], b.B[:3])]
    return [[min(p[k] for p in pts) for k in range(3)], [max(p[k] for p in pts) for k in range(3)]]


def expected_vmax(blocks):
    return max(max(prog.n3(s.v0), prog.n3(s.v1)) for b in blocks if b.B[3] - b.A[3] > 0 for s in b.segs)


def explore(c, rec):
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

    A = prog.adapter()
    _, blocks = reference(c["program"], c["fw"])
    segs = [s for b in blocks for s in b.segs]
    text = "".join(prog.refvm.text(w, k) + "\n" for w, k in prog.REL + PROGS[c["program"]])
    sim = A.simulate(text, firmware=c["fw"], initial=INIT, output_unit_system=c["unit"])
    rec.trace(2)
    before = [s.row() for s in A.segs(sim)]
    require(before == [s.row() for s in segs], "the output unit system changes the simulated motion")
    T = segs[-1].t1
    key = (c["program"], c["fw"], c["unit"])
    for what, unit in c["ops"]:
        kw = {} if unit is None else {"output_unit_system": unit}
        f = FACT.get(c["unit"] if unit is None else unit)
        rec.state(key, what, unit)
        with A.quiet():
            if f is None:
                fn = {
                    "values": lambda: sim.get_values(0.3 * T, **kw),
                    "extent": lambda: sim.extrusion_extent(**kw),
                    "vmax": lambda: sim.extrusion_max_vel(**kw),
                    "events": lambda: generate_abaqus_event_series(sim, filepath=A.scratch() / "e.inp", **kw),
                    "summary": lambda: sim.get_scaling_factor(**kw),
                }[what]
                require(raises(fn), "%s accepts the unit system %r", what, unit)
            elif what == "values":
                from .c09 import expected

                for q in (0.0, 0.11, 0.21, 0.35, 0.5, 0.81, 1.0):
                    v, p = sim.get_values(q * T, **kw)
                    ve, pe = expected(segs, q * T)
                    for k in range(4):
                        require(close(v[k], f * ve[k], 1e-7) and close(p[k], f * pe[k], 1e-7), "values at %r in %s: %s %s, should be %s x %s %s", q * T, unit, v, p, f, ve, pe)
            elif what == "extent":
                got = sim.extrusion_extent(**kw)
                want = expected_extent(blocks)
                for i in range(2):
                    for k in range(3):
                        require(close(float(got[i][k]), f * want[i][k], 1e-9), "extent in %s is %s, should be %s x %s", unit, got, f, want)
            elif what == "vmax":
                got = float(sim.extrusion_max_vel(**kw))
                require(close(got, f * expected_vmax(blocks), 1e-9), "maximum speed in %s is %r, should be %r", unit, got, f * expected_vmax(blocks))
            elif what == "events":
                rows = generate_abaqus_event_series(sim, filepath=A.scratch() / "e.inp", **kw)
                pts = [segs[0].p0] + [s.p1 for s in segs]
                ts = [0.0] + [s.t1 for s in segs]
                require(len(rows) == len(pts), "%d events for %d points", len(rows), len(pts))
                for r, p, t in zip(rows, pts, ts):
                    require(close(float(r[0]), t, 1e-9), "event time %r, should be %r", r[0], t)
                    require(all(close(float(r[1 + k]), f * p[k], 1e-9) for k in range(3)), "event %s, should be at %s x %s", r, f, p[:3])
            elif what == "summary":
                u = FACT[c["unit"]]
                sim.save_summary(A.scratch() / "s.yaml")
                d = yaml.safe_load((A.scratch() / "s.yaml").read_text())
                want = expected_extent(blocks)
                require(close(d["t_end"], T, 1e-9), "summary ends at %r, trajectory at %r", d["t_end"], T)
                for k, ax in enumerate("xyz"):
                    require(close(d[ax + "_min"], u * want[0][k], 1e-9) and close(d[ax + "_max"], u * want[1][k], 1e-9), "summary in %s is %s, extent %s", c["unit"], d, want)
                require(close(d["max_extrusion_travel_velocity"], u * expected_vmax(blocks), 1e-9), "summary speed %r, should be %r", d["max_extrusion_travel_velocity"], u * expected_vmax(blocks))
                require(close(sim.get_scaling_factor(), u, 1e-12) and close(sim.get_scaling_factor(**kw), f, 1e-12), "scaling factor")
        rec.compared()
    require([s.row() for s in A.segs(sim)] == before, "reporting changed the simulated motion")
    rec.path([(key, 0)] + [(key, repr(x)) for x in c["ops"]], [repr(x) for x in c["ops"]])
    rec.outcome(key, repr(c["ops"][-1:]))


POS = ((1.0, 2.0, 3.0, 4.0), (-0.25, 0.0, 0.007, 12.5), {"X": 0.5, "Y": -1.0, "Z": 2.0, "E": 0.1})


def explore_initial(c, rec):
    A = prog.adapter()
    s = A.make_setup(firmware=c["fw"], initial=(9.0, 8.0, 7.0, 6.0))
    want = {"X": 9.0, "Y": 8.0, "Z": 7.0, "E": 6.0}
    own = c.get("own")  # the unit system specified for the setup, used where a call specifies none
    if own is not None:
        s.input_unit_system = own
    for pos, unit in c["ops"]:
        kw = {} if unit is None else {"input_unit_system": unit}
        if unit in ("parsec", ""):
            require(raises(lambda: s.set_initial_position(tuple(pos) if not isinstance(pos, dict) else dict(pos), **kw)), "initial position accepted in %r", unit)
        else:
            given = dict(pos) if isinstance(pos, dict) else tuple(pos)
            s.set_initial_position(given, **kw)
            p = pos if isinstance(pos, dict) else dict(zip("XYZE", pos))
            want = {k: INV[unit or own or "SImm"] * p[k] for k in "XYZE"}
        d = s.get_dict()
        for k in "XYZE":
            require(close(d[k], want[k], 1e-12), "initial %s is %r, should be %r", k, d[k], want[k])
        rec.state(repr(sorted(want.items())))
        rec.compared(4)
    sim = A.simulate("G1 X500 Y1\n", setup=s)
    rec.trace()
    p = A.segs(sim)[0].p0
    require(all(close(p[k], want["XYZE"[k]], 1e-9) for k in range(4)), "simulation starts at %s, setup says %s", p, want)
    rec.path([0] + [repr(x) for x in c["ops"]], [repr(x) for x in c["ops"]])
    rec.outcome(repr(sorted(want.items())))


def explore_reject(c, rec):
    A = prog.adapter()
    ok = c["unit"] in FACT
    s = A.make_setup(firmware=None)
    bad = raises(lambda: A.simulate("G1 X5\n", setup=s, output_unit_system=c["unit"]))
    require(bad != ok, "unit system %r is %s", c["unit"], "rejected" if bad else "accepted")
    rec.state(c["unit"])
    rec.outcome(bad)
    rec.trace()


def spaces(tier):
    deep = tier == "thorough"
    ops = [(w, u) for w in ("values", "extent", "vmax", "events", "summary") for u in CALLS]
    n = 3 if deep else 2
    inits = [(p, u) for p in POS for u in CALLS]
    return [
        Space("calls", "unit system of the simulation x all sequences of %d reports with a unit system each" % n, Product(PROGS, FACT, prog.FWS if deep and n < 3 else (("marlin_jd", "MKA") if deep else ("MKA",)), Words(ops, 1, n), make=lambda p, u, fw, o: {"program": p, "unit": u, "fw": fw, "ops": [list(x) for x in o]}), explore),
        Space("initial", "all sequences of 1..%d initial positions in unit systems" % n, Product((None,), Words(inits, 1, n), make=lambda fw, o: {"fw": fw, "ops": [list(x) for x in o]}), explore_initial),
        Space("own", "unit system of the setup x all sequences of 1..2 initial positions in unit systems", Product(tuple(INV), Words(inits, 1, 2), make=lambda u, o: {"fw": None, "own": u, "ops": [list(x) for x in o]}), explore_initial),
        Space("reject", "unit system names", [{"unit": u} for u in ("SI", "SImm", "inch", "si", "mm", "", "SIMM", "Inch", "inches", None, 1, "m", "SI ")], explore_reject),
    ]
