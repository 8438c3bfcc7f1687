"""C12: invalid or incomplete setups are rejected, valid ones run."""

import itertools

import yaml

from .. import prog, refplan, refvm
from ..core import Product, Skip, Space, Words, require
from ..prog import close

TITLE = "a simulation starts if and only if its setup is complete, consistent and known"
ASSUMPTIONS = ["a firmware entry without a value means no cornering rule", "values of the shipped presets are taken from the shipped file"]

REQ = ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "firmware")
FULL = {"nozzle_diam": 0.4, "filament_diam": 1.75, "p_vel": 31, "p_acc": 900, "jerk": 7, "vX": 101, "vY": 102, "vZ": 13, "vE": 34, "firmware": "marlin_jd"}
UNKNOWN = ("Firmware", "p_vel_", "t_vel", "VX", "ve", "layer_Cue", "F", "units", "absolute_position", "_X", "x", "speed", "printer", "initial_position", "p-acc", "jerk ")
PROGRAM = "G1 X10 F3000\nG1 Y5 E0.4\n;L\nG1 X7 Y7 E0.9\n"


def attempt(c):
    """Build a setup the way the case says and simulate; returns the simulation."""
    from pyGCodeDecode.gcode_interpreter import setup, simulation

    A = prog.adapter()
    d = {k: v for k, v in FULL.items() if k not in c["drop"]}
    if c.get("via") == "preset":
        d.update({k: 1 for k in c["add"]})
    f = A.scratch() / "c12.yaml"
    f.write_text(yaml.safe_dump({"mach": d, "other": FULL}))
    with A.quiet():
        s = setup(presets_file=f, layer_cue=c["cue"])
        s.select_printer("mach")
        if c.get("via") == "property":
            s.set_property({k: 1 for k in c["add"]})
        g = A.scratch() / "nofile.gcode" if c.get("nofile") else A.write_gcode(PROGRAM)
        kw = {}
        if c.get("unit") is not None:
            kw["output_unit_system"] = c["unit"]
        return simulation(gcode_path=g, machine_name=c["name"], initial_machine_setup=None if c.get("nosetup") else s, **kw)


def explore(c, rec):
    A = prog.adapter()
    ok = (
        not any(k in REQ for k in c["drop"])
        and not c["add"]
        and c.get("unit") in (None, "SI", "SImm", "inch")
        and c["name"] in (None, "mach")
        and not c.get("nosetup")
    )
    rec.path([(tuple(c["drop"]), tuple(c["add"])), (c["name"], c.get("unit"), c["cue"])], [repr(c)])
    try:
        sim = attempt(c)
    except Exception as e:
        require(not ok, "a valid setup is refused: %s: %s", type(e).__name__, e)
        require(not isinstance(e, FileNotFoundError), "an invalid setup is only noticed when reading the G-code: %s", e)
        rec.outcome("refused")
        return
    rec.trace()
    require(ok, "an invalid setup is simulated")
    require(A.segs(sim)[-1].t1 > 0, "nothing was simulated")
    rec.outcome("runs")


PRESET_FILE = None


def shipped():
    A = prog.adapter()
    import pathlib

    return yaml.safe_load(pathlib.Path(A.REPO, "pyGCodeDecode/data/default_printer_presets.yaml").read_text())


KNOWN_FW = {"anisoprint_a4": "MKA", "prusa_mini": "marlin_jerk", "prusa_mini_klipper": "klipper", "debugging": None}


def explore_shipped(c, rec):
    from pyGCodeDecode.gcode_interpreter import setup, simulation

    A = prog.adapter()
    p = shipped()[c["printer"]]
    for k in REQ:
        require(k in p, "shipped preset %s has no %s", c["printer"], k)
    if c["printer"] in KNOWN_FW:
        require(p["firmware"] == KNOWN_FW[c["printer"]], "shipped preset %s uses the firmware %r", c["printer"], p["firmware"])
    text = prog.text_of({"lines": c["lines"]})
    g = A.write_gcode(text)
    with A.quiet():
        a = simulation(gcode_path=g, machine_name=c["printer"])
        f = A.scratch() / "c12p.yaml"
        f.write_text(yaml.safe_dump({c["printer"]: p}))
        b = simulation(gcode_path=g, initial_machine_setup=setup(presets_file=f, printer=c["printer"]), machine_name=c["printer"] if c["named"] else None)
    rec.trace(2)
    ra, rb = [s.row() for s in A.segs(a)], [s.row() for s in A.segs(b)]
    require(ra == rb, "naming the machine %s gives another simulation than its preset", c["printer"])
    require(a.firmware == p["firmware"], "%s is simulated with the firmware %r", c["printer"], a.firmware)
    obs = refvm.run({**p, "X": 0.0, "Y": 0.0, "Z": 0.0, "E": 0.0}, [tuple(x) for x in c["lines"]])
    items = refplan.items_of(obs)
    if p["firmware"] == "marlin_jerk":
        if any(i.eonly for i in items if i.kind == "move"):
            raise Skip()
    if prog.ambiguous(items, p["firmware"]):
        raise Skip()
    refplan.plan(items, p["firmware"])
    prog.record(rec, {"fw": c["printer"], "cfg": {}, "cue": None, "lines": c["lines"]}, obs)
    got, want = ra[-1][1] if ra else 0.0, items[-1].t1 if items else 0.0
    require(close(got, want, 1e-6), "%s takes %r s, its preset says %r", c["printer"], got, want)
    rec.outcome(c["printer"], round(items[-1].t1, 9) if items else 0)


def explore_name(c, rec):
    """Machine names without and with a setup."""
    from pyGCodeDecode.gcode_interpreter import simulation

    A = prog.adapter()
    g = A.write_gcode(PROGRAM)
    ok = c["name"] in shipped()
    try:
        with A.quiet():
            sim = simulation(gcode_path=g, machine_name=c["name"], output_unit_system=c["unit"])
    except Exception:
        require(not (ok and c["unit"] in ("SI", "SImm", "inch")), "shipped machine %r is refused", c["name"])
        rec.outcome("refused")
        return
    require(ok and c["unit"] in ("SI", "SImm", "inch"), "machine %r in %r is simulated", c["name"], c["unit"])
    require(A.segs(sim)[0].p0 == (0.0, 0.0, 0.0, 0.0), "the simulation starts at %s", A.segs(sim)[0].p0)
    rec.state(c["name"], c["unit"])
    rec.trace()
    rec.outcome(c["name"])


W = [prog.g1(X=10, F=3000), prog.g1(Y=4, E=0.3), prog.g1(X=-0.5, E=0.05), prog.op("M204", P=300), prog.op("G4", P=50), prog.g1(E=-0.5), prog.g1(X=6, Z=0.2)]


def spaces(tier):
    deep = tier == "thorough"
    keys = REQ + ("nozzle_diam", "filament_diam")
    drops = [list(x) for n in range(0, 4 if deep else 3) for x in itertools.combinations(keys, n)]
    if deep:
        drops = [list(x) for n in range(0, len(keys) + 1) for x in itertools.combinations(keys, n)]
    base = dict(drop=[], add=[], name=None, cue=None)
    return [
        Space("missing", "subsets of keys left out x machine name x layer cue x G-code present", Product(drops, (None, "mach", "other"), (None, "L"), (False, True) , make=lambda d, n, c, nf: {"drop": d, "add": [], "name": n, "cue": c, "nofile": nf and (any(k in REQ for k in d) or n == "other")}), explore),
        Space(
            "unknown",
            "one or two unknown keys, from the preset or set later, x one key left out",
            Product([[]] + [[u] for u in UNKNOWN] + [list(x) for x in itertools.combinations(UNKNOWN, 2)], [[]] + [[k] for k in REQ], ("preset", "property"), (False, True), make=lambda a, d, via, nf: {"drop": d, "add": a, "name": None, "cue": None, "via": via, "nofile": nf and bool(a or d)}),
            explore,
        ),
        Space(
            "names",
            "machine name x unit system x with and without setup",
            Product((None, "mach", "other", "Mach", "", "nope"), (None, "SI", "SImm", "inch", "mm", "", "si"), (False, True), (False, True), make=lambda n, u, ns, nf: {"drop": [], "add": [], "name": n, "unit": u, "nosetup": ns, "cue": None, "nofile": nf and (ns or n not in (None, "mach") or u not in (None, "SI", "SImm", "inch"))}),
            explore,
        ),
        Space("default", "names of shipped and unknown machines x unit system", Product(list(shipped()) + ["x", "prusa", "Debugging"], ("SI", "SImm", "inch", "mm"), make=lambda n, u: {"name": n, "unit": u}), explore_name),
        Space("shipped", "every shipped preset x all programs of 1..%d operations over 7" % (4 if deep else 3), Product(list(shipped()), Words(W, 1, 4 if deep else 3), (True,) if not deep else (False, True), make=lambda p, ws, n: {"printer": p, "lines": prog.REL + list(ws), "named": n}), explore_shipped),
    ]
