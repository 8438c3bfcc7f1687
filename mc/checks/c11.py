"""C11: the printer setup reflects exactly the calls made on it."""

from .. import prog
from ..core import Product, Space, Words, require
from ..prog import close

TITLE = "setup contents after every sequence of calls"
ASSUMPTIONS = ["properties that collide with position, name or layer cue are overridden by those", "initial position dictionaries have exactly the four keys"]

PRESETS = {
    "one": {"nozzle_diam": 0.4, "filament_diam": 1.75, "p_vel": 31, "p_acc": 900, "jerk": 7, "vX": 101, "vY": 102, "vZ": 13, "vE": 34, "firmware": "marlin_jd"},
    "two": {"p_vel": 42, "p_acc": 1800, "jerk": 9, "vX": 201, "vY": 202, "vZ": 23, "vE": 44, "firmware": "klipper"},
    # as good as, but not the same as the first one
    "twin": {"nozzle_diam": 0.4, "filament_diam": 1.75, "p_vel": 31, "p_acc": 900, "jerk": 7, "vX": 101, "vY": 102, "vZ": 13, "vE": 34, "firmware": "marlin_jd"},
}
PRESETS["alias"] = PRESETS["two"]  # written as a YAML alias

OPS = {
    "select one": ("select", "one"),
    "select two": ("select", "two"),
    "select twin": ("select", "twin"),
    "select alias": ("select", "alias"),
    "select unknown": ("select", "three"),
    "p_vel": ("prop", {"p_vel": 77}),
    "several": ("prop", {"p_acc": 123, "vX": 55, "firmware": "MKA"}),
    "jerk": ("prop", {"jerk": 0}),
    "nothing": ("prop", {}),
    "none value": ("prop", {"firmware": None, "nozzle_diam": 0}),
    "odd values": ("prop", {"firmware": "", "filament_diam": False, "vE": 0.5, "jerk": 0.0}),
    "cue": ("prop", {"layer_cue": "CUE"}),
    "empty cue": ("prop", {"layer_cue": ""}),
    "collide": ("prop", {"X": 99, "printer_name": "zzz", "vY": 66}),
    "tuple": ("pos", (1.0, -2.0, 0.5, 3.0)),
    "dict": ("pos", {"X": 4.0, "Y": 5.0, "Z": 6.0, "E": 7.0}),
    "zero": ("pos", (0.0, 0.0, 0.0, 0.0)),
    "short": ("pos!", (1.0, 2.0, 3.0)),
    "long": ("pos!", (1.0, 2.0, 3.0, 4.0, 5.0)),
    "list": ("pos!", [1.0, 2.0, 3.0, 4.0]),
    "empty": ("pos!", {}),
    "empty tuple": ("pos!", ()),
    "None entry": ("pos!", {"X": None, "Y": 1.0, "Z": 0.0, "E": 0.0}),
    "lower case": ("pos!", {"x": 1.0, "y": 1.0, "z": 0.0, "e": 0.0}),
    "partial": ("pos!", {"X": 1.0, "Y": 2.0, "E": 3.0}),
    "text": ("pos!", "1234"),
    "bad entry": ("pos!", (1.0, 2.0, None, 4.0)),
    "none": ("pos!", None),
    "inch": ("pos@", (1.0, -2.0, 0.5, 3.0), "inch"),
    "SI dict": ("pos@", {"X": 0.004, "Y": 0.005, "Z": 0.006, "E": 0.007}, "SI"),
    "mm": ("pos@", (8.0, 7.0, 6.0, 5.0), "SImm"),
    "unknown unit": ("pos@!", (1.0, 2.0, 3.0, 4.0), "furlong"),
    "short inch": ("pos@!", (1.0, 2.0, 3.0), "inch"),
    "get and alter": ("get", None),
    "simulate": ("sim", None),
    "other setup": ("other", None),
}
MM = {"inch": 25.4, "SI": 1000.0, "SImm": 1.0}
CORE = ("select one", "select two", "select unknown", "p_vel", "several", "tuple", "dict", "partial", "bad entry", "get and alter", "cue")
UNITS = ("inch", "SI dict", "mm", "tuple", "dict", "unknown unit", "short inch", "partial", "select two", "p_vel")


class Model:
    def __init__(self, printer, cue):
        self.sel = printer
        self.props = {k: dict(v) for k, v in PRESETS.items()}
        self.pos = {"X": 0, "Y": 0, "Z": 0, "E": 0}
        self.cue = cue

    def dict(self):
        d = dict(self.props[self.sel])
        d.update(self.pos)
        if self.cue is not None:
            d["layer_cue"] = self.cue
        d["printer_name"] = self.sel
        return d

    def key(self):
        return (self.sel, tuple(sorted((p, k, str(v)) for p, d in self.props.items() for k, v in d.items())), tuple(self.pos.items()), self.cue)


def alike(a, b):
    num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
    return close(a, b, 1e-9) if num(a) and num(b) else a == b


def same(got, want, what):
    require(set(got) == set(want) and all(alike(got[k], want[k]) for k in want), "%s is %s, should be %s", what, got, want)


def explore(c, rec):
    from pyGCodeDecode.gcode_interpreter import setup

    A = prog.adapter()
    f = A.write_presets({k: v for k, v in PRESETS.items() if k != "alias"}, "c11.yaml")
    text = f.read_text().replace("two:\n", "two: &two\n") + "alias: *two\n"
    f.write_text(text)
    with A.quiet():
        s = setup(presets_file=f, printer=c["printer"], layer_cue=c["cue"])
        other = setup(presets_file=f, printer="two", layer_cue=None)
    m = Model(c["printer"], c["cue"])
    om = Model("two", None)
    handed = []  # dictionaries handed out, with what they said
    sims = []
    key = m.key()
    rec.states.add(prog.h64(key))
    for name in c["ops"]:
        what, arg, unit = (OPS[name] + (None,))[:3]
        arg = dict(arg) if isinstance(arg, dict) else list(arg) if isinstance(arg, list) else arg
        must_fail = False
        fn = None
        if what == "select":
            must_fail = arg not in PRESETS
            fn = lambda: s.select_printer(arg)
            if not must_fail:
                m.sel = arg
        elif what == "prop":
            must_fail = m.sel is None
            fn = lambda: s.set_property(arg)
            if not must_fail:
                m.props[m.sel].update(arg)
        elif what == "pos":
            fn = lambda: s.set_initial_position(arg)
            m.pos = dict(arg) if isinstance(arg, dict) else dict(zip("XYZE", arg))
        elif what == "pos!":
            must_fail = True
            fn = lambda: s.set_initial_position(arg)
        elif what == "pos@":
            fn = lambda: s.set_initial_position(arg, input_unit_system=unit)
            m.pos = {k: MM[unit] * v for k, v in (arg.items() if isinstance(arg, dict) else zip("XYZE", arg))}
        elif what == "pos@!":
            must_fail = True
            fn = lambda: s.set_initial_position(arg, input_unit_system=unit)
        elif what == "other":
            other.set_property({"p_vel": 1, "jerk": 2})
            other.set_initial_position((9.0, 9.0, 9.0, 9.0))
            om.props["two"].update({"p_vel": 1, "jerk": 2})
            om.pos = {"X": 9, "Y": 9, "Z": 9, "E": 9}
        elif what == "get" and m.sel is not None:
            d = s.get_dict()
            same(d, m.dict(), "the setup")
            for k in list(d):
                d[k] = -1
            d["junk"] = 1
        elif what == "sim" and m.sel is not None and "X" not in m.props[m.sel]:
            sim = A.simulate(SIMPROG, setup=s)
            same(sim.initial_machine_setup, m.dict(), "the setup of a simulation")
            sims.append((sim, dict(sim.initial_machine_setup), [x.row() for x in A.segs(sim)]))
            rec.trace()
        if fn is not None:
            failed = False
            try:
                fn()
            except Exception:
                failed = True
            require(failed == must_fail, "%s is %s", name, "rejected" if failed else "accepted")
            if isinstance(arg, dict):  # the caller may go on using what it passed in
                arg["p_vel"] = arg["X"] = -7
        if m.sel is not None:
            d = s.get_dict()
            same(d, m.dict(), "after %s the setup" % name)
            handed.append((d, dict(d)))
        rec.step(key, name)
        key = m.key()
        rec.states.add(prog.h64(key))
        rec.compared()
    for d, want in handed:
        require(d == want, "a setup handed out earlier changed from %s to %s", want, d)
    for sim, want, rows in sims:
        require(sim.initial_machine_setup == want, "the setup of a simulation changed from %s to %s", want, sim.initial_machine_setup)
        with A.quiet():
            sim.refresh()
        require([x.row() for x in A.segs(sim)] == rows, "later calls on the setup change the simulation made from it")
    for p in PRESETS:
        s.select_printer(p)
        m.sel = p
        same(s.get_dict(), m.dict(), "printer %s" % p)
    same(other.get_dict(), om.dict(), "another setup made from the same file")
    require(f.read_text() == text, "the presets file changed")
    rec.trace()
    rec.outcome(m.key())


SIMPROG = "G1 X5 Y1\n;CUE\n;\nG1 X9 E0.5 F1200\n;L\nG1 Y7\n"


def spaces(tier):
    deep = tier == "thorough"
    mk = lambda p, cue, ops: {"printer": p, "cue": cue, "ops": ops}
    return [
        Space("all", "all sequences of 1..%d of 36 calls x printer at construction x layer cue" % (4 if deep else 2), Product((None, "one"), (None, "L", ""), Words(list(OPS), 1, 4 if deep else 2), make=mk), explore),
        Space("deep", "all sequences of %d of 11 calls" % (5 if deep else 3), Product((None, "two"), ("L",) if not deep else (None,), Words(CORE, 5 if deep else 3, 5 if deep else 3), make=mk), explore),
        Space("likes", "all sequences of 2..%d of 8 calls on printers which are alike or aliases of each other" % (5 if deep else 4), Product(("one", "alias"), (None,), Words(("select one", "select twin", "select two", "select alias", "p_vel", "several", "none value", "get and alter"), 2, 5 if deep else 4), make=mk), explore),
        Space("units", "all sequences of 1..%d of 10 calls, positions in several units of length" % (4 if deep else 3), Product(("one",), (None,), Words(UNITS, 1, 4 if deep else 3), make=mk), explore),
        Space("simulated", "all sequences of 2..%d of 7 calls with simulations" % (4 if deep else 3), Product(("one",), (None, "CUE", ""), Words(("simulate", "p_vel", "select two", "tuple", "cue", "get and alter", "other setup"), 2, 4 if deep else 3), make=mk), explore),
    ]
