"""C03: settings, comments, layers and dwells are modal per line."""

import itertools

from .. import stcheck
from ..core import Product, Space, Words, require

TITLE = "one linked state per line with modal settings and per-line dwell, comment, layer"
ASSUMPTIONS = ["the layer of the initial state is not specified", "a comment's surrounding blanks are not part of it"]


def op(word, k=None, **a):
    return [{word: {x: float(v) for x, v in a.items()}}, k]


CORE = [
    op("G1", F=1200),
    op("G0", X=3, F=4500),
    op("M204", P=333),
    op("M205", X=3.5),
    op("M203", X=11, E=12),
    op("G4", P=250),
    op("G20"),
    op("G21"),
    [{}, "LAYER"],
    [{}, " LAYER "],
]
MORE = [
    op("M203", Y=13, Z=14),
    op("M204", S=9, R=8, T=7),
    op("M205", Y=5, Z=6, E=7, J=0.1, S=3),
    op("M205", X=0),
    op("G4", S=2),
    op("G4", P=100, S=0.5),
    op("G4"),
    op("G4", P=0),
    op("G1", "LAYER", X=1, F=600),
    [{}, "LAYERS"],
    [{}, "layer"],
    [{}, ""],
    [{}, "; LAYER"],
    [{}, None],
    op("G92", E=0),
    op("G90"),
    op("M204", "LAYER", P=1),
    [{"G1": {"Y": 3.0, "F": 60.0}, "G4": {"P": 50.0}, "M204": {"P": 77.0}}, "x"],
    [{"M204": {"P": 78.0}, "M205": {"X": 1.5}, "M203": {"X": 1.0, "Y": 2.0, "Z": 3.0, "E": 4.0}}, "LAYER"],
    op("M203", Z=25.5),
    op("G4", P=3),
    op("G4", P=1234.5678),
    op("G4", S=0.0625),
    op("G1", F=1234.5678),
    op("M204", P=1234.5678),
    op("M205", X=0.0123456),
]
# unusual magnitudes
BIG = [
    op("M203", X=1500, Y=70000, Z=1e6, E=333.3),
    op("M203", X=0.0001, Y=1e-6, Z=0.5, E=1e-9),
    op("M204", P=1e5),
    op("M204", P=3e7),
    op("M204", P=0.015),
    op("M205", X=120),
    op("M205", X=1e4),
    op("M205", X=1e-7),
    op("G1", F=60000),
    op("G0", F=3e6),
    op("G1", F=0.001),
    op("G4", S=7200),
    op("G4", S=1e6),
    op("G4", P=1e9),
    op("G4", P=1e-4),
    op("G4", P=0.5, S=90000),
    op("G20"),
    op("G0", X=1e5),
]
# characters that mean something in patterns, formats or file names
CUES = ["L+", "L", "LL", "LAYER:1", "LAYER.CHANGE", "LAYER CHANGE", "LAYERxCHANGE", "[layer]", "layer", "l", "*", ".*", "(x", "x|y", "y", "a\\b", "^L", "L$", "%s", "{0}", "---", "#1", "Schicht Höhe", "L ;x", "TYPE:Wall", "Z:0.2", "0", "12", "1.0", "None", "nan", "G1 X5", "\"q\"", "it's", "L\t1", "?"]
CFG = {"p_vel": 41, "p_acc": 777, "jerk": 6, "vX": 101, "vY": 102, "vZ": 103, "vE": 104}


def mk(ws, cue, cfg, init):
    return {"lines": list(ws), "cue": cue, "cfg": cfg, "init": list(init)}


def explore(c, rec):
    st, obs = stcheck.explore(c, rec)
    s = st[0].state_p_settings
    for a, n in stcheck.SETTINGS.items():
        want = {**stcheck.A().BASE, **c["cfg"]}["p_vel" if a == "speed" else a]
        require(getattr(s, n) == want, "initial state has %s %r, the setup %r", a, getattr(s, n), want)


def explore_mutation(c, rec):
    """Settings of one state never alias those of another."""
    st, obs = stcheck.explore(c, rec)
    for i in range(len(st)):
        keep = st[i].state_p_settings.speed
        st[i].state_p_settings.speed = -1
        st[i].pause = -5
        others = [j for j in range(len(st)) if j != i and (st[j].state_p_settings.speed == -1 or st[j].pause == -5)]
        require(not others, "changing the state of line %d changes those of lines %s", i, others)
        st[i].state_p_settings.speed = keep
        st[i].pause = None


def spaces(tier):
    deep = tier == "thorough"
    zero = (0.0, 0.0, 0.0, 0.0)
    return [
        Space("core", "all programs of 0..%d lines over 10 lines, with and without layer cue" % (5 if deep else 4), Product(Words(CORE, 0, 5 if deep else 4), ("LAYER",), (CFG,), (zero,), make=mk), explore),
        Space("rich", "all programs of 1..%d lines over 36 lines x layer cue" % (3 if deep else 2), Product(Words(CORE + MORE, 1, 3 if deep else 2), (None, "LAYER", "; LAYER", ""), ({}, CFG), (zero, (1.0, 2.0, 3.0, 4.0)), make=mk), explore),
        Space("cues", "layer cues and comments with special characters: every pair, between others", Product(CUES, CUES, (zero,), make=lambda q, k, init: mk([[{}, k], op("G1", q, X=1), [{}, "x" + q], [{}, q + "x"], [{}, q], [{}, k]], q, {}, init)), explore),
        Space("zeros", "settings of zero, one at a time and all, in the setup and in the program", Product([[CORE[0], CORE[5], x] for x in (CORE[3], MORE[3], op("M203", X=0, Y=0, Z=0, E=0), op("M204", P=0), op("M205", X=0, Y=0), op("G1", X=0, F=60), op("G4", S=0), op("G4", P=0, S=0))], (None, "LAYER"), [{k: z} for k in CFG for z in (0, 0.0)] + [{k: 0 for k in CFG}], (zero,), make=mk), explore),
        Space("magnitudes", "all programs of 1..%d lines over 18 with very large or small settings and dwells" % (4 if deep else 3), Product(Words(BIG, 1, 4 if deep else 3), ("LAYER",), ({}, {"p_vel": 1e4, "p_acc": 1e6, "jerk": 500, "vX": 5000, "vY": 1e5, "vZ": 1e-3, "vE": 7e3}) if deep else ({"p_vel": 1e4, "p_acc": 1e6, "jerk": 500, "vX": 5000, "vY": 1e5, "vZ": 1e-3, "vE": 7e3},), (zero,), make=mk), explore),
        Space("long", "up to 1300 lines over 3", Product([list(x) for x in itertools.product((CORE[0], CORE[5], CORE[8], MORE[8], MORE[17]), repeat=3)], (5, 40) + ((430,) if not deep else (430, 2000)), ("LAYER",), make=lambda o, n, q: mk(o * n, q, CFG, zero)), explore, chunk=4),
        Space("alias", "all programs of 1..3 lines over 10 lines, every state changed in turn", Product(Words(CORE, 1, 3), ("LAYER",), ({},), (zero,), make=mk), explore_mutation),
    ]
