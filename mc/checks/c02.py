"""C02: commanded positions follow the coordinate modes."""

from .. import stcheck
from ..core import Concat, Product, Space, Words, require

TITLE = "positions after every sequence of moves, mode, unit and set-position lines"
ASSUMPTIONS = ["positions are compared to 1.1e-9 mm plus 1e-13 of the largest coordinate so far"]


def op(word, **a):
    return [{word: {k: float(v) for k, v in a.items()}}, None]


CORE = [
    op("G90"),
    op("G91"),
    op("M82"),
    op("M83"),
    op("G20"),
    op("G21"),
    op("G1", X=10, E=1),
    op("G0", Y=-2.5, Z=0.3),
    op("G92", X=1, E=0),
    op("G92", X=-7.1, Y=2, Z=3, E=4),
]
MORE = [
    op("G1", E=-0.7),
    op("G1", X=0, Y=0, Z=0, E=0),
    op("G1", Z=1 / 3.0),
    op("G1", F=1200),
    op("G92", Z=0),
    op("G92", E=0),
    op("G92"),
    op("G0", X=-0.001),
    op("M204", P=100),
    [{}, "LAYER"],
    op("G4", P=5),
    [{"G91": {}, "G1": {"X": 2.0}}, None],
    [{"G1": {"Y": 3.0, "E": 0.1}, "G92": {"E": 0.0}}, None],
    [{"G20": {}, "G1": {"X": 1.0}}, None],
    [{"G92": {"X": 0.5}, "M83": {}}, None],
    op("M203", X=7, Y=8, Z=9, E=3),
    op("M205", X=3, Y=4, Z=5, E=6),
    [{"G90": {}, "M83": {}}, None],
    [{"G91": {}, "G92": {"X": 1.5}}, None],
    [{"M82": {}, "G92": {"E": 2.0}}, None],
]
INITS = ((0.0, 0.0, 0.0, 0.0), (1.5, -2.25, 0.3, 7.125))


def mk(ws, init):
    return {"lines": list(ws), "init": list(init)}


def explore(c, rec):
    stcheck.explore(c, rec, comments=False, settings=False)
    lines = c["lines"]
    rec.compared(len(lines))


def explore_still(c, rec):
    """The op under test must not move anything (checked on the real code alone)."""
    st, obs = stcheck.explore(c, rec, comments=False, settings=False)
    for i, (w, _) in enumerate(c["lines"], 1):
        if not any(x in w for x in ("G0", "G1")):
            a = [float(x) for x in st[i - 1].state_position.get_vec(withExtrusion=True)]
            b = [float(x) for x in st[i].state_position.get_vec(withExtrusion=True)]
            require(max(abs(x - y) for x, y in zip(a, b)) <= 1e-9, "line %d without a move displaces the machine from %s to %s", i, a, b)
        for k, ax in enumerate("XYZE"):
            if not any(ax in w.get(g, {}) for g in ("G0", "G1")):
                a = float(st[i - 1].state_position.get_vec(withExtrusion=True)[k])
                b = float(st[i].state_position.get_vec(withExtrusion=True)[k])
                require(abs(a - b) <= 1e-9, "line %d does not name axis %s but displaces it from %r to %r", i, ax, a, b)


# moves after a prelude of mode changes: long histories, small alphabet
TAIL = [op("G1", X=2, Y=1, Z=0.2, E=0.3), op("G92", X=0, Y=0, Z=0, E=0), op("G20"), op("G91"), op("M83"), op("G90")]


# unusual magnitudes and many decimals
FINE = [
    op("G1", X=10.123456, Y=2.000001, Z=0.3000004, E=0.0000123),
    op("G0", X=-0.00000034, Y=123456.789012),
    op("G1", Z=1e-7, E=12345.678901),
    op("G1", X=987654.3210123, E=-0.0000007),
    op("G92", X=0.1234567, E=0.0000456),
    op("G92", Y=-54321.0987654, Z=1e-8),
    op("G91"),
    op("M83"),
    op("G20"),
]


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("core", "all programs of 0..%d lines over 10 lines" % (6 if deep else 4), Product(Words(CORE, 0, 6 if deep else 4), INITS[1:], make=mk), explore_still),
        Space("rich", "all programs of 1..%d lines over 30 lines" % (4 if deep else 3), Product(Words(CORE + MORE, 1, 4 if deep else 3), INITS[:1], make=mk), explore_still),
        Space("long", "all programs of %d lines over 6 lines" % (7 if deep else 5), Product(Words(TAIL, 7 if deep else 5, 7 if deep else 5), ((-3.0, 4.0, 0.2, 1.0),), make=mk), explore),
        Space("fine", "all programs of 1..%d lines over 9 with many decimals or large coordinates" % (5 if deep else 4), Product(Words(FINE, 1, 5 if deep else 4), INITS, make=mk), explore_still),
        Space("repeat", "every pair of lines (30 x 30) repeated 200 times", Product(CORE + MORE, CORE + MORE, (200,), INITS, make=lambda a, b, n, init: {"lines": [a, b] * n, "init": list(init)}), explore, chunk=2),
    ]
