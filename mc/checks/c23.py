"""C23: unsupported commands are counted and reported exactly."""

import contextlib
import copy
import io
import re

from .. import prog
from ..core import Concat, Map, Product, Space, Words, require

TITLE = "the report lists exactly the unsupported commands with the number of their lines"
ASSUMPTIONS = ["command words are upper case without blanks inside; the arguments of unsupported commands are free of command words"]

# text of a line, unsupported commands on it
LINES = [
    ("G2 X1 Y2 I3 J0.5 E1", ("G2",)),
    ("G03 X1I-1 J0", ("G3",)),
    ("G28", ("G28",)),
    ("G29 P1", ("G29",)),
    ("G10", ("G10",)),
    ("G11", ("G11",)),
    ("G1 X1 F600 G10", ("G10",)),
    ("G28 G29", ("G28", "G29")),
    ("G1 X5 ; then G28 and G2", ()),
    (";G10", ()),
    ("G20", ()),
    ("", ()),
    ("G280", ()),
]
MORE = [
    ("G28X0Y0", ("G28",)),
    ("G0028 X", ("G28",)),
    ("  G28", ("G28",)),
    ("G2X1Y1R5", ("G2",)),
    ("G02 X3 R2 ; G3", ("G2",)),
    ("G2 X1 J1 G3 X2 J-1", ("G2", "G3")),
    ("G11 ;G11 G11", ("G11",)),
    ("G29;", ("G29",)),
    ("M204 P500 G28 ; home", ("G28",)),
    ("G10 G11 G28 G29 G2 G3", ("G2", "G3", "G10", "G11", "G28", "G29")),
    ("G91 G28", ("G28",)),
    ("G21", ()),
    ("G2.1 X1", ()),
    ("G29.1 Z0", ()),
    ("G100 G110 G290", ()),
    ("M28", ()),
    ("M10", ()),
    ("M2", ()),
    ("G4 P100", ()),
    ("G92 E0", ()),
    ("G90", ()),
    ("M82", ()),
    ("T0", ()),
    ("M104 S210", ()),
    ("G1 X1 Y1 E0.1", ()),
    ("G0 Z5", ()),
    ("G01 X3", ()),
    ("G12", ()),
    ("G5 X1", ()),
    ("G30", ()),
    ("; G28 home all", ()),
    (";;G2;G3", ()),
]


def expected(lines):
    n = {}
    for _, un in lines:
        for u in un:
            n[u] = n.get(u, 0) + 1
    return n


def said(out, want):
    for cmd, k in want.items():
        told = any(re.search(r"\b%s\b" % cmd, ln) and re.search(r"\b%d\b" % k, ln) for ln in out.splitlines())
        require(told, "%s on %d lines is not in the report %r", cmd, k, out)
    if not want:
        require("warning" not in out.lower() and "⚠" not in out, "a warning without any unsupported command: %r", out)
    for cmd in ("G2", "G3", "G10", "G11", "G28", "G29"):
        if cmd not in want:
            require(not re.search(r"\b%s\b" % cmd, out), "%s is reported but not in the program: %r", cmd, out)


def explore(c, rec):
    from pyGCodeDecode import state_generator as sg

    A = prog.adapter()
    lines = [LINES_ALL[i] for i in c["lines"]]
    want = expected(lines)
    f = A.write_gcode(c["eol"].join(t for t, _ in lines) + (c["eol"] if c["last"] else ""), "u.gcode")
    with A.quiet():
        parsed = sg.read_gcode_to_dict_list(f)
    before = copy.deepcopy(parsed)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        got = sg.check_for_unsupported_commands(parsed)
    require(dict(got) == want, "reported %s, the program has %s", dict(got), want)
    require(parsed == before, "reporting changed the parsed program")
    said(buf.getvalue(), want)
    with A.quiet():
        again = sg.check_for_unsupported_commands(parsed)
    require(dict(again) == want, "reported %s the second time", dict(again))
    if c["states"]:
        buf = io.StringIO()
        setup = A.make_setup(firmware=None).get_dict()
        with contextlib.redirect_stdout(buf):
            st = sg.generate_states(filepath=f, initial_machine_setup=setup)
        require(len(st) == len(parsed) + 1, "%d states for %d lines", len(st), len(parsed))
        said(buf.getvalue(), want)
    cur = {}
    prev = repr(sorted(cur.items()))
    for i in c["lines"]:
        for u in LINES_ALL[i][1]:
            cur[u] = cur.get(u, 0) + 1
        key = repr(sorted(cur.items()))
        rec.state(key)
        rec.step(prev, (i, key))
        prev = key
    rec.trace()
    rec.compared(3)
    rec.outcome(repr(sorted(want.items())))


LINES_ALL = LINES + MORE


def spaces(tier):
    deep = tier == "thorough"
    mk = lambda w, eol="\n", last=True, st=False: {"lines": list(w), "eol": eol, "last": last, "states": st}
    n = len(LINES)
    base = range(n) if deep else [0, 2, 3, 4, 7, 8, 9, 10, 11, 6]
    return [
        Space("words", "all programs of 0..%d lines over %d" % (5 if deep else 4, len(base)), Map(Words(list(base), 0, 5 if deep else 4), mk), explore),
        Space("all lines", "all programs of 1..2 lines over %d, all line endings, through generate_states too" % len(LINES_ALL), Product(Words(range(len(LINES_ALL)), 1, 2), ("\n", "\r\n"), (True, False), (True,), make=mk), explore),
        Space("repeat", "each line repeated up to 40 times between others", Product(range(len(LINES_ALL)), range(len(LINES_ALL)), (3, 10, 40), make=lambda i, j, k: mk([i] * k + [j] + [i] * (k // 2))), explore),
    ]
