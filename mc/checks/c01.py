"""C01: G-code syntax never changes meaning."""

import itertools

from .. import refvm, stcheck
from ..core import Concat, Map, Product, Space, require

TITLE = "rendering of a line never changes its effect"
ASSUMPTIONS = [
    "upper-case command words, decimal numbers without exponent, no N-numbers or checksums",
    "no command word occurs twice on a line; commands on one line take effect in the fixed order modes, units, moves, set-position, settings, dwell",
]

# ---------------------------------------------------------------- notations of one number


def notations(x):
    s = refvm.fmt(x)
    out = [s, f"{x:.3f}" if round(x, 3) == x else s + "0" if "." in s else s + ".00"]
    if x >= 0:
        out.append("+" + s)
        out.append("00" + s)
    else:
        out.append("-0" + s[1:])
    if float(x).is_integer():
        out.append(s + ".")
    if 0 < abs(x) < 1:
        out.append(s.replace("0.", ".", 1))
    return list(dict.fromkeys(out))


ZEROS = ("", "0", "00")
# (between word and first argument, between letter and number, between arguments, leading, trailing)
SPACING = (
    (" ", "", " ", "", ""),
    ("", "", "", "", ""),
    ("  ", "", "   ", " ", "  "),
    (" ", " ", " ", "", ""),
    ("\t", "", "\t", "\t", "\t"),
    ("", " ", "", "  ", " "),
)
ENDINGS = ("\n", "\r\n", "\n\n", "", "\r")
COMMENTS = (None, "", " note", "G1 X99 E5", "; G92 X0", "  G4 P500 ;M82", "LAYER", "é°µ M204 P1", "G28", "\tG91\t", "page\x0cG1 X99\x0bG92 X7", "a\u2028G1 Y9\x85M83\x1cG91")


def render(commands, zeros="", spacing=0, num=0, rev=False):
    a, b, c, lead, trail = SPACING[spacing]
    out = []
    for word, args in commands.items():
        w = word[0] + zeros + word[1:]
        items = list(args.items())
        if rev:
            items.reverse()
        parts = []
        for k, v in items:
            n = notations(v)
            parts.append(k + b + n[num % len(n)])
        out.append(w + (a if parts else "") + c.join(parts))
    return lead + (" " if c == " " else c).join(out) + trail


# ---------------------------------------------------------------- what the lines mean

PREFIX = [[{"G1": {"X": 3.0, "Y": -2.0, "E": 1.0, "F": 1500.0}}, None]]
SUFFIX = [[{"G1": {"X": 4.5, "Y": 1.5, "Z": 0.3, "E": 2.5}}, "end"]]
ONE = [
    {"G1": {"X": 10.0, "Y": -0.5, "E": 0.25, "F": 1800.0}},
    {"G0": {"X": 0.0, "Z": 0.2}},
    {"G1": {"E": -3.0}},
    {"G1": {"F": 900.0}},
    {"G92": {"X": 5.0, "E": 0.0}},
    {"G92": {"Y": -0.75, "Z": 100.0}},
    {"M204": {"P": 500.0, "T": 1500.0}},
    {"M204": {"S": 500.0}},
    {"M205": {"X": 3.5, "Y": 8.0, "J": 0.05}},
    {"M203": {"X": 200.0, "Y": 100.5, "Z": 5.0, "E": 0.5}},
    {"G4": {"P": 250.0}},
    {"G4": {"S": 2.0}},
    {"G4": {"P": 250.0, "S": 0.5}},
    {"G91": {}},
    {"M83": {}},
    {"G20": {}},
    {"M82": {}},
    {"G90": {}},
    {"G21": {}},
    {},
]


def one(cmd, zeros, spacing, num, rev, ending, comment):
    line = render(cmd, zeros, spacing, num, rev)
    if ending == "" and line == "" and comment is None:
        ending = "\n"  # nothing behind the last line ending is no line
    lines = PREFIX + [[cmd, comment]] + ([[{}, None]] if ending == "\n\n" else [])
    text = "G1 X3 Y-2 E1 F1500" + (ending if ending in ("\r\n", "\r") else "\n") + line + ("" if comment is None else ";" + comment) + ending
    if ending:
        lines = lines + SUFFIX
        text += "G1 X4.5 Y1.5 Z.3 E2.5;end" + ("" if ending == "\n\n" else ending)
    return {"lines": lines, "text": text, "cue": "LAYER"}


def explore(c, rec):
    stcheck.explore(c, rec)


# ---------------------------------------------------------------- several commands on a line

MULTI = [
    {"G1": {"X": 10.0, "E": 0.5, "F": 1200.0}},
    {"G0": {"Y": -4.0, "Z": 1.5}},
    {"G90": {}},
    {"G91": {}},
    {"M82": {}},
    {"M83": {}},
    {"G20": {}},
    {"G21": {}},
    {"G92": {"X": 1.0, "E": 0.0}},
    {"M204": {"P": 333.0}},
    {"M205": {"X": 4.0}},
    {"M203": {"Z": 9.0}},
    {"G4": {"P": 120.0}},
    {"G4": {"S": 3.0}},
]


def modes(sel):
    return [[{"G91": {}}, None], [{"M83": {}}, None]] if sel == "rel" else [[{"G20": {}}, None]] if sel == "inch" else []


def multi(cmds, joiner, mode, comment):
    words = [w for c in cmds for w in c]
    if len(set(words)) < len(words):
        cmds = cmds[:1]
    for a, b in (("G90", "G91"), ("M82", "M83"), ("G20", "G21")):
        pass
    merged = {}
    for c in cmds:
        merged.update(c)
    text = joiner.join(render(c, spacing=1 if joiner == "" else 0) for c in cmds)
    lines = modes(mode) + PREFIX + [[merged, comment]] + SUFFIX
    full = [refvm.text(w, k) for w, k in modes(mode) + PREFIX] + [text + ("" if comment is None else ";" + comment)] + [refvm.text(w, k) for w, k in SUFFIX]
    return {"lines": lines, "text": "\n".join(full) + "\n"}


# both words of a pair of opposite modes on one line: order of effect is not specified
def sensible(cmds):
    w = {k for c in cmds for k in c}
    return len(w) == len(cmds) and not any(set(p) <= w for p in (("G90", "G91"), ("M82", "M83"), ("G20", "G21"), ("G0", "G1")))


# ---------------------------------------------------------------- commands outside the supported set

FOREIGN = [
    "G17", "G30", "G92.1 X0 E7", "M2045 P5", "M104 S200", "M109 S210", "G100 X5", "G10", "G11 S1", "G2 X5 Y5 I1 J1", "G3 X-1 Y0 R4 E3 F50",
    "G28", "G28 X0 Y0", "G28 X Y", "G29 S1", "G29 X5 Y7 P1", "G38.2 Z-5", "G90.1", "M820 X5", "G1.5 X5", "G40 P1", "M2030 X1", "M20", "M21", "M105",
    "M106 S255", "M140 S60", "T0", "M82.1", "M830", "G911", "G200 X3", "G210", "G42 P3", "G920 X1", "M205.5 X1", "M204.1 P9", "G5 X5 Y5", "G123 P4 S5",
    "M84 X Y E", "M900 K0.2", "M221 S95", "G12", "G13 X2", "G101 F4", "M73 P5 R10", "M862.3 P", "(G-code)", "%", "M107", "G19.1", "G49", "G94", "G010 S1", "M117X5", "M104S200", "G28XY", "G2X5Y5I1", "G29P1", "M486T3", "G38.2Z-5", "M221S95T0", "G02 X1 Y1 I2", "G028 Z", "M0106 S1", "G017",
]


def foreign(f, mode, where, comment):
    known = {"G1": {"X": 7.0, "E": 0.5}}
    if where == "alone":
        cmds, text = {}, f
    elif where == "before":
        cmds, text = known, f + " G1 X7 E0.5"
        if f in ("(G-code)", "%"):
            text = "G1 X7 E0.5"
    elif where == "after":
        cmds, text = known, "G1 X7 E0.5 " + f
        if f[0] not in "GM":
            text = "G1 X7 E0.5"
    elif where in ("glued before", "glued after"):  # without a blank between the commands
        cmds, text = known, f + "G1X7E0.5" if where == "glued before" else "G1X7E0.5" + f
        if f[0] not in "GM":
            text = "G1X7E0.5"
    else:  # three times on lines of its own
        cmds, text = {}, f + "\n" + f
    lines = modes(mode) + PREFIX + [[cmds, comment]]
    if where == "twice":
        lines = modes(mode) + PREFIX + [[{}, None], [cmds, comment]]
    lines = lines + SUFFIX
    full = [refvm.text(w, k) for w, k in modes(mode) + PREFIX] + [text + ("" if comment is None else ";" + comment)] + [refvm.text(w, k) for w, k in SUFFIX]
    return {"lines": lines, "text": "\n".join(full) + "\n", "cue": "LAYER"}


# ---------------------------------------------------------------- comments never affect timing

PROG = [
    [{"G1": {"X": 10.0, "F": 1800.0}}, None],
    [{"G1": {"Y": 5.0, "E": 1.0}}, None],
    [{"G4": {"P": 100.0}}, None],
    [{"M204": {"P": 400.0}}, None],
    [{"G1": {"X": 0.0, "Y": 0.0, "E": 2.0}}, None],
]


def explore_timing(c, rec):
    a = stcheck.A()
    want = a.simulate("".join(refvm.text(w, k) + "\n" for w, k in PROG), firmware=c["fw"], layer_cue="LAYER")
    got = a.simulate(c["text"], firmware=c["fw"], layer_cue="LAYER")
    rec.trace(2)
    x, y = [s.row() for s in a.segs(want)], [s.row() for s in a.segs(got)]
    require(x == y, "comments change the trajectory:\n%s\n%s", x, y)
    rec.state(c["text"])
    rec.outcome(x)


def timing(comment, where, fw):
    L = []
    for i, (w, k) in enumerate(PROG):
        L.append(refvm.text(w, k) + (";" + comment if i in where else ""))
    return {"text": "\n".join(L) + "\n", "fw": fw}


# ---------------------------------------------------------------- files which are no valid UTF-8

BYTES = [bytes([b]) for b in range(1, 256) if b not in (10, 13)]
STRINGS = [b"Gr\xfc\xdfe 50\xb5m", b"\xe9\xb0", b"\xff\xfe\x00", b"\x81\x40 \xfc\xfc", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf8\x88\x80\x80\x80", b"90\xb0", "\u00e9".encode(), "\U0001f600".encode(), b"\xef\xbb\xbf"]


def raw(b, where, ending):
    t = b.decode("utf-8", "surrogateescape")
    k = {"before": [t + "end"], "alone": [t], "after": ["G1 X99 " + t], "twice": [t + " " + t + ";G92 X1"]}[where][0]
    lines = [[{"G1": {"X": 3.0, "F": 1500.0}}, k if where == "twice" else None], [{"G1": {"Y": 2.5, "E": 0.25}}, k], [{}, k], [{"G1": {"X": -1.0}}, None]]
    return {"lines": lines, "text": "".join(refvm.text(w, c) + ending for w, c in lines), "cue": "LAYER"}


def explore_raw(c, rec):
    valid = not any("\udc80" <= x <= "\udcff" for x in c["text"])
    stcheck.explore(c, rec, comments=valid)


NUMBERS = [0.0, 0.123456789, -0.987654321, 0.00000025, -0.00001, 1.0, -7.0, 12345.678901, -98765.4321, 100000.0, 1234567.0, 0.1, 9.999999999, 33.3333333]
NUMBERED = [{"G1": {"X": None}}, {"G1": {"X": 1.5, "Y": None, "E": 0.25}}, {"G0": {"Z": 0.5, "E": None}}, {"G92": {"X": None, "E": 3.0}}, {"M204": {"P": None}}, {"G1": {"F": 900.0, "E": None}}, {"M203": {"X": 5.0, "E": None}}]


def spaces(tier):
    deep = tier == "thorough"
    k = 3 if deep else 2
    combos = [list(x) for n in range(2, k + 1) for x in itertools.permutations(MULTI, n) if sensible(x)]
    return [
        Space(
            "notation",
            "20 lines x leading zeros x spacing x number notation x argument order",
            Product(ONE, ZEROS, range(len(SPACING)), range(4), (False, True), ENDINGS if deep else ("\n",), COMMENTS if deep else (None,), make=one),
            explore,
        ),
        Space(
            "numbers",
            "%d numbers in up to 5 notations as the first, middle or last argument of 7 commands x spacing" % len(NUMBERS),
            Product(NUMBERS, range(5), NUMBERED, range(len(SPACING)) if deep else (0, 1, 3), make=lambda v, num, t, sp: one({w: {k: v if x is None else x for k, x in a.items()} for w, a in t.items()}, "", sp, num, False, "\n", None)),
            explore,
        ),
        Space("endings", "20 lines x spacing x line ending x comment", Product(ONE, ("",), range(len(SPACING)) if deep else (0, 4), (0,), (False,), ENDINGS, COMMENTS, make=one), explore),
        Space("multi", "all sequences of 2..%d distinct commands on one line x joiner x mode x comment" % k, Product(combos, (" ", "") if deep else (" ", "", "  "), ("abs", "rel", "inch"), (None, "G1 X99"), make=multi), explore),
        Space("foreign", "%d unsupported or unknown commands x place x mode x comment" % len(FOREIGN), Product(FOREIGN, ("abs", "rel", "inch"), ("alone", "before", "after", "twice", "glued before", "glued after"), (None, "LAYER", "G1 X99"), make=foreign), explore),
        Space("bytes", "every byte and %d strings, valid UTF-8 or not, inside comments x place x line ending" % len(STRINGS), Product(BYTES + STRINGS, ("before", "alone", "after", "twice"), ("\n", "\r\n"), make=raw), explore_raw),
        Space(
            "timing",
            "comments on any subset of lines x firmware",
            Product([x for x in COMMENTS if x is not None], [list(x) for n in range(0, 6) for x in itertools.combinations(range(5), n)], (None, "marlin_jd", "klipper", "marlin_jerk", "MKA") if deep else ("marlin_jd",), make=timing),
            explore_timing,
        ),
    ]
