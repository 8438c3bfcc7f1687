"""Program spaces shared by the checks, and the replay of one program on the reference model and the real code.

A case is {"fw", "cfg", "init", "cue", "lines"}; lines = [[{word: {param: value}}, comment or None], ...].
"""

from __future__ import annotations

import itertools
import math

from . import refplan, refvm
from .core import Concat, Map, Product, Rec, Skip, Violation, Words, h64, require

TOL_T = 1e-6
TOL_P = 1e-6
TOL_V = 1e-5


def adapter():
    from . import adapter as a

    return a


def close(a, b, tol):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def vclose(p, q, tol):
    return all(close(a, b, tol) for a, b in zip(p, q))


def case(lines, fw=None, cfg=None, init=(0.0, 0.0, 0.0, 0.0), cue=None, **extra):
    d = {"fw": fw, "cfg": cfg or {}, "init": list(init), "cue": cue, "lines": lines}
    d.update(extra)
    return d


def text_of(c):
    return "".join(refvm.text(w, k) + "\n" for w, k in c["lines"])


def refsetup(c):
    from . import adapter as a

    return a.ref_setup(firmware=c["fw"], initial=c["init"], layer_cue=c["cue"], **c["cfg"])


class Group:
    """All trajectory pieces that execute one line."""

    __slots__ = ("line", "segs", "blocks")

    def __init__(self, line):
        self.line, self.segs, self.blocks = line, [], []


def observe(c):
    """Observations of the reference machine."""
    return refvm.run(refsetup(c), [(w, k) for w, k in c["lines"]])


def record(rec: Rec, c, obs):
    """Record the path of the reference model this case walks."""
    base = (c["fw"], tuple(sorted(c["cfg"].items())), c["cue"])
    prev = None
    for i, o in enumerate(obs):
        k = (base, o["pos"], tuple(sorted(o["set"].items())), o["units"], o["layer"], o["pause"])
        s = h64(k)
        rec.states.add(s)
        if i:
            rec.transitions.add(h64((prev, repr(c["lines"][i - 1]))))
        prev = s


class Run:
    """One program on both sides."""

    def __init__(self, c, rec: Rec, plan=True, simulate=True, units="SImm"):
        A = adapter()
        self.c = c
        self.text = text_of(c)
        self.obs = observe(c)
        record(rec, c, self.obs)
        self.items = refplan.items_of(self.obs)
        self.fw = c["fw"]
        if plan and ambiguous(self.items, c["fw"]):
            raise Skip()
        if simulate:
            self.setup = A.make_setup(firmware=c["fw"], initial=tuple(c["init"]), layer_cue=c["cue"], **c["cfg"])
            self.sim = A.simulate(self.text, setup=self.setup, output_unit_system=units)
            rec.trace()
            self.blocks = A.trace(self.sim)
            self.segs = [s for b in self.blocks for s in b.segs]
            self.groups = []
            for b in self.blocks:
                if not self.groups or self.groups[-1].line != b.line:
                    self.groups.append(Group(b.line))
                self.groups[-1].segs += b.segs
                self.groups[-1].blocks.append(b)
        if plan:
            refplan.plan(self.items, c["fw"], e_start=self._estart if simulate else None)

    # classic jerk lets a filament-only move start with a jump of up to twice the jerk (its own or the previous move's)
    def _estart(self, it):
        if self.fw != "marlin_jerk":
            return 0.0
        g = self.by_line().get(it.line)
        v = abs(g.segs[0].v0[3]) if g and g.segs else 0.0
        prev = [i.jerk for i in self.items if i.kind == "move" and i.line < it.line][-1:]
        return v if v <= 2 * max(prev + [it.jerk]) * (1 + 1e-9) + 1e-9 and v <= it.speed * (1 + 1e-9) else 0.0

    def by_line(self):
        return {g.line: g for g in self.groups}

    def item_groups(self):
        """[(line, [items])] in order."""
        out = []
        for it in self.items:
            if out and out[-1][0] == it.line:
                out[-1][1].append(it)
            else:
                out.append((it.line, [it]))
        return out

    def pairs(self):
        """Match items with pieces; raises Violation when the executed lines are not the commanded ones.

        Yields (item, segs) with the pieces of a line split between its move and its dwell."""
        want = self.item_groups()
        got = [g for g in self.groups]
        require(
            [w[0] for w in want] == [g.line for g in got],
            "executed lines %s, commanded lines with motion or dwell %s",
            [g.line for g in got],
            [w[0] for w in want],
        )
        out = []
        for (line, its), g in zip(want, got):
            if len(its) == 1:
                out.append((its[0], g.segs))
            else:  # a move, then a dwell on the same line
                k = len(g.segs)
                while k > 0 and max(abs(x - y) for x, y in zip(g.segs[k - 1].p0, g.segs[k - 1].p1)) <= 1e-12:
                    k -= 1
                out.append((its[0], g.segs[:k]))
                out.append((its[1], g.segs[k:]))
        return out

    def t_end(self):
        return self.segs[-1].t1 if self.segs else 0.0


def leftover(f):
    """What an earlier run may have left: a file with other, and more, content."""
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_text("left: over\n" * 300)


def n3(v):
    return refplan.n3(v)


def ambiguous(items, fw):
    """With zero jerk, a straight continuation is a change of velocity or not depending on rounding only."""
    if fw not in ("marlin_jerk", "MKA"):
        return False
    moves = [i for i in items if i.kind == "move"]
    for a, b in zip(moves, moves[1:]):
        if a.jerk == 0:
            va = tuple(a.speed * x for x in a.unit)
            vb = tuple(b.speed * x for x in b.unit)
            if fw == "MKA":  # slows down to the slower of the two moves first
                m = min(a.speed * n3(a.unit), b.speed * n3(b.unit))
                va, vb = tuple(m * x for x in a.unit), tuple(m * x for x in b.unit)
            if max(abs(x - y) for x, y in zip(va, vb)) < 1e-6 * (1 + a.speed):
                return True
    return False


# ---------------------------------------------------------------------------------- alphabets

REL = [[{"G91": {}}, None], [{"M83": {}}, None]]


def g1(**a):
    return [{"G1": {k: float(v) for k, v in a.items()}}, None]


def op(word, **a):
    return [{word: {k: float(v) for k, v in a.items()}}, None]


FWS = (None, "marlin_jd", "klipper", "marlin_jerk", "MKA")
CORNERING = ("marlin_jd", "klipper", "marlin_jerk", "MKA")

MOTION = [
    g1(X=10),
    g1(Y=10, E=0.4),
    g1(X=-10),
    g1(X=0.3, E=0.05),
    g1(X=3, Y=2, E=0.5),
    g1(E=-0.8),
    g1(E=0.8),
    g1(Z=0.2),
    g1(X=-0.3, Y=0.01, E=0.05),
    op("G4", P=250),
    g1(F=6000),
    g1(F=600),
    op("M204", P=200),
    op("M205", X=2),
    [{}, "note G1 X99"],
]
SMALL = [
    g1(X=10),
    g1(Y=0.4, E=0.1),
    g1(X=-2, Y=2, E=0.3),
    g1(E=-0.8),
    op("G4", P=100),
    g1(X=1.5, F=3000),
]


def to_abs(lines, init):
    """The same program in absolute coordinates (positions rounded to 1e-6, as slicers write them)."""
    out = []
    pos = dict(zip("XYZE", init))
    for w, k in lines:
        nw = {}
        for word, a in w.items():
            if word in ("G91", "M83"):
                nw[{"G91": "G90", "M83": "M82"}[word]] = {}
            elif word in ("G0", "G1"):
                na = {}
                for p, v in a.items():
                    if p in pos:
                        pos[p] = round(pos[p] + v, 6)
                        na[p] = pos[p]
                    else:
                        na[p] = v
                nw[word] = na
            else:
                nw[word] = dict(a)
        out.append([nw, k])
    return out


def words(alphabet, lo, hi, fws=FWS, cfgs=({},), inits=((0.0, 0.0, 0.0, 0.0),), cue=None, styles=("rel",)):
    def mk(ws, fw, cfg, init, style):
        lines = REL + list(ws)
        if style == "abs":
            lines = to_abs(lines, init)
        return case(lines, fw=fw, cfg=cfg, init=init, cue=cue)

    return Product(Words(alphabet, lo, hi), fws, cfgs, inits, styles, make=mk)


# ------------------------------------------------------------------------------- base programs


def spiral(n=14, step=23.0, r=4.0, e=0.05, f=1800):
    """A polyline with slowly varying corner angles, extruding."""
    out = []
    a = 0.0
    for i in range(n):
        a += math.radians(step * (1 + (i % 5) * 0.7))
        out.append(g1(X=round(r * math.cos(a) * (0.2 + (i % 3)), 3), Y=round(r * math.sin(a) * (0.2 + (i % 3)), 3), E=e))
    out[0][0]["G1"]["F"] = float(f)
    return out


def layers():
    """Two printed layers with retraction, travel, hop, dwell and settings changes."""
    L = []
    for k in range(2):
        L += [
            [{}, "LAYER"],
            g1(Z=0.2, F=600),
            g1(X=5, Y=1, F=9000),
            g1(E=0.8, F=2100),
            g1(X=20, E=0.9, F=1500),
            g1(Y=0.4, E=0.02),
            g1(X=-20, E=0.9),
            g1(Y=0.4, E=0.02),
            g1(X=10, E=0.45, F=2400),
            g1(X=0.2, Y=0.1, E=0.01),
            g1(X=0.2, Y=0.15, E=0.01),
            g1(X=0.15, Y=0.2, E=0.01),
            g1(X=0.1, Y=0.2, E=0.01),
            g1(Y=5, E=0.2),
            op("G4", P=120),
            g1(E=-0.8, F=2100),
            g1(X=-15.7, Y=-7.45, F=9000),
        ]
        if k == 0:
            L.insert(9, op("M204", P=600))
            L.insert(12, op("M205", X=4))
    return L


def zigzag(n=16, d=0.35, f=4200):
    L = []
    for i in range(n):
        L.append(g1(X=d * (1 + i % 4), Y=(d if i % 2 else -d * 0.5), E=0.02))
    L[0][0]["G1"]["F"] = float(f)
    return L


def line_chain(n=20, d=0.8, f=6000):
    L = [g1(X=d, E=0.03) for _ in range(n)]
    L[0][0]["G1"]["F"] = float(f)
    return L


BASES = {"layers": layers, "spiral": spiral, "zigzag": zigzag, "line": line_chain}


def deviations(bases=("layers", "spiral", "zigzag", "line"), alphabet=None, fws=FWS, cue=None, inits=((1.5, -2.0, 0.3, 7.0),), cfgs=({},), styles=("rel",), pairs=False):
    """Every base program, with every single operation of the alphabet inserted at every position
    (bounded deviation: 0 or 1), and with every single line removed."""
    alphabet = list(MOTION if alphabet is None else alphabet)
    variants = []
    for b in bases:
        L = BASES[b]()
        variants.append((b, None, None, None))
        for i in range(len(L) + 1):
            for o in range(len(alphabet)):
                variants.append((b, "ins", i, o))
        for i in range(len(L)):
            variants.append((b, "del", i, None))

    def mk(v, fw, cfg, init, style):
        b, kind, i, o = v
        L = [x for x in BASES[b]()]
        if kind == "ins":
            L.insert(i, alphabet[o])
        elif kind == "del":
            del L[i]
        lines = REL + L
        if style == "abs":
            lines = to_abs(lines, init)
        return case(lines, fw=fw, cfg=cfg, init=init, cue=cue, dev=[b, kind, i])

    return Product(variants, fws, cfgs, inits, styles, make=mk)


def polyline(pts, fs, e=None):
    """Absolute moves through points with feed rates (mm/s)."""
    L = []
    for i, (p, f) in enumerate(zip(pts, fs)):
        a = {"X": p[0], "Y": p[1], "F": f * 60}
        if e is not None and e[i] is not None:
            a["E"] = e[i]
        L.append(g1(**{k: round(v, 6) for k, v in a.items()}))
    return L


def kin_grid(ds, fs, accs, jerks, fws=FWS, turns=(0.0, 30.0, 90.0), n=3):
    """Polylines of n moves: every choice of length and feed per move, of turn angle, acceleration, jerk."""

    def mk(dd, ff, turn, acc, jerk, fw):
        x = y = 0.0
        L = []
        for k in range(n):
            a = math.radians(turn * k)
            x, y = x + dd[k] * math.cos(a), y + dd[k] * math.sin(a)
            L.append(g1(X=round(x, 6), Y=round(y, 6), E=round(0.03 * (k + 1) * dd[k], 6), F=ff[k] * 60))
        return case(L, fw=fw, cfg={"p_acc": acc, "jerk": jerk})

    return Product(
        list(itertools.product(ds, repeat=n)), list(itertools.product(fs, repeat=n)), turns, accs, jerks, fws, make=mk
    )


HAIRS = (0.0, 1e-2, -1e-2, 1e-3, -1e-3, 1e-4, -1e-4, 1e-5, -1e-5, 1e-6, -1e-6, 1e-8, -1e-8)


def brink(fws=CORNERING, hairs=HAIRS, speeds=(20.0, 50.0, 130.0), accs=(200, 1000), jerks=(8, 400)):
    """Moves whose length is the way they need to speed up or to brake, but for a hair."""

    def mk(kind, v, acc, eps, fw, jerk):
        up = v * v / (2.0 * acc) * (1 + eps)
        far = v * v / acc * 3 + 1
        if kind == "up":  # reaches its feed rate at its very end
            L = [g1(X=up, F=v * 60), g1(X=far)]
        elif kind == "down":  # the last move just has to begin slower than the feed rate
            L = [g1(X=far, F=v * 60), g1(X=up)]
        elif kind == "down two":  # braking takes the last two moves, or three
            L = [g1(X=far, F=v * 60), g1(X=round(up / 3, 9)), g1(X=up - round(up / 3, 9))]
        elif kind == "top":  # a trapezoid with hardly any way at constant speed
            L = [g1(X=2 * up, F=v * 60), op("G4", P=10), g1(Y=2 * up)]
        elif kind == "slower":  # brakes to the feed rate of the next move
            L = [g1(X=far, F=v * 60), g1(X=up * 0.75), g1(X=far, F=v * 30)]
        elif kind == "faster":
            L = [g1(X=far, F=v * 30), g1(X=up * 0.75, F=v * 60), g1(X=far)]
        elif kind == "corner":
            L = [g1(X=far, F=v * 60), g1(X=up), g1(Y=far)]
        elif kind == "filament":
            L = [g1(E=up * 2, F=v * 60), g1(X=far, E=1), g1(E=-up * 2)]
        return case(REL + L, fw=fw, cfg={"p_acc": acc, "jerk": jerk})

    return Product(("up", "down", "down two", "top", "slower", "faster", "corner", "filament"), speeds, accs, hairs, fws, jerks, make=mk)


def stretch(lines, k, kf, kt=1.0):
    """The program with its lengths, feed rates and dwells multiplied."""
    out = []
    for w, c in lines:
        nw = {}
        for word, a in w.items():
            if word in ("G0", "G1"):
                nw[word] = {p: round(v * (kf if p == "F" else k), 9) for p, v in a.items()}
            elif word == "G4":
                nw[word] = {p: v * kt for p, v in a.items()}
            else:
                nw[word] = dict(a)
        out.append([nw, c])
    return out


FAR = (-12345.5, 4321.25, 250.0, 98765.4)


def extremes(lens=(0.02, 1.0, 60.0), feeds=(0.02, 1.0, 25.0), accs=(20, 1000, 30000), fws=("marlin_jd",), dwells=(1.0,), inits=((1.5, -2.0, 0.3, 7.0),), bases=tuple(BASES), jerks=(8,), cue="LAYER"):
    """Base programs at unusual magnitudes: every choice of length, feed rate and dwell factor, of acceleration and of start point."""

    def mk(b, k, kf, kt, acc, jerk, fw, init):
        return case(REL + stretch(BASES[b](), k, kf, kt), fw=fw, cfg={"p_acc": acc, "jerk": jerk}, init=init, cue=cue)

    return Product(bases, lens, feeds, dwells, accs, jerks, fws, inits, make=mk)


def repeats(ops, counts, tails, fws=("marlin_jd",), inits=((1.5, -2.0, 0.3, 7.0),), cue=None):
    """Long programs: a short list of lines many times over, then one of several endings."""

    def mk(o, n, t, fw, init):
        return case(REL + list(o) * n + list(t), fw=fw, init=init, cue=cue)

    return Product(ops, counts, tails, fws, inits, make=mk)
