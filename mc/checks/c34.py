"""C34: an operation which is interrupted does no lasting damage."""

import json
import sys

from .. import prog
from ..core import Product, Space, require
from . import c32

TITLE = "an interrupted operation does no lasting damage"
ASSUMPTIONS = [
    "an interrupt arrives between two lines of the package (or between a line and the end of its function); operations inside of one line, of numpy and of other libraries are atomic",
    "what was being changed when the interrupt arrived (a setup by set_property, a simulation by refresh) is given its values again by repeating the call",
]
KINDS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit}


class Stop:
    """Raises an exception at the k-th executed line of the package."""

    def __init__(self, k, kind):
        self.k, self.kind, self.n, self.fired = k, kind, 0, None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.fired = "line %d of %s" % (frame.f_lineno, frame.f_code.co_name)
                raise self.kind("stopped by the check")
        return self.local

    def globl(self, frame, event, arg):
        return self.local if "/pyGCodeDecode/" in frame.f_code.co_filename else None

    def run(self, fn):
        sys.settrace(self.globl)
        try:
            return "returned", fn()
        except self.kind as e:
            return "stopped", str(e)
        except BaseException as e:
            return "failed", "%s: %s" % (type(e).__name__, e)
        finally:
            sys.settrace(None)


def op_kept(name, t, kept):
    """Simulations with one setup, which they must not change."""
    A = prog.adapter()
    s = A.gi.simulation(gcode_path=c32.file(name, t), initial_machine_setup=kept)
    return [c32.rows(s), c32.states(s.states), settings(kept)]


def settings(s):
    return sorted((k, repr(v)) for k, v in s.get_dict().items())


def op_change(name, t, kept):
    """Changes to one setup, complete when the call has returned."""
    kept.set_initial_position({"X": 1, "Y": 2, "Z": 3, "E": 4})
    kept.set_property({"layer_cue": "Q", "p_acc": 10, "vX": 7})
    kept.set_initial_position((5.0, 6.0, 7.0, 8.0))
    kept.set_property({"p_acc": 11})
    return settings(kept)


OPS = {**c32.OPS, "kept": op_kept, "change": op_change}


def thing(op, name):
    if op in ("kept", "change"):
        return c32.fresh(name)
    if op == "refresh":  # on a simulation of its own: nothing is promised about one whose refresh was interrupted
        return prog.adapter().gi.simulation(gcode_path=c32.file(name, 0), initial_machine_setup=c32.fresh(name))
    return c32.prepared(op, name, 0, False)


def renew(name, k):
    """Makes the program new for everything which may remember its file: another file of another content, of the same meaning."""
    p = c32.file(name, 0)
    q = p.with_suffix(".new")
    q.write_text(c32.PROGRAMS[name].rstrip("\n") + " " + "".join(" \t"[k >> i & 1] for i in range(14)) + "\n")
    q.replace(p)


_want = {}


def wanted(op, name):
    """Result and number of lines of an operation nobody interrupts."""
    A = prog.adapter()
    k = (str(A.scratch()), op, name)
    if k not in _want:
        want = c32.plain(OPS[op](name, 0, thing(op, name)))
        renew(name, 0)
        s = Stop(0, KeyboardInterrupt)
        how, got = s.run(lambda: c32.plain(OPS[op](name, 0, thing(op, name))))
        require(how == "returned" and got == want, "%s repeated gives another result (%s)", op, how)
        _want[k] = want, s.n
    return _want[k]


def explore(c, rec):
    with prog.adapter().quiet():
        _explore(c, rec)


def same(got, want, what):
    if got != want:
        x, y = json.dumps(want), json.dumps(got)
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        require(False, "%s gives ...%s instead of ...%s", what, y[max(0, i - 50) : i + 60], x[max(0, i - 50) : i + 60])


def _explore(c, rec):
    op, name, kind = c["op"], c["name"], KINDS[c["kind"]]
    want, n = wanted(op, name)
    others = [(o, wanted(*o)[0]) for o in map(tuple, c["then"])]
    part, parts = c["part"]
    for k in range(1 + part, n + 1, parts):
        renew(name, k)
        x = thing(op, name)
        s = Stop(k, kind)
        how, got = s.run(lambda: c32.plain(OPS[op](name, 0, x)))
        at = "%s of %r, interrupted by %s in %s (line %d of %d)" % (op, name, c["kind"], s.fired, k, n)
        if s.fired is None and how == "returned":  # it takes less lines when repeated
            same(got, want, at)
            continue
        require(how != "failed", "%s, fails otherwise: %s", at, got)
        require(how == "stopped", "%s, returns as if nothing had happened", at)
        if c.get("again"):  # interrupted once more
            j = 1 + (k * 7) % n
            s = Stop(j, kind)
            how, got = s.run(lambda: c32.plain(OPS[op](name, 0, x)))
            require(how == ("stopped" if s.fired else "returned"), "%s, and again at line %d: %s %s", at, j, how, got if how == "failed" else "")
        (o, oname), owant = others[k % len(others)]
        same(c32.plain(OPS[o](oname, 0, thing(o, oname))), owant, "%s: %s of %r afterwards" % (at, o, oname))
        same(c32.plain(OPS[op](name, 0, x)), want, "%s: the same again" % at)
        rec.trace()
        rec.state(op, name, k)
        rec.step((op, name), s.fired)
        rec.compared(2)
    rec.outcome(op, name, len(json.dumps(want)))


def cases(ops, names, kinds, parts, **kw):
    then = [["simulate", "relative inch"], ["states", "abs"], ["values", "tiny"], ["setup", "modes"], ["files", "abs"], ["default", "tiny"]]
    return Product(ops, names, kinds, [[i, parts] for i in range(parts)], make=lambda op, name, kind, part: {"op": op, "name": name, "kind": kind, "part": part, "then": then, **kw})


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("interrupts", "%d operations x programs, interrupted at every executed line of the package" % len(OPS), cases(list(OPS), list(c32.PROGRAMS) if deep else ["tiny", "relative inch"], ("interrupt",), 8), explore, chunk=1),
        Space("kinds", "the same by running out of memory and by exit", cases(["states", "values", "files", "kept"] if not deep else list(OPS), ["tiny"] if not deep else ["tiny", "modes"], ("memory", "exit"), 8), explore, chunk=1),
    ] + ([Space("twice", "interrupted again when repeated", cases(list(OPS), ["tiny", "modes"], ("interrupt",), 8, again=True), explore, chunk=1)] if deep else [])
