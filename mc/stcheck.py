"""Compare the states generated by the real parser with the observations of the reference machine."""

from __future__ import annotations

from . import refvm
from .core import require

TOL = 1.1e-9  # positions are kept to 1e-9 mm


def A():
    from . import adapter

    return adapter


def path_keys(rec, c, obs, ops):
    base = tuple(sorted((k, str(v)) for k, v in c.get("cfg", {}).items()))
    rec.path([(base, o["pos"], tuple(sorted(o["set"].items())), o["units"], o["layer"], o["pause"]) for o in obs], ops)


def expected(c):
    s = A().ref_setup(firmware=None, initial=c.get("init", (0.0, 0.0, 0.0, 0.0)), layer_cue=c.get("cue"), **c.get("cfg", {}))
    return refvm.run(s, [(w, k) for w, k in c["lines"]])


def actual(c, text):
    a = A()
    s = a.make_setup(firmware=None, initial=tuple(c.get("init", (0.0, 0.0, 0.0, 0.0))), layer_cue=c.get("cue"), **c.get("cfg", {}))
    return a.states(text, setup=s)


SETTINGS = {"speed": "speed", "p_acc": "p_acc", "jerk": "jerk", "vX": "vX", "vY": "vY", "vZ": "vZ", "vE": "vE"}


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def compare(states, obs, positions=True, settings=True, comments=True, line_numbers=True, args=None):
    """`args`: magnitudes of the numbers on each line, which bound the rounding errors."""
    require(len(states) == len(obs), "%d states for %d lines", len(states), len(obs) - 1)
    big = 1.0
    for i, (s, o) in enumerate(zip(states, obs)):
        big = max(big, max(map(abs, o["pos"])), 25.4 * max(args[i - 1] if args and i else [0.0]))
        if positions:
            p = [float(x) for x in s.state_position.get_vec(withExtrusion=True)]
            for k in range(4):
                require(abs(p[k] - o["pos"][k]) <= TOL + 1e-13 * big, "after line %d axis %s is at %r, should be %r", i, "XYZE"[k], p[k], o["pos"][k])
        if settings:
            for a, n in SETTINGS.items():
                v = getattr(s.state_p_settings, n)
                require(near(v, o["set"][a]), "after line %d setting %s is %r, should be %r", i, a, v, o["set"][a])
            pz, want = s.pause, o["pause"]
            require((pz is None) == (want is None), "dwell of line %d is %r, should be %r", i, pz, want)
            require(pz is None or near(pz, want), "dwell of line %d is %r, should be %r", i, pz, want)
            require(s.layer == o["layer"] or not i, "layer of line %d is %r, should be %r", i, s.layer, o["layer"])
        if comments and i:
            require(s.comment == o["comment"], "comment of line %d is %r, should be %r", i, s.comment, o["comment"])
        if line_numbers:
            require(s.line_number == (i or None), "line number %r, should be %r", s.line_number, i or None)


def links(states):
    for i, s in enumerate(states):
        require(s.prev_state is (states[i - 1] if i else None), "state %d: wrong previous state", i)
        require(s.next_state is (states[i + 1] if i + 1 < len(states) else None), "state %d: wrong next state", i)
    require(len({id(s) for s in states}) == len(states), "a state occurs twice")
    require(len({id(s.state_p_settings) for s in states}) == len(states), "states share their settings")
    require(len({id(s.state_position) for s in states}) == len(states), "states share their position")


def explore(c, rec, **kw):
    obs = expected(c)
    text = c.get("text")
    if text is None:
        text = "".join(refvm.text(w, k) + "\n" for w, k in c["lines"])
    path_keys(rec, c, obs, [repr(x) for x in c["lines"]])
    st = actual(c, text)
    rec.trace()
    args = [[abs(x) for a in w.values() for x in (a or {}).values()] or [0.0] for w, k in c["lines"]]
    compare(st, obs, args=args, **kw)
    links(st)
    rec.compared(len(obs))
    rec.outcome([(o["pos"], o["pause"], sorted(o["set"].items()), o["comment"]) for o in obs])
    return st, obs
