"""C25: four-axis vectors obey vector algebra."""

import itertools
import math
import re

from ..core import Product, Space, Words, require

TITLE = "vector operations act per component on every operand pair of the lattice"
ASSUMPTIONS = [
    "equality is decided per component: equal up to 1e-10 relative is equal, different by more than 1e-4 of its size and 1e-6 is not; in between is not compared",
    "numpy scalars other than float64 and booleans as factors are not compared",
]
AX = "xyze"
NUM = re.compile(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?")


def kinds():
    from .. import adapter  # noqa: F401  (puts the code under test on the path)
    from pyGCodeDecode.utils import position, velocity

    return {"position": position, "velocity": velocity}


def comps(v):
    return tuple(getattr(v, k) for k in AX)


def same(a, b):
    return all(abs(x - y) <= 1e-12 * (1 + max(abs(x), abs(y))) for x, y in zip(a, b))


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def n(v):
    return math.sqrt(sum(x * x for x in v))


def forms(K, b):
    import numpy as np

    return {"vector": K(*b), "list": list(b), "tuple": tuple(b), "array": np.array(b, dtype=float)}


def pair(c, rec):
    """One vector against every vector of the lattice, in every operand form."""
    import numpy as np

    K = kinds()[c["kind"]]
    a = tuple(c["a"])
    for bi in range(len(c["lattice"]) ** 4):
        b = []
        for _ in range(4):
            bi, r = divmod(bi, len(c["lattice"]))
            b.append(c["lattice"][r])
        b = tuple(b)
        rec.step(a, b)
        for form, B in forms(K, b).items():
            A = K(*a)
            for name, got, want in (
                ("+", A + B, tuple(x + y for x, y in zip(a, b))),
                ("-", A - B, tuple(x - y for x, y in zip(a, b))),
            ):
                require(type(got) is K, "%s %s %s gives a %s", c["kind"], name, form, type(got).__name__)
                require(same(comps(got), want), "%s %s %s (%s) = %s, should be %s", a, name, b, form, comps(got), want)
                require(got is not A and got is not B, "%s returns its operand", name)
            require(comps(A) == a and same(comps(B) if form == "vector" else tuple(B), b), "an operation changed an operand: %s %s", comps(A), B)
            eq = bool(A == B)
            if all(abs(x - y) <= 1e-10 * max(abs(x), abs(y)) for x, y in zip(a, b)):
                require(eq, "%s == %s (%s) is false", a, b, form)
            elif any(abs(x - y) > 1e-6 + 1e-4 * max(abs(x), abs(y)) for x, y in zip(a, b)):
                require(not eq, "%s == %s (%s) is true", a, b, form)
            rec.compared(3)
        if c["kind"] == "position":
            A, B = K(*a), K(*b)
            require(A.is_travel(B) == (a[:3] != b[:3]), "is_travel from %s to %s is %s", a, b, A.is_travel(B))
            require(A.is_extruding(B) == (b[3] > a[3]), "is_extruding from %s to %s is %s", a, b, A.is_extruding(B))
            require(A.is_extruding(B, ignore_retract=False) == (b[3] != a[3]), "is_extruding with retraction from %s to %s is %s", a, b, A.is_extruding(B, ignore_retract=False))
            d = [x - y for x, y in zip(a, b)]
            require(same([A.get_t_distance(B)], [n(d[:3])]), "distance %s to %s is %r", a, b, A.get_t_distance(B))
            require(same([A.get_t_distance(B, withExtrusion=True)], [n(d)]), "four-axis distance %s to %s is %r", a, b, A.get_t_distance(B, withExtrusion=True))
            require(comps(A) == a and comps(B) == b, "a query changed an operand")
            rec.compared(5)
    rec.state(c["kind"], a)
    rec.outcome(c["kind"], a)
    rec.trace()


FACTORS = (0, 1, -1, 2, 3.7, -0.25, 0.0, 1e-9, 1e6)


def single(c, rec):
    """One vector: scaling, division, norms, directions, constructors, refusals."""
    import numpy as np

    K = kinds()[c["kind"]]
    other = kinds()["velocity" if c["kind"] == "position" else "position"]
    a = tuple(c["a"])
    A = K(*a)
    for form in (list(a), tuple(a), np.array(a)):
        V = K(form)
        require(comps(V) == a or same(comps(V), a), "constructed from %s: %s", form, comps(V))
    for f in FACTORS:
        for F in (f, np.float64(f)):
            got = A * F
            require(type(got) is K and same(comps(got), tuple(x * f for x in a)), "%s * %r = %s", a, F, comps(got))
            if f != 0:
                got = A / F
                require(type(got) is K and same(comps(got), tuple(x / f for x in a)), "%s / %r = %s", a, F, comps(got))
        rec.step(a, f)
    for bad in ("2", None, [1, 2, 3, 4], (1.0,), {}, K(1, 2, 3, 4), 1j, np.ones(4), np.array([2.0]), np.array([1, 2, 3, 4]), b"2", other(1, 2, 3, 4), {2}, range(4), "", []):
        require(raises(lambda: A * bad), "%s * %r is accepted", a, bad)
        require(raises(lambda: A / bad), "%s / %r is accepted", a, bad)
    for bad in (1, 2.5, None, "abcd", [1, 2, 3], (1, 2, 3, 4, 5), [], np.zeros(3), {"x": 1}, {1: 1, 2: 2, 3: 3, 4: 4}, other(1, 2, 3, 4)):
        require(raises(lambda: A + bad), "%s + %r is accepted", a, bad)
        require(raises(lambda: A - bad), "%s - %r is accepted", a, bad)
    for bad in ((1, 2, 3), (1, 2), (1, 2, 3, 4, 5), ([1, 2, 3],), ([1, 2, 3, 4, 5],), ()):
        require(raises(lambda: K(*bad)), "%s%s is accepted", c["kind"], bad)
    require(comps(A) == a, "an operation changed its operand: %s", comps(A))
    # in-place notation makes a new vector
    B = A
    B += K(1, 1, 1, 1)
    require(comps(A) == a, "+= changed the vector under its other name: %s", comps(A))
    require(same([A.get_norm()], [n(a[:3])]), "norm of %s is %r", a, A.get_norm())
    require(same([A.get_norm(withExtrusion=True)], [n(a)]), "four-axis norm of %s is %r", a, A.get_norm(withExtrusion=True))
    require(list(A.get_vec()) == list(a[:3]) and list(A.get_vec(withExtrusion=True)) == list(a), "components of %s: %s %s", a, A.get_vec(), A.get_vec(withExtrusion=True))
    if c["kind"] == "position":
        require(same([A.get_t_distance()], [n(a[:3])]) and same([A.get_t_distance(withExtrusion=True)], [n(a)]), "distance of %s from the origin is %r", a, A.get_t_distance())
    else:
        require(bool(A.not_zero()) == any(a), "not_zero of %s is %s", a, A.not_zero())
        require(bool(A.is_extruding()) == (a[3] > 0), "is_extruding of %s is %s", a, A.is_extruding())
        d3, d4 = A.get_norm_dir(), A.get_norm_dir(withExtrusion=True)
        m = n(a[:3])
        if m > 0:
            require(d3 is not None and len(d3) == 3 and same(d3, [x / m for x in a[:3]]), "direction of %s is %s", a, d3)
            require(d4 is not None and len(d4) == 4 and same(d4, [x / m for x in a]), "four-axis direction of %s is %s", a, d4)
        else:
            require(d3 is None, "direction of %s is %s", a, d3)
            if a[3]:
                require(d4 is not None and same(d4, [x / abs(a[3]) for x in a]), "four-axis direction of %s is %s", a, d4)
            else:
                require(d4 is None, "four-axis direction of %s is %s", a, d4)
    # near-equality, one component at a time
    for k in range(4):
        for rel, want in ((1e-12, True), (-1e-11, True), (1.5e-4, False), (-2e-3, False), (1.0, False)):
            b = list(a)
            b[k] += rel * a[k] + (math.copysign(2e-6, rel) if not want else 0)
            for form, B in forms(K, tuple(b)).items():
                require(bool(A == B) == want, "%s == %s (%s) is %s", a, b, form, bool(A == B))
    for k in (1, 1234.5678901, 1e-4):
        text = str(A * k)
        require(c["kind"] in text, "printed %s as %r", c["kind"], text)
        got = [float(x) for x in NUM.findall(text)]
        require(len(got) == 4 and all(abs(x - y * k) <= 1e-9 * abs(y * k) for x, y in zip(got, a)), "printed %s as %r", [x * k for x in a], text)
    require(not (A == "x") and not (A == None) and not (A == [1, 2]), "%s equals garbage", a)  # noqa: E711
    require(comps(A) == a, "a query changed its operand: %s", comps(A))
    rec.state(c["kind"], a)
    rec.outcome(c["kind"], a)
    rec.compared(60)
    rec.trace()


def terms(c, rec):
    """Chains of operations against plain arithmetic."""
    K = kinds()[c["kind"]]
    v = K(1.5, -2.0, 0.25, 3.0)
    w = (1.5, -2.0, 0.25, 3.0)
    keep = [(v, w)]
    key = w
    for o, x in c["ops"]:
        if o == "+":
            v, w = v + (K(*x)), tuple(p + q for p, q in zip(w, x))
        elif o == "-":
            v, w = v - list(x), tuple(p - q for p, q in zip(w, x))
        elif o == "*":
            v, w = v * x, tuple(p * x for p in w)
        elif o == "/":
            v, w = v / x, tuple(p / x for p in w)
        elif o == "rev":
            v, w = keep[0][0] - v, tuple(p - q for p, q in zip(keep[0][1], w))
        rec.step(key, (o, x))
        key = w
        rec.state(w)
        keep.append((v, w))
    for p, q in keep:
        require(type(p) is K and same(comps(p), q), "after %s: %s, should be %s", c["ops"], comps(p), q)
    rec.trace()
    rec.compared(len(keep))
    rec.outcome(w)


class Limits:
    def __init__(self, m):
        self.vX, self.vY, self.vZ, self.vE = m
        self.speed, self.p_acc, self.jerk, self.units = 50, 1000, 10, "SImm"


def limit(c, rec):
    """The fastest velocity of the same direction within the axis limits."""
    V = kinds()["velocity"]
    a, m = tuple(c["a"]), tuple(c["m"])
    A = V(*a)
    L = Limits(m)
    got = A.avoid_overspeed(L)
    f = min([1.0] + [y / abs(x) for x, y in zip(a, m) if x])
    require(type(got) is V and same(comps(got), tuple(x * f for x in a)), "%s limited to %s is %s", a, m, got if type(got) is not V else comps(got))
    again = got.avoid_overspeed(L)
    require(same(comps(again), comps(got)), "%s limited twice is %s", a, comps(again))
    require(comps(A) == a and (L.vX, L.vY, L.vZ, L.vE) == m, "limiting changed its operands")
    rec.step(a, m)
    rec.state(a)
    rec.outcome(f)
    rec.trace()
    rec.compared(4)


def spaces(tier):
    deep = tier == "thorough"
    lat = (-2.0, 0.0, 0.1, 1.5) if not deep else (-2.0, 0.0, 0.1, 1.5, 123456.789)
    big = (-2.0, -1e-7, 0.0, 0.1, 1.5, 123456.789)
    ops = [("+", (1.0, 2.0, -3.0, 0.5)), ("-", (0.0, 0.1, 0.0, -4.0)), ("*", 3), ("*", -0.5), ("/", 4), ("/", 0.3), ("rev", None)]
    vl = (-200.0, -30.0, 0.0, 0.5, 60.0) if deep else (-200.0, 0.0, 0.5, 60.0)
    ml = (0.25, 30.0, 180.0)
    return [
        Space("pairs", "all pairs of vectors over %s, both kinds, all operand forms" % (lat,), [{"kind": k, "a": list(a), "lattice": lat} for k in ("position", "velocity") for a in itertools.product(lat, repeat=4)], pair),
        Space("single", "all vectors over %s, both kinds: scaling, norms, queries, refusals" % (big,), [{"kind": k, "a": list(a)} for k in ("position", "velocity") for a in itertools.product(big, repeat=4)], single),
        Space("limits", "velocities x limits of the four axes", Product(list(itertools.product(vl, repeat=4)), list(itertools.product(ml, repeat=4)), make=lambda a, m: {"a": list(a), "m": list(m)}), limit),
        Space("chains", "all chains of 1..%d operations" % (6 if deep else 4), [{"kind": k, "ops": [list(x) for x in w]} for k in ("position", "velocity") for w in (lambda W: [W[i] for i in range(len(W))])(Words(ops, 1, 6 if deep else 4))], terms),
    ]
