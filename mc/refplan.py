"""Reference look-ahead planner: the largest speed profile that respects every limit.

Works on the observations of refvm (never on objects of the code under test).  For each move i with
length d_i, speed cap s_i and acceleration a_i it computes the end speeds as the greatest fixpoint of
    v_i <= junction law,  v_i <= s_i, v_i <= s_{i+1},
    v_i^2 <= v_{i-1}^2 + 2 a_i d_i,   v_{i-1}^2 <= v_i^2 + 2 a_i d_i.
"""

from __future__ import annotations

import math


class Item:
    __slots__ = ("kind", "A", "B", "line", "speed", "acc", "jerk", "d", "unit", "eonly", "pause", "vb", "ve", "t0", "t1", "peak", "jl", "layer")

    def __repr__(self):
        return f"<{self.kind} line={self.line} d={getattr(self, 'd', 0):.4g} vb={self.vb} ve={self.ve} t={self.t0}..{self.t1}>"


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def n3(v):
    return math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)


EPS = 1e-12


def items_of(obs):
    """Split the observations of a program into moves and dwells."""
    out = []
    prev = obs[0]
    for i, o in enumerate(obs[1:], 1):
        d4 = sub(o["pos"], prev["pos"])
        if n3(d4) > EPS or abs(d4[3]) > EPS:
            it = Item()
            it.kind = "move"
            it.A, it.B = prev["pos"], o["pos"]
            it.line = i
            it.speed, it.acc, it.jerk = o["set"]["speed"], o["set"]["p_acc"], o["set"]["jerk"]
            it.eonly = n3(d4) <= EPS
            it.d = abs(d4[3]) if it.eonly else n3(d4)
            it.unit = tuple(c / it.d for c in d4)
            it.pause = None
            it.layer = o["layer"]
            out.append(it)
        if o["pause"] is not None:
            it = Item()
            it.kind = "dwell"
            it.A = it.B = o["pos"]
            it.line = i
            it.pause = o["pause"]
            it.d = 0.0
            it.eonly = False
            it.layer = o["layer"]
            out.append(it)
        prev = o
    return out


# ------------------------------------------------------------------------------- junction laws


def _xyz(it):
    return (0.0, 0.0, 0.0) if it is None else tuple(it.speed * c for c in it.unit[:3])


def _xyze(it):
    return (0.0, 0.0, 0.0, 0.0) if it is None else tuple(it.speed * c for c in it.unit)


def junction_none(cur, nxt):
    return 0.0


def junction_marlin_jd(cur, nxt):
    """Marlin junction deviation (delta = 0.4 jerk^2 / a), stop below 18 deg, full speed above 162 deg."""
    if cur.jerk == 0 or nxt is None or cur.eonly or nxt.eonly:
        return 0.0
    u, w = cur.unit, nxt.unit
    nu, nw = n3(u), n3(w)
    c = -sum(u[k] * w[k] for k in range(3)) / (nu * nw)
    c = max(-1.0, min(1.0, c))
    s = math.sqrt((1 - c) / 2)  # sin(theta/2)
    if s >= math.sin(math.radians(162) / 2):
        return cur.speed
    if s <= math.sin(math.radians(18) / 2):
        return 0.0
    delta = 0.4 * cur.jerk**2 / cur.acc
    return min(cur.speed, math.sqrt(cur.acc * delta * s / (1 - s)))


def junction_klipper(cur, nxt):
    if nxt is None or cur.eonly or nxt.eonly:
        return 0.0
    u, w = cur.unit, nxt.unit
    c = -sum(u[k] * w[k] for k in range(3))
    c = max(c, -0.999999)
    if c > 0.999999:
        return 0.0
    s = math.sqrt(0.5 * (1 - c))
    delta = cur.jerk**2 * (math.sqrt(2) - 1) / cur.acc
    r = delta * s / (1 - s)
    tan = s / math.sqrt(0.5 * (1 + c))
    return math.sqrt(min(cur.acc * r, 0.5 * min(cur.d, nxt.d) * tan * cur.acc, cur.speed**2))


def junction_marlin_jerk(cur, nxt):
    v0, v1 = _xyz(cur), _xyz(nxt)
    lim = 2 * cur.jerk
    dv = n3(sub(v0, v1))
    if dv <= lim:
        return n3(v0)
    return n3(v0) * lim / dv


def junction_mka(cur, nxt):
    v0, v1 = _xyze(cur), _xyze(nxt)
    m = min(n3(v0), n3(v1))
    if m == 0:
        return 0.0
    fac = m / n3(v0)
    vf = 1.0
    for a, b in zip(v0, v1):
        leave, enter = a * fac * vf, b * vf  # of the first and of the second move
        if leave * enter > 0:
            j = abs(leave - enter)  # coasting: only the change counts
        else:
            j = max(abs(leave), abs(enter))  # reversal: the axis stops in between
        if j > cur.jerk:
            vf *= cur.jerk / j
    return m * vf


LAWS = {
    None: junction_none,
    "marlin_jd": junction_marlin_jd,
    "klipper": junction_klipper,
    "marlin_jerk": junction_marlin_jerk,
    "MKA": junction_mka,
}


# ------------------------------------------------------------------------------- look-ahead


def plan(items, firmware, e_start=None):
    """Fill in vb/ve/peak/t0/t1 of every item.  `e_start(item)` may supply the start speed of an
    extruder-only move (classic jerk allows a jump there)."""
    law = LAWS[firmware]
    moves = [i for i in items if i.kind == "move"]
    nxt_move = {}
    last = None
    for it in reversed(items):
        nxt_move[id(it)] = last
        if it.kind == "move":
            last = it
    # end-speed caps (path speed of the tool head; zero next to extruder-only moves and dwells)
    n = len(items)
    caps = [0.0] * (n + 1)  # caps[k] = cap at the boundary before item k
    for k in range(n):
        it = items[k]
        nx = items[k + 1] if k + 1 < n else None
        if it.kind == "dwell":
            caps[k] = 0.0
            caps[k + 1] = 0.0
            continue
        it.jl = law(it, nxt_move[id(it)])
        c = min(it.jl, it.speed)
        if nx is not None:
            c = 0.0 if nx.kind == "dwell" else min(c, nx.speed)
            if nx.kind == "move" and nx.eonly:
                c = 0.0
        if it.eonly:
            c = 0.0
            caps[k] = 0.0
        caps[k + 1] = c
    caps[0] = 0.0
    v2 = [c * c for c in caps]
    for k in range(n):
        it = items[k]
        if it.kind == "move":
            v2[k + 1] = min(v2[k + 1], v2[k] + 2 * it.acc * it.d)
    for k in range(n - 1, -1, -1):
        it = items[k]
        if it.kind == "move":
            v2[k] = min(v2[k], v2[k + 1] + 2 * it.acc * it.d)
    t = 0.0
    for k in range(n):
        it = items[k]
        it.t0 = t
        if it.kind == "dwell":
            it.vb = it.ve = it.peak = 0.0
            t += it.pause
        else:
            it.vb, it.ve = math.sqrt(v2[k]), math.sqrt(v2[k + 1])
            vb = it.vb
            if it.eonly and e_start is not None:
                vb = it.vb = e_start(it)
            t += move_time(it, vb, it.ve)
        it.t1 = t
    return items


def move_time(it, vb, ve):
    a, d, s = it.acc, it.d, it.speed
    peak = min(s, math.sqrt(a * d + (vb * vb + ve * ve) / 2))
    peak = max(peak, vb, ve)
    it.peak = peak
    ramps = (2 * peak * peak - vb * vb - ve * ve) / (2 * a)
    rest = max(0.0, d - ramps)
    return (2 * peak - vb - ve) / a + rest / peak
