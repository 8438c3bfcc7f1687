"""C28: the 2D position plot draws the simulated path."""

import contextlib

import numpy as np

from .. import prog
from ..core import Product, Space, Words, require
from ..prog import close, n3
from .c20 import NAMES, written

TITLE = "line, colours and marks of the 2D position plot"
ASSUMPTIONS = ["the drawn line is read from matplotlib's artists, not from pixels", "within a piece any monotonous progress of the colour from its begin to its end speed is accepted"]


def near(p, q):
    return all(close(a, b, 1e-6) for a, b in zip(p, q))


def on(s, p):
    """Fraction of piece `s` (in the plane) at which `p` lies, or None."""
    a, b = s.p0[:2], s.p1[:2]
    d = [y - x for x, y in zip(a, b)]
    L2 = d[0] ** 2 + d[1] ** 2
    if L2 < 1e-14:
        return 0.0 if near(p, a) else None
    u = sum((x - y) * z for x, y, z in zip(p, a, d)) / L2
    if not -1e-6 <= u <= 1 + 1e-6:
        return None
    return u if near(p, [x + u * z for x, z in zip(a, d)]) else None


@contextlib.contextmanager
def kept():
    """Figures stay open until they are inspected."""
    import matplotlib.pyplot as plt

    orig, orig_show = plt.close, plt.show
    seen = []

    def close(*a, **k):
        if a == ("all",) or not plt.get_fignums():
            return
        seen.append(a[0] if a and hasattr(a[0], "axes") else plt.gcf())

    plt.close = close
    plt.show = lambda *a, **k: seen.append(plt.gcf())
    try:
        yield seen
    finally:
        plt.close, plt.show = orig, orig_show


def draw(A, r, o):
    """Plot once; the figure is inspected and closed unless it is one that `show` leaves to the user."""
    import matplotlib.pyplot as plt

    folder = A.scratch() / "c28"
    folder.mkdir(exist_ok=True)
    name = o["file"] if isinstance(o["file"], str) else "p2d.png"
    f = folder / (name or "trajectory_2D.png")
    kw = {"colvar": o["col"], "show_points": o["pts"], "scaled": o["scaled"], "show": o["show"], "filepath": f if o["file"] else False, "dpi": 20}
    if name == "":
        del kw["filepath"]  # the one which is used when none is given, in the working directory
    elif o.get("text"):
        kw["filepath"] = str(f)
    for key in o.get("omit", ()):
        kw.pop(key)  # the documented default is what the case says
    if o["res"] is not None:
        kw["colvar_spatial_resolution"] = o["res"]
    with A.quiet(), kept() as seen, contextlib.chdir(folder):
        r.sim.plot_2d_position(**kw)
    written(folder, f if o["file"] is not False else None)
    require(len(seen) == 1, "%d figures are shown or closed", len(seen))
    fig = seen[0]
    ax = fig.axes[0]
    moving = r.segs
    final = moving[-1].p1[:2]
    if o["col"] == "Velocity":
        lc = [c for c in ax.collections if type(c).__name__ == "LineCollection"]
        require(len(lc) == 1 and not len(ax.lines), "%d coloured and %d plain lines are drawn", len(lc), len(ax.lines))
        pairs = [np.asarray(p, dtype=float) for p in lc[0].get_segments()]
        cols = np.asarray(lc[0].get_array(), dtype=float)
        require(len(cols) >= len(pairs), "%d colours for %d lines", len(cols), len(pairs))
        check_coloured(moving, pairs, cols, o["res"] or 1)
        pts = [p for q in pairs for p in q]
    else:
        require(len(ax.lines) == 1, "%d lines are drawn", len(ax.lines))
        pts = [tuple(map(float, p)) for p in np.asarray(ax.lines[0].get_xydata())]
        require(not [c for c in ax.collections if type(c).__name__ == "LineCollection"], "a coloured line although not asked for")
        check_plain(moving, pts)
    if pts:
        require(near(pts[-1], final), "the line ends at %s, the path at %s", list(pts[-1]), list(final))
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    require(all(x0 - 1e-6 <= p[0] <= x1 + 1e-6 and y0 - 1e-6 <= p[1] <= y1 + 1e-6 for p in pts), "part of the path is outside the axes")
    require((ax.get_aspect() in (1, 1.0, "equal")) == o["scaled"], "aspect %s with scaled=%s", ax.get_aspect(), o["scaled"])
    marks = [tuple(map(float, p)) for c in ax.collections if type(c).__name__ == "PathCollection" for p in np.asarray(c.get_offsets())]
    want = [b.segs[-1].p1[:2] for b in r.blocks] if o["pts"] else []
    require(len(marks) == len(want), "%d points are marked, should be %d", len(marks), len(want))
    key = lambda p: (round(p[0], 6), round(p[1], 6))
    for m, w in zip(sorted(marks, key=key), sorted(want, key=key)):
        require(near(m, w), "a point is marked at %s, should be at %s", m, list(w))
    if not o["show"]:
        plt.close(fig)
    return pts


def check_plain(segs, pts):
    want = [segs[0].p0[:2]] + [s.p1[:2] for s in segs]
    slim = lambda ps: [p for i, p in enumerate(ps) if i == 0 or not near(p, ps[i - 1])]
    a, b = slim(pts), slim(want)
    require(len(a) == len(b) and all(near(p, q) for p, q in zip(a, b)), "the line runs through %s, the path through %s", [list(p) for p in a[:9]], [list(p) for p in b[:9]])


def check_coloured(segs, pairs, cols, res):
    if not pairs:
        require(all(near(x.p0[:2], x.p1[:2]) for x in segs), "nothing is drawn")
        return
    require(near(pairs[0][0], segs[0].p0[:2]), "the line begins at %s, the path at %s", pairs[0][0].tolist(), list(segs[0].p0[:2]))
    i, u = 0, 0.0  # current piece and how far the line has come on it
    last = (-1, 0.0)
    for k, (p, q) in enumerate(pairs):
        require(k == 0 or near(p, pairs[k - 1][1]), "the line is interrupted at %s", p.tolist())
        if near(p, q):
            continue
        # move on to the piece that the line p-q lies on
        while True:
            s = segs[i]
            flat = near(s.p0[:2], s.p1[:2])
            if flat or near(p, s.p1[:2]):
                i += 1
                u = 0.0
                require(i < len(segs), "the line goes on behind the end of the path to %s", q.tolist())
                continue
            break
        up, uq = on(s, p), on(s, q)
        require(up is not None and uq is not None and close(up, u, 1e-5) and uq > up, "the line from %s to %s is not on the piece from %s to %s", p.tolist(), q.tolist(), list(s.p0[:2]), list(s.p1[:2]))
        a, b = n3(s.v0), n3(s.v1)
        ok = [a, b]
        if u < 1e-9:
            j = i - 1  # at the begin of a piece the speed of the previous ones is as good
            while j >= 0 and near(segs[j].p1[:2], p):
                ok += [n3(segs[j].v1), n3(segs[j].v0)] if near(segs[j].p0[:2], p) else [n3(segs[j].v1)]
                j -= 1
        c = float(cols[k])
        require(min(ok) - 1e-5 * (1 + max(ok)) <= c <= max(ok) + 1e-5 * (1 + max(ok)), "the line from %s to %s has the colour of %r mm/s, the speed there is %r to %r", p.tolist(), q.tolist(), c, a, b)
        if u >= 1e-9 and last[0] == i and abs(b - a) > 1e-6:
            require((c - last[1]) * (b - a) >= -1e-6, "the colour goes from %r to %r while the speed goes from %r to %r", last[1], c, a, b)
        if u >= 1e-9 and abs(b - a) > 1e-6:
            require(abs(c - a) <= abs(b - a) * (1 + 1e-6) + 1e-6, "colour %r outside of the speeds", c)
        if abs(a - b) > 1e-6:
            require(np.hypot(*(q - p)) <= res * (1 + 1e-6), "a part of %r mm is drawn in one colour, the resolution is %r", float(np.hypot(*(q - p))), res)
        last = (i, c)
        u = uq
    # nothing of the path is left out
    s = segs[i]
    if not near(s.p0[:2], s.p1[:2]):
        require(abs(u - 1) < 1e-5 or (u == 0 and i == 0), "the line ends within a piece")
    for s in segs[i + 1 :]:
        require(near(s.p0[:2], s.p1[:2]), "the path from %s to %s is not drawn", list(s.p0[:2]), list(s.p1[:2]))


def explore(c, rec):
    import matplotlib.pyplot as plt

    A = prog.adapter()
    r = prog.Run(c, rec, plan=False)
    rows = [s.row() for s in r.segs]
    try:
        for o in c["plots"]:
            pts = draw(A, r, o)
            require([s.row() for s in A.segs(r.sim)] == rows, "plotting changed the simulation")
            rec.compared(len(pts))
            rec.outcome(o["col"], o["pts"], o["res"], [(round(float(p[0]), 5), round(float(p[1]), 5)) for p in pts[:20]])
    finally:
        plt.close("all")


def opt(col="Velocity", pts=False, res=None, scaled=True, show=False, file=False):
    return {"col": col, "pts": pts, "res": res, "scaled": scaled, "show": show, "file": file}


OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-3, Y=2, E=0.1),
    prog.g1(Y=4, Z=0.3),
    prog.g1(Z=0.5, F=600),
    prog.g1(E=-0.8),
    prog.g1(X=0.05, Y=-0.05, F=900),
    prog.op("G4", P=250),
]
I = ((1.5, -2.25, 0.3, 7.125),)


def slight(acc, f0, df, fw, axis):
    """Long moves whose speeds differ by little."""
    L = [prog.g1(**{axis: 60, "F": f0}), prog.g1(**{axis: 60, "F": f0 + df}), prog.g1(**{axis: 60, "F": f0}), prog.op("G4", P=100), prog.g1(X=0.4, Y=0.3)]
    return prog.case(prog.REL + L, fw=fw, cfg={"p_acc": acc}, init=I[0])


def o(c, plots):
    return {**c, "plots": plots if isinstance(plots, list) else [plots]}


def spaces(tier):
    deep = tier == "thorough"
    B = (False, True)
    main = prog.case(prog.REL + [OPS[0], OPS[1], OPS[4], OPS[6], OPS[2], OPS[5]], fw="marlin_jd", init=I[0])
    H = [opt(), opt(show=True), opt(col="none", show=True), opt(col=None, pts=True), opt(pts=True, res=3)]
    return [
        Space("words", "all programs of 1..%d operations over 7, coloured and plain, with marks" % (4 if deep else 3), Product(prog.words(OPS, 1, 4 if deep else 3, fws=prog.FWS if deep else ("marlin_jd", "marlin_jerk"), inits=I), (opt(pts=True, res=2), opt(col="Acceleration", pts=True)) if deep else (opt(pts=True, res=2),), make=o), explore),
        Space("plain", "all programs of 1..%d operations, plain" % (3 if deep else 2), Product(prog.words(OPS, 1, 3 if deep else 2, fws=(None, "klipper"), inits=I), (opt(col=None, pts=True), opt(col="Acceleration")), make=o), explore),
        Space("options", "all combinations of colouring, marks, scaling, showing and file", Product((main,), ("Velocity", "Acceleration", None), B, (None, 0.25, 1, 50), B, B, B, make=lambda c, *a: o(c, opt(*a))), explore),
        Space("defaults", "every subset of the options left at the documented default", Product((main,), [[n for k, n in enumerate(("colvar", "show_points", "scaled", "show", "dpi")) if m >> k & 1] for m in range(32)], B, make=lambda c, omit, f: o(c, {**opt(file=f), "omit": omit})), explore),
        Space("names", "names and kinds of image, given as a path or as text, and the default", Product((main,), ("Velocity", None), NAMES + ("",), B, make=lambda c, col, f, t: o(c, {**opt(col, file=f), "text": t})), explore),
        Space("resolution", "spatial resolutions x programs of 1..2 operations", Product(prog.words(OPS, 1, 2, fws=("klipper", "MKA"), inits=I), tuple(opt(res=x) for x in (0.01, 0.3, 0.7, 1.0, 2.5, 9.99, 10, 10.01, 1000)), make=o), explore),
        Space("slight", "long moves whose speeds differ by little", Product(Product((0.8, 5, 40), (600, 1200), (1, 6, 30, 120), prog.CORNERING if deep else ("marlin_jd", "MKA"), "XY", make=slight), (opt(res=0.5), opt(res=7)), make=o), explore),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", Product(prog.extremes(lens=(0.02, 1.0, 20.0), bases=("layers", "zigzag")), (opt(pts=True, res=25), opt(col=None, pts=True)), make=o), explore),
        Space("histories", "all sequences of 2..%d plots in one process, shown figures left open" % (4 if deep else 3), Product((main,), Words(H, 2, 4 if deep else 3), make=o), explore),
        Space("deviations", "base programs with one operation inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[3:7:2], fws=prog.FWS if deep else ("marlin_jerk",), bases=("layers", "spiral", "zigzag", "line") if deep else ("layers", "line")), (opt(pts=True),), make=o), explore),
    ]
