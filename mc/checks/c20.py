"""C20: the velocity plot draws the simulated velocities."""

import itertools

import numpy as np

from .. import prog
from ..core import Product, Space, require
from ..prog import close, n3

TITLE = "curves, marks and times of the velocity plot"
ASSUMPTIONS = [
    "curves are recognised by their legend label, position curves by their order (the order of the selected axes)",
    "where a velocity jumps between two pieces the plot may show either side",
]
AX = "xyze"


def at(s, t):
    w = s.t1 - s.t0
    u = 0.0 if w <= 0 else min(1.0, max(0.0, (t - s.t0) / w))
    v = [a + (b - a) * u for a, b in zip(s.v0, s.v1)]
    dt = min(w, max(0.0, t - s.t0))
    p = [q + (a + b) / 2 * dt for q, a, b in zip(s.p0, s.v0, v)]
    return p, v


def multiset(got, want, what):
    """Every element of `got` close to a different element of `want` and vice versa."""
    got, want = sorted(got), sorted(want)
    require(len(got) == len(want), "%s: %d are drawn, should be %d", what, len(got), len(want))
    for g, w in zip(got, want):
        g, w = np.atleast_1d(g), np.atleast_1d(w)
        require(all(close(float(a), float(b), 1e-6) for a, b in zip(g, w)), "%s at %s, should be at %s", what, g.tolist(), w.tolist())


MAGIC = {".png": b"\x89PNG", ".pdf": b"%PDF", ".svg": b"<?xml", ".jpg": b"\xff\xd8\xff"}


def written(folder, f):
    """Nothing but the image asked for is in the folder; it is removed again."""
    names = sorted(x.name for x in folder.iterdir())
    require(names == ([f.name] if f else []), "image files %s, asked for: %s", names, f and f.name)
    if f:
        head = f.read_bytes()[:5]
        f.unlink()
        require(head.startswith(MAGIC[f.suffix]), "the image %s is not of that kind", f.name)


def explore(c, rec):
    A = prog.adapter()
    r = prog.Run(c, rec, plan=c["jv"])
    rows = [s.row() for s in r.segs]
    T = r.segs[-1].t1
    kw = {"axis": tuple(c["axis"]), "show": c.get("show", False), "show_planner_blocks": c["blocks"], "show_segments": c["pieces"], "show_jv": c["jv"], "time_steps": c["steps"]}
    for name in c.get("omit", ()):
        kw.pop(name)  # the documented default is what the case says
    folder = A.scratch() / "c20"
    folder.mkdir(exist_ok=True)
    name = c["file"] if isinstance(c["file"], str) else "v.png"
    f = folder / name
    if c["file"]:
        kw.update(filepath=str(f) if c.get("text") else f, dpi=20)
    valid = c["steps"] == "constrained" or (type(c["steps"]) is int and c["steps"] > 0)
    with A.quiet():
        try:
            fig = r.sim.plot_vel(**kw)
        except Exception as e:
            fig = None
            if valid:
                raise
    require(valid or fig is None, "a plot is drawn for the time steps %r", c["steps"])
    require([s.row() for s in A.segs(r.sim)] == rows, "plotting changed the simulation")
    if not valid:
        require(not list(folder.iterdir()), "a refused plot is written")
        rec.outcome("refused", repr(c["steps"]))
        return
    written(folder, f if c["file"] else None)
    ax1, ax2 = fig.axes
    n = c["steps"]
    times = [0.0] + [s.t1 for s in r.segs] if n == "constrained" else [k * T / n for k in range(n)]
    curves = {ln.get_label(): ln for ln in ax1.lines if not ln.get_label().startswith("_")}
    require(sorted(curves) == sorted(list(c["axis"]) + ["abs"]), "curves %s for the axes %s", sorted(curves), c["axis"])
    legend = [t.get_text() for t in ax1.get_legend().get_texts()]
    require(sorted(legend) == sorted(curves), "the legend names %s", legend)
    posl = ax2.lines
    require(len(posl) == len(c["axis"]), "%d position curves for the axes %s", len(posl), c["axis"])
    for ln in list(curves.values()) + list(posl):
        x = [float(v) for v in ln.get_xdata()]
        require(len(x) == len(times), "a curve has %d points, there are %d times", len(x), len(times))
        require(all(close(a, b, 1e-9) for a, b in zip(x, times)), "a curve is drawn at the times %s, should be %s", x[:6], times[:6])
    ys = {k: np.asarray(v.get_ydata(), dtype=float) for k, v in curves.items()}
    ps = [np.asarray(v.get_ydata(), dtype=float) for v in posl]
    for i, t in enumerate(times):
        cand = [s for s in r.segs if s.t0 - 1e-9 <= t <= s.t1 + 1e-9]
        ok = False
        best = None
        for s in cand:
            p, v = at(s, t)
            want = [v[AX.index(a)] for a in c["axis"]] + [n3(v)] + [p[AX.index(a)] for a in c["axis"]]
            got = [float(ys[a][i]) for a in c["axis"]] + [float(ys["abs"][i])] + [float(q[i]) for q in ps]
            best = best or (got, want)
            if all(close(g, w, 1e-5) for g, w in zip(got, want)):
                ok = True
                break
        require(ok, "at %r s the plot shows %s, the simulation is at %s (axes %s, path speed, positions)", t, *(best or (0, 0)), c["axis"])
        rec.compared(len(c["axis"]) * 2 + 1)
    bars = [float(ln.get_xdata()[0]) for ln in ax1.lines if ln.get_label().startswith("_")]
    bars += [float(p[0][0]) for cl in ax1.collections if type(cl).__name__ == "LineCollection" for p in cl.get_segments()]
    want = ([b.segs[-1].t1 for b in r.blocks] if c["blocks"] else []) + ([s.t1 for s in r.segs] if c["pieces"] else [])
    multiset(bars, want, "block and piece marks")
    marks = [tuple(map(float, o)) for cl in ax1.collections if type(cl).__name__ == "PathCollection" for o in np.asarray(cl.get_offsets())]
    if not c["jv"]:
        require(not marks, "junction marks although not asked for: %s", marks[:3])
    else:
        k = 1 + len(c["axis"])
        require(len(marks) == k * len(r.blocks), "%d junction marks for %d blocks and the axes %s", len(marks), len(r.blocks), c["axis"])
        its = {}
        for it in r.items:
            its.setdefault(it.line, []).append(it)
        for j, b in enumerate(r.blocks):
            m = marks[j * k : (j + 1) * k]
            te = b.segs[-1].t1
            require(all(close(x, te, 1e-6) for x, _ in m), "junction marks at %s, the move ends at %r", [x for x, _ in m], te)
            its_b = its.get(b.line, [])
            nx = r.blocks[j + 1] if j + 1 < len(r.blocks) else None
            if len(its_b) != 1 or its_b[0].kind != "move" or its_b[0].eonly or (nx is not None and len(its.get(nx.line, [])) != 1):
                continue
            it = its_b[0]
            if nx is not None and its[nx.line][0].kind != "move":
                continue
            v = min(it.jl, it.speed)
            want = [v] + [v * (it.B[AX.index(a)] - it.A[AX.index(a)]) / it.d for a in c["axis"]]
            got = [y for _, y in m]
            multiset(got, want, "junction mark of line %d" % it.line)
            rec.compared(k)
    rec.outcome(c["axis"], len(times), [round(float(x), 6) for y in ys.values() for x in y[:20]])


OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-3, Y=2, E=0.1),
    prog.g1(Y=4, Z=0.3),
    prog.g1(E=-0.8),
    prog.g1(X=3, E=-0.1, F=900),
    prog.op("G4", P=250),
    [{"G1": {"X": 2.0, "E": 0.05}, "G4": {"P": 50.0}}, None],
]
ALL = ["x", "y", "z", "e"]
ORDERS = [list(p) for k in range(5) for p in itertools.permutations("xyze", k)]
NAMES = ("v.png", "v.pdf", "v.svg", "v.jpg", "part.v2.png", "a b.png", "ä.png", "v.svg.png", "v.png.pdf")
I = ((1.5, -2.25, 0.3, 7.125),)


def o(c, axis, steps, blocks, pieces, jv, file):
    return {**c, "axis": axis, "steps": steps, "blocks": blocks, "pieces": pieces, "jv": jv, "file": file}


def spaces(tier):
    deep = tier == "thorough"
    B = (False, True)
    main = prog.case(prog.REL + [OPS[0], OPS[1], OPS[3], OPS[5], OPS[4]], fw="marlin_jd", init=I[0])
    # a move with four axes
    main["lines"].insert(3, prog.g1(X=2.0, Y=-1.0, Z=0.2, E=0.3))
    return [
        Space("words", "all programs of 1..%d operations over 7 at all piece ends, all marks" % (4 if deep else 2), Product(prog.words(OPS, 1, 4 if deep else 2, fws=prog.FWS if deep else ("marlin_jd", "MKA"), inits=I), (ALL,), ("constrained",), (True,), (True,), (True,), (False,), make=o), explore),
        Space("axes", "all ordered selections of axes x time steps x junction marks", Product((main,), ORDERS, ("constrained", 7), (True,), (False,), (False, True), (False,), make=o), explore),
        Space("switches", "all switches x time steps x programs of 1 operation", Product(prog.words(OPS, 1, 1, fws=("klipper",), inits=I), (["y", "e"],), ("constrained", 1, 5), B, B, B, (False,), make=o), explore),
        Space("steps", "numbers of time steps, refused ones included", Product(prog.words(OPS, 1, 2 if deep else 1, fws=("marlin_jerk",), inits=I), (["x", "e"],), (*range(1, 41 if deep else 13), 200, 1001, 2500, "all", None, 2.5, "", -3, "Constrained", [4]), (True,), (False,), (False,), (False,), make=o), explore),
        Space("files", "the image is written where asked", Product(prog.words(OPS[:3], 1, 1, fws=("MKA",), inits=I), (["x"],), ("constrained", 4, "bad"), (True,), (False,), (False,), B, make=o), explore),
        Space("defaults", "every subset of the options left at the documented default", Product((o(main, ALL, "constrained", True, False, False, False),), [[n for k, n in enumerate(("axis", "show", "show_planner_blocks", "show_segments", "show_jv", "time_steps")) if m >> k & 1] for m in range(64)], make=lambda c, omit: {**c, "omit": omit}), explore),
        Space("names", "names and kinds of image, given as a path or as text, shown or not", Product(prog.words(OPS[:1], 1, 1, fws=("MKA",), inits=I), (["x", "y"],), ("constrained",), (True,), (False,), (False,), NAMES, B, B, make=lambda c, *a: {**o(c, *a[:-2]), "text": a[-2], "show": a[-1]}), explore),
        Space("deviations", "base programs with one operation inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[3:6:2], fws=prog.FWS if deep else ("klipper",), bases=("layers", "spiral", "zigzag", "line") if deep else ("layers",)), (ALL,), (97,), (True,), (False,), (False,), (False,), make=o), explore),
    ]
