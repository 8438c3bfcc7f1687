"""C19: the 3D mesh shows exactly the extruded path."""

import contextlib
import itertools
import os

import numpy as np

from .. import prog
from ..core import Product, Space, require
from ..prog import n3

TITLE = "tubes along exactly the extruding runs, with the path speed at their vertices"
ASSUMPTIONS = [
    "a tube is recognised by its rings of equal size around the vertices of its axis",
    "parts of the path shorter than 1e-6 may or may not get a tube of their own; at a vertex where the speed jumps either speed may be shown",
    "the mesh is in millimetres",
]
TINY = 1e-6


@contextlib.contextmanager
def hush():
    """VTK complains on stderr about every empty mesh."""
    keep = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)


def advancing(s):
    return s.p1[3] - s.p0[3] > 0


def expected(segs, everything):
    """[[(A, B, {speeds at A}, {speeds at B})]] per run."""
    runs, cur = [], []
    for s in segs:
        if everything or advancing(s):
            cur.append(s)
        elif cur:
            runs.append(cur)
            cur = []
    if cur:
        runs.append(cur)
    out = []
    for run in runs:
        r = []
        for i, s in enumerate(run):
            if n3([a - b for a, b in zip(s.p0, s.p1)]) <= TINY:
                continue
            at = {n3(s.v0)}
            bt = {n3(s.v1)}
            k = i - 1
            while k >= 0:
                at |= {n3(run[k].v1), n3(run[k].v0)} if n3([a - b for a, b in zip(run[k].p0, run[k].p1)]) <= TINY else {n3(run[k].v1)}
                if n3([a - b for a, b in zip(run[k].p0, run[k].p1)]) > TINY:
                    break
                k -= 1
            k = i + 1
            while k < len(run):
                bt |= {n3(run[k].v1), n3(run[k].v0)} if n3([a - b for a, b in zip(run[k].p0, run[k].p1)]) <= TINY else {n3(run[k].v0)}
                if n3([a - b for a, b in zip(run[k].p0, run[k].p1)]) > TINY:
                    break
                k += 1
            r.append((s.p0[:3], s.p1[:3], at, bt))
        out.append(r)
    return out


def tubes(mesh):
    """Axis pieces of a mesh: [(A, B, speed at A, speed at B)]."""
    n = mesh.n_points
    if n == 0:
        return []
    parent = list(range(n))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i

    cells = {}
    conn, off = mesh.cell_connectivity, mesh.offset
    for k in range(mesh.n_cells):
        ids = conn[off[k] : off[k + 1]]
        a = find(int(ids[0]))
        for i in ids[1:]:
            parent[find(int(i))] = a
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    for k in range(mesh.n_cells):
        g = find(int(conn[off[k]]))
        cells[g] = cells.get(g, 0) + 1
    pts = np.asarray(mesh.points, dtype=float)
    vel = np.asarray(mesh["velocity"], dtype=float)
    out = []
    for g, ids in groups.items():
        if cells[g] == 1:
            continue  # the cap of a tube
        ns = cells[g]  # one strip per side
        ids = sorted(ids)
        require(len(ids) % ns == 0 and len(ids) >= 2 * ns, "a tube of %d sides has %d points", ns, len(ids))
        rings = [ids[i : i + ns] for i in range(0, len(ids), ns)]
        cs = [pts[r].mean(axis=0) for r in rings]
        vs = [vel[r] for r in rings]
        for v in vs:
            require(float(v.max() - v.min()) <= 1e-9 * (1 + abs(float(v.max()))), "speeds %s around one vertex", v.tolist())
        for i in range(len(rings) - 1):
            out.append((tuple(cs[i]), tuple(cs[i + 1]), float(vs[i][0]), float(vs[i + 1][0])))
    return out


def dist(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


def same(got, want):
    A, B, va, vb = got
    C, D, wa, wb = want
    s = 1e-5 * (1 + max(map(abs, C + D)))
    return dist(A, C) <= s and dist(B, D) <= s and any(abs(va - x) <= 1e-4 * (1 + x) for x in wa) and any(abs(vb - x) <= 1e-4 * (1 + x) for x in wb)


def match(got, runs, what):
    got = [g for g in got if dist(g[0], g[1]) > 3 * TINY]
    want = [w for r in runs for w in r if dist(w[0], w[1]) > 3 * TINY]
    left = list(got)
    for w in want:
        k = next((i for i, g in enumerate(left) if same(g, w)), None)
        if k is None:
            near = [g for g in left if dist(g[0], w[0]) < 1e-4]
            require(False, "%s: no tube along %s with the speeds %s; tubes from there: %s", what, w[:2], [sorted(x) for x in w[2:]], near[:2])
        left.pop(k)
    require(not left, "%s: tube along %s to %s with speeds %s %s, but this is no part of the path to be shown", what, *(left[0] if left else (0, 0, 0, 0)))


def explore(c, rec):
    import pyvista as pv

    A = prog.adapter()
    r = prog.Run(c, rec, plan=False)
    before = [s.row() for s in r.segs]
    f = A.scratch() / c.get("name", "m.vtk")
    f.unlink(missing_ok=True)
    kept = {}
    for mode in c["modes"]:
        kw = {} if mode == "default" else {"extrusion_only": mode == "extrusion"}
        if c["file"]:
            kw["vtk_path"] = str(f) if c.get("text") else f
        if c["shot"]:
            kw["screenshot_path"] = A.scratch() / "s.png"
        with A.quiet(), hush():
            m = r.sim.plot_3d(**kw)
        runs = expected(r.segs, mode == "all")
        got = tubes(m)
        match(got, runs, mode)
        if c["file"]:
            require(f.is_file(), "no mesh is written to %s", f)
            with A.quiet(), hush():
                d = pv.read(f)
            require(d.n_points == m.n_points and d.n_cells == m.n_cells, "the file has %d points and %d cells, the mesh %d and %d", d.n_points, d.n_cells, m.n_points, m.n_cells)
            if m.n_points:
                require(np.allclose(d.points, m.points, rtol=1e-9, atol=1e-9) and np.allclose(d["velocity"], m["velocity"], rtol=1e-9), "the file holds another mesh")
                require(np.array_equal(d.cell_connectivity, m.cell_connectivity), "the file holds another mesh (cells)")
            f.unlink()
        kept[mode] = m
        rec.compared(1 + len(got))
        rec.outcome(mode, len(got), [round(g[2], 6) for g in got][:40])
    # a mesh from before is reused as it is, whatever it was made of
    if c["reuse"]:
        m = kept[c["modes"][0]]
        pts, vel, nc = np.array(m.points), np.array(m["velocity"]) if m.n_points else None, m.n_cells
        with A.quiet(), hush():
            m2 = r.sim.plot_3d(extrusion_only=c["modes"][0] == "all", mesh=m, vtk_path=f)
            d = pv.read(f)
        f.unlink()
        for x, what in ((m, "the given mesh"), (m2, "the returned mesh"), (d, "the saved mesh")):
            require(x.n_points == len(pts) and x.n_cells == nc, "%s has %d points after reuse, was given %d", what, x.n_points, len(pts))
            if len(pts):
                require(np.allclose(x.points, pts, rtol=1e-9, atol=1e-9) and np.allclose(x["velocity"], vel, rtol=1e-9), "%s is another mesh", what)
    require([s.row() for s in A.segs(r.sim)] == before, "building the mesh changed the simulation")
    pv.close_all()


class View:
    """Stands in for the window of the mesh and records what is done with it."""

    made = []

    def __init__(self, *a, **kw):
        self.off_screen = bool(kw.get("off_screen", a[0] if a else False))
        self.meshes, self.shots, self.shown = [], [], 0
        View.made.append(self)

    def add_mesh(self, mesh, *a, **kw):
        self.meshes.append((mesh, kw.get("scalars", a[0] if a else None)))

    def screenshot(self, filename=None, *a, **kw):
        self.shots.append(str(filename))

    def show(self, *a, **kw):
        self.shown += 1
        if kw.get("screenshot"):
            self.shots.append(str(kw["screenshot"]))

    def __getattr__(self, name):
        return lambda *a, **kw: None


def explore_view(c, rec):
    """What is shown and photographed, with and without a display."""
    import pyvista as pv

    A = prog.adapter()
    r = prog.Run(c, rec, plan=False)
    f, png = A.scratch() / "v.vtk", A.scratch() / "v.png"
    real, display = pv.Plotter, os.environ.pop("DISPLAY", None)
    mesh = None
    try:
        pv.Plotter = View
        if c["display"]:
            os.environ["DISPLAY"] = ":77"
        for k, (shot, save, reuse) in enumerate(c["calls"]):
            View.made = []
            kw = {}
            if shot:
                kw["screenshot_path"] = png
            if save:
                kw["vtk_path"] = f
            if reuse and mesh is not None:
                kw["mesh"] = mesh
            f.unlink(missing_ok=True)
            with A.quiet(), hush():
                m = r.sim.plot_3d(**kw)
            match(tubes(m), expected(r.segs, False), "view")
            require(f.is_file() == bool(save), "call %d: the mesh file is %s", k, "missing" if save else "written unasked")
            shown = sum(v.shown for v in View.made)
            shots = [x for v in View.made for x in v.shots]
            require(shown == (1 if c["display"] and not shot else 0), "call %d (display %s, screenshot %s): shown %d times", k, c["display"], shot, shown)
            require(shots == ([str(png)] if c["display"] and shot else []), "call %d (display %s, screenshot %s): screenshots %s", k, c["display"], shot, shots)
            for v in View.made:
                require(v.off_screen or not shot, "call %d: a window is opened for the screenshot", k)
                if m.n_points and (v.shown or v.shots):
                    require(v.meshes, "call %d: the view is empty", k)
                for x, scalars in v.meshes:
                    require(x.n_points == m.n_points and np.array_equal(x.points, m.points), "call %d: another mesh is shown", k)
                    require(scalars in ("velocity", None), "call %d: the mesh is coloured by %r", k, scalars)
            mesh = m
            rec.compared(6)
            rec.outcome(shown, len(shots), m.n_points)
    finally:
        pv.Plotter = real
        os.environ.pop("DISPLAY", None)
        if display is not None:
            os.environ["DISPLAY"] = display
        f.unlink(missing_ok=True)


def view(c, display, calls):
    return {**c, "display": display, "calls": [list(x) for x in calls]}


CALLS = list(itertools.product((False, True), repeat=3))
OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-3, Y=2, E=0.1),
    prog.g1(Y=4, Z=0.3),
    prog.g1(E=-0.8),
    prog.g1(E=0.8),
    prog.g1(X=3, E=-0.1),
    prog.op("G4", P=250),
    [{"G1": {"Z": 0.4, "E": 0.05}, "G4": {"P": 50.0}}, None],
    prog.g1(X=4, E=5e-7),
]


# short moves of a long acceleration: many of them are a single piece
SHORT = [prog.g1(X=1, F=3000), prog.g1(X=2, E=0.1), prog.g1(X=60), prog.g1(X=30, Y=2, E=1), prog.g1(E=-0.5), prog.g1(X=1, F=120)]

# interruptions of a run by very little filament or way
BRIEF = [prog.g1(X=2, E=0.1, F=3000), prog.g1(E=-1e-4), prog.g1(E=2e-4), prog.g1(X=0.002), prog.g1(X=0.0003, E=-1e-5), prog.g1(Z=1e-3)]


def o(c, modes, file, shot, reuse):
    return {**c, "modes": modes, "file": file, "shot": shot, "reuse": reuse}


def spaces(tier):
    deep = tier == "thorough"
    I = ((1.5, -2.25, 0.3, 7.125),)
    both = ["default", "all"]
    return [
        Space("words", "all programs of 0..%d operations over 9 x both modes" % (4 if deep else 2), Product(prog.words(OPS, 0, 4 if deep else 2, fws=("marlin_jd", "marlin_jerk"), inits=I), (both,), (False,), (False,), (False,), make=o), explore),
        Space("single", "all programs of 1..%d short operations at low acceleration (runs of a single piece)" % (4 if deep else 3), Product(prog.words(SHORT, 1, 4 if deep else 3, fws=("marlin_jd",), cfgs=({"p_acc": 40},), inits=I), (["extrusion"],), (False,), (False,), (False,), make=o), explore),
        Space("runs", "all programs of %d operations over 5 (extrusion, travel, retraction, prime, dwell)" % (6 if deep else 4), Product(prog.words([OPS[0], OPS[2], OPS[3], OPS[4], OPS[6]], 6 if deep else 4, 6 if deep else 4, fws=("klipper",), inits=I), (["extrusion"],), (False,), (False,), (False,), make=o), explore),
        Space("brief", "all programs of %d operations over 6, interruptions by very little filament or way" % (5 if deep else 3), Product(prog.words(BRIEF, 5 if deep else 3, 5 if deep else 3, fws=("marlin_jd", "marlin_jerk"), cfgs=({"p_acc": 3000},), inits=I), (["extrusion"],), (False,), (False,), (False,), make=o), explore),
        Space("options", "programs of 1..2 operations x file x screenshot x reuse", Product(prog.words(OPS, 1, 2, fws=("MKA",), inits=I), (["extrusion", "all"], ["all", "extrusion"]), (True,), (False, True), (True,), make=o), explore),
        Space("names", "programs of 1 operation x names and kinds of mesh file, given as a path or as text", Product(prog.words(OPS[:4], 1, 1, fws=("MKA",), inits=I), ("m.vtk", "m.vtu", "part.v2.vtk", "part.v2.vtu", "a b.vtk", "\u00e4 \u2300.vtk"), (False, True), make=lambda c, n, t: {**o(c, ["extrusion"], True, False, False), "name": n, "text": t}), explore),
        Space("view", "programs of 0..%d operations x display x all sequences of 2 calls with and without screenshot, file and reused mesh" % (2 if deep else 1), Product(prog.words(OPS, 0, 2 if deep else 1, fws=("klipper",), inits=I), (False, True), list(itertools.product(CALLS, repeat=2)), make=view), explore_view),
        Space("deviations", "base programs with one operation inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[2:7:2], fws=prog.FWS if deep else ("marlin_jd",), bases=("layers", "spiral", "zigzag", "line") if deep else ("layers", "zigzag")), (["extrusion"],), (True,), (False,), (False,), make=o), explore),
    ]
