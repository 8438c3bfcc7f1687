"""C13: simulations are reproducible and independent of everything done before in the process."""

import contextlib
import io
import json
import os
import pickle
import re
import subprocess
import sys

from .. import prog
from ..core import ROOT, Product, Space, Violation, Words, require

TITLE = "results never depend on the history of the process"
ASSUMPTIONS = ["the pristine result of a simulation is the one of a fresh interpreter that does nothing else", "each history is explored in a process of its own"]

P1 = "G91\nM83 ; Übergang ±0,1 mm\nG1 X10 F3000\n;L\nG1 Y5 E0.4\nG4 P50\nM204 P300\nG1 X-7 Y2 E0.9\nG92 E0\n;L\nG1 X0.3 Y0.1 E0.02\nG1 E-0.8 F1200\n"
P2 = "G20\nG1 X1 E0.02 F150\nG1 Y-0.5\n;L\nM205 X3\nG1 X0.2 E0.05\nG21\nG1 X30 Y-20 E2\nG1 X60 Y-42 E4\nG28\n;M\nG1 Z3\n"
# ends in inches, relative, with other limits and a pause
P3 = "G28\nG10\nG1 X3 Y1 E0.1 F900\n;M\nG20\nG91\nM83\nG1 X0.5 Y-0.25 E0.01 F60\nM203 X1 Y2\nM204 P77 T66\nM205 X1.5 J0.5\nG92 X1 Y1 Z1 E1\nG1 X0.25 E0.01\n;L\nG4 S2\n"
PROGS = {"p1": P1, "p2": P2, "p3": P3}
FWS = ("marlin_jd", "klipper", "marlin_jerk", "MKA", None)


def make_setup(which, fw):
    A = prog.adapter()
    if which in ("s1", "s1m"):
        s = A.make_setup(firmware=fw, initial=(1.0, 2.0, 3.0, 4.0), layer_cue="L")
        if which == "s1m":
            modify(s)
        return s
    return A.make_setup(firmware=fw, initial=(-5.0, 0.0, 0.25, 0.0), layer_cue="M", p_acc=350, jerk=4, p_vel=60)


def modify(s):
    s.set_property({"p_acc": 450, "jerk": 3, "p_vel": 22, "vX": 1})
    s.set_initial_position((7.0, 8.0, 9.0, 10.0))


def simulate(p, s, unit="SImm"):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sim = prog.adapter().gi.simulation(gcode_path=prog.adapter().write_gcode(PROGS[p], "c13.gcode"), initial_machine_setup=s, output_unit_system=unit)
    sim.said = reported(out.getvalue())
    return sim


def reported(text):
    """The unsupported commands reported on the console."""
    return sorted(w for w in re.findall(r"\bG(?:2|3|10|11|28|29)\b", text))


def fingerprint(sim):
    A = prog.adapter()
    bl = A.trace(sim)
    rows = [s.row() for b in bl for s in b.segs]
    st = [
        [[float(x) for x in s.state_position.get_vec(withExtrusion=True)], float(s.state_p_settings.speed), float(s.state_p_settings.p_acc), float(s.state_p_settings.jerk), s.layer, s.comment, s.pause, s.line_number]
        for s in sim.states
    ]
    ext = [[float(x) for x in r] for r in sim.extrusion_extent()]
    T = rows[-1][1]
    vals = [[list(map(float, x)) for x in sim.get_values(q * T)] for q in (0.0, 0.4, 1.0)]
    return json.loads(json.dumps([rows, [[b.line, b.extruding] for b in bl], st, ext, float(sim.extrusion_max_vel()), vals, getattr(sim, "said", None)]))


VARIANTS = [(p, s, fw) for p in PROGS for s in ("s1", "s1m", "s2", "default") for fw in (FWS[:2] if s != "default" else ("MKA",))] + [(p, s, fw) for p in PROGS for s in ("s1", "s2") for fw in FWS[2:]]


def fresh(v):
    p, s, fw = v
    if s == "default":
        from pyGCodeDecode.gcode_interpreter import simulation

        A = prog.adapter()
        with A.quiet():
            return simulation(gcode_path=A.write_gcode(PROGS[p], "c13.gcode"), machine_name="anisoprint_a4")
    return simulate(p, make_setup(s, fw))


_pristine = None


def pristine():
    """Fingerprints computed in fresh interpreters, one per variant."""
    global _pristine
    if _pristine is None:
        env = dict(os.environ, PYTHONHASHSEED="0")
        procs = []
        out = {}
        todo = list(VARIANTS)
        while todo or procs:
            while todo and len(procs) < 8:
                v = todo.pop(0)
                procs.append((v, subprocess.Popen([sys.executable, "-m", "mc.checks.c13", json.dumps(v)], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
            v, p = procs.pop(0)
            o, err = p.communicate()
            if p.returncode:
                raise ImportError("pyGCodeDecode cannot simulate %s in a fresh process: %s" % (v, err[-500:]))
            out[v] = json.loads(o.splitlines()[-1])
        _pristine = out
    return _pristine


def in_child(fn, rec):
    """Run one history in a process of its own (module state as freshly imported)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                fn(rec)
                msg = None
            except Violation as v:
                msg = str(v)
            except BaseException as e:
                import traceback

                msg = "unexpected %s: %s" % (type(e).__name__, traceback.format_exc()[-600:])
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((msg, rec)))
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    msg, got = pickle.loads(data) if data else ("the process died", None)
    if got is not None:
        rec.__dict__.update(got.__dict__)
    if msg:
        raise Violation(msg)


def diff(a, b):
    names = ("trajectory", "blocks", "states", "extent", "maximum speed", "values", "unsupported commands reported")
    for n, x, y in zip(names, a, b):
        if x != y:
            if isinstance(x, list) and isinstance(y, list):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        return "%s[%d]: %s, should be %s" % (n, i, p, q)
                return "%s: %d entries, should be %d" % (n, len(x), len(y))
            return "%s: %s, should be %s" % (n, x, y)
    return "?"


def explore(c, rec):
    in_child(lambda r: history(c, r), rec)


def history(c, rec):
    from pyGCodeDecode import abaqus_file_generator, tools
    from pyGCodeDecode.state_generator import generate_states

    A = prog.adapter()
    pr = pristine()
    fw = c["fw"]
    fw2 = "klipper" if fw != "klipper" else "marlin_jd"
    s1, s2 = make_setup("s1", fw), make_setup("s2", fw2)
    s1name = "s1"
    live = []  # [simulation, variant]

    def check(when):
        for i, (sim, v) in enumerate(live):
            with A.quiet():
                f = fingerprint(sim)
            require(f == pr[v], "after %s simulation %d (%s): %s", when, i, v, diff(f, pr[v]))
            rec.compared()

    done = []
    for o in c["ops"]:
        key = (tuple(done), fw)
        with A.quiet():
            last = live[-1] if live else None
            if o == "A":
                live.append([simulate("p1", s1), ("p1", s1name, fw)])
            elif o == "B":
                live.append([simulate("p2", s1), ("p2", s1name, fw)])
            elif o == "E":
                live.append([simulate("p3", s1), ("p3", s1name, fw)])
            elif o == "C":
                live.append([simulate("p1", s2), ("p1", "s2", fw2)])
            elif o == "D":
                live.append([fresh(("p2", "default", "MKA")), ("p2", "default", "MKA")])
            elif o == "modify":
                modify(s1)
                s1name = "s1m"
            elif o == "query" and last:
                T = A.segs(last[0])[-1].t1
                for q in (0.9, 0.1, 1.0, 0.5, 0.0, 0.3):
                    last[0].get_values(q * T)
                    last[0].get_width(q * T, 0.2, 1.75)
                try:
                    last[0].get_values(2 * T)
                except Exception:
                    pass
            elif o == "refresh" and live:
                for x in live:
                    x[0].refresh()
            elif o == "swap" and last and last[1][1] in ("s1", "s1m", "s2") and last[1][2] == (fw if last[1][1] != "s2" else fw2):
                other = {"p1": "p2", "p2": "p3", "p3": "p1"}[last[1][0]]
                st = generate_states(filepath=A.write_gcode(PROGS[other], "c13b.gcode"), initial_machine_setup=dict(last[0].initial_machine_setup))
                last[0].refresh(new_state_list=st)
                last[1] = (other,) + last[1][1:]
                last[0].said = pr[last[1]][6]  # said at construction only
            elif o == "share" and last and live[0][1][1] in ("s1", "s2") and (live[0][1][0], live[0][1][1], last[1][2]) in pr:
                last[0].refresh(new_state_list=live[0][0].states)
                last[1] = (live[0][1][0], live[0][1][1], last[1][2])
                last[0].said = pr[last[1]][6]
            elif o == "export" and last:
                d = A.scratch()
                abaqus_file_generator.generate_abaqus_event_series(last[0], filepath=d / "x.inp", output_unit_system="SI")
                tools.save_layer_metrics(last[0], filepath=d / "x.csv")
                tools.save_layer_metrics(last[0], filepath=d / "x.csv", locale="C")
                tools.write_submodel_times(last[0], [0.0, 0.0, 0.0], 5.0, 5.0, 50.0, filename=d / "x.yaml", note="n")
                last[0].save_summary(d / "s.yaml")
                last[0].extrusion_extent(output_unit_system="inch")
                for b in last[0].blocklist:
                    b.extrusion_block_max_vel()
                    b.inverse_time_at_pos(0.5 * b.get_block_travel())
            elif o == "plot" and last:
                import matplotlib.pyplot as plt

                last[0].plot_vel(show=False, show_jv=True, show_segments=True)
                plt.close("all")
                last[0].plot_3d(vtk_path=A.scratch() / "x.vtk")
        done.append(o)
        check(" ".join(done))
        rec.step(key, o)
        rec.state(tuple(done), fw)
    # the whole process: everything once more, afresh
    with A.quiet():
        for v in (("p1", s1name, fw), ("p2", "s2", fw2), ("p3", "s2", fw2), ("p3", s1name, fw)):
            s = make_setup(v[1], v[2])
            f = fingerprint(simulate(v[0], s))
            require(f == pr[v], "after %s a new simulation %s: %s", " ".join(done), v, diff(f, pr[v]))
    rec.trace(2 + len(live))
    rec.outcome(tuple(sorted(v[0] + v[1] + str(v[2]) for _, v in live)))


# ------------------------------------------------------------------ files rewritten in place

PRESETS = [{"mach": {**dict(nozzle_diam=0.4, filament_diam=1.75, p_vel=35, p_acc=a, jerk=j, vX=180, vY=180, vZ=30, vE=33), "firmware": "klipper"}} for a, j in ((400, 5), (900, 9))]


def same_size():
    """The two programs, padded by blanks to the same number of bytes."""
    n = max(len(p.encode()) for p in (P1, P2))
    return [p[:-1] + " " * (n - len(p.encode())) + "\n" for p in (P1, P2)]


def explore_files(c, rec):
    in_child(lambda r: rewritten(c, r), rec)


def rewritten(c, rec):
    """The same two paths hold changing contents; every result is the one of the contents at that time."""
    A = prog.adapter()
    G = same_size()

    def result(g, p, gname, pname, mod):
        with A.quiet():
            s = A.gi.setup(presets_file=A.write_presets(PRESETS[p], pname), printer="mach", layer_cue="L")
            if mod:
                s.set_property({"p_acc": 150})
            return fingerprint(A.gi.simulation(gcode_path=A.write_gcode(G[g], gname), initial_machine_setup=s))

    # results of files used once only
    want = {(g, p, m): result(g, p, "once%d%d%d.gcode" % (g, p, m), "once%d%d%d.yaml" % (g, p, m), m) for g, p, m in set(map(tuple, c["steps"]))}
    for i, st in enumerate(map(tuple, c["steps"])):
        f = result(*st[:2], "again.gcode", "again.yaml", st[2])
        require(f == want[st], "with the files rewritten (step %d of %s): %s", i, c["steps"], diff(f, want[st]))
        rec.compared()
        rec.step((tuple(map(tuple, c["steps"][:i]))), st)
        rec.state(tuple(map(tuple, c["steps"][: i + 1])))
    rec.trace(len(c["steps"]))
    rec.outcome(sorted(set(map(tuple, c["steps"]))))


# ------------------------------------------------------------------ exchanged lists of states


LISTS = ("p1", "p2", "p3", "bare", "none", "again", "same")


def explore_lists(c, rec):
    """One simulation is given list after list, down to that of an empty file and to an empty list."""
    from pyGCodeDecode.state_generator import generate_states

    A = prog.adapter()
    with A.quiet():
        sim = simulate(c["first"], make_setup("s1", c["fw"]))
    now, given = c["first"], sim.states
    for i, o in enumerate(c["lists"]):
        with A.quiet():
            if o == "again":
                sim.refresh()
            elif o == "same":
                sim.refresh(new_state_list=sim.states)
            else:
                now = o
                given = [] if o == "none" else generate_states(filepath=A.write_gcode(PROGS.get(o, ""), "c13l.gcode"), initial_machine_setup=dict(sim.initial_machine_setup))
                sim.refresh(new_state_list=given)
            require([id(x) for x in sim.states] == [id(x) for x in given], "after the lists %s the simulation has %d states, %d were given", c["lists"][: i + 1], len(sim.states), len(given))
            got = [x.row() for x in A.segs(sim)]
            if now in PROGS:
                want = [x.row() for x in A.segs(simulate(now, make_setup("s1", c["fw"])))]
            else:
                want = []
        require(got == want, "after the lists %s: %d segments, should be %d: %s", c["lists"][: i + 1], len(got), len(want), next(((a, b) for a, b in zip(got, want) if a != b), ""))
        rec.compared(2)
        rec.state(c["first"], tuple(c["lists"][: i + 1]))
        rec.step((c["first"], tuple(c["lists"][:i])), o)
    rec.trace()
    rec.outcome(now, len(got))


OPS = ("A", "B", "C", "D", "E", "modify", "query", "refresh", "swap", "share", "export")


def warm():
    """Load the libraries the exports use, so that a history does not spend its time importing."""
    import matplotlib.pyplot as plt
    import pyvista as pv

    prog.adapter()
    plt.close(plt.subplots()[0])
    pv.lines_from_points([[0, 0, 0], [1, 0, 0.0]]).tube(radius=0.2, n_sides=6)
    try:
        pv.Plotter(off_screen=True)
    except Exception:
        pass


def spaces(tier):
    deep = tier == "thorough"
    pristine()
    warm()

    def useful(ops):
        return ops[0] in "ABCDE" or ops[0] == "modify"

    words = [w for w in map(tuple, Words(OPS, 1, 4 if deep else 3)) if useful(w)]
    return [
        Space("histories", "all histories of 1..%d operations over 11 (create, query, refresh, exchange states, export, change setup)" % (4 if deep else 3), Product([list(w) for w in words], ("marlin_jd", "klipper") if not deep else ("marlin_jd",), make=lambda w, fw: {"ops": w, "fw": fw}), explore),
        Space("lists", "all sequences of 1..%d lists of states over 7 given to a simulation" % (4 if deep else 3), Product(Words(LISTS, 1, 4 if deep else 3), ("p1", "p2"), ("marlin_jd", "klipper"), make=lambda w, f, fw: {"lists": list(w), "first": f, "fw": fw}), explore_lists),
        Space("rewritten", "all sequences of 1..%d simulations from the same two paths with changing G-code, presets and changes to the setup" % (4 if deep else 2), Product(Words([[g, p, m] for g in (0, 1) for p in (0, 1) for m in (0, 1)], 1, 4 if deep else 2), make=lambda w: {"steps": w}), explore_files),
        Space("plots", "histories with plots in between", Product([[a, "plot", b] for a in "ABCDE" for b in ("A", "refresh", "swap", "query", "plot", "export")], ("marlin_jd",), make=lambda w, fw: {"ops": w, "fw": fw}), explore, chunk=1),
    ]


if __name__ == "__main__":
    import shutil
    import tempfile

    os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif_c13_")
    try:
        A = prog.adapter()
        with A.quiet():
            out = fingerprint(fresh(tuple(json.loads(sys.argv[1]))))
        print(json.dumps(out))
    finally:
        shutil.rmtree(os.environ["VERIF_SCRATCH"], ignore_errors=True)
