"""C32: what runs in several threads of one process does not influence each other."""

import contextlib
import json
import sys
import threading

from .. import prog
from ..core import Product, Space, require

TITLE = "threads of one process do not influence each other"
ASSUMPTIONS = [
    "a thread is interrupted between two lines of the package (or at the start of its functions); operations inside of one line, of numpy and of other libraries are atomic",
    "console output of the threads may mix, and plots (matplotlib, pyvista) are made by one thread at a time",
]

PROGRAMS = {
    "tiny": "G1 X10 F3000\nG1 Y5 E0.4\n",
    "modes": "G91\nM83\nG1 X10 F3000\n;L\nG92 E0 X4\nG1 Y5 E0.4\nG28\nG20\nM204 P300\nG1 X1 E0.1\n",
    "abs": "G1 X4 Y1 E1 F1500 ;a\nG28\n;L\nM205 X3\nG1 X0 E3\nG4 P40\nG29\nG1 Y7 E4\n",
    "relative inch": "G20\nG91\nG1 X0.3 F90 E0.3\nG10\n;M\nG1 Y0.2 E0.5\n",
}
SETUPS = {
    "tiny": dict(firmware="marlin_jd", initial=(1.0, 2.0, 3.0, -4.0), layer_cue="L"),
    "modes": dict(firmware="klipper", initial=(0.0, -2.0, 0.5, 0.0), layer_cue="L"),
    "abs": dict(firmware="marlin_jerk", initial=(0.0, 0.0, 0.0, 0.0), layer_cue="L", p_acc=400, jerk=4),
    "relative inch": dict(firmware="MKA", initial=(5.0, 5.0, 5.0, 5.0), layer_cue="M", p_vel=60),
}


# ---------------------------------------------------------------- the scheduler


class Threads:
    """Runs functions in threads of which only one runs at a time; `plan` = [(thread, number of steps)], then each to its end."""

    def __init__(self, fns, plan, events):
        self.fns, self.plan, self.events = fns, list(plan), events
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.main = threading.Semaphore(0)
        self.done = [False] * len(fns)
        self.result = [None] * len(fns)
        self.steps = [0] * len(fns)
        self.switches = 0
        self.left = 0
        self.paused = set(range(len(fns)))
        self.stalls = 0

    def pick(self, now):
        """The next thread to run, `now` if none is left."""
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t]:
                self.left = n
                return t
        self.left = -1
        for t in range(len(self.fns)):
            if not self.done[t]:
                return t
        return None

    def wake(self, t):
        if t in self.paused:
            self.paused.discard(t)
            self.sem[t].release()

    def point(self, t):
        self.steps[t] += 1
        self.left -= 1
        if self.left == 0:
            n = self.pick(t)
            if n != t:
                self.switches += 1
                self.paused.add(t)
                self.wake(n)
                self.sem[t].acquire()

    def local(self, t):
        def f(frame, event, arg):
            if event == "line":
                self.point(t)
            return f

        return f

    def tracer(self, t):
        local = self.local(t) if self.events == "lines" else None

        def g(frame, event, arg):
            if "/pyGCodeDecode/" in frame.f_code.co_filename:
                if local is None:
                    self.point(t)
                return local
            return None

        return g

    def body(self, t):
        self.sem[t].acquire()
        sys.settrace(self.tracer(t))
        try:
            self.result[t] = ("ok", self.fns[t]())
        except BaseException as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.result[t] = ("failed", "%s: %s at line %s of %s" % (type(e).__name__, e, tb.lineno, tb.filename.rsplit("/", 1)[-1]))
        finally:
            sys.settrace(None)
            self.done[t] = True
            n = self.pick(t)
            if n is None:
                self.main.release()
            else:
                self.wake(n)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(t,)) for t in range(len(self.fns))]
        for t in ts:
            t.start()
        self.wake(self.pick(None))
        seen = None
        while not self.main.acquire(timeout=0.1):
            if seen == self.steps and not all(self.done):
                self.stalls += 1  # waits for a lock of a paused thread: let that one go on
                for t in sorted(self.paused)[:1]:
                    if not self.done[t]:
                        self.wake(t)
            seen = list(self.steps)
        for t in ts:
            t.join()
        return self.result


# ---------------------------------------------------------------- what a thread does


def plain(x):
    return json.loads(json.dumps(x))


def rows(sim):
    return [s.row() for s in prog.adapter().segs(sim)]


def states(st):
    return [
        [[float(x) for x in s.state_position.get_vec(withExtrusion=True)], float(s.state_p_settings.speed), float(s.state_p_settings.p_acc), float(s.state_p_settings.jerk), s.layer, s.comment, s.pause, s.line_number]
        for s in st
    ]


def fresh(name):
    A = prog.adapter()
    return A.make_setup(**SETUPS[name])


_files = {}


def file(name, t):
    """Each thread has its own G-code file."""
    A = prog.adapter()
    k = (str(A.scratch()), name, t)
    if k not in _files:
        _files[k] = A.write_gcode(PROGRAMS[name], "c32_%s_%d.gcode" % (name.split()[0], t))
    return _files[k]


def op_simulate(name, t, sim):
    A = prog.adapter()
    s = A.gi.simulation(gcode_path=file(name, t), initial_machine_setup=fresh(name))
    return [rows(s), states(s.states), [[float(x) for x in r] for r in s.extrusion_extent()]]


def op_states(name, t, sim):
    return states(prog.adapter().generate_states(filepath=file(name, t), initial_machine_setup=fresh(name).get_dict()))


def op_default(name, t, sim):
    return rows(prog.adapter().gi.simulation(gcode_path=file(name, t), machine_name="prusa_mini" if t else "anisoprint_a4"))


def op_setup(name, t, sim):
    s = fresh(name)
    s.set_initial_position({"X": 1, "Y": 2 + t, "Z": 3, "E": 4})
    s.set_property({"layer_cue": "Q%d" % t, "p_acc": 10 + t, "vX": 7 * t})
    return sorted((k, v) for k, v in s.get_dict().items())


def op_refresh(name, t, sim):
    sim.refresh(new_state_list=sim.states)
    return [rows(sim), states(sim.states)]


def op_values(name, t, sim):
    T = float(prog.adapter().segs(sim)[-1].t1)
    u = ("SI", "inch", "SImm")[t]
    return [[list(map(float, x)) for x in sim.get_values(min(q * T / 5, T), u)] for q in (0, 5, 2, 4, 1)] + [float(sim.extrusion_max_vel(u)), [[float(x) for x in r] for r in sim.extrusion_extent(u)], float(sim.get_width(T / 2, 0.2, 1.75))]


def target(t, name):
    return prog.adapter().scratch() / ("c32_out_%d_%s" % (t, name))


def op_files(name, t, sim):
    from pyGCodeDecode import tools
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

    sim.save_summary(target(t, "summary.yaml"))
    tools.save_layer_metrics(sim, target(t, "metrics.csv"))
    generate_abaqus_event_series(sim, target(t, "events.inp"), output_unit_system=("inch", "SI", "SImm")[t])
    tools.write_submodel_times(sim, [1, 1, 0], 8, 9, 30, target(t, "sub.yaml"), who=t)
    return [target(t, n).read_text().replace("_%d." % t, "_T.") for n in ("summary.yaml", "metrics.csv", "events.inp", "sub.yaml")]


OPS = {"simulate": op_simulate, "states": op_states, "default": op_default, "setup": op_setup, "refresh": op_refresh, "values": op_values, "files": op_files}
PREPARED = ("refresh", "values", "files")  # work on a simulation made before
_sims = {}


def prepared(op, name, t, shared):
    """The simulation a thread works on; `shared`: the same one for all threads."""
    if op not in PREPARED:
        return None
    A = prog.adapter()
    k = (str(A.scratch()), name, 0 if shared else t)
    if k not in _sims or op == "refresh":
        _sims[k] = A.gi.simulation(gcode_path=file(name, 0 if shared else t), initial_machine_setup=fresh(name))
    return _sims[k]


_alone = {}


def job(op, name, t, shared):
    sim = prepared(op, name, t, shared)
    return lambda: plain(OPS[op](name, t, sim))


def alone(op, name, t, shared, events):
    """Result and number of steps of a thread which is never interrupted."""
    A = prog.adapter()
    k = (str(A.scratch()), op, name, t, shared, events)
    if k not in _alone:
        s = Threads([job(op, name, t, shared)], [], events)
        want = plain(OPS[op](name, t, prepared(op, name, t, shared)))
        (kind, got), = s.run()
        require(kind == "ok", "%s in a thread of its own: %s", op, got)
        require(got == want, "%s in a thread of its own gives another result", op)
        _alone[k] = got, s.steps[0]
    return _alone[k]


@contextlib.contextmanager
def hushed():
    with prog.adapter().quiet():
        yield


def explore(c, rec):
    with hushed():
        _explore(c, rec)


def _explore(c, rec):
    """All places of the first thread, from the part of the case, at which the others come in between."""
    jobs, events, shared = c["jobs"], c["events"], c.get("shared", False)
    base = [alone(op, name, t, shared, events) for t, (op, name) in enumerate(jobs)]
    n = base[0][1]
    part, parts = c["part"]
    stalls = 0
    for k in range(1 + part, n + 1, parts):
        if stalls > 40:  # the threads exclude each other by locks, which makes most plans impossible
            break
        if c.get("second"):  # the second thread is interrupted as well, the first ends, the second ends
            m = base[1][1]
            step = c["second"]
            plans = [[(0, k), (1, j), (0, -1)] for j in range(1 + k % step, m + 1, step)]
        elif len(jobs) == 3:
            plans = [[(0, k), (1, -1)], [(0, k), (1, max(1, k * base[1][1] // n)), (2, -1)]]
        else:
            plans = [[(0, k), (1, -1)]]
        for plan in plans:
            s = Threads([job(op, name, t, shared) for t, (op, name) in enumerate(jobs)], plan, events)
            res = s.run()
            stalls += s.stalls
            rec.trace()
            rec.step((json.dumps(jobs), events), (k, tuple(map(tuple, plan))))
            for t, (kind, got) in enumerate(res):
                op, name = jobs[t]
                where = "thread %d (%s of %r), interrupted by %s as planned in %s (%s)" % (t, op, name, [j for i, j in enumerate(jobs) if i != t], plan, events)
                require(kind == "ok", "%s: %s", where, got)
                if got != base[t][0]:
                    x, y = json.dumps(base[t][0]), json.dumps(got)
                    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    require(False, "%s gives ...%s instead of ...%s", where, y[max(0, i - 50) : i + 60], x[max(0, i - 50) : i + 60])
            rec.compared(len(jobs))
        rec.state(json.dumps(jobs), k)
    rec.outcome(json.dumps(jobs), [len(str(b[0])) for b in base])


def cases(pairs, events, parts, **kw):
    return Product(pairs, [[i, parts] for i in range(parts)], make=lambda jobs, part: {"jobs": jobs, "events": events, "part": part, **kw})


def spaces(tier):
    deep = tier == "thorough"
    names = list(PROGRAMS)
    own = [[[a, x], [b, y]] for a in OPS for b in OPS for x, y in (("modes", "relative inch"),)]
    small = [[[a, "relative inch" if a == "states" else "tiny"], [b, "tiny" if a == "states" else "relative inch"]] for a in OPS for b in OPS]
    read = [[[a, x], [b, x]] for a in ("values", "files") for b in ("values", "files") for x in (names if deep else ("tiny", "relative inch"))]
    three = [[["simulate", "modes"], ["simulate", "relative inch"], ["simulate", "abs"]], [["states", "abs"], ["states", "modes"], ["states", "relative inch"]], [["files", "abs"], ["simulate", "modes"], ["default", "tiny"]]]
    some = [[["simulate", "tiny"], ["simulate", "relative inch"]], [["simulate", "relative inch"], ["simulate", "tiny"]], [["states", "modes"], ["states", "relative inch"]], [["files", "tiny"], ["files", "abs"]], [["values", "tiny"], ["values", "abs"]]]
    lists = [[["states", "tiny"], ["states", "relative inch"]], [["states", "relative inch"], ["states", "tiny"]]]
    both = [[["values", "tiny"], ["values", "tiny"]], [["files", "tiny"], ["files", "tiny"]]]
    out = [
        Space("calls", "7 x 7 operations in two threads, one interrupted at every call of a function of the package", cases(small, "calls", 2), explore, chunk=1),
        Space("lines", ("7 x 7 operations" if deep else "simulations, state lists and exports") + " in two threads, one interrupted at every executed line of the package", cases(own if deep else some, "lines", 8), explore, chunk=1),
        Space("both", "lists of states in two threads, both interrupted, at pairs of calls (every 2nd of the second thread)", cases(lists, "calls", 8, second=2), explore, chunk=1),
        Space("shared", "one simulation read by two threads, interrupted at every call", cases(read, "calls", 1, shared=True), explore, chunk=1),
        Space("shared lines", "one simulation read by two threads, interrupted at every line", cases(read if deep else both, "lines", 8, shared=True), explore, chunk=1),
    ]
    if deep:
        out += [
            Space("calls twice", "7 x 7 operations in two threads, both interrupted, at pairs of calls (every 100th of the second thread)", cases(small, "calls", 16, second=100), explore, chunk=1),
            Space("three", "three threads, two interrupted", cases(three, "lines", 16), explore, chunk=1),
        ]
    return out
