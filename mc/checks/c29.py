"""C29: what the console tells is true, and plain text inside ABAQUS."""

import contextlib
import importlib
import io
import os
import re
import sys

from .. import prog
from ..core import Product, Space, Words, require
from .c19 import hush

TITLE = "progress never decreases and ends with 100 % done; reports name what was run; ASCII inside ABAQUS"
ASSUMPTIONS = [
    "a progress report is a line from a carriage return on with a bar of # and - and a percentage",
    "ABAQUS is recognised by the name of its interpreter",
    "times the process took on this computer are not compared",
]
BAR = re.compile(r"\[([#-]*)\]\s*([\d.]+) ?% of ([^\r\n]*)")


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def bars(text):
    """[(filled, length, percent, rest of the line)] of all progress reports."""
    out = []
    for chunk in text.split("\r"):
        m = BAR.search(chunk)
        if m:
            out.append((m[1].count("#"), len(m[1]), float(m[2]), m[3]))
    return out


def reset(gi):
    """A fresh process has shown no progress yet."""
    if hasattr(gi, "last_progress_update"):
        gi.last_progress_update = 0.0


# ------------------------------------------------------------------------------- single reports


def shown(v):
    """(percent, word) that has to be on display after reporting v."""
    if isinstance(v, str) or v is None:
        return 0.0, "error"
    if v < 0:
        return 0.0, "halt"
    if v >= 1:
        return 100.0, "done"
    return round(v * 100, 1), ""


def explore_calls(c, rec):
    from pyGCodeDecode import gcode_interpreter as gi

    reset(gi)
    prev = ()
    last = None
    for i, (v, name) in enumerate(c["calls"]):
        with captured() as out:
            gi.update_progress(v, name)
        got = bars(out.getvalue())
        pc, word = shown(v)
        if got:
            last = got[-1]
            require(name in last[3], "report %d (%r of %r) shows %r", i, v, name, out.getvalue())
        if last is None:
            require(pc == 0.0 and not word, "report %d (%r of %r) shows nothing", i, v, name)
        else:
            require(last[2] == pc, "after reporting %s the display shows %r %%", c["calls"][: i + 1], last[2])
            require(last[1] == 10 and abs(last[0] - pc / 10) <= 0.5001 + 0.005, "the bar has %d of %d parts at %r %%", last[0], last[1], pc)
            if word:
                require(got and word in last[3].lower(), "report %d (%r) shows %r", i, v, out.getvalue())
            if got and not word:
                require(not re.search("done|halt|error", last[3].lower()), "report %d (%r) shows %r", i, v, out.getvalue())
        cur = (pc, word)
        rec.state(str(cur))
        rec.step(str(prev), str((v, name, cur)))
        prev = cur
        rec.compared(2)
    rec.trace()
    rec.outcome([shown(v) for v, _ in c["calls"]])


# ------------------------------------------------------------------------------- reports of a run


def phases(text):
    """Progress reports split after every completed one."""
    out, cur = [], []
    for b in bars(text):
        cur.append(b)
        if "done" in b[3].lower():
            out.append(cur)
            cur = []
    return out, cur


def check_progress(what, text, counts, least):
    require(not re.search(r"halt\.\.\.|error", text.lower()), "%s: the console tells %r", what, text[-300:])
    done, rest = phases(text)
    require(not rest, "%s: the progress ends at %r", what, rest[-1:])
    require(len(done) >= least, "%s: %d completed progress bars", what, len(done))
    for ph in done:
        name = re.sub(r"\W*done\W*$", "", ph[-1][3], flags=re.I).strip()
        require(name, "%s: a progress without name", what)
        last = 0.0
        for fill, n, pc, rest in ph:
            require(rest.strip().startswith(name), "%s: progress of %r within that of %r", what, rest, name)
            require(0 <= last <= pc <= 100, "%s: progress of %s goes from %r to %r", what, name, last, pc)
            require(n == 10 and abs(fill - pc / 10) <= 0.5001 + 0.005, "%s: %d of %d parts of the bar at %r %%", what, fill, n, pc)
            last = pc
        require(last == 100.0, "%s: %s is done at %r %%", what, name, last)
        pcs = {b[2] for b in ph}
        fit = [n for n in counts if all(abs(x - 100.0 * round(x * n / 100) / n) <= 0.0501 for x in pcs)]
        require(fit, "%s: the progress of %s shows %s, which is no share of %s", what, name, sorted(pcs)[:6], sorted(counts))
    return done


def consume(sim, what, A, fig=None):
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
    from pyGCodeDecode.tools import save_layer_metrics

    d = A.scratch()
    with hush():
        if what == "2d":
            sim.plot_2d_position(filepath=d / "c29.png", dpi=20)
        elif what == "2d points":
            sim.plot_2d_position(filepath=False, colvar=None, show_points=True)
        elif what == "vel":
            sim.plot_vel(show=False)
        elif what == "vel 7":
            sim.plot_vel(show=False, time_steps=7, axis=("x",))
        elif what == "3d":
            sim.plot_3d(vtk_path=d / "c29.vtk")
        elif what == "3d all":
            sim.plot_3d(extrusion_only=False)
        elif what == "summary":
            sim.save_summary(filepath=d / "c29.yaml")
        elif what == "metrics":
            save_layer_metrics(sim, filepath=d / "c29.csv", locale="xx_XX.nothing")
        elif what == "events":
            generate_abaqus_event_series(sim, filepath=d / "c29.inp")
        elif what == "refresh":
            sim.refresh()
        elif what == "late":
            sim.get_values(t=0.0)


PROGRESS = {"2d": 1, "2d points": 2, "vel": 1, "vel 7": 1, "3d": 1, "3d all": 1, "refresh": 1}


FILES = {"2d": "c29.png", "3d": "c29.vtk", "summary": "c29.yaml", "metrics": "c29.csv", "events": "c29.inp"}


def explore_run(c, rec):
    import matplotlib.pyplot as plt

    from pyGCodeDecode import gcode_interpreter as gi

    A = prog.adapter()
    reset(gi)
    text = prog.text_of(c)
    setup = A.make_setup(firmware=c["fw"], initial=tuple(c["init"]), layer_cue=c["cue"], **c["cfg"])
    f = A.write_gcode(text, "told.gcode")
    with captured() as out:
        sim = gi.simulation(gcode_path=f, initial_machine_setup=setup)
    t = out.getvalue()
    r_obs = prog.observe(c)
    prog.record(rec, c, r_obs)
    n_st, n_bl = len(sim.states), len(sim.blocklist)
    n_sg = sum(len(b.get_segments()) for b in sim.blocklist)
    done = check_progress("simulation", t, {n_st, max(n_bl, 1)}, 1)
    said = [ln for ln in t.splitlines() if "pars" in ln.lower() and re.search(r"\d", ln)]
    if said:
        require(re.search(r"(?<!\d)%d(?!\d)" % (len(r_obs) - 1 if len(r_obs) == n_st else n_st - 1), said[0]), "%d lines were parsed, the console tells %r", n_st - 1, said[0])
    for what, name in (("file", str(f)), ("printer", "mach"), ("firmware", str(c["fw"]))):
        require(name in t, "the console does not tell the %s %s: %r", what, name, t[-400:])
    end = max([x.t_end for b in sim.blocklist for x in b.get_segments()], default=0.0)
    for pattern, value, tol in ((r"(\d+) states", n_st, 0), (r"(\d+) planner blocks", n_bl, 0), (r"(\d+(?:\.\d*)?(?:e[+-]?\d+)?) seconds", end, 0.00501 + 1e-9 * end)):
        told = re.findall(pattern, t)
        for x in told:
            require(abs(float(x) - value) <= tol, "the console tells %s for %r, the simulation has %r", x, pattern, value)
        rec.compared(len(told))
    rec.compared(4 + len(done))
    for w in c["then"]:
        target = A.scratch() / FILES.get(w, "c29.none")
        target.unlink(missing_ok=True)
        try:
            with captured() as out:
                consume(sim, w, A)
        finally:
            plt.close("all")
        if w in FILES:
            require(target.is_file() == (str(target) in out.getvalue()), "%s: %s is %s, the console tells %r", w, target.name, "written" if target.is_file() else "not written", out.getvalue()[-200:])
        k = check_progress(w, out.getvalue(), {n_st, n_bl, n_sg, n_sg + 1, 7}, PROGRESS.get(w, 0))
        rec.compared(1 + len(k))
        rec.outcome(w, [len(x) for x in k])
    rec.trace()
    rec.outcome([len(x) for x in done])


# ------------------------------------------------------------------------------- inside ABAQUS


@contextlib.contextmanager
def inside_abaqus():
    from pyGCodeDecode import helpers

    keep = sys.executable
    try:
        sys.executable = "C:\\SIMULIA\\EstProducts\\2023\\win_b64\\code\\bin\\ABQcaeK.exe"
        importlib.reload(helpers)
        yield
    finally:
        sys.executable = keep
        importlib.reload(helpers)


def masked(t):
    return re.sub(r"\d+\.\d+ ?s\b", "TIME", t)


def session(c, A, captive=True):
    import matplotlib.pyplot as plt

    from pyGCodeDecode import gcode_interpreter as gi

    reset(gi)
    setup = A.make_setup(firmware=c["fw"], initial=tuple(c["init"]), layer_cue=c["cue"], **c["cfg"])
    f = A.scratch() / ("tol\u00e9d \u2603.gcode" if c["odd"] else "told.gcode")
    f.write_text(prog.text_of(c) + c["extra"])
    with captured() if captive else contextlib.nullcontext(io.StringIO()) as out:
        sim = gi.simulation(gcode_path=f, initial_machine_setup=setup)
        for w in c["then"]:
            try:
                consume(sim, w, A)
            except Exception as e:
                print("refused", type(e).__name__)
        plt.close("all")
    f.unlink()
    return [s.row() for s in A.segs(sim)], masked(out.getvalue())


def explore_abaqus(c, rec):
    A = prog.adapter()
    prog.record(rec, c, prog.observe(c))
    out = session(c, A)
    with inside_abaqus():
        ins = session(c, A)
    again = session(c, A)
    require(ins[0] == out[0], "the simulation inside ABAQUS is another one")
    require(ins[1].isascii(), "printed inside ABAQUS: %r", [x for x in ins[1].splitlines() if not x.isascii()][:2])
    want = "".join(x for x in out[1] if ord(x) < 128)
    require(ins[1] == want, "printed inside ABAQUS: %s", next(((a, b) for a, b in zip(ins[1].splitlines(), want.splitlines()) if a != b), "another number of lines"))
    require(again == out, "the console tells something else the second time")
    rec.compared(3)
    rec.trace()
    rec.outcome(len(ins[1].splitlines()), ins[1] == out[1])


# ------------------------------------------------------------------------------------- consoles


@contextlib.contextmanager
def console(encoding):
    """A console that shows the characters of an encoding and refuses any other."""
    keep = sys.stdout
    sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding=encoding, errors="strict", newline="\n", write_through=True)
    try:
        yield sys.stdout.buffer
    finally:
        sys.stdout = keep


def shown_on(text, encoding):
    def has(ch):
        try:
            return bool(ch.encode(encoding))
        except UnicodeEncodeError:
            return False

    return "".join(x for x in text if has(x))


def explore_console(c, rec):
    A = prog.adapter()
    prog.record(rec, c, prog.observe(c))
    wide = session(c, A)
    with console(c["console"]) as buf:
        got = session(c, A, captive=False)
        text = masked(buf.getvalue().decode(c["console"]))
    require(got[0] == wide[0], "the simulation is another one on a console for %s", c["console"])
    want = shown_on(wide[1], c["console"])
    require(text == want, "printed on a console for %s: %s", c["console"], next(((a, b) for a, b in zip(text.splitlines(), want.splitlines()) if a != b), "another number of lines"))
    rec.compared(2)
    rec.trace()
    rec.outcome(text == wide[1], len(text))


def explore_asking(c, rec):
    """The command line on such a console, with answers from a file."""
    import importlib

    A = prog.adapter()
    cli = importlib.import_module("pyGCodeDecode.cli")
    d = A.scratch() / "asking"
    d.mkdir(exist_ok=True)
    f = A.write_gcode("G1 X10 E1 F1800\n", "tol\u00e9d \u2603.gcode")
    keep = sys.argv, sys.stdin

    def run():
        sys.argv, sys.stdin = ["pygcd", "plot", "-g", str(f)], io.StringIO("".join(x + "\n" for x in c["answers"]))
        try:
            with contextlib.chdir(d):
                cli._main()
            return "done"
        except (Exception, SystemExit) as e:
            return type(e).__name__
        finally:
            sys.argv, sys.stdin = keep

    with captured() as out:
        how = run()
    with console(c["console"]) as buf:
        again = run()
        text = masked(buf.getvalue().decode(c["console"]))
    require(how == again, "the command line ends with %s, on a console for %s with %s", how, c["console"], again)
    want = shown_on(masked(out.getvalue()), c["console"])
    require(text == want, "printed on a console for %s: %s", c["console"], next(((a, b) for a, b in zip(text.splitlines(), want.splitlines()) if a != b), "another number of lines"))
    rec.state(c["console"], c["answers"])
    rec.step(c["console"], c["answers"])
    rec.compared(2)
    rec.trace()
    rec.outcome(how, len(text))


ARGS = ["text", "", "\u26a0\ufe0f caf\u00e9", 5, 2.5, None, ("a", 1), "line\nend"]


def explore_print(c, rec):
    from pyGCodeDecode import helpers

    args = [ARGS[i] for i in c["args"]]
    kw = dict(c["kw"])

    def run(fn):
        with captured() as out:
            fn(*args, **kw)
        return out.getvalue()

    want = run(print)
    require(run(helpers.custom_print) == want, "printing %r gives %r", args, run(helpers.custom_print))
    with inside_abaqus():
        got = run(helpers.custom_print)
    want = run(lambda *a, **k: print(*["".join(x for x in str(v) if ord(x) < 128) for v in a], **k))
    require(got == want, "printing %r inside ABAQUS gives %r, should be %r", args, got, want)
    rec.state(str(c["args"]))
    rec.trace()
    rec.compared(2)
    rec.outcome(got)


VALUES = [(0.0, "A"), (0.0004, "A"), (0.33333, "A"), (0.3334, "B"), (0.5, "A"), (0.95, "A"), (0.9994, "A"), (0.9996, "A"), (1.0, "A"), (1.0, "B"), (1.5, "A"), (-0.1, "A"), (0, "A"), (1, "A"), ("x", "A"), (None, "B")]
OPS = [
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-3, Y=2),
    prog.g1(E=-0.8),
    prog.op("G4", P=250),
    [{}, None],
    [{}, "LAYER"],
    prog.op("M204", P=500),
]
ALL = ["2d", "2d points", "vel", "vel 7", "3d", "3d all", "refresh"]


def told(c, then):
    return {**c, "then": list(then)}


def chain(n, fw):
    return prog.case(prog.REL + [prog.g1(X=0.3, Y=0.2 * (i % 2), E=0.01) for i in range(n)], fw=fw)


def abq(c, extra, odd, then):
    return {**c, "extra": extra, "odd": odd, "then": list(then)}


def spaces(tier):
    deep = tier == "thorough"
    I = ((1.5, -2.25, 0.3, 7.125),)
    return [
        Space("calls", "all sequences of 1..%d progress reports over 16" % (4 if deep else 3), Product(Words(VALUES, 1, 4 if deep else 3), make=lambda w: {"calls": [list(x) for x in w]}), explore_calls),
        Space("runs", "all programs of 0..%d operations over 7" % (4 if deep else 3), Product(prog.words(OPS, 0, 4 if deep else 3, fws=("marlin_jd", None), inits=I, cue="LAYER"), ((),), make=told), explore_run),
        Space("uses", "programs of 2 moves and an operation x all sequences of %d plots" % (3 if deep else 2), Product([prog.case(prog.REL + [OPS[0], OPS[1], o], fw=fw, init=I[0], cue="LAYER") for o in OPS for fw in ("klipper", "marlin_jerk")], Words(ALL, 2, 3 if deep else 2), make=told), explore_run),
        Space("exports", "programs of 2 moves and an operation, with and without a layer cue x all sequences of %d exports" % (3 if deep else 2), Product([prog.case(prog.REL + [OPS[0], OPS[1], o], fw=fw, init=I[0], cue=q) for o in OPS[3:] + [prog.op("G4", S=7261.37), prog.g1(X=1e6, E=9, F=120)] for fw in ("MKA",) for q in (None, "LAYER")], Words(["summary", "metrics", "events", "3d", "2d"], 2, 3 if deep else 2), make=told), explore_run),
        Space("lengths", "programs of n moves, n up to %d" % (6000 if deep else 2500), Product([chain(n, fw) for n in ([*range(1, 120), 998, 999, 1000, 1001, 1999, 2000, 2001, 2003, 2500] + ([3001, 6000] if deep else [])) for fw in ("marlin_jd",)], (("vel 7",),), make=told), explore_run, chunk=4),
        Space("abaqus", "programs inside and outside of ABAQUS x unsupported commands x file name x reports", Product(prog.words(OPS[:6], 1, 2 if deep else 1, fws=("klipper", "MKA"), inits=I, cue="LAYER"), ("", "G28\nG2 X1 Y1 I1\n"), (False, True), (("summary", "metrics", "events"), ("3d", "2d", "vel"), ("metrics", "late", "refresh")), make=abq), explore_abaqus),
        Space("consoles", "programs on consoles which show the characters of an encoding only x file name x reports", Product(prog.words(OPS[:6], 1, 2 if deep else 1, fws=("klipper",), inits=I, cue="LAYER"), ("", "G28\n"), (False, True), (("summary", "metrics", "events"), ("3d", "2d", "vel")), ("ascii", "cp1252", "cp437", "utf-8"), make=lambda c, x, odd, then, con: {**abq(c, x, odd, then), "console": con}), explore_console),
        Space("asking", "the command line on such consoles x answers", Product(("ascii", "cp1252", "cp437", "utf-8"), (["n"], ["y"], ["x", "", "N"], []), make=lambda con, a: {"console": con, "answers": a}), explore_asking, chunk=1),
        Space("cueless", "programs without a layer cue inside and outside of ABAQUS", Product(prog.words(OPS[:4], 1, 2, fws=("klipper",), inits=I), ("", "G11\n"), (False,), (("metrics", "summary"),), make=abq), explore_abaqus),
        Space("print", "all texts of 0..%d arguments over 8 x separators and ends" % (3 if deep else 2), Product(Words(list(range(len(ARGS))), 0, 3 if deep else 2), ((), (("sep", "-"),), (("end", ""),), (("sep", ""), ("end", "!\n"))), make=lambda w, kw: {"args": list(w), "kw": [list(x) for x in kw]}), explore_print),
    ]
