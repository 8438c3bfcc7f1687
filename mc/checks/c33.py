"""C33: a failing file operation is reported and does no damage."""

import builtins
import errno
import io
import json
import os
import pathlib
import pickle
import resource
import shutil
import signal
import sys

from .. import prog
from ..core import Product, Skip, Space, Violation, require
from . import c32

TITLE = "failing reads and writes are reported and do no damage"
ASSUMPTIONS = [
    "a device which is full is imitated by the limit of the kernel on the size of files; a failing medium by files whose reads fail",
    "the check runs as root: missing permissions can not be told from existing ones and are not explored",
]

NAME = "abs"


def op_summary(sim, p):
    sim.save_summary(p)


def op_metrics(sim, p):
    from pyGCodeDecode import tools

    tools.save_layer_metrics(sim, p)


def op_submodel(sim, p):
    from pyGCodeDecode import tools

    tools.write_submodel_times(sim, [1, 1, 0], 8, 9, 30, p, who=1)


def op_events(sim, p):
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

    generate_abaqus_event_series(sim, p)


def op_vtk(sim, p):
    sim.plot_3d(vtk_path=p, screenshot_path=p.with_name("none.png"))


def op_vel(sim, p):
    sim.plot_vel(filepath=p, show=False, dpi=40)


def op_pos(sim, p):
    sim.plot_2d_position(filepath=p, show=False, dpi=40)


WRITE = {"summary": op_summary, "metrics": op_metrics, "submodel": op_submodel, "events": op_events, "vtk": op_vtk, "velocity plot": op_vel, "position plot": op_pos}
SUFFIX = {"summary": "s.yaml", "metrics": "m.csv", "submodel": "t.yaml", "events": "e.inp", "vtk": "m.vtk", "velocity plot": "v.png", "position plot": "p.png"}
TEXT = ("summary", "metrics", "submodel", "events")


def box():
    root = prog.adapter().scratch() / "c33"
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir()
    return root


def listing(root):
    return {str(p.relative_to(root)): p.read_bytes() if p.is_file() and not p.is_symlink() else "dir" for p in sorted(root.rglob("*"))}


def in_child(fn):
    """Runs `fn` in a forked process, which may limit itself; returns (violation or None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)  # messages of VTK
            try:
                res = ("ok", fn())
            except Violation as v:
                res = ("violation", str(v))
            except BaseException as e:
                import traceback

                res = ("broken", "unexpected %s: %s" % (type(e).__name__, traceback.format_exc()[-600:]))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the process of the case has ended")
    kind, res = pickle.loads(data)
    require(kind == "ok", "%s", res)
    return res


_sim = {}


def simulation():
    A = prog.adapter()
    k = str(A.scratch())
    if k not in _sim:
        A = prog.adapter()
        with A.quiet():
            _sim[k] = A.gi.simulation(gcode_path=A.write_gcode(c32.PROGRAMS[NAME], "c33.gcode"), initial_machine_setup=c32.fresh(NAME))
    return _sim[k]


def fingerprint(sim):
    return json.dumps([c32.rows(sim), c32.states(sim.states), sorted((k, repr(v)) for k, v in sim.initial_machine_setup.items())])


def attempt(fn):
    """What happens to a call: ("done", console) or ("reported", error)."""
    import contextlib

    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            fn()
    except (OSError, RuntimeError, ValueError) as e:  # pathlib: "Symlink loop", pyvista: the extension behind a link
        return "reported", "%s: %s" % (type(e).__name__, e)
    return "done", out.getvalue()


_full = {}


def full(op):
    """The complete file, written without trouble."""
    k = (os.getpid(), op)
    if k not in _full:

        sim = simulation()

        def make():
            p = box() / SUFFIX[op]
            with prog.adapter().quiet():
                WRITE[op](sim, p)
            return p.read_bytes()

        _full[k] = in_child(make)
    return _full[k]


def complete(op, data, want):
    return data == want if op in TEXT or op == "vtk" else len(data) > 0.9 * len(want) and data[-8:] == want[-8:]


# ---------------------------------------------------------------- the device is full


def explore_full(c, rec):
    op, old = c["op"], c["old"]
    want = full(op)
    at = max(0, len(want) - 1 - c["at"]) if c["from_end"] else c["at"]
    if at >= len(want):
        raise Skip("the file is shorter")
    sim = simulation()

    def work():
        before = fingerprint(sim)
        root = box()
        (root / "other.txt").write_text("other")
        p = root / ("new/" if op in ("summary", "metrics", "events") and c["new"] else "") / SUFFIX[op]
        if old and p.parent == root:
            p.write_text("old" * 500)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
        how, what = attempt(lambda: WRITE[op](sim, p))
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        left = p.stat().st_size if p.exists() else None
        require(how == "reported", "%s with room for %d of %d bytes ends as if it were complete; %s bytes are there and it says %r", op, at, len(want), left, what[-120:])
        require((root / "other.txt").read_text() == "other", "%s changed another file", op)
        extra = [x for x in listing(root) if x not in ("other.txt", "new", str(p.relative_to(root)))]
        require(not extra, "%s left %s", op, extra)
        require(fingerprint(sim) == before, "%s changed the simulation", op)
        how, what = attempt(lambda: WRITE[op](sim, p))
        require(how == "done", "%s fails again when there is room: %s", op, what)
        require(complete(op, p.read_bytes(), want), "%s repeated when there is room gives another file", op)
        return left

    left = in_child(work)
    rec.trace()
    rec.state(op, at, old, left)
    rec.step((op, old), at)
    rec.outcome(op, left is None, left == at)
    rec.compared(5)


# ---------------------------------------------------------------- something is in the way

OBSTACLES = ("directory", "parent is a file", "parent is a dangling link", "grandparent is a file", "name too long", "loop of links", "link into a file")


def obstruct(root, kind, name):
    p = root / name
    if kind == "directory":
        p.mkdir()
        (p / "inside.txt").write_text("inside")
    elif kind == "parent is a file":
        (root / "a").write_text("file")
        p = root / "a" / name
    elif kind == "grandparent is a file":
        (root / "a").write_text("file")
        p = root / "a" / "b" / name
    elif kind == "parent is a dangling link":
        (root / "a").symlink_to(root / "missing" / "deep")
        p = root / "a" / name
    elif kind == "name too long":
        p = root / ("n" * 300 + name)
    elif kind == "loop of links":
        p.symlink_to(p)
    elif kind == "link into a file":
        (root / "f").write_text("file")
        p.symlink_to(root / "f" / "x")
    return p


def explore_obstacle(c, rec):
    op, kind = c["op"], c["kind"]
    want = full(op)
    sim = simulation()

    def work():
        before = fingerprint(sim)
        root = box()
        p = obstruct(root, kind, SUFFIX[op])
        old = listing(root)
        target = str(p) if c["str"] and op not in ("vtk",) else p
        how, what = attempt(lambda: WRITE[op](sim, target))
        now = listing(root)
        if how == "done":  # it may have found a way, then the file must be there
            require(p.is_file() and complete(op, p.read_bytes(), want), "%s to a path where %s ends as if the file had been written, and says %r", op, kind, what[-120:])
        else:
            lost = [x for x in old if now.get(x) != old[x]]
            require(not lost, "%s to a path where %s damaged %s", op, kind, lost)
        require(fingerprint(sim) == before, "%s changed the simulation", op)
        p = root / "free" / SUFFIX[op]
        p.parent.mkdir()
        how2, what2 = attempt(lambda: WRITE[op](sim, p))
        require(how2 == "done" and complete(op, p.read_bytes(), want), "%s to another path afterwards: %s", op, what2[-120:])
        return how

    how = in_child(work)
    rec.trace()
    rec.state(op, kind, c["str"])
    rec.step(op, kind)
    rec.outcome(op, kind, how)
    rec.compared(3)


# ---------------------------------------------------------------- reading fails


class Failing(io.RawIOBase):
    """A file of which only the first bytes can be read."""

    def __init__(self, path, upto, err):
        super().__init__()
        self.f, self.left, self.err, self.delivered = _open(path, "rb", buffering=0), upto, err, False

    def readable(self):
        return True

    def readinto(self, b):
        if self.left <= 0:
            Failing.hits += 1
            raise OSError(self.err, os.strerror(self.err))
        data = self.f.read(min(len(b), self.left))
        b[: len(data)] = data
        self.left -= len(data)
        return len(data)

    def close(self):
        if not self.closed:
            self.f.close()
        super().close()


Failing.hits = 0
_open = builtins.open


def failing_open(target, upto, err):
    def f(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **kw):
        try:
            mine = os.path.samefile(file, target)
        except (OSError, TypeError, ValueError):
            mine = False
        if not mine or "w" in mode or "a" in mode:
            return _open(file, mode, buffering, encoding, errors, newline, *a, **kw)
        if upto < 0:
            Failing.hits += 1
            raise OSError(err, os.strerror(err))
        raw = io.BufferedReader(Failing(target, upto, err), 16)
        return raw if "b" in mode else io.TextIOWrapper(raw, encoding, errors, newline)

    return f


ERRORS = (errno.EIO, errno.ENOENT, errno.EACCES, errno.ESTALE, errno.EINVAL, errno.EBADF)


def op_simulate(g, p):
    A = prog.adapter()
    s = A.gi.simulation(gcode_path=g, initial_machine_setup=A.gi.setup(presets_file=p, printer="prusa_mini", layer_cue="L"))
    return json.dumps([c32.rows(s), c32.states(s.states)])


def op_states(g, p):
    A = prog.adapter()
    return json.dumps(c32.states(A.generate_states(filepath=g, initial_machine_setup=A.gi.setup(presets_file=p, printer="prusa_mini").get_dict())))


def op_setup(g, p):
    s = prog.adapter().gi.setup(presets_file=p, printer="prusa_mini")
    s.set_property({"p_acc": 77})
    return json.dumps(sorted((k, repr(v)) for k, v in s.get_dict().items()))


READ = {"simulate": op_simulate, "states": op_states, "setup": op_setup}


def explore_read(c, rec):
    from .c31 import PRESETS

    root = box()
    g, p = root / "prog.gcode", root / "presets.yaml"
    g.write_text(c32.PROGRAMS[NAME])
    p.write_text(PRESETS.replace("mine", "prusa_mini") % "marlin_jd", encoding="utf-8")
    target = {"gcode": g, "presets": p}[c["file"]]
    if c["at"] > target.stat().st_size:
        raise Skip("the file is shorter")
    old = listing(root)
    with prog.adapter().quiet():
        want = READ[c["op"]](g, p)
        Failing.hits = 0
        got = []
        fake = failing_open(target, c["at"], c["err"])
        keep = builtins.open, io.open
        fds = len(os.listdir("/proc/self/fd"))
        try:
            builtins.open = io.open = fake
            how, what = attempt(lambda: got.append(READ[c["op"]](g, p)))
        finally:
            builtins.open, io.open = keep
        if Failing.hits:
            require(how == "reported", "%s goes on when reading the %s fails (%s) after %d bytes", c["op"], c["file"], os.strerror(c["err"]), c["at"])
        else:
            require(got == [want], "%s without a failure gives another result", c["op"])
        require(len(os.listdir("/proc/self/fd")) <= fds, "%s keeps a file open after reading the %s failed", c["op"], c["file"])
        require(READ[c["op"]](g, p) == want, "%s gives another result after reading the %s failed (after %d bytes)", c["op"], c["file"], c["at"])
    require(listing(root) == old, "reading changed files")
    rec.trace()
    rec.state(c["op"], c["file"], c["at"], c["err"])
    rec.step((c["op"], c["file"]), c["at"])
    rec.outcome(c["op"], c["file"], how, Failing.hits > 0)
    rec.compared(3)


MISSING = ("missing", "directory", "empty name", "loop of links", "file as directory", "name too long", "link to nothing", "others of this name", "others of this stem", "same name elsewhere")


def explore_missing(c, rec):
    from .c31 import PRESETS

    root = box()
    g, p = root / "prog.gcode", root / "presets.yaml"
    g.write_text(c32.PROGRAMS[NAME])
    p.write_text(PRESETS.replace("mine", "prusa_mini") % "marlin_jd", encoding="utf-8")
    bad = root / "bad"
    kind = c["kind"]
    if kind == "directory":
        bad.mkdir()
    elif kind == "loop of links":
        bad.symlink_to(bad)
    elif kind == "file as directory":
        bad = g / "x"
    elif kind == "name too long":
        bad = root / ("n" * 300)
    elif kind == "link to nothing":
        bad.symlink_to(root / "gone")
    elif kind == "others of this name":
        for e in (".gcode", ".g", ".gco", ".nc", ".txt", ".yaml", ".yml", "~", ".bak", ".orig", ".gcode.bak", " (1)"):
            shutil.copy({"gcode": g, "presets": p}[c["file"]], root / ("bad" + e))
        shutil.copy({"gcode": g, "presets": p}[c["file"]], root / "BAD")
    elif kind == "others of this stem":
        bad = root / {"gcode": "bad.gcode", "presets": "bad.yaml"}[c["file"]]
        for n in ("bad", "bad.g", "bad.gco", "bad.GCODE", "BAD.gcode", "bad.yml", "bad.YAML", "bad.txt", bad.name + ".bak", bad.name + "~"):
            shutil.copy({"gcode": g, "presets": p}[c["file"]], root / n)
    elif kind == "same name elsewhere":
        bad = root / "sub" / {"gcode": g, "presets": p}[c["file"]].name
        bad.parent.mkdir()
    bad = "" if kind == "empty name" else str(bad) if c["str"] else bad
    args = (bad, p) if c["file"] == "gcode" else (g, bad)
    if c["op"] == "setup" and c["file"] == "gcode":
        raise Skip("the setup reads no G-code")
    old = listing(root)
    with prog.adapter().quiet():
        cwd = os.getcwd()
        try:
            os.chdir(root)  # where files of the right names are
            how, what = attempt(lambda: READ[c["op"]](*args))
        finally:
            os.chdir(cwd)
        require(how == "reported", "%s with %s as %s goes on", c["op"], kind, c["file"])
        READ[c["op"]](g, p)
    require(listing(root) == old, "reading changed files")
    rec.trace()
    rec.state(c["op"], c["file"], kind)
    rec.step(c["op"], kind)
    rec.outcome(what.split(":")[0])
    rec.compared(2)


def spaces(tier):
    deep = tier == "thorough"
    B = (False, True)
    some = sorted({0, 1, 5, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193} | set(range(0, 12000, 7 if deep else 500)))
    return [
        Space("full", "the text exports with room for every number of bytes from the start and before the end x an older file x a new directory", Product(list(TEXT), range(0, 1200, 1 if deep else 6), B, B, make=lambda op, at, old, new: dict(op=op, at=at, old=old, new=new, from_end=False)), explore_full),
        Space("full end", "all exports with room for all but the last few bytes", Product(list(WRITE), range(0, 64 if deep else 5), B, make=lambda op, at, old: dict(op=op, at=at, old=old, new=False, from_end=True)), explore_full, chunk=4),
        Space("full plots", "meshes and images with room for some of their bytes", Product(["vtk", "velocity plot", "position plot"], some, B, make=lambda op, at, old: dict(op=op, at=at, old=old, new=False, from_end=False)), explore_full, chunk=4),
        Space("obstacles", "all exports x what is in the way x kinds of paths", Product(list(WRITE), OBSTACLES, B, make=lambda op, kind, s: dict(op=op, kind=kind, str=s)), explore_obstacle, chunk=4),
        Space("reading", "reading fails after every number of bytes x file x operation x error", Product(list(READ), ("gcode", "presets"), range(-1, 320), ERRORS if deep else ERRORS[:2], make=lambda op, f, at, err: dict(op=op, file=f, at=at, err=err)), explore_read),
        Space("missing", "files which can not be opened x operation", Product(list(READ), ("gcode", "presets"), MISSING, B, make=lambda op, f, kind, s: dict(op=op, file=f, kind=kind, str=s)), explore_missing),
    ]
