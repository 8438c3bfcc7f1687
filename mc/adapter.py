"""Drives the real code in /repo through its public API and turns results into plain data."""

from __future__ import annotations

import contextlib
import os
import pathlib
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.pop("DISPLAY", None)
warnings.filterwarnings("ignore", message="(?s).*xserver.*")

import pyGCodeDecode  # noqa: E402

assert os.path.realpath(pyGCodeDecode.__file__).startswith(os.path.realpath(REPO) + "/"), pyGCodeDecode.__file__
from pyGCodeDecode import gcode_interpreter as gi  # noqa: E402
from pyGCodeDecode.state_generator import generate_states  # noqa: E402

_devnull = open(os.devnull, "w")
FIRMWARES = (None, "marlin_jd", "klipper", "marlin_jerk", "MKA")

BASE = {
    "nozzle_diam": 0.4,
    "filament_diam": 1.75,
    "p_vel": 35,
    "p_acc": 1000,
    "jerk": 10,
    "vX": 180,
    "vY": 180,
    "vZ": 30,
    "vE": 33,
}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_devnull):
        yield


_scratch = None
_scratch_pid = None


def scratch() -> pathlib.Path:
    """Per-process scratch directory (removed by the parent check)."""
    global _scratch, _scratch_pid
    if _scratch is None or _scratch_pid != os.getpid():
        root = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="mc_", dir=root))
        _scratch_pid = os.getpid()
        _presets.clear()
    return _scratch


def yaml_text(printers: dict) -> str:
    out = []
    for name, d in printers.items():
        out.append(f"{name}:")
        for k, v in d.items():
            out.append(f"  {k}:" if v is None else f"  {k}: {v}")
    return "\n".join(out) + "\n"


def write_presets(printers: dict, name="presets.yaml") -> pathlib.Path:
    p = scratch() / name
    p.write_text("# für ein Gerät\n" + yaml_text(printers), encoding="utf-8")
    return p


_presets = {}


def make_setup(firmware=None, initial=(0.0, 0.0, 0.0, 0.0), layer_cue=None, **over):
    d = dict(BASE)
    d.update(over)
    d["firmware"] = firmware
    key = (os.getpid(), tuple(sorted((k, v) for k, v in d.items() if v is not None)))
    if key not in _presets or not _presets[key].is_file():
        _presets[key] = write_presets({"mach": d}, name=f"presets{len(_presets)}.yaml")
    s = gi.setup(presets_file=_presets[key], printer="mach", layer_cue=layer_cue)
    if initial is not None:
        s.set_initial_position(tuple(initial))
    return s


def ref_setup(firmware=None, initial=(0.0, 0.0, 0.0, 0.0), layer_cue=None, **over):
    """The same setup as a plain dict for the reference machine."""
    d = dict(BASE)
    d.update(over)
    d["firmware"] = firmware
    d.update(dict(zip("XYZE", initial)))
    if layer_cue is not None:
        d["layer_cue"] = layer_cue
    return d


def write_gcode(text: str, name="prog.gcode") -> pathlib.Path:
    p = scratch() / name
    p.write_text(text, encoding="utf-8", errors="surrogateescape", newline="")  # "surrogateescape": bytes which are no UTF-8
    return p


def simulate(text: str, setup=None, output_unit_system="SImm", name="prog.gcode", **cfg):
    with quiet():
        s = setup if setup is not None else make_setup(**cfg)
        return gi.simulation(gcode_path=write_gcode(text, name), initial_machine_setup=s, output_unit_system=output_unit_system)


def states(text: str, setup=None, **cfg):
    with quiet():
        s = setup if setup is not None else make_setup(**cfg)
        return generate_states(filepath=write_gcode(text), initial_machine_setup=s.get_dict())


def vec(v):
    return tuple(float(c) for c in v.get_vec(withExtrusion=True))


class Seg:
    __slots__ = ("t0", "t1", "p0", "p1", "v0", "v1", "blk")

    def __init__(self, s, blk):
        self.t0, self.t1 = float(s.t_begin), float(s.t_end)
        self.p0, self.p1 = vec(s.pos_begin), vec(s.pos_end)
        self.v0, self.v1 = vec(s.vel_begin), vec(s.vel_end)
        self.blk = blk

    def row(self):
        return [self.t0, self.t1, self.p0, self.p1, self.v0, self.v1]


class Blk:
    __slots__ = ("segs", "line", "A", "B", "extruding")


def trace(sim):
    """Blocks of a simulation as plain data."""
    out = []
    for i, b in enumerate(sim.blocklist):
        k = Blk()
        k.segs = [Seg(s, i) for s in b.get_segments()]
        k.line = b.state_B.line_number
        k.A = vec(b.state_A.state_position) if b.state_A is not None else None
        k.B = vec(b.state_B.state_position)
        k.extruding = bool(b.is_extruding)
        out.append(k)
    return out


def segs(sim):
    return [s for b in trace(sim) for s in b.segs]
