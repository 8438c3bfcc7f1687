"""Reference G-code machine: the documented meaning of the supported commands, written to be boring.

A program is a list of *ops*; an op is a plain tuple and knows (a) its concrete G-code text and (b) its
effect on the reference machine.  Nothing in here imports the code under test.
"""

from __future__ import annotations

import copy

INCH = 25.4
AX = ("X", "Y", "Z", "E")


class VM:
    """Physical position (mm) plus modal state."""

    def __init__(self, setup):
        self.pos = {a: float(setup[a]) for a in AX}  # physical position
        self.off = {a: 0.0 for a in AX}  # physical = logical + off
        self.abs_pos = True
        self.abs_e = True
        self.inch = False
        self.set = {
            "speed": setup["p_vel"],
            "p_acc": setup["p_acc"],
            "jerk": setup["jerk"],
            "vX": setup["vX"],
            "vY": setup["vY"],
            "vZ": setup["vZ"],
            "vE": setup["vE"],
        }
        self.layer = 0
        self.cue = setup.get("layer_cue")

    def clone(self):
        return copy.deepcopy(self)

    def key(self):
        return (
            tuple(round(self.pos[a], 9) for a in AX),
            tuple(round(self.off[a], 9) for a in AX),
            self.abs_pos,
            self.abs_e,
            self.inch,
            tuple(sorted(self.set.items())),
            self.layer,
        )

    # one command of a line: (word, {arg: float}) --------------------------------------------------
    def command(self, word, args):
        """Execute one command; return the dwell duration if it is a dwell."""
        u = INCH if self.inch else 1.0
        if word in ("G0", "G1"):
            for a in ("X", "Y", "Z"):
                if a in args:
                    if self.abs_pos:
                        self.pos[a] = args[a] * u + self.off[a]
                    else:
                        self.pos[a] = self.pos[a] + args[a] * u
            if "E" in args:
                if self.abs_e:
                    self.pos["E"] = args["E"] * u + self.off["E"]
                else:
                    self.pos["E"] = self.pos["E"] + args["E"] * u
            if "F" in args:
                self.set["speed"] = args["F"] * u / 60.0
        elif word == "G92":
            for a in AX:
                if a in args:
                    self.off[a] = self.pos[a] - args[a] * u
        elif word == "G90":
            self.abs_pos = True
        elif word == "G91":
            self.abs_pos = False
        elif word == "M82":
            self.abs_e = True
        elif word == "M83":
            self.abs_e = False
        elif word == "G20":
            self.inch = True
        elif word == "G21":
            self.inch = False
        elif word == "M203":
            for a in AX:
                if a in args:
                    self.set["v" + a] = args[a] * u
        elif word == "M204":
            if "P" in args:
                self.set["p_acc"] = args["P"] * u
        elif word == "M205":
            if "X" in args:
                self.set["jerk"] = args["X"] * u
        elif word == "G4":
            pause = None
            if "P" in args:
                pause = args["P"] / 1000.0
            if "S" in args:
                pause = args["S"]
            return pause
        return None

    # one line -------------------------------------------------------------------------------------
    ORDER = ("G90", "G91", "M82", "M83", "G20", "G21", "G0", "G1", "G92", "M204", "M203", "M205", "G4")

    def line(self, commands, comment=None):
        """Execute one line given as {word: args}; return the expected observation of that line."""
        pause = None
        for word in self.ORDER:
            if word in commands:
                p = self.command(word, commands[word])
                pause = p if p is not None else pause
        if self.cue is not None and comment is not None and comment.strip() == self.cue:
            self.layer += 1
        return self.observe(pause, comment)

    def observe(self, pause=None, comment=None):
        return {
            "pos": tuple(self.pos[a] for a in AX),
            "set": dict(self.set),
            "units": "inch" if self.inch else "SImm",
            "layer": self.layer if self.cue is not None else None,
            "pause": pause,
            "comment": comment.strip() if comment is not None else None,
        }


def fmt(x):
    """Write a float the way slicers do."""
    s = repr(float(x))
    if "e" in s or "E" in s:
        s = f"{x:.10f}".rstrip("0").rstrip(".")
    if s.endswith(".0"):
        s = s[:-2]
    return s


def text(commands, comment=None):
    """Concrete text of a line in canonical form."""
    out = []
    for word, args in commands.items():
        out.append(" ".join([word] + [f"{k}{fmt(v)}" for k, v in args.items()]))
    s = " ".join(out)
    if comment is not None:
        s += (" " if s else "") + ";" + comment
    return s


def run(setup, lines):
    """Observations for the initial state and after each line; `lines` = [(commands, comment)]."""
    vm = VM(setup)
    obs = [vm.observe()]
    for commands, comment in lines:
        obs.append(vm.line(commands, comment))
    return obs
