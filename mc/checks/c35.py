"""C35: edited states are simulated exactly as edited."""

import contextlib
import copy
import io

from .. import prog
from ..core import Product, Space, Words, require

TITLE = "refreshing after any sequence of edits equals simulating the program that says the same"
ASSUMPTIONS = [
    "a state is edited by assigning its position, its settings or their attributes, and its pause; states taken out of or put into the list are linked to their neighbours",
    "the reference is a fresh simulation of a program written out from a model of the edited states",
]

TEXT = "G1 X10 F3000\nG1 X20 Y3 E1\n;L\nG1 Y13 E2 F1800\nG4 P200\nG1 X15 E2.5\nG1 E1.5 F1200\nM204 P600\nG1 X5 Y5 E1.5 F6000\n;L\nG1 Z0.4 E1.75 F600\nM205 X3\nG1 X5.5 Y5.25 E2\n"
INIT = (1.0, 2.0, 0.25, 0.0)


class Model:
    """What the states say: position, speed, acceleration, jerk, pause and comment of each."""

    def __init__(self, states):
        self.rows = [self.read(s) for s in states]

    @staticmethod
    def read(s):
        p = s.state_p_settings
        return {"pos": [float(x) for x in s.state_position.get_vec(withExtrusion=True)], "speed": float(p.speed), "p_acc": float(p.p_acc), "jerk": float(p.jerk), "pause": s.pause, "comment": s.comment, "limits": [float(p.vX), float(p.vY), float(p.vZ), float(p.vE)]}

    def text(self):
        num = lambda x: ("%.9f" % x).rstrip("0").rstrip(".")
        out = []
        for r in self.rows[1:]:
            x, y, z, e = (num(v) for v in r["pos"])
            line = "M204 P%s M205 X%s G1 X%s Y%s Z%s E%s F%s" % (num(r["p_acc"]), num(r["jerk"]), x, y, z, e, num(r["speed"] * 60))
            if r["pause"] is not None:
                line += " G4 S%s" % num(r["pause"])
            out.append(line + (" ;" + r["comment"] if r["comment"] is not None else ""))
        return "\n".join(out) + "\n"


def outputs(sim):
    """Everything a simulation tells about its trajectory."""
    from pyGCodeDecode.tools import save_layer_metrics

    A = prog.adapter()
    rows = [[float(v) for v in flat(s.row())] for s in A.segs(sim)]
    T = rows[-1][1] if rows else 0.0
    # the first time asked for after an edit is the last one asked for before it
    vals = [flat(sim.get_values(t)) for t in [min(0.05, T)] + [q * T for q in (0.0, 0.13, 0.5, 0.81, 1.0)] + [min(0.05, T)]]
    with contextlib.redirect_stdout(io.StringIO()):
        layers = [flat(x) for x in save_layer_metrics(sim, filepath=None)]
    return {
        "pieces": rows,
        "values": vals,
        "extent": [flat(sim.extrusion_extent())],
        "maximum speed": [[float(sim.extrusion_max_vel())]],
        "layer metrics": layers,
        "moves": [[float(b.is_extruding), float(b.get_block_travel())] for b in sim.blocklist],
    }


def flat(x):
    if isinstance(x, str):
        return [x]
    try:
        return [v for y in x for v in flat(y)]
    except TypeError:
        return [float(x)]


def same(a, b):
    return len(a) == len(b) and all(x == y or (not isinstance(x, str) and not isinstance(y, str) and prog.close(x, y, 1e-9)) for x, y in zip(a, b))


def check(sim, model, what, rec, fw, init):
    A = prog.adapter()
    got = [Model.read(s) for s in sim.states]
    require(len(got) == len(model.rows), "%s: %d states, should be %d", what, len(got), len(model.rows))
    for i, (g, w) in enumerate(zip(got, model.rows)):
        require(g == w, "%s: state %d is %s, should be %s", what, i, g, w)
    want = A.simulate(model.text(), setup=A.make_setup(firmware=fw, initial=tuple(model.rows[0]["pos"]), layer_cue="L"), name="c35w.gcode")
    w, g = outputs(want), outputs(sim)
    for k in w:
        require(len(w[k]) == len(g[k]), "%s: %d %s, simulating the same program afresh gives %d", what, len(g[k]), k, len(w[k]))
        for i, (a, b) in enumerate(zip(g[k], w[k])):
            require(same(a, b), "%s: %s (%d): %s, simulating the same program afresh gives %s", what, k, i, a, b)
            rec.compared()


def edit(sim, states, model, o):
    """Carry out one edit on the states and on the model; returns the list of states."""
    A = prog.adapter()
    from pyGCodeDecode.state import state
    from pyGCodeDecode.utils import position

    kind, i = o[0], min(o[1], len(states) - 1) if len(o) > 1 else None
    if kind in ("speed", "p_acc", "jerk"):
        setattr(states[i].state_p_settings, kind, o[2])
        model.rows[i][kind] = float(o[2])
    elif kind == "settings":
        old = states[i].state_p_settings
        states[i].state_p_settings = state.p_settings(p_acc=700, jerk=4, vX=old.vX, vY=old.vY, vZ=old.vZ, vE=old.vE, speed=15)
        model.rows[i].update(p_acc=700.0, jerk=4.0, speed=15.0)
    elif kind == "pos":
        p = [a + b for a, b in zip(model.rows[i]["pos"], o[2])]
        states[i].state_position = position(*p)
        model.rows[i]["pos"] = p
    elif kind == "pause":
        states[i].pause = o[2]
        model.rows[i]["pause"] = o[2]
    elif kind == "drop":
        if model.rows[i]["comment"] is not None:  # the layer of all following states would have to be edited, too
            return states
        s = states[i]
        states = states[:i] + states[i + 1 :]
        s.prev_state.next_state, s.next_state.prev_state = s.next_state, s.prev_state
        del model.rows[i]
    elif kind == "split":
        a, b = states[i - 1], states[i]
        p = [(x + y) / 2 for x, y in zip(model.rows[i - 1]["pos"], model.rows[i]["pos"])]
        s = state(state_position=position(*p), state_p_settings=copy.copy(b.state_p_settings))
        s.layer = b.layer if a.layer is None else a.layer
        s.prev_state, s.next_state, a.next_state, b.prev_state = a, b, s, s
        states = states[:i] + [s] + states[i:]
        model.rows.insert(i, {**copy.deepcopy(model.rows[i]), "pos": p, "pause": None, "comment": None})
    elif kind == "query":
        sim.get_values(0.4 * sim.blocklist[-1].get_segments()[-1].t_end)
        sim.extrusion_max_vel()
    return states


def explore(c, rec):
    A = prog.adapter()
    sim = A.simulate(TEXT, setup=A.make_setup(firmware=c["fw"], initial=INIT, layer_cue="L"), name="c35.gcode")
    states = sim.states
    model = Model(states)
    with A.quiet():
        if c["query"]:
            edit(sim, states, model, ("query",))
        done = []
        for n, o in enumerate(list(c["ops"]) + [["refresh"]]):
            o = tuple(o)
            done.append(o)
            if o[0] == "refresh" or o[0] == "relist":
                if n and done[-2][0] == o[0] == "refresh" and n == len(c["ops"]):
                    continue
                if o[0] == "relist" or states is not sim.states:
                    sim.refresh(new_state_list=list(states))
                    states = sim.states
                else:
                    sim.refresh()
                check(sim, model, "after %s" % (done,), rec, c["fw"], INIT)
            else:
                states = edit(sim, states, model, o)
            rec.state(c["fw"], tuple(done))
            rec.step((c["fw"], tuple(done[:-1])), o)
    rec.trace()
    rec.outcome(c["fw"], repr(model.rows))


CORE = [
    ["speed", 4, 20.0],
    ["p_acc", 2, 90.0],
    ["jerk", 2, 1.0],
    ["settings", 6],
    ["pos", 4, [0.5, -1.0, 0.0, 0.0]],
    ["pos", 9, [0.0, 4.0, 0.0, 0.75]],
    ["pause", 2, 0.125],
    ["pause", 5, None],
    ["drop", 6],
    ["split", 4],
    ["refresh"],
    ["relist"],
    ["query"],
]
MORE = CORE + [["speed", 1, 5.0], ["pos", 0, [-1.0, 1.0, 0.0, 0.0]], ["jerk", 12, 20.0], ["pause", 5, 1.5], ["pos", 7, [0.0, 0.0, 0.0, 0.75]], ["pos", 13, [0.0, 0.0, 0.0, -3.0]], ["drop", 1]]


def single():
    """Every single edit of every state."""
    out = []
    for i in range(14):
        for f, v in (("speed", 2.0), ("speed", 100.0), ("p_acc", 40.0), ("p_acc", 5000.0), ("jerk", 0.5), ("jerk", 30.0)):
            out.append([[f, i, v]])
        if i:
            out += [[["settings", i]], [["pause", i, 0.25]], [["pause", i, 0.0]], [["pause", i, None]]]
        if 0 < i < 13 and i not in (3, 10):
            out.append([["drop", i]])
        if i:
            out.append([["split", i]])
        for d in ([0.5, 0, 0, 0], [0, -3.0, 0.25, 0], [0, 0, 0, 0.5], [0, 0, 0, -0.5], [7.0, 7.0, 0, 1.0]):
            out.append([["pos", i, d]])
    return out


def spaces(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    words = lambda alphabet, lo, hi: Words(alphabet, lo, hi)
    mk = lambda w, fw, q: {"ops": w, "fw": fw, "query": q}
    return [
        Space("single", "every single edit of every state of a program of 13 lines", Product(single(), prog.FWS, (True,), make=mk), explore),
        Space("edits", "all sequences of 1..%d of %d edits, refreshes and queries" % (n, len(CORE)), Product(words(CORE, 1, n), ("marlin_jd", "klipper") if not deep else ("marlin_jd",), (False,), make=mk), explore),
        Space("more", "all sequences of 2 of %d edits, refreshes and queries" % len(MORE), Product(words(MORE, 2, 3 if deep else 2), prog.FWS if not deep else ("marlin_jerk", "MKA"), (True,), make=mk), explore),
    ]
