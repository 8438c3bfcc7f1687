"""C15: layer metrics partition the print."""

import contextlib
import math

from .. import prog
from ..core import Product, Space, require
from ..prog import close, n3

TITLE = "layer table equals the partition of the trajectory by the reference layers"
ASSUMPTIONS = ["layer 0 is listed first whenever the program has any motion or dwell (the start of the print precedes every cue)"]


def expected(r):
    """[(layer, duration, distance)]"""
    rows = [[0, 0.0, None, 0.0]]  # layer, begin, end, distance
    for it, segs in r.pairs():
        lay = it.layer or 0
        if lay > rows[-1][0]:
            rows[-1][2] = segs[0].t0
            rows.append([lay, segs[0].t0, None, 0.0])
        if it.kind == "move":
            rows[-1][3] += n3([b - a for a, b in zip(it.A, it.B)])
    rows[-1][2] = r.t_end()
    return [(l, e - b, d) for l, b, e, d in rows]


def explore(c, rec):
    from pyGCodeDecode.tools import save_layer_metrics

    A = prog.adapter()
    r = prog.Run(c, rec, plan=False, units=c["unit"])
    before = [s.row() for s in r.segs]
    wd = A.scratch() / "lm"  # where a table without a path goes
    f = wd / c["path"] if c["path"] else None
    if f is not None:
        if len(c["lines"]) % 2 and c["cue"] is not None:
            prog.leftover(f)
        else:
            f.unlink(missing_ok=True)
    kw = {} if c["delim"] is None else {"delimiter": c["delim"]}
    if c["locale"] != "default":
        kw["locale"] = c["locale"]
    if c["path"] == "layer_metrics.csv":
        wd.mkdir(exist_ok=True)
    else:
        kw["filepath"] = f
    with A.quiet(), contextlib.chdir(wd if c["path"] == "layer_metrics.csv" else "."):
        out = save_layer_metrics(r.sim, **kw)
    require([s.row() for s in A.segs(r.sim)] == before, "computing the metrics changed the simulation")
    if c["cue"] is None:
        require(out is None, "metrics %s without a layer cue", out)
        require(f is None or not f.exists(), "a file is written without a layer cue")
        rec.outcome("none")
        return
    if not r.segs:
        rec.outcome("empty")
        return
    want = expected(r)
    layers, dur, dist, avg = [list(x) for x in out]
    require(layers == [w[0] for w in want], "layers %s, should be %s", layers, [w[0] for w in want])
    require(len(dur) == len(dist) == len(avg) == len(want), "columns of lengths %d %d %d", len(dur), len(dist), len(avg))
    for i, (l, d, s) in enumerate(want):
        require(abs(dur[i] - d) <= 1e-9 * (1 + r.t_end()), "layer %d lasts %r, should be %r", l, dur[i], d)
        require(close(dist[i], s, 1e-7), "layer %d: distance %r, should be %r", l, dist[i], s)
        if dur[i] == 0:
            require(math.isnan(float(avg[i])), "layer %d: average speed %r for zero duration", l, avg[i])
        else:
            require(close(float(avg[i]), dist[i] / dur[i], 1e-9), "layer %d: average speed %r, should be %r", l, avg[i], dist[i] / dur[i])
    require(close(sum(dur), r.t_end(), 1e-9), "durations add up to %r, the print takes %r", sum(dur), r.t_end())
    total = sum(n3([b - a for a, b in zip(it.A, it.B)]) for it in r.items if it.kind == "move")
    require(close(sum(dist), total, 1e-7), "distances add up to %r, the path has %r", sum(dist), total)
    if f is not None:
        d = ";" if c["delim"] is None else c["delim"]
        rows = f.read_text().splitlines()
        require(len(rows) == len(want) + 1, "the table has %d rows for %d layers", len(rows) - 1, len(want))
        require(len(rows[0].split(d)) == 4, "header %r", rows[0])
        for i, row in enumerate(rows[1:]):
            x = [y.strip() for y in row.split(d)]
            require(len(x) == 4, "row %r is not separated by %r", row, d)
            nums = [float(y) for y in x]
            for a, b in zip(nums, (layers[i], dur[i], dist[i], float(avg[i]))):
                require(a == b or (math.isnan(a) and math.isnan(b)) or close(a, b, 1e-12), "row %r, metrics %s", row, (layers[i], dur[i], dist[i], avg[i]))
        f.unlink()
    rec.compared(4 * len(want))
    rec.outcome([(l, round(d, 9), round(s, 9)) for l, d, s in want])


OPS = [
    [{}, "LAYER"],
    [{}, " LAYER "],
    prog.g1(X=10, E=0.4, F=3000),
    prog.g1(X=-3, Y=2),
    prog.g1(E=-0.8),
    [{"G1": {"Z": 0.4}}, "LAYER"],
    prog.op("G4", P=250),
    [{"G1": {"Y": 3.0, "E": 0.2}, "G4": {"P": 60.0}}, "LAYER"],
    [{"G4": {"P": 0.0}}, None],
    [{}, "LAYER 1"],
    prog.g1(F=600),
]


LITTLE = [
    [{}, "LAYER"],
    [{"G1": {"X": 1e-5, "E": 1e-3}}, "LAYER"],
    prog.g1(Y=-3e-4, F=9000),
    [{"G1": {"E": 2e-6}}, "LAYER"],
    [{"G4": {"P": 0.001}}, "LAYER"],
    [{"G4": {"P": 0.5}}, None],
    prog.g1(X=7e-8, Z=-5e-8),
    prog.g1(X=30, E=1),
]


def opt(path="m.csv", delim=None, locale=None, unit="SImm"):
    return {"path": path, "delim": delim, "locale": locale, "unit": unit}


OPTS = [opt(), opt("d/e/m.csv", ","), opt(None), opt("m.txt", "|", "C", "inch"), opt("m.csv", "\t", "C", "SI")]


NAMELESS = [opt("layer_metrics.csv", locale="default"), opt("layer_metrics.csv", ",", "C", "SI")]


def words(ops, lo, hi, fws, cues, opts):
    return Product(Product(prog.words(ops, lo, hi, fws=fws, inits=((1.5, -2.25, 0.3, 7.125),)), cues, make=lambda c, q: {**c, "cue": q}), opts, make=lambda c, o: {**c, **o})


def many(n, width, skip):
    """n layers, one or more moves each; some cues in a row."""
    L = []
    for i in range(n):
        L += [[{}, "LAYER"]] * (3 if skip and i % 7 == skip else 1)
        L += [prog.g1(X=(1 + 0.37 * ((i * 7) % 5)) * (-1) ** j, E=0.1 if (i + j) % 3 else -0.2) for j in range(width)]
    return prog.case(prog.REL + L, fw="marlin_jd", init=(1.5, -2.25, 0.3, 7.125), cue="LAYER")


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("words", "all programs of 0..%d lines over 11 with layer cues" % (4 if deep else 3), words(OPS, 0, 4 if deep else 3, ("marlin_jd",), ("LAYER",), OPTS[:1] if deep else OPTS[1:2]), explore),
        Space("small", "all programs of %d lines over 5" % (7 if deep else 5), words(OPS[0:1] + OPS[2:3] + OPS[5:8], 7 if deep else 5, 7 if deep else 5, ("marlin_jerk",), ("LAYER",), OPTS[:1]), explore),
        Space("nameless", "all programs of 0..2 lines x cue, written where no path is given", words(OPS, 0, 2, ("marlin_jd",), (None, "LAYER"), NAMELESS), explore),
        Space("many", "10 to %d layers x moves per layer x repeated cues" % (1200 if deep else 130), Product(Product((9, 10, 11, 12, 21, 100, 130) + ((1000, 1200) if deep else ()), (1, 2), (0, 2, 6), make=many), OPTS[:2], make=lambda c, o: {**c, **o}), explore),
        Space("little", "all programs of %d lines over 8 with layers of micrometres and microseconds" % (5 if deep else 4), words(LITTLE, 4, 5 if deep else 4, ("marlin_jd",), ("LAYER",), OPTS[:1]), explore),
        Space("extremes", "base programs at unusual magnitudes of length, feed rate, dwell and acceleration", Product(prog.extremes(dwells=(1e-3, 1.0, 4e4), inits=((1.5, -2.0, 0.3, 7.0), prog.FAR) if deep else (prog.FAR,)), OPTS[:2], make=lambda c, o: {**c, **o}), explore),
        Space("options", "programs of 1..2 lines x cue x path, delimiter, locale, unit system", words(OPS, 1, 2, ("klipper",), (None, "LAYER", "LAYER 1", ""), OPTS), explore),
        Space("deviations", "base programs with one line inserted anywhere", Product(prog.deviations(alphabet=OPS if deep else OPS[0:8:2] + OPS[7:8], fws=prog.FWS if deep else ("marlin_jd",), cue="LAYER"), OPTS[:1], make=lambda c, o: {**c, **o}), explore),
    ]
