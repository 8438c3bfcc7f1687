"""Explorer core: deterministic exhaustive enumeration of finite spaces, in parallel, on the real code.

A check is a list of `Space`s.  A space is a finite, indexable list of *cases* (plain JSON data); exploring
a case drives the real code along one complete execution and compares every step with a reference model.
Every case of every space is explored (no sampling); a space that is cut by the time cap says so.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import pathlib
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_LIMIT_S = 100
MEM_LIMIT = 3500 << 20


class Violation(Exception):
    """The property is broken on the case being explored."""


class Skip(Exception):
    """The case is outside the property's domain."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def h64(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Rec:
    """What one worker saw: distinct model states, distinct transitions, distinct outcomes, traces."""

    def __init__(self):
        self.states = set()
        self.transitions = set()
        self.outcomes = set()
        self.traces = 0
        self.cases = 0
        self.skipped = 0
        self.comparisons = 0

    def state(self, *key):
        self.states.add(h64(key))

    def step(self, src, op):
        self.transitions.add(h64((src, op)))

    def path(self, keys, ops):
        """Record a path of the model: keys[0] -ops[0]-> keys[1] ..."""
        prev = None
        for i, k in enumerate(keys):
            s = h64(k)
            self.states.add(s)
            if i:
                self.transitions.add(h64((prev, ops[i - 1])))
            prev = s

    def outcome(self, *key):
        self.outcomes.add(h64(key))

    def trace(self, n=1):
        self.traces += n

    def compared(self, n=1):
        self.comparisons += n


class Space:
    """name, what is enumerated, indexable cases, and the function exploring one case."""

    def __init__(self, name, what, cases, explore, chunk=None):
        self.name = name
        self.what = what
        self.cases = cases  # sequence-like: len() and [i]
        self.explore = explore  # explore(case, rec) -> None, raises Violation
        self.chunk = chunk


class Product:
    """Indexable cartesian product, first factor slowest; each element is passed through `make`."""

    def __init__(self, *factors, make=None):
        self.f = [x if isinstance(x, (Product, Words, Concat, Map)) else list(x) for x in factors]
        self.make = make
        self.n = 1
        for x in self.f:
            self.n *= len(x)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if not 0 <= i < self.n:
            raise IndexError(i)
        out = []
        for x in reversed(self.f):
            i, r = divmod(i, len(x))
            out.append(x[r])
        out.reverse()
        return self.make(*out) if self.make else tuple(out)


class Words:
    """All words over an alphabet with lengths lo..hi, shortest first."""

    def __init__(self, alphabet, lo, hi):
        self.a = list(alphabet)
        self.lens = [(k, len(self.a) ** k) for k in range(lo, hi + 1)]
        self.n = sum(c for _, c in self.lens)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        for k, c in self.lens:
            if i < c:
                out = []
                for _ in range(k):
                    i, r = divmod(i, len(self.a))
                    out.append(self.a[r])
                out.reverse()
                return out
            i -= c
        raise IndexError(i)


class Concat:
    def __init__(self, *seqs):
        self.s = seqs

    def __len__(self):
        return sum(len(x) for x in self.s)

    def __getitem__(self, i):
        for x in self.s:
            if i < len(x):
                return x[i]
            i -= len(x)
        raise IndexError(i)


class Map:
    def __init__(self, seq, fn):
        self.s, self.fn = seq, fn

    def __len__(self):
        return len(self.s)

    def __getitem__(self, i):
        return self.fn(self.s[i])


class _Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise _Timeout()


_SPACES = None  # inherited by fork


def explore_case(space, case, rec):
    """Returns None or a message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        rec.cases += 1
        space.explore(case, rec)
        return None
    except Skip:
        rec.skipped += 1
        return None
    except Violation as v:
        return str(v)
    except _Timeout:
        return f"no result within {CASE_LIMIT_S} s (does not terminate)"
    except KeyboardInterrupt:
        raise
    except MemoryError:
        return f"needs more than {MEM_LIMIT >> 20} MB (grows without bound)"
    except BaseException as e:  # the code under test failed on an input in the property's domain
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{pathlib.Path(f.filename).name}:{f.lineno}" for f in tb][-4:]
        return f"unexpected {type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(where))}"
    finally:
        signal.alarm(0)


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))


def _work(job):
    si, lo, hi = job
    space = _SPACES[si]
    rec = Rec()
    bad = None
    sample = None
    for i in range(lo, hi):
        case = space.cases[i]
        if sample is None:
            sample = case
        msg = explore_case(space, case, rec)
        if msg is not None:
            bad = (si, i, case, msg)
            break
    return (si, lo, hi, rec, bad, sample)


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def load_known(prop):
    """Known findings (never a fixed one) of a property: [{'space','case','what'}]."""
    f = ROOT / "known_findings.json"
    if not f.is_file():
        return []
    return [k for k in json.loads(f.read_text()).get("known", []) if k["property"] == prop]


def run(prop, title, spaces, tier, level="model_checking", assumptions=(), cap_s=None, notes=None):
    """Explore all spaces; write evidence; return the exit code."""
    global _SPACES
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cap_s = cap_s or (240 if tier == "quick" else 800)
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ["VERIF_SCRATCH"] = scratch
    _SPACES = spaces
    known = load_known(prop)
    total = Rec()
    samples = []
    per_space = []
    bad = None
    known_hit = []
    capped = []
    try:
        jobs = []
        for si, sp in enumerate(spaces):
            n = len(sp.cases)
            c = sp.chunk or max(1, min(64, n // (WORKERS * 4) or 1))
            for lo in range(0, n, c):
                jobs.append((si, lo, min(n, lo + c)))
        done = {si: 0 for si in range(len(spaces))}
        recs = {si: Rec() for si in range(len(spaces))}
        ctx = mp.get_context("fork")
        sys.stdout.flush()
        with ctx.Pool(WORKERS, initializer=_init) as pool:
            results = pool.imap(_work, jobs)
            for _ in jobs:
                # a worker that dies takes its job with it: do not wait for ever
                si, lo, hi, rec, b, sample = results.next(timeout=max(0.0, cap_s - (time.time() - t0)) + CASE_LIMIT_S + 60)
                r = recs[si]
                for f in ("states", "transitions", "outcomes"):
                    getattr(r, f).update(getattr(rec, f))
                for f in ("traces", "cases", "skipped", "comparisons"):
                    setattr(r, f, getattr(r, f) + getattr(rec, f))
                done[si] += rec.cases
                if len(samples) < 40 and (lo == 0 or lo == (len(spaces[si].cases) // 2)):
                    samples.append({"space": spaces[si].name, "case": jsonable(sample)})
                if b is not None:
                    k = [x for x in known if x["space"] == spaces[si].name and x["case"] == jsonable(b[2])]
                    if k:
                        known_hit.append(k[0])
                    elif bad is None:
                        bad = b
                        pool.terminate()
                        break
                if time.time() - t0 > cap_s:
                    capped = [spaces[k].name for k in range(len(spaces)) if done[k] < len(spaces[k].cases)]
                    if capped:
                        pool.terminate()
                        break
        for si, sp in enumerate(spaces):
            r = recs[si]
            for f in ("states", "transitions", "outcomes"):
                getattr(total, f).update(getattr(r, f))
            for f in ("traces", "cases", "skipped", "comparisons"):
                setattr(total, f, getattr(total, f) + getattr(r, f))
            per_space.append(
                {
                    "space": sp.name,
                    "what": sp.what,
                    "size": len(sp.cases),
                    "explored": r.cases,
                    "outside_domain": r.skipped,
                    "states": len(r.states),
                    "transitions": len(r.transitions),
                    "traces_validated_against_impl": r.traces,
                    "distinct_outcomes": len(r.outcomes),
                    "comparisons": r.comparisons,
                    "complete": r.cases == len(sp.cases),
                }
            )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    complete = all(p["complete"] for p in per_space)
    cov = {
        "states": len(total.states),
        "transitions": len(total.transitions),
        "traces_validated_against_impl": total.traces,
        "distinct_outcomes": len(total.outcomes),
        "comparisons": total.comparisons,
        "exhaustive": bool(complete),
        "spaces": per_space,
        "samples": samples[:12],
    }
    if level == "exploration":
        cov["evaluations"] = total.cases
        cov["distinct_nontrivial"] = len(total.outcomes)
        cov["rule"] = notes or "every case of every space; non-trivial = distinct observed outcome"
    if capped:
        cov["capped"] = {"cap_s": cap_s, "incomplete_spaces": capped}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 3),
        "violations": 0 if bad is None else 1,
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for p in per_space:
        print(
            f"{prop} {p['space']}: {p['explored']}/{p['size']} cases, {p['states']} states, {p['transitions']} transitions, "
            f"{p['traces_validated_against_impl']} traces on the real code, {p['distinct_outcomes']} distinct outcomes"
            + ("" if p["complete"] else " (INCOMPLETE)")
        )
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if bad is not None:
        si, i, case, msg = bad
        rp = write_replay(prop, spaces[si].name, i, case, msg)
        print(f"{prop}: {msg}")
        print(f"  case: {json.dumps(jsonable(case))[:1500]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: held on everything explored in {time.time() - t0:.1f} s ({title})")
    return 0


def write_replay(prop, space, index, case, msg):
    d = ROOT / "evidence" / "replay"
    d.mkdir(parents=True, exist_ok=True)
    f = d / f"{prop}.json"
    f.write_text(
        json.dumps(
            {
                "property": prop,
                "space": space,
                "index": index,
                "case": jsonable(case),
                "message": msg,
                "replay": f"cd {ROOT} && /opt/venv/bin/python -m mc.replay {f}",
            },
            indent=1,
        )
        + "\n"
    )
    return f
