"""Rebuilds the generated parts of DESIGN.md (bounds, seeded changes) from the checks and the notes.

usage: /opt/venv/bin/python tools/design.py
"""
import importlib
import json
import pathlib
import re
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

NAMES = sorted(p.stem for p in (ROOT / "mc" / "checks").glob("c[0-9][0-9].py"))


def size(cases):
    n = len(cases)
    return "%.3g M" % (n / 1e6) if n >= 1e6 else "%.3g k" % (n / 1e3) if n >= 1e4 else str(n)


def bounds():
    out = []
    for name in NAMES:
        m = importlib.import_module("mc.checks." + name)
        q = {s.name: s for s in m.spaces("quick")}
        t = {s.name: s for s in m.spaces("thorough")}
        out.append("\n**%s** %s\n" % (name.upper(), m.TITLE))
        for k, s in q.items():
            d = t[k]
            line = "- %s: %s (%s cases)" % (k, s.what, size(s.cases))
            if len(d.cases) != len(s.cases):
                line += "; thorough: %s (%s)" % (d.what if d.what != s.what else "same over larger alphabets", size(d.cases))
            out.append(line)
        for k in t:
            if k not in q:
                out.append("- %s (thorough only): %s (%s)" % (k, t[k].what, size(t[k].cases)))
        if m.ASSUMPTIONS:
            out.append("- assumed: " + "; ".join(m.ASSUMPTIONS))
    return "\n".join(out)


def seeds():
    res = json.load(open(ROOT / "tools" / "seeds.json"))
    out = ["| change | property | needs | caught by (quick tier) |", "|---|---|---|---|"]
    for d in sorted((ROOT / "seeded").iterdir()):
        if (d / "meta.json").exists():
            m = json.load(open(d / "meta.json"))
            out.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["needs"].replace("|", "/"), res.get(d.name, "?")))
    return "\n".join(out)


def main():
    p = ROOT / "DESIGN.md"
    text = p.read_text()
    for mark, body in (("BOUNDS", bounds()), ("SEEDS", seeds())):
        text = re.sub(r"(<!-- %s -->\n).*?(\n<!-- END %s -->)" % (mark, mark), lambda m: m[1] + body + m[2], text, flags=re.S)
    p.write_text(text)


main()
