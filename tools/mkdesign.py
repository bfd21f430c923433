"""Writes DESIGN.md from the texts beside it, the properties, the checks' own descriptions and the planted bugs."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True


def text(name):
    with open(os.path.join(V, "tools", name)) as f:
        return f.read()


def one(s):
    return s if isinstance(s, str) else "; ".join(s)


out = [text("design_head.md")]
why = json.loads(text("design_why.json"))
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("props." + p["id"].lower())
    rule = one(m.RULE)
    out.append("### %s: %s\n\n" % (p["id"], p["title"]))
    out.append("*Specified:* %s\n\n" % p["statement"])
    out.append("*Decided by* %s (level: %s). *Workload and distinctness:* %s\n\n" % (m.TECHNIQUE, m.LEVEL, rule[0].upper() + rule[1:]))
    out.append("*Oracle and reach:* %s\n\n" % why[p["id"]])
    a = getattr(m, "ASSUMPTIONS", None)
    out.append("*Bounds:* %s%s *Cost:* about %d s quick, %d s thorough on 8 cores.\n\n" % (
        m.NOTE, (" Assumed: " + "; ".join(a) + ".") if a else "", m.QUICK_S, m.THOROUGH_S))
out.append(text("design_tail.md"))
missed = json.loads(text("missed.json"))
out.append("| bug | what it breaks | needs | caught by |\n| --- | --- | --- | --- |\n")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    with open(f) as fh:
        d = json.load(fh)
    i = os.path.basename(os.path.dirname(f))
    x = missed.get(i, "")
    c = "not caught: " + x[4:] if x.startswith("not ") else d["property"] + (" (missed at first: %s)" % x if x else "")
    out.append("| %s | %s | %s | %s |\n" % (i, d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), c))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("".join(out))
