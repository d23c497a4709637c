#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.head.md, properties.jsonl, suites.py and seeded/*/meta.json + tools/caught.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from suites import SUITES, PROPS
from design_text import SPECIFIED
head = open(os.path.join(V, "tools/design.head.md")).read()
caught = json.load(open(os.path.join(V, "tools/caught.json")))
out = [head, "## Per property\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    s = [SUITES[x] for x in PROPS[i]["suites"]]
    out.append("### %s %s\n" % (i, p["title"]))
    mods = ["`%s.tla`" % m["module"].replace("Gen", "") if os.path.exists(os.path.join(V, "spec", m["module"].replace("Gen", "") + ".tla")) else "`%s.tla`" % m["module"] for x in s for m in x["models"]]
    gens = ["`%s`" % m["module"] for x in s for m in x["models"]]
    trs = ["`%s`" % x["trace"] for x in s]
    a, cost = SPECIFIED[i]
    out.append("*Specification* %s, explored by TLC through %s, recorded events judged by %s." % (", ".join(mods), ", ".join(gens), ", ".join(trs)))
    out.append("*Specified* %s" % a)
    out.append("*Bounds and generation* %s Seeded inputs beyond the model: %s (quick), %s (thorough)." % (PROPS[i]["note"], sum(x["random_quick"] for x in s), sum(x["random_thorough"] for x in s)))
    out.append("*Why tests cannot* %s" % p["why_tests_cant"])
    out.append("*Cost* %s\n" % cost)
out.append("## Planted bugs and what catches them\n")
out.append("Each was written from the property text and the code, confirmed in a scratch copy (`tools/seed.py`: builds, stable tests pass, demo fails with and passes without), then run through the registered quick check (`tools/trybug.sh`).\n")
out.append("| bug | property | needs | caught by quick check |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, "not run yet")))
out.append("")
out.append(open(os.path.join(V, "tools/design.tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
