#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property, table of planted bugs, tail."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "scripts"))
from checks import CHECKS
from design_text import HOW
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [open(os.path.join(V, "scripts/design_head.md")).read()]
for p in props:
    i = p["id"]; c = CHECKS.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    if not c: out.append("Not applicable: see MANIFEST.json.\n"); continue
    ent = sorted(set(r["entry"] for r in c["runs"]))
    out.append("*Decided by* symbolic execution of `harness/%s` (%s). %s\n" % (c["harness"], ", ".join(ent), HOW[i]))
    out.append("*Bounds*: %s.\n*Outside*: %s.\n*Beyond the tests*: %s\n" % (c["bounds"], c.get("outside", "-"), p["why_tests_cant"]))
seeds = []
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d)); seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"]))
out.append("## Planted bugs\n\nEach is caught by the check of its property (confirmed by applying the patch and running the check; `scripts/det.sh`). The ones in the history below were missed first.\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(seeds) + "\n")
out.append(open(os.path.join(V, "scripts/design_misses.md")).read())
out.append(open(os.path.join(V, "scripts/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
