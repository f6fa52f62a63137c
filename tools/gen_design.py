#!/usr/bin/env python3
"""Assembles DESIGN.md from its parts: head, per-property notes, findings, planted bugs, what is not claimed."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda f: open(os.path.join(R, f)).read()
o = rd("tools/design_head.md").rstrip("\n") + "\n\n" + rd("tools/design_props.txt").strip("\n").strip()
o += "\n\n## Not claimed\n\n"
M = json.loads(rd("MANIFEST.json"))
for x in M["not_applicable"]: o += "* **%s** %s\n" % (x["property"], x["reason"])
o += "\n## Genuine defects found\n\nRepaired in /repo, each in its own commit (`KNOWN_FINDINGS`); the check reports the violation again if it returns.\n\n"
for l in rd("KNOWN_FINDINGS").splitlines():
    if l.startswith("fixed: "): o += "* " + l[7:] + "\n"
rest = [l for l in rd("KNOWN_FINDINGS").splitlines() if l.strip() and not l.startswith(("fixed:", "#"))]
if rest: o += "\nNot repaired (KNOWN-FINDING lines):\n\n" + "".join("* " + l + "\n" for l in rest)
c = json.loads(rd("tools/caught.json")) if os.path.exists(os.path.join(R, "tools/caught.json")) else {}
o += "\n## Planted bugs\n\nEach was confirmed in a scratch copy (builds, stable tests pass, its demonstration fails with it and passes without).\n\"failing input\": the check reports the failed obligation and a concrete input on which the real code goes wrong;\n\"proof only\": the failed obligation alone.\n\n| bug | needs | what it breaks | caught with |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o += "| %s | %s | %s | %s |\n" % (i, m["needs"], m["what_it_breaks"], c.get(i, ""))
o += rd("tools/design_tail.md")
open(os.path.join(R, "DESIGN.md"), "w").write(o)
