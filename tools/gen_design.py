#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_body.md and the planted bugs."""
import glob, json, os
os.chdir("/verif")
out = open("tools/design_body.md").read()
for d, what in (("seeded", "Bugs in original code"), ("mutants", "Bugs in repaired lines")):
    out += f"\n### {what} (`{d}/`)\n\n| bug | caught by | needs |\n|---|---|---|\n"
    for m in sorted(glob.glob(d + "/*/meta.json")):
        j = json.load(open(m))
        out += "| %s | %s | %s |\n" % (m.split("/")[1], j["property"], j["needs"].replace("|", "/").replace("\n", " "))
open("DESIGN.md", "w").write(out)
