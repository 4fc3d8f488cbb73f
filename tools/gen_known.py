#!/usr/bin/env python3
"""Writes known_findings.txt: the repaired defects (from the fix commits of
/repo) and the findings that are only recorded."""
import subprocess
PROP = {
 "47e67bf": "C04", "42e8266": "C03", "ba5d108": "C03", "b73bb7d": "C05", "6e44d15": "C18", "90d2484": "C13",
 "8a47609": "C15", "c4fbe85": "C08", "8be6c8a": "C14", "e405a17": "C02", "924c6cf": "C02", "56c8e5d": "C17",
 "7431843": "C17", "d0f289c": "C22", "12d188b": "C11", "aafde48": "C11", "978b0af": "C12", "1e35bf0": "C16",
 "3d2f463": "C06", "2fe2f66": "C22", "01200ed": "C05", "ff021a3": "C09", "3cbdaa0": "C19", "47d5d3a": "C23",
 "3d7e8de": "C13", "32453f0": "C01", "5ce9c18": "C13", "2c4d76f": "C16", "ef8bb8d": "C08", "3ccef13": "C09",
 "4277e65": "C08", "3907b1d": "C20", "bf1276f": "C20", "2cde6a8": "C20", "c207a21": "C15", "c9996ef": "C15",
 "a673d96": "C12", "94fe025": "C21", "a546143": "C21", "4e590a6": "C21", "2eab77a": "C21", "bbf1346": "C23",
 "b957650": "C23", "d266521": "C03", "9f70978": "C26", "47fe03c": "C12", "b0d3b5f": "C24", "c5fb25d": "C11",
 "46e4293": "C06", "395b8a4": "C20",
}
known = [
 ("C23", "the box of a template of a page other than the first of its source is the first page's box of that name when the two differ (gofpdi, writer.go ImportPage reads page 1's boxes): the page is clipped and scaled by the wrong box"),
 ("C23", "a page imported again by a box that differs from the box of its first import from the same source gives the template of the first import (gofpdi, importer.go ImportPage caches by source and page only)"),
 ("C23", "a page that inherits /Resources from its parent is imported with the parent's dictionary in place of the resources (gofpdi, reader.go getPageResources)"),
]
out = ["# Genuine defects that are recorded, not repaired: the check of the property accepts exactly these deviations.", ""]
for p, t in known:
    out.append(f"KNOWN-FINDING: property={p} {t}")
out += ["", "# Repaired defects (fix commits in /repo); they suppress nothing.", ""]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        p = PROP.get(h[:7], "C23")
        out.append(f"fixed: property={p} {h} {s[4:].strip()}")
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
