#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds/caught.txt (seedcheck.sh's output)."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], " ".join(d["needs"].split())))
t = "| planted bug | caught by | needs |\n|----|----|----|\n" + "\n".join(rows) + "\n"
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*(<!-- /seeds -->)", lambda m: m[1] + t + m[2], s, flags=re.S)
import subprocess
l = subprocess.run([here + "/check", "list"], capture_output=True, text=True, check=True).stdout
rows = []
for ln in l.splitlines():
    m = re.match(r"(\S+) \[([^\]]*)\] (.*)", ln)
    if m:
        rows.append("| %s | %s | %s |" % (m[1], ", ".join(m[2].split()), m[3].replace("|", "\\|")))
t = "| scenario | judged for | what |\n|----|----|----|\n" + "\n".join(rows) + "\n"
s = re.sub(r"(<!-- scenarios -->\n).*(<!-- /scenarios -->)", lambda m: m[1] + t + m[2], s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "planted bugs")
