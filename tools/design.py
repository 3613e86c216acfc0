#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.md.in, the spaces found in mc/ and the planted bugs in seeded/."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ""
for f in sorted(glob.glob(os.path.join(HERE, "mc/c[0-9]*.cpp"))):
    for m in re.finditer(r'^SPACE(_THOROUGH)?\((C\d+), (\w+), "((?:[^"\\]|\\.)*)"\)', open(f).read(), re.M):
        out += "* **%s %s**%s: %s\n" % (m.group(2), m.group(3), " (thorough only)" if m.group(1) else "", m.group(4))
bugs = "| planted bug | needs | caught by |\n|---|---|---|\n"
caught = json.load(open(os.path.join(HERE, "tools/caught.json")))
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    bugs += "| %s | %s | %s |\n" % (d, m["needs"], caught.get(d, "?"))
s = open(os.path.join(HERE, "tools/DESIGN.md.in")).read()
open(os.path.join(HERE, "DESIGN.md"), "w").write(s.replace("@SPACES@", out).replace("@BUGS@", bugs))
