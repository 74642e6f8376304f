#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md."""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % i))
    rows.append((m["property"], i, m["needs"].replace("|", "/")))
t = "| property | change | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
f = here + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"(SEEDTABLE\n|\| property \| change \|.*)\Z", lambda _: t, s, flags=re.S)
open(f, "w").write(s)
