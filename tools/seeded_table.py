#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md."""
import json, glob, os, collections, re
t = collections.defaultdict(list)
for m in sorted(glob.glob('seeded/*/meta.json')):
    t[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
rows = "| property | planted bugs caught |\n|---|---|\n" + "\n".join("| %s | %s |" % (k, ", ".join(v)) for k, v in sorted(t.items()))
s = open('DESIGN.md').read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + rows + "\n<!-- /seeded -->", s, flags=re.S)
open('DESIGN.md', 'w').write(s)
