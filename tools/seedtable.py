#!/usr/bin/env python3
"""print the table of planted bugs for DESIGN.md"""
import json, glob, os
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    print("| `%s` | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/"), m["property"]))
