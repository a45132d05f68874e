#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | what it needs |\n|---|---|---|")
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    also = {"x01-v2-alignbit-shift": ", N02"}.get(i, "")
    print("| %s | %s%s | %s |" % (i, m["property"], also, m["needs"]))
