#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: executable-contract oracle over observed states"
T = {
 "C01": (MODEL, "all widths, orders, versions; every position and count on small buffers, long and huge positions sampled"),
 "C02": (MODEL, "bit patterns incl. NaN payloads; every position and count on small buffers"),
 "C03": (MODEL, "two standard and three custom byte orders; unsupported sizes sampled"),
 "C04": (MODEL, "every position and length on small buffers; long and huge positions sampled"),
 "B01": (MODEL, "every bit of small buffers; all invalid bit values sampled"),
 "B02": (MODEL, "every position and width on buffers up to 17 bytes; larger ones sampled"),
 "B03": (MODEL + ", memory around the contents watched", "every size up to 300 bytes, thresholds up to 1 MiB"),
 "N01": ("runtime monitoring: sequential form compared with the positioned form on a twin", "every position and count on small buffers; histories sampled"),
 "N02": (MODEL, "cursor values over the whole int64 range sampled; histories sampled"),
 "S01": (MODEL + ", hostile operands", "edges of buffers and of integer ranges enumerated; histories sampled"),
 "S02": (MODEL + ", refusals compared with a fresh buffer", "edges enumerated; histories sampled"),
 "S03": ("runtime monitoring: twin executions with different surroundings (noninterference); data passed in write-protected", "histories sampled; small grids"),
 "S04": (MODEL, "every position of buffers up to 40 bytes; histories sampled"),
 "L01": (MODEL + ", memory around the slices watched", "all combinations of up to three slices of eight lengths; larger sampled"),
 "L02": (MODEL, "small sizes and amounts enumerated; histories sampled"),
 "L03": (MODEL, "small sizes and amounts enumerated; histories sampled"),
 "L04": (MODEL, "histories sampled"),
 "M01": ("runtime monitoring: repeated execution with different prior destinations", "small grids; histories sampled"),
 "M02": ("runtime monitoring: retained results and windows looked at again after every later operation", "small grids; histories sampled, twelve results retained"),
 "X01": ("runtime monitoring: lock-step differential execution", "all pairs and groups of implementations; histories sampled"),
}
EXTRA = {}
p = os.path.join(HERE, "tools", "manifest_more.json")
if os.path.exists(p):
    EXTRA = json.load(open(p))
checks = []
for pid, (tech, note) in {**T, **{k: tuple(v) for k, v in EXTRA.items()}}.items():
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "technique": tech, "level": "exploration", "level_note": note})
order = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks.sort(key=lambda c: order.index(c["property"]))
have = {c["property"] for c in checks}
na = [{"property": i, "reason": "machinery not built yet"} for i in order if i not in have]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
