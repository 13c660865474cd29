#!/usr/bin/env python3
"""Writes MANIFEST.json from suites.py: every registered suite is a claimed check."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from suites import SUITES, MODES

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = SUITES.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": "no monitor yet (work in progress)"})
        continue
    builds = sorted({x["mode"] for x in s["parts"]})
    py = builds == ["py"]
    note = ("The real Python package on the real extension module (all of /repo's native code, AddressSanitizer + UBSan), judged by references in numpy which share no code "
            "with it; inputs outside of the explored random distributions are not covered. Trusts the reference, numpy and scipy, the compilers, and the stand-in for the "
            "missing pybind11 (shim/pybind11). Builds: py.") if py else \
        ("Every execution explored is judged entry by entry against the reference in harness/ref.hpp (no library code shared); "
         "inputs outside of the explored random distributions are not covered. Trusts the reference, Eigen and the compilers. Builds: " + ", ".join(builds) + ".")
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": s.get("technique", "runtime monitoring: random workloads against an independent reference oracle, under ASan+UBSan"),
        "level": "exploration",
        "level_note": s.get("note", note),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: everything is observed through public interfaces, callbacks and compiler instrumentation."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
