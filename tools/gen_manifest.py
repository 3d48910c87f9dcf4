#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "runtime monitoring: the real code built with AddressSanitizer and UBSan, driven by generated workloads, judged by an independent oracle"
TECH_T = "runtime monitoring: the real code built with ThreadSanitizer, driven by concurrent workloads with injected delays, judged by race detector and result oracle"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        cfg = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": cfg.get("technique", TECH_T if cfg.get("flavour") == "tsan" else TECH),
                       "level": "exploration", "level_note": cfg.get("note", "every generated execution is judged online; inputs and histories are sampled, not enumerated")})
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "MLPP_VP_HOOKS", "enable": "run.py compiles /repo's sources with -DMLPP_VP_HOOKS"},
     "notes": "Hooks are read/write accessors for parameters that no public call exposes; nothing else is guarded."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
