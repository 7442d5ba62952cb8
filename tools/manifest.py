#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "TLA+ specification (TLC): enumerated behaviours replayed on the code, recorded executions judged as traces"
SN = ("Every script of the listed families is enumerated by TLC from the specification and replayed on the real code under ASan/UBSan; "
      "recorded executions of random scripts and arguments are accepted or rejected by TLC. Bounded by the families and the number of traces; "
      "trusts the specification, TLC and the harness that builds the arguments.")
HN = ("All histories up to a bounded depth are enumerated by TLC and replayed operation by operation on the real code under ASan/UBSan, the whole "
      "observable state being compared after every operation; longer random histories are recorded and judged by TLC. Bounded by depth and value domain; "
      "trusts the specification, TLC and the harness.")
FN = ("The whole finite domain (or bounded inputs) is evaluated by TLC from the specification and compared with the real code; random recorded calls are "
      "judged by TLC. Bounded as DESIGN.md says; trusts the specification, TLC and the harness.")
SCRIPTS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C20", "C21", "C23", "C24"]
HIST = ["C12", "C13", "C15", "C16", "C17", "C18", "C19", "C22"]
FUN = ["C14"]
import sys
sys.path.insert(0, V)
import run
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    if p not in run.CHECKS:
        na.append({"property": p, "reason": "its specification module is not finished yet"})
        continue
    checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": SCR, "level": "model_checking",
                   "level_note": SN if p in SCRIPTS else HN if p in HIST else FN})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the public interface shows the whole abstract state."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
