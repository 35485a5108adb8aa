#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
M = "runtime monitoring: "
T = {
    "C18": M + "relational monitor over pairs of executions (refined operands, 2-/4-state, native/wide), UBSan build",
    "C19": M + "every suite under clang ASan+UBSan -O0 and under valgrind memcheck, with a progress watchdog",
    "C20": M + "ThreadSanitizer (happens-before) plus per-thread results compared with a sequential run",
    "C21": M + "state monitor over all live values around each call; order-independence of outcomes",
    "C22": M + "generated random programs, all variables compared with the reference model after every statement, ASan+UBSan build",
}
NOTE = {
    "C18": "Exploration: relations hold on every pair of executions made; no reference model is trusted.",
    "C19": "Exploration: no sanitizer report, undefined result storage, crash or hang on any executed operation; trusts the detection power of ASan, UBSan and memcheck.",
    "C20": "Exploration: TSan reports any unordered conflicting access pair that was executed, independent of the interleaving; code paths not executed concurrently are not covered.",
    "C21": "Exploration: every live value is compared before and after each executed call.",
}
D = M + "every executed operation's result compared online with an independent four-state reference model, %s build"
checks = []
for line in open(os.path.join(HERE, "..", "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in CHECKS:
        continue
    san = "ASan+UBSan" if any(l["san"] == "asan" for l in CHECKS[p]["legs"]) else "UBSan"
    checks.append({
        "property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": T.get(p, D % san), "level": "exploration",
        "level_note": NOTE.get(p, "Exploration: exhaustive over operand states for small types, boundary-biased random beyond; assumes the reference model (harness/model.cc) states the property and covers only the instantiated type combinations.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
