#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
mk = open("checks.mk").read()
def members(v):
    m = re.search(r"^%s\s*:?=(.*)$" % v, mk, re.M)
    return m.group(1).split()
MC, AS = members("MC_CHECKS"), members("ASAN_CHECKS")
props = [json.loads(l) for l in open("properties.jsonl")]
T_MC = "stateless model checking of the implementation: exhaustive schedules (preemption bound, happens-before state caching) under a controlled scheduler"
T_SEQ = "exhaustive bounded enumeration of operation sequences and inputs on the implementation, against a reference model"
checks, na = [], []
NOTES = json.load(open("tools/notes.json")) if os.path.exists("tools/notes.json") else {}
for p in props:
    i = p["id"]
    t = [x for x, l in ((T_MC, MC), (T_SEQ, AS)) if i in l]
    if not t:
        na.append({"property": i, "reason": NOTES.get(i, "no check has been built for it yet")})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "; ".join(t), "level": "model_checking",
                   "level_note": NOTES.get(i, "Every execution within the stated bounds is run on the real code; see evidence for the bounds completed.")})
json.dump({"version": 1, "setup_cmd": "./setup", "hooks": {"guard": "LIBCOSIM_VERIF", "enable": "no hooks are needed; the sources are compiled as they are (with -DLIBCOSIM_VERIF=1, which nothing tests)", "source_commits": []},
           "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
