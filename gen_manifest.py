#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (lib/p_cXX.py) and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
TECH = {
 "default": "symbolic execution of the compiled LLVM IR of the real functions; each assertion decided by Z3; counterexamples replayed on a native build",
 "C05": "symbolic (proxy-string) execution of the real Python functions; each branch and assertion decided by Z3; counterexamples replayed on the unmodified module",
 "C06": "symbolic (proxy-string) execution of the real Python functions; each branch and assertion decided by Z3; counterexamples replayed on the unmodified module",
 "C18": "symbolic (proxy-string) execution of the real Python functions; each branch and assertion decided by Z3; counterexamples replayed on the unmodified module",
 "C08": "symbolic execution of the real StagingBuffer code over all interleavings within a preemption bound, sizes and positions symbolic (Z3); schedules replayed natively",
 "C14": "symbolic execution of the real RuntimeLogger, its background thread and log calls over all interleavings within a preemption bound (Z3); schedules replayed natively",
}
NOTE = {"default": "bounded: every input within the bounds stated in the evidence file, decided by the SMT solver over the IR regenerated from /repo on each run; nothing is claimed beyond the bounds"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "lib", "p_%s.py" % i.lower())) and i not in NA:
        checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="VERIF_TIER=thorough ./check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH.get(i, TECH["default"]), level="model_checking", level_note=NOTE.get(i, NOTE["default"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="make -C engine", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
