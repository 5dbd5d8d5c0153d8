#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PERMANENT = {
    "C37": "No GPU, CUDA or HIP toolchain exists in this sandbox: the device code can be neither compiled nor executed, so there is no execution to monitor.",
    "C38": "No HDF5 library or headers exist in this sandbox: the file I/O code can be neither compiled nor executed, so there is no execution to monitor.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s --tier quick" % i,
            "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": s.get("technique", "runtime monitoring: the real code under seeded workloads, ASan/UBSan, reference oracle"),
            "level": "exploration",
            "level_note": s.get("level_note", "Holds on every execution that was generated and observed (counts in the evidence file); "
                                "inputs outside the generated classes are not covered. Trusts the compiler, sanitizers, MPI and BLAS installed here.")})
    else:
        na.append({"property": i, "reason": PERMANENT.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile run_check.py specs.py && mpicxx --showme:version",
           "checks": checks, "not_applicable": na,
           "notes": "Every check compiles /repo's current sources itself; nothing is cached between runs."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
