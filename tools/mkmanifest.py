#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from propinfo.py."""
import json, os
from propinfo import INFO, TECH, TECH_DEFAULT
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(INFO):
    i = INFO[p]
    checks.append({
        "property": p,
        "quick_cmd": "./check %s quick" % p,
        "thorough_cmd": "./check %s thorough" % p,
        "technique": TECH.get(p, TECH_DEFAULT),
        "level": "model_checking",
        "level_note": ("Every execution within the bounds was performed by the code of /repo and judged; outside them nothing is claimed. Oracle: "
                       + i["oracle"] + ". Trusted: the explorer and its reference, rustc, the bounds listed in the evidence."),
    })
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "hooks": {
        "guard": "cfg(babs_mc)",
        "enable": "RUSTFLAGS='--cfg babs_mc' with BABS_MC_{KARATSUBA,TOOM3,BZ,TO_DEC_DIV}_CUTOFF in the environment of the build; only the builds named thresholds-* use them",
        "source_commits": ["655c163", "849c59e"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Thorough tiers: ./check Cnn thorough. Replay of a violation: ./replay FILE. Findings: known-findings.txt. Design and bounds: DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
