#!/usr/bin/env python3
"""Writes MANIFEST.json from simconfig.PROPS and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from simconfig import PROPS, NOT_APPLICABLE, LEVEL_NOTES

TECH = "deterministic simulation with fault injection (seeded schedules and faults on the real code, replayable plans)"
DEFAULT = ("Seeded search: shows the property on every simulated history of the run (see evidence), not on all histories. "
           "Trusts the oracle in /verif/sim and the compilers.")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if p in PROPS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                           technique=PROPS[p].get("technique", TECH), level=PROPS[p].get("level", "exploration"),
                           level_note=LEVEL_NOTES.get(p, "") + (" " if p in LEVEL_NOTES else "") + DEFAULT))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "machinery not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="SIMU_DST_BLOCK_SIZE", enable="-DSIMU_DST_BLOCK_SIZE=1 when the checks compile /repo's sources for the memory-checked (ASAN) simulations",
                    source_commits=["37cabd9"]),
         checks=checks, not_applicable=na,
         notes="fix: commits in /repo are listed in known_findings.txt. DESIGN.md describes every check.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
