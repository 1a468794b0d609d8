#!/usr/bin/env python3
"""Writes MANIFEST.json from config.PROPERTIES."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import config
NOTE = {
 "C01": "Sampled sizes up to 128, all block sizes, five scheduling policies with generated seeds on the controlled runtime stand-in, under ASan/UBSan. No proof: unexplored sizes and schedules remain.",
 "C02": "As C01, with 1 to 9 localities and generated distribution parameters.",
 "C03": "Model-based check of the returned schedule for sampled N, up to 16 localities and parameters; complete oracle (cover, splits, stop reason).",
 "C04": "Sampled sizes and blockings against an exact or error-bounded reference; memory errors by ASan/UBSan; loop chunkings and orders by the stand-in.",
 "C05": "Sizes around all block boundaries up to 900; larger ones are not reached.",
 "C06": "Exact comparison for integer contents and types, error bound for reals; thread counts 1 to 8 with real OpenMP.",
 "C07": "Every block position of small matrices, guard zones around buffers, ASan.",
 "C08": "Shapes of 1 to 5 dimensions up to some thousand elements; exact oracle.",
 "C09": "As C08, with generated access histories against a model array.",
 "C10": "Exact enumeration oracle over generated bounds; parallel work items identified by the stand-in.",
 "C11": "Real code with the shipped flags and real OpenMP; sizes up to 512.",
 "C12": "Runs of the real main program on the stand-in; output parsed at full precision.",
 "C13": "ThreadSanitizer (happens-before) on real threads: a race between accesses that both execute in a run is found almost independently of timing; code not executed is not seen.",
 "C14": "Exact oracle over generated shapes.",
 "C15": "Stateful model with recorded allocation and chosen placement of the backing storage, under ASan.",
 "C16": "Generated messages and lifetimes under ASan; all tiling-description lengths 0 to 8.",
 "C17": "Single faults injected at generated places by the stand-in; verdict compared with the true error.",
 "C18": "Real benchmark program with recording stand-ins for the variants; every documented name and generated other names.",
}
checks = []
for pid in sorted(config.PROPERTIES):
    p = config.PROPERTIES[pid]
    checks.append(dict(property=pid, quick_cmd="VERIF_TIER=quick python3 check.py " + pid,
        thorough_cmd="VERIF_TIER=thorough python3 check.py " + pid, evidence_file="evidence/%s.json" % pid,
        technique=config.TECHNIQUE.get(pid, "property-based testing (rapidcheck) against a reference model"),
        level=p["level"], level_note=NOTE[pid]))
claimed = set(config.PROPERTIES)
na = [dict(property=json.loads(l)["id"], reason="check not built yet") for l in open(os.path.join(here, "..", "properties.jsonl")) if json.loads(l)["id"] not in claimed]
doc = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: HPX, Vc and (for C13) OpenMP are replaced at compile time by stand-ins under shim/ and harness/. /repo carries 'fix:' commits, listed in known-findings.txt.")
out = os.path.join(here, "..", "MANIFEST.json")
json.dump(doc, open(out, "w"), indent=1)
open(out, "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(doc, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
