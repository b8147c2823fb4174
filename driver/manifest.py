"""Regenerate MANIFEST.json from driver/props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from driver import props  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    fn, level = props.PROPS[i][:2]
    technique, note = props.NOTES[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": technique, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "not built yet"} for i in ids if i not in props.PROPS],
     "notes": "TLA+ checked with TLC. No hooks in /repo: exports for the harness come in through a go build overlay."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
