"""Writes MANIFEST.json from vlib/props.py and properties.jsonl (run by hand)."""
import json, sys
sys.path[:0] = ["/verif", "/verif/gen"]
sys.dont_write_bytecode = True
from vlib.props import PROPS
ids = [json.loads(x)["id"] for x in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "One check per property: check.py ID [quick|thorough]. Every check explores its TLA+ "
              "specification with TLC and binds it to the code of /repo by trace validation and/or "
              "replay of the enumerated behaviours. See DESIGN.md. No hooks in /repo."}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick",
                            "thorough_cmd": f"python3 check.py {i} thorough",
                            "technique": PROPS[i]["technique"], "level": "model_checking",
                            "level_note": PROPS[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its specification and conformance check are not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
