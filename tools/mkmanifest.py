#!/usr/bin/env python3
"""Write MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry
V = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        c = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                           technique=c.get("technique", registry.TECHNIQUE), level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=registry.NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the harnesses are appended to an extracted copy of the source on every run (tools/overlay.py)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
