#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import plans
NOTES = getattr(plans, "NOTES", {})
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in plans.PLANS:
        t, n = NOTES.get(p, (
            "TLA+ monitor of recorded histories (TLC), controlled schedules of the real code",
            "Every history recorded from the real code under controlled schedules is judged by TLC with the property's "
            "TLA+ operator. Sampled schedules and scenarios; trusts the instrumentation's scheduling points."))
        checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=p, reason=getattr(plans, "NA", {}).get(p, "check still being built")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks in /repo: the compiled classes are instrumented in a scratch directory."),
          open(V + "/MANIFEST.json", "w"), indent=1)
