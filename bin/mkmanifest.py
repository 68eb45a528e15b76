#!/usr/bin/env python3
# Generates MANIFEST.json from the checks present in lib/checks and properties.jsonl.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/bin/levelnotes.py").read(), NOTE)
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/lib/checks/%s.py" % i.lower()):
        lvl, note = NOTE["NOTES"][i]
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification checked with TLC; traces recorded from the real code validated against it (conformance)",
            level=lvl, level_note=note))
    else: na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="none", enable="no hooks: the harnesses in /verif/harness link /repo's sources and use public interfaces only", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. Checks exit 0 (held), 1 (VIOLATION line) or 2 (the check itself failed)."), open(V + "/MANIFEST.json", "w"), indent=1)
