#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present (checks/cNN.py) and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = "the real code, built from /repo with ASan, UBSan and libstdc++ assertions, "
NOTES = {
 "C01": ("differential monitoring against a reference model of scopes, sanitized build", "random and small-exhaustive definition histories; scopes properly nested"),
 "C02": ("differential monitoring against a reference model of types, sanitized build", "random histories with duplicates, overloads, aliases"),
 "C03": ("differential monitoring: results compared with enumeration of all derivations, sanitized build", "random graphs up to 7 dense or 60 sparse types; weights exact in binary"),
 "C04": ("differential monitoring: results compared with enumeration of all contexts, sanitized build", "random graphs up to 6 types"),
 "C05": ("differential monitoring against a reference model of reductions, sanitized build", "random histories with valid, duplicate and invalid definitions"),
 "C06": ("differential monitoring of dumped trees against the definitions made, sanitized build", "random histories in nested scopes"),
}
try:
    import manifest_notes
    NOTES.update(manifest_notes.NOTES)
except ImportError:
    pass
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())) and i in NOTES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": NOTES[i][0], "level": "exploration",
                       "level_note": "Runs " + SAN + "on generated workloads with an independent oracle: " + NOTES[i][1] + ". Nothing beyond the executions observed is proved."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: all checks observe the public Lua API and the generator program."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not yet")
