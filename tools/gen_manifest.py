#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = {
 "C01": "Random whole aggregations against plain integer addition.",
 "C02": "Metamorphic runs on scripted randomness plus chi-squared range tests.",
 "C03": "Statistical tests of the noise of hundreds of bins per case.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    c = p["id"]
    if os.path.exists(os.path.join(V, "checks", c.lower() + ".py")):
        checks.append({
            "property": c,
            "quick_cmd": "python3-vt check.py %s" % c,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % c,
            "technique": "property-based testing (hypothesis) of the real code in a Jython worker against a reference model",
            "level": "exploration",
            "level_note": "Generated-input search, no proof of absence; trusts the reference model in checks/%s.py and the "
                          "stand-ins in jy/ (virtual clock, seeded os.urandom, in-memory network, cryptography and pyasn "
                          "replacements)." % c.lower()})
    else:
        na.append({"property": c, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the harness replaces clock, randomness, network and reactor from outside."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
