#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
VAL = ("exhaustive enumeration of write/read operation sequences over bounded value spaces, "
       "each executed on the real code and compared with an independent reference model")
claims = {}
def claim(i, technique, note, level="model_checking"):
    claims[i] = (technique, note, level)

claim("C01", VAL, "Every message in the enumerated space is written and read by the real code and compared with a reference encoder; trusts the reference encoder and the bounds on depth, size and value alphabets.")
claim("C02", VAL, "As C01, with every legal alternative encoding (long-form ids and sizes) of the enumerated messages; trusts the reference encoder and the bounds.")
claim("C03", VAL, "Every enumerated message is written, its output checked by an independent JSON parser, and read back; strings are Unicode; trusts Go's encoding/json as the judge of JSON syntax.")
claim("C04", VAL, "As C03 with a structural oracle for the simple form; strings are Unicode.")
exec(open(here + '/tools/claims_extra.py').read()) if os.path.exists(here + '/tools/claims_extra.py') else None

na = {}
if os.path.exists(here + '/tools/not_applicable.json'):
    na = json.load(open(here + '/tools/not_applicable.json'))
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in claims:
        t, n, l = claims[i]
        out["checks"].append({"property": i, "quick_cmd": "./check.sh " + i,
                              "thorough_cmd": "./check.sh %s thorough" % i,
                              "evidence_file": "evidence/%s.json" % i,
                              "technique": t, "level": l, "level_note": n})
    else:
        out["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
json.dump(out, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(out["checks"]), "claimed", len(out["not_applicable"]), "not claimed")
