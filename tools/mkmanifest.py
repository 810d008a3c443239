"""Writes MANIFEST.json from the claims below."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECNOTE = ("Decides whether every function that carries the property still computes the reviewed input/output relation "
            "(results, error paths, consumed input and final state, for all inputs), by abstract interpretation of rustc's MIR into canonical gated values. "
            "Trusts rustc's MIR, the hand-written models of std/bytes/itertools/uuid calls, and the human review of the specification in spec/units. "
            "Panics and termination are P01/P02's business, arithmetic is exact modulo the type's width, floats are uninterpreted.")
CLAIMS = {}
def claim(pid, tech, note):
    CLAIMS[pid] = (tech, note)
SPECT = "abstract interpretation of MIR to canonical gated summaries, compared with reviewed specification"
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
NA = {}
exec(open(os.path.join(HERE, "tools", "not_applicable.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in ids:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 onx/check.py " + p, "thorough_cmd": "python3 onx/check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 onx/extract.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in ids if p not in CLAIMS],
     "notes": "No hooks in /repo. Every check re-extracts MIR of /repo's working tree with the rustc driver under driver/. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in m["not_applicable"]], "not applicable")
