import json, sys
sys.path.insert(0, "/verif/specs")
import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T = "contract-based deductive verification: function contracts and loop invariants over the LLVM IR of /repo's sources, obligations discharged by z3/cvc5"
B = "; bounded native execution of the executable contracts (address sanitizer) stands in for the functions outside the verifier's reach and searches failing inputs"
checks, na = [], []
for i in ids:
    c = props.PROPS.get(i)
    if c is None or not c.get("harness") and not c.get("specs"):
        na.append({"property": i, "reason": (c or {}).get("reason", "check not built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                   "technique": c.get("technique", T + B), "level": c.get("level", "proof"), "level_note": c.get("note", "see DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
