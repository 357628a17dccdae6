"""Writes MANIFEST.json: the checks registered in check.py, the rest of the properties as not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import check
reg = check.load()
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Exploration: the property held on every generated case of the run (counts and distribution in the evidence file); "
        "it does not establish absence. Trusts gcc/clang, the sanitizers and the reference model in /verif/vlib.")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    if p in reg:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "technique": reg[p].get("technique", "property-based testing: generated headers and operation histories against a reference model, with shrinking"),
                            "level": "exploration", "level_note": reg[p].get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
