"""Writes MANIFEST.json for the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E1 = ("online/offline monitor: generated templates are compiled with the real derive macro and run; outputs and evaluation traces are "
      "checked against a reference interpreter")
CHECKS = {
 "C01": ("fuzzing with a monitor", "exploration", "escaper"),
}
NOTE1 = ("Exploration: a violation is a real execution that differs from the reference interpreter. Trusts the interpreter in lib/model.py "
         "(written from the book) and the random generator's reach; sizes are bounded by the generator profile.")
E1S = {
 "C02": "escapers by extension, attribute, configuration; escaping of every expression however it is reached",
 "C03": "literal text and white space control", "C04": "expressions: values and order of evaluation", "C05": "scoping of variables",
 "C06": "if, if let and match", "C07": "loops", "C08": "macros and calls", "C09": "inheritance, blocks, super, block fragments",
 "C10": "include/extends/import resolution and rendering", "C14": "filter blocks", "C15": "every channel of output, with targets that fail at every point", "C16": "failures injected everywhere: outcome, kind of error, evaluations", "C21": "custom delimiters",
}
OTHER = json.load(open(os.path.join(V, "tools", "checks.json")))
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        continue
    if p in E1S:
        tech, level, note = E1 + " (" + E1S[p] + ")", "exploration", NOTE1
        if p in OTHER:
            note += " " + OTHER[p].get("note", "")
    else:
        o = OTHER[p]
        tech, level, note = o["technique"], o.get("level", "exploration"), o["note"]
    cmd = f"python3 checks/{p.lower()}.py"
    out.append({"property": p, "quick_cmd": cmd, "thorough_cmd": f"VERIF_TIER=thorough {cmd}", "technique": tech, "level": level, "level_note": note})
na = OTHER.get("not_applicable", [])
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": out, "not_applicable": na,
     "notes": "All checks share lib/; they build /repo's crates into /verif/build and need no hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
