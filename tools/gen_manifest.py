"""Write MANIFEST.json from the check modules that exist."""
import ast, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
TECH = "deterministic simulation with fault injection: "
def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try: out[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    return out
checks = []
for p in sorted(glob.glob(V + "/checks/c[0-9][0-9].py")):
    c = consts(p); i = c["ID"]
    checks.append(dict(property=i, quick_cmd=f"./run.sh check {i} --tier quick", thorough_cmd=f"./run.sh check {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                       technique=TECH + c["TECH"], level=c.get("LEVEL", "exploration"), level_note=c["NOTE"]))
claimed = {c["property"] for c in checks}
NA = {
 "C19": "A pure function of its arguments: no schedule, clock, I/O, randomness, fault or state for a simulator to control, so deterministic simulation cannot decide it (C12 simulates the stateful evaluators around these formulas).",
 "C20": "A pure algebraic relation between two inputs of one call: nothing nondeterministic or fault-prone to simulate.",
 "C21": "Pure functions of one in-memory input: no schedule, I/O, randomness or fault surface to simulate.",
 "C22": "Pure conversions of in-memory lists: no schedule, I/O, randomness or fault surface to simulate.",
}
na = [dict(property=i, reason=NA.get(i, "Check under construction.")) for i in props if i not in claimed]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Every check runs the real code of /repo's working tree in one process under the simulator in dst/. No hook in /repo is needed: all seams are Python-level and installed by the harness. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
