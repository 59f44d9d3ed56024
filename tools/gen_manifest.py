"""writes MANIFEST.json (and, with --baseline, baseline.json from the evidence files of the unchanged tree)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "contracts on the compiled functions (LLVM IR of /repo's sources), every obligation discharged by a deductive verifier (vc/: z3 for integers/memory, exact normal forms for floating point), loops by inductive invariants; failures replayed on the real code"
NA = {}
exec(open(V + "/tools/not_applicable.py").read(), globals())
NOTE = {}
checks = []
na = []
for p in props:
    pid = p["id"]
    f = f"{V}/props/{pid.lower()}.py"
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "no contract built yet"})
        continue
    import importlib
    P = importlib.import_module("props." + pid.lower())
    note = "Proved function by function for all inputs within the stated preconditions; " + "; ".join(getattr(P, "ASSUMPTIONS", []))
    if getattr(P, "NOTE", ""):
        note += ". " + P.NOTE
    checks.append({"property": pid, "quick_cmd": f"python3-vt check.py {pid}", "thorough_cmd": f"python3-vt check.py {pid} --thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": getattr(P, "TECHNIQUE", TECH),
                   "level": getattr(P, "LEVEL", "proof"), "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, mpmath, sympy'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: entry points are extern \"C\" wrappers in /verif/harness that include /repo's headers and sources. /repo carries only fix: commits (known_findings.json)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
if "--baseline" in sys.argv:
    b = {}
    for c in checks:
        e = json.load(open(f"{V}/{c['evidence_file']}"))
        b[c["property"]] = sorted(x["name"] for x in e["coverage"]["contracts"] if x["status"] == "proved" and ":" not in x["name"].split("/")[0][:4])
    json.dump(b, open(V + "/baseline.json", "w"), indent=0)
print(len(checks), "checks;", len(na), "not applicable")
