"""Writes /verif/MANIFEST.json from vt/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vt"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(checks, "NOT_APPLICABLE", {})
SAN = {"asan": "AddressSanitizer+UndefinedBehaviorSanitizer", "tsan": "ThreadSanitizer"}
out = {"version": 1, "setup_cmd": "python3 vt/build.py asan h_ser && python3 vt/build.py tsan", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if not c:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    vs = sorted(set(j["variant"] for j in c["jobs"]))
    out["checks"].append({
        "property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --tier thorough" % i,
        "technique": "runtime monitoring: %s builds driven by seeded random workloads; %s" % (
            " and ".join(SAN[v] for v in vs), c.get("oracle", "behaviour compared online with an independent reference model")),
        "level": "exploration",
        "level_note": "Held on the executions listed in the evidence file, nothing more; trusts the reference model in /verif/harness, "
                      "the compiler's sanitizers and EPICS Base." + c.get("note", "")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks;", len(out["not_applicable"]), "not claimed")
