"""Writes /verif/MANIFEST.json from properties.jsonl and catalog.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
NA = {p["id"]: "A pure function of its input: no schedule, clock, I/O, allocation failure or second party enters its truth, so there is nothing for a "
      "simulator to decide; sampling inputs would be property-based testing under another name." for p in props if int(p["id"][1:]) >= 30}
m = {"version": 1, "setup_cmd": "python3 check.py --version", "checks": [], "not_applicable": [],
     "notes": "One seed is one exactly repeatable set of runs; check.py ID --determinism proves it, check.py ID --replay FILE replays a violation. No hooks in /repo: every seam is below the source (link-time interposition and compiler instrumentation)."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --thorough", "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + c.get("oracle", "against a reference model"),
                            "level": "exploration", "level_note": c.get("note", "Samples simulated runs; a clean batch is evidence, not proof.") + " Assumes: " + " ".join(c["assume"])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
