"""Writes /verif/MANIFEST.json from dst/meta.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.meta import META
NA = {
 "C19": "a pure function of its input: no draw, schedule, clock, fault, I/O or history can change its value, so simulation would only dress up input generation",
 "C20": "a pure function of an in-memory line list; the I/O around it (reading the list) is decided by C10",
 "C22": "a numerical property of one deterministic solver call; what a failing solver does to callers is decided by C01, C07, C14 and C17",
 "C23": "a pure function of the candidate sets; the search over the candidates is decided by C01-C03",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META:
        m = META[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: " + m.get("technique", "seeded search over schedules and fault sequences"),
            "level": "exploration",
            "level_note": "Seeded sampling of simulated runs (%d quick, %d thorough), not enumeration or proof. Real: %s. Simulated: %s. Violations are minimised and replayed in a fresh process before they are reported." % (m["runs"]["quick"], m["runs"]["thorough"], m["real"], m["stub"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": na,
 "notes": "All seams are installed from outside (module attributes patched before rascal is imported), so /repo carries no hooks; the fix: commits in /repo are repairs of defects listed in known_findings.json.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
