"""Writes MANIFEST.json from the check modules (run: PYTHONPATH=/verif:/repo /opt/venv/bin/python tools/mkmanifest.py)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/mc/%s.py" % (V, i.lower())):
        m = importlib.import_module("mc." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(m, "TECHNIQUE", "bounded exhaustive enumeration of histories against an explicit-state reference model, each replayed on the real code"),
            "level": m.LEVEL,
            "level_note": "Quick: %s. Assumes: %s" % (m.BOUNDS["quick"], "; ".join(m.ASSUMPTIONS) or "nothing beyond the model"),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: checks drive the public API and replace multiprocessing.Pool from outside."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
