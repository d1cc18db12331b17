"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        na.append({"property": p, "reason": "no check committed yet"})
        continue
    m = importlib.import_module("checks." + p.lower())
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --quick" % p, "thorough_cmd": "python3-vt check.py %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": getattr(m, "TECHNIQUE", "property-based testing against a reference model"),
                   "level": "exploration", "level_note": m.LEVEL_NOTE if hasattr(m, "LEVEL_NOTE") else m.RULE})
json.dump({"version": 1, "setup_cmd": "python3-vt lib/build.py", "checks": checks, "not_applicable": na,
           "notes": "Checks build /repo's sources with AddressSanitizer and UBSan into build/ and drive them over a pipe; see DESIGN.md. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
