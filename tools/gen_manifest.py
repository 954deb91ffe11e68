"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NOTE = {
 "C01": "invariants on every transition of the real simulator", "C02": "volume balance oracle on every transition",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"bash check.sh {pid} quick", thorough_cmd=f"bash check.sh {pid} thorough",
            technique="model checking: bounded-exhaustive explicit-state exploration of the real code, every transition compared with an independent reference model / invariant",
            level="model_checking",
            level_note="complete enumeration of the alphabet and bounds stated in the evidence (coverage.bound); nothing sampled; outside these bounds no claim"))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import torch, numpy, scipy\"", checks=checks,
               hooks=dict(guard="none", enable="no hooks: the machinery drives the unmodified code", source_commits=[]),
               not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
