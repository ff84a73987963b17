""" Writes MANIFEST.json from properties.jsonl and the property modules which exist. """
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
checks, missing = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    prop = json.loads(line)["id"]
    if not os.path.isfile(os.path.join(VERIF, "pbt", "props", prop.lower() + ".py")):
        missing.append(dict(property=prop, reason="No check has been built for it yet."))
        continue
    module = importlib.import_module("pbt.props." + prop.lower())
    checks.append(dict(
        property=prop,
        quick_cmd=f"./check {prop} quick",
        thorough_cmd=f"./check {prop} thorough",
        evidence_file=f"evidence/{prop}.json",
        technique=getattr(module, "TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
        level="exploration",
        level_note=module.NOTE,
    ))
manifest = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=checks,
    not_applicable=missing,
    notes="No hooks in /repo are needed: the checks use the public API only. See DESIGN.md. "
    "./check --replay FILE re-runs a failing case without Hypothesis.",
)
json.dump(manifest, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(missing), "missing")
