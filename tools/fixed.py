""" Append a fixed finding: fixed.py PROPERTY COMMIT TEXT. """
import json
import sys

prop, commit, what = sys.argv[1:]
entry = dict(property=prop, status="fixed", commit=commit, what=what, line=f"fixed: property={prop} {commit} {what}")
with open("/verif/known_findings.jsonl", "a") as handle:
    handle.write(json.dumps(entry) + "\n")
