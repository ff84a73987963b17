""" Writes DESIGN.md: hand-written parts, the properties, the findings and the planted bugs. """
import glob

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from pbt.core import load_property  # noqa

def read(name):
    with open(os.path.join(VERIF, name)) as handle:
        return handle.read()

def wrap(text, indent=""):
    import textwrap

    return textwrap.fill(text, 118, initial_indent=indent, subsequent_indent=indent.replace("*", " "))

parts = [read("tools/design_head.md")]
for line in read("properties.jsonl").splitlines():
    prop = json.loads(line)
    module = load_property(prop["id"])
    parts.append(f"### {prop['id']}: {prop['title']}\n\n")
    for title, text in [
        ("Property", prop["statement"]), ("Quantified over", prop["quantifier"]["text"]),
        ("Generated", module.RULE), ("Oracle and bounds", module.NOTE), ("Beyond the tests", prop["why_tests_cant"]),
    ]:
        parts.append(wrap(f"{title}: {text}", "* ") + "\n")
    counts = ", ".join(
        f"{s.name} {s.counts['quick']}/{s.counts['thorough']} ({s.profile})" for s in module.SUBS if s.counts["quick"]
    )
    parts.append(wrap(f"Cases quick/thorough (profile): {counts}", "* ") + "\n\n")
parts.append("## Defects found\n\n")
fixed, still = [], []
for line in read("known_findings.jsonl").splitlines():
    entry = json.loads(line)
    (fixed if entry["status"] == "fixed" else still).append(entry)
parts.append(
    "All in `known_findings.jsonl`. Open (the repair is not small: the checker commits to the first cut or member\n"
    "which can be solved by itself, and would have to search; the last is in Python's own inspect module):\n\n"
)
parts += [wrap(f"{e['property']}: {e['what']}", "* ") + "\n" for e in still]
parts.append("\nRepaired by `fix:` commits:\n\n")
parts += [wrap(f"{e['property']} {e['commit']}: {e['what']}", "* ") + "\n" for e in fixed]
parts.append("\n" + read("tools/design_tail.md"))
results = {}
if os.path.isfile(os.path.join(VERIF, "tools/plant_results.json")):
    results = json.loads(read("tools/plant_results.json"))
parts.append("| planted bug | what it breaks | verdict of the quick check |\n|---|---|---|\n")
for path in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    meta = json.load(open(path))
    ident = os.path.basename(os.path.dirname(path))
    result = results.get(ident, {})
    verdict = result.get("verdict", "not run yet")
    if result.get("missed_first"):
        verdict += " (missed first)"
    parts.append(f"| {ident} | {meta['what_it_breaks'].replace('|', '/')} | {meta['property']}: {verdict} |\n")
with open(os.path.join(VERIF, "DESIGN.md"), "w") as handle:
    handle.write("".join(parts))
print(len("".join(parts).splitlines()), "lines")
