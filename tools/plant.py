#!/opt/venv/bin/python
"""Plant a bug: turn a description into seeded/<id>/, after confirming all of it.

    tools/plant.py FILE...      each FILE defines ID, PROPERTY, EDITS, DEMO,
                                NEEDS, BREAKS (see below); keeps it only when
                                it builds, passes the stable tests, and the demo
                                tells the two trees apart
    tools/plant.py --check [ID...]   run the property's check against each kept
                                bug (scratch copies, in parallel)

EDITS is a list of (file, old text, new text); old must occur exactly once.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", TF_CPP_MIN_LOG_LEVEL="3",
    TF_ENABLE_ONEDNN_OPTS="0", CUDA_VISIBLE_DEVICES="-1",
)
for _k in ("ASTARC", "ASTA_TYPECHECK", "PYTHONPATH", "PYTEST_ADDOPTS"):
    ENV.pop(_k, None)
DEMO_SH = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw.pop("env", {})),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(where):
    tree = os.path.join(where, "repo")
    os.makedirs(tree)
    tar = subprocess.run(["git", "-C", "/repo", "archive", "HEAD"], stdout=subprocess.PIPE, check=True)
    subprocess.run(["tar", "-x", "-C", tree], input=tar.stdout, check=True)
    return tree


def tests(tree, where):
    out = os.path.join(where, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
        "--continue-on-collection-errors", "--hypothesis-profile=ci", "--tb=short",
        "--ignore=asta/tests/test_tensor.py", "--ignore=asta/tests/test_decorator.py",
        "--ignore=asta/tests/rl", "-o", "junit_family=xunit2", "--junitxml=" + out, "asta/tests"],
       tree, env={"PYTHONPATH": tree, "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(where, "hyp")})
    passed = set()
    for case in ET.parse(out).iter("testcase"):
        if not any(case.iter(t).__next__() is not None for t in ("failure", "error", "skipped")
                   if list(case.iter(t))):
            passed.add(case.get("classname") + "::" + case.get("name"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - passed)


def original(tree, edits):
    """Every removed line must be a line of the base commit."""
    bad = []
    for name in {e[0] for e in edits}:
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--root", name],
                               stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
        base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
                              stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        diff = sh(["diff", "-U0", "/repo/" + name, os.path.join(tree, name)], tree).stdout
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
            start, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(start, start + n):
                if base[:7] != blame[i - 1].lstrip("^")[:7]:
                    bad.append(f"{name}:{i}: {blame[i-1][:80]}")
    return bad


def plant(path):
    d = runpy.run_path(path)
    ident = d.get("ID") or os.path.splitext(os.path.basename(path))[0]
    where = tempfile.mkdtemp(prefix="plant_")
    try:
        tree = copy(where)
        for name, old, new in d["EDITS"]:
            f = os.path.join(tree, name)
            text = open(f).read()
            if text.count(old) != 1:
                return ident, f"edit of {name}: old text occurs {text.count(old)} times"
            open(f, "w").write(text.replace(old, new))
        note = ""
        bad = original(tree, d["EDITS"])
        if bad:
            note = "  (NOT ORIGINAL: %s)" % bad
            if not d.get("FORCE"):
                return ident, note
        base = copy(os.path.join(where, "base"))
        for name in {e[0] for e in d["EDITS"]}:
            compile(open(os.path.join(tree, name)).read(), name, "exec")
        kept = os.path.join(where, "kept")
        os.makedirs(kept)
        # demo
        open(os.path.join(kept, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
        open(os.path.join(kept, "demo.sh"), "w").write(d.get("DEMO_SH", DEMO_SH))
        os.chmod(os.path.join(kept, "demo.sh"), 0o755)
        for name, text in d.get("FILES", {}).items():
            open(os.path.join(kept, name), "w").write(text)
        r = sh(["bash", os.path.join(kept, "demo.sh")], base, timeout=300)
        if r.returncode != 0:
            return ident, f"demo fails on the unchanged tree ({r.returncode}):\n{r.stdout[-1500:]}"
        r = sh(["bash", os.path.join(kept, "demo.sh")], tree, timeout=300)
        if r.returncode == 0:
            return ident, f"demo passes with the change:\n{r.stdout[-1500:]}"
        tail = r.stdout.strip().splitlines()[-1:] or [""]
        failed = tests(tree, where)
        if failed:
            return ident, f"stable tests fail: {failed}"
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", base, tree],
                              stdout=subprocess.PIPE, text=True, cwd="/").stdout
        diff = diff.replace(base.lstrip("/") + "/", "a/").replace(tree.lstrip("/") + "/", "b/")
        diff = diff.replace("/a/", "a/").replace("/b/", "b/") if "--- /a/" in diff else diff
        open(os.path.join(kept, "patch.diff"), "w").write(diff)
        r = sh(["git", "-C", "/repo", "apply", "--check", os.path.join(kept, "patch.diff")], "/")
        if r.returncode:
            return ident, f"patch does not apply: {r.stdout}\n{diff[:600]}"
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"].strip(), "what_it_breaks": d["BREAKS"].strip()},
                  open(os.path.join(kept, "meta.json"), "w"), indent=1)
        dest = os.path.join(VERIF, "seeded", ident)
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(kept, dest)
        return ident, f"kept{note}: {tail[0][:150]}"
    finally:
        shutil.rmtree(where, ignore_errors=True)


def check(ident, tier="quick", prop=None):
    where = tempfile.mkdtemp(prefix="plantc_")
    try:
        tree = copy(where)
        seed = os.path.join(VERIF, "seeded", ident)
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", tree, os.path.join(seed, "patch.diff")],
                       check=True, cwd="/")
        prop = prop or json.load(open(os.path.join(seed, "meta.json")))["property"]
        mine = os.path.join(where, "verif")
        shutil.copytree(VERIF, mine, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
        os.makedirs(os.path.join(mine, "evidence"))
        r = sh(["./check", prop, tier], mine, env={"ASTA_REPO": tree, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
        lines = [ln for ln in r.stdout.splitlines() if ln.strip()]
        got = [ln for ln in lines if "VIOLATION" in ln]
        return ident, prop, r.returncode, (got or lines[-1:])[0][:200] if lines else ""
    finally:
        shutil.rmtree(where, ignore_errors=True)


def main(argv):
    if argv[0] == "--check":
        idents = [a for a in argv[1:]] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        path = os.path.join(VERIF, "tools", "plant_results.json")
        results = json.load(open(path)) if os.path.isfile(path) else {}
        with concurrent.futures.ThreadPoolExecutor(3) as pool:
            for ident, prop, code, line in pool.map(check, idents):
                found = line.rsplit("/", 1)[-1].rsplit("-", 1)[0]
                results[ident] = dict(
                    verdict=f"caught by {found}" if code == 1 else "missed" if code == 0 else "no answer",
                    missed_first=code != 1 or results.get(ident, {}).get("missed_first", False),
                )
                json.dump(results, open(path, "w"), indent=0, sort_keys=True)
                print(f"{'CAUGHT' if code == 1 else 'MISSED' if code == 0 else 'ERROR %d' % code}  {ident}  {prop}  {line}",
                      flush=True)
        return
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for ident, said in pool.map(plant, argv):
            print(f"{ident}: {said}", flush=True)


main(sys.argv[1:])
