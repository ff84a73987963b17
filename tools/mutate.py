"""
Mutation testing of the checks: mutate.py FILE... [--every N] [--offset K] [--out LOG].

Makes small changes (operators, conditions, constants, deleted statements,
dropped elements) in copies of asta, and runs a tenth of the quick campaign of
all properties on each. The survivors are to be read: they are equivalent, or
out of every domain, or a gap.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")
PROFILES = [
    "core", "nonasta", "both", "softloud", "loud", "soft", "first", "fork", "torch", "tf", "off", "fresh", "forktf",
    "softfirst", "softnonasta",
]
SWAP = {
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
    ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is],
}


def variants(node):
    """ (description, new node or text) for one AST node. """
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in SWAP.get(type(node.ops[0]), []):
            yield "cmp", ast.unparse(ast.Compare(node.left, [op()], node.comparators))
    if isinstance(node, ast.BoolOp):
        other = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "bool", "(" + ast.unparse(ast.BoolOp(other, node.values)) + ")"
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            yield "drop operand", "(" + ast.unparse(rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest)) + ")"
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "not", "(" + ast.unparse(node.operand) + ")"
    if isinstance(node, ast.IfExp):
        yield "ifexp", "(" + ast.unparse(node.body) + ")"
        yield "ifexp", "(" + ast.unparse(node.orelse) + ")"
    if isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            yield "const", str(not node.value)
        elif isinstance(node.value, int):
            yield "const", str(node.value + 1)
            if node.value:
                yield "const", str(node.value - 1)
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
        if len(node.elts) > 1:
            for i in range(len(node.elts)):
                elts = node.elts[:i] + node.elts[i + 1:]
                if isinstance(node, ast.Set):
                    yield "drop elem", ast.unparse(ast.Set(elts))
                else:
                    text = ", ".join(ast.unparse(e) for e in elts)
                    yield "drop elem", f"[{text}]" if isinstance(node, ast.List) else f"({text},)"
    if isinstance(node, ast.BinOp):
        if isinstance(node.op, ast.Add):
            yield "binop", "(" + ast.unparse(ast.BinOp(node.right, ast.Add(), node.left)) + ")"
            yield "binop", "(" + ast.unparse(node.left) + ")"
        if isinstance(node.op, (ast.Sub, ast.Mult)):
            yield "binop", "(" + ast.unparse(ast.BinOp(node.left, ast.Add(), node.right)) + ")"
    if isinstance(node, ast.Call):
        if len(node.args) == 2 and not node.keywords:
            yield "swap args", ast.unparse(ast.Call(node.func, node.args[::-1], []))
        for i, key in enumerate(node.keywords):
            yield "drop keyword", ast.unparse(ast.Call(node.func, node.args, node.keywords[:i] + node.keywords[i + 1:]))
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name):
            yield "unwrap", "(" + ast.unparse(node.args[0]) + ")"


def statements(node):
    """ Replacements of a statement. """
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise)):
        yield "delete", "pass"
    if isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant):
        yield "delete", "pass"
    if isinstance(node, ast.Return) and node.value is not None:
        yield "return", "return None"
        if isinstance(node.value, (ast.Compare, ast.BoolOp, ast.Call, ast.Name, ast.Constant)):
            yield "return", "return True"
            yield "return", "return False"
    if isinstance(node, ast.Break):
        yield "break", "continue"
        yield "break", "pass"
    if isinstance(node, ast.Continue):
        yield "continue", "break"
        yield "continue", "pass"


def mutants(path):
    """ (description, line, new source). """
    source = open(path).read()
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = source.encode()

    def at(line, col):
        return starts[line - 1] + col

    tree = ast.parse(source)
    annotations = set()
    for node in ast.walk(tree):
        for field in ("annotation", "returns"):
            sub = getattr(node, field, None)
            if isinstance(sub, ast.AST):
                annotations.update(id(x) for x in ast.walk(sub))
    found = []
    for node in ast.walk(tree):
        if id(node) in annotations or not hasattr(node, "lineno"):
            continue
        options = list(variants(node)) + list(statements(node))
        if isinstance(node, (ast.If, ast.While)):
            test = node.test
            lo, hi = at(test.lineno, test.col_offset), at(test.end_lineno, test.end_col_offset)
            for value in ("True", "False") if isinstance(node, ast.If) else ("False",):
                found.append((f"if {value}", node.lineno, raw[:lo] + value.encode() + raw[hi:]))
        lo, hi = at(node.lineno, node.col_offset), at(node.end_lineno, node.end_col_offset)
        for what, text in options:
            if raw[lo:hi].decode() != text:
                found.append((what, node.lineno, raw[:lo] + text.encode() + raw[hi:]))
    for what, line, data in found:
        text = data.decode()
        try:
            compile(text, path, "exec")
        except SyntaxError:
            continue
        yield what, line, text


RUNNER = """
import json, os, sys, tempfile, shutil
from pbt import core, sandbox
profile, share, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
scratch = tempfile.mkdtemp(prefix="pbt-mut-")
def done(text, code):
    os.chdir("/"); shutil.rmtree(scratch, ignore_errors=True)
    open(out, "w").write(text)
    os._exit(code)
try:
    core.setup_profile(profile, scratch)
except core.Violation as exc:
    done("import: " + str(exc)[:200], 1)
inner = core.judge
current = [None, None]
def judge(sub, case):
    try:
        return inner(sub, case)
    except core.Violation as exc:
        done(f"{current[0]}-{current[1]}: {str(exc)[:300]}", 1)
    except BaseException as exc:
        done(f"{current[0]}-{current[1]}: HARNESS {type(exc).__name__} {str(exc)[:200]}", 1)
core.judge = judge
with sandbox.silence():
    for n in sorted(range(1, 26), key=lambda n: [12, 11, 22, 5, 6, 21, 18, 17, 16].index(n) if n in (12, 11, 22, 5, 6, 21, 18, 17, 16) else 9 + n):
        prop = "C%02d" % n
        for sub in core.load_property(prop).SUBS:
            if sub.profile == profile:
                current[:] = [prop, sub.name]
                core.run_sub(prop, sub, "quick", 0, share, 100)
done("", 0)
"""


def run(job):
    """ Run a mutant: the first thing which caught it, or None. """
    name, what, line, text, share = job
    where = tempfile.mkdtemp(prefix="mut_")
    try:
        tree = os.path.join(where, "repo")
        os.makedirs(tree)
        shutil.copytree(BASE + "/asta", os.path.join(tree, "asta"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(tree, name), "w") as handle:
            handle.write(text)
        env = dict(os.environ, ASTA_REPO=tree, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OMP_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", VERIF_SEED="1")
        for profile in PROFILES:
            out = os.path.join(where, "out")
            try:
                proc = subprocess.run(
                    ["/opt/venv/bin/python", "-c", RUNNER, profile, str(share), out], env=env, cwd=VERIF, timeout=600,
                    stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                )
            except subprocess.TimeoutExpired:
                return job, "timeout"
            if proc.returncode == 1 and os.path.isfile(out):
                return job, f"{profile} {open(out).read()}"
            if proc.returncode != 0:
                return job, f"{profile} crashed {proc.stderr[-300:]!r}"
        return job, None
    finally:
        shutil.rmtree(where, ignore_errors=True)


def main():
    """ Run all, report the survivors. """
    parser = argparse.ArgumentParser()
    parser.add_argument("files", nargs="+")
    parser.add_argument("--every", type=int, default=1)
    parser.add_argument("--offset", type=int, default=0)
    parser.add_argument("--share", type=int, default=10)
    parser.add_argument("--jobs", type=int, default=7)
    parser.add_argument("--list", action="store_true")
    parser.add_argument("--out", default="/tmp/mut/log.jsonl")
    args = parser.parse_args()
    jobs = []
    for name in args.files:
        for what, line, text in mutants(os.path.join(BASE, name)):
            jobs.append((name, what, line, text, args.share))
    jobs = jobs[args.offset :: args.every]
    print(len(jobs), "mutants", flush=True)
    if args.list:
        return
    done = set()
    if os.path.isfile(args.out):
        done = {tuple(json.loads(x)["key"]) for x in open(args.out)}
    import hashlib

    def key(job):
        return (job[0], job[1], job[2], hashlib.sha256(job[3].encode()).hexdigest()[:12])

    jobs = [j for j in jobs if key(j) not in done]
    killed = 0
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool, open(args.out, "a") as log:
        for job, how in pool.map(run, jobs):
            killed += how is not None
            old = open(os.path.join(BASE, job[0])).read().splitlines()
            new = job[3].splitlines()
            diff = [(a, b) for a, b in zip(old, new) if a != b][:1]
            log.write(json.dumps(dict(key=key(job), how=how, diff=diff)) + "\n")
            log.flush()
            if how is None:
                print("SURVIVED", job[0], job[2], job[1], diff, flush=True)
    print(f"{killed} of {len(jobs)} killed")


if __name__ == "__main__":
    main()
