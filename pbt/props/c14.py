""" C14: Typechecking is on iff both the configuration and the environment allow it. """
import functools
import os
import sys

from pbt import api, build
from pbt.core import REPO, Note, Sub, Violation
from pbt.sandbox import call, fork

SHARDS = {"core": 2, "off": 1, "loud": 1, "fork": 3}
QUICK = 6
RULE = (
    "A case is a history of settings of ASTA_TYPECHECK, decorations (of functions, of classes with all "
    "kinds of methods, and again of what was decorated before) and calls, some with arrays which do not "
    "fit; under on=yes, on=no or the default, in one process or with the module imported by a fresh one "
    "under some other value of the variable. Distinct histories with two decorations or more count as "
    "non-trivial."
)
NOTE = (
    "The model keeps, for each decorated object, whether it was decorated while on=yes and the variable "
    "was unset or exactly \"1\"; those, and only those, must reject an array of the wrong size."
)
VALUES = [None, "1", "0", "", "2", "-1", " 1", "1 ", "01", "11", "1.0", "true", "True", "yes", "no", "on", "off"]
TARGETS = ["function", "class", "method", "bare", "closure", "generator", "subclass", "wraps"]


def make(d):
    """ A history. """
    ops = []
    made = 0
    for _ in range(d.int(2, 9)):
        kind = d.pick(["new", "set", "call", "new", "set", "again"] if made else ["set", "new"])
        if kind == "set":
            ops.append(["set", d.pick(VALUES) if d.bool(60) else d.pick([None, "1", "0"])])
        elif kind == "new":
            ops.append(["new", d.pick(TARGETS)])
            made += 1
        elif kind == "again":
            ops.append(["again", d.int(0, made - 1)])
        else:
            ops.append(["call", d.int(0, made - 1)])
    return dict(ops=ops, start=d.pick(VALUES))


def make_import(d):
    """ A history in a fresh process, and its configuration. """
    case = make(d)
    case["config"] = d.pick([None, "yes", "no"])
    case["quiet"] = d.pick([None, "yes", "no"])
    case["imported"] = d.pick(VALUES)
    case["file"] = d.pick(["astarc", "astarc", "setup.cfg", "toml", "toml boolean"])
    return case


def put_env(value):
    """ Set or unset the variable. """
    if value is None:
        os.environ.pop("ASTA_TYPECHECK", None)
    else:
        os.environ["ASTA_TYPECHECK"] = value


def target(kind):
    """ Something to decorate, unchecked. """
    hint = api.Array[2]
    if kind in ("class", "subclass"):

        class Base:
            """ Has a method of its own. """

            def method(self, x: hint) -> hint:
                return x

        class Gen(Base if kind == "subclass" else object):
            """ Methods of all kinds. """

            const = 3

            def method(self, x: hint) -> hint:
                return x

            @classmethod
            def klass(cls, x: hint) -> hint:
                return x

            @staticmethod
            def static(x: hint) -> hint:
                return x

        return Gen
    if kind == "bare":

        def bare(x):
            return x

        return bare
    if kind == "generator":

        def generator(x: hint) -> object:
            yield x

        return generator
    if kind == "closure":
        cell = []

        def closure(x: hint, *args: hint, key: hint = build.array([2])) -> hint:
            cell.append(x)
            return x

        return closure
    if kind == "method":

        def method(self, x: hint) -> hint:
            return x

        return method

    def func(x: hint) -> hint:
        return x

    if kind == "wraps":

        @functools.wraps(func)
        def outer(*args, **kwargs):
            return func(*args, **kwargs)

        return outer
    return func


def calls(kind, thing):
    """ The ways to call what was made, given the array. """
    if kind in ("class", "subclass"):
        return {
            "method": lambda v: thing().method(v),
            "classmethod": lambda v: thing.klass(v),
            "staticmethod": lambda v: thing.static(v),
            "classmethod of an instance": lambda v: thing().klass(v),
        }
    if kind == "method":
        return {"method": lambda v: thing(3, v)}
    return {"function": thing}


def check(kind, thing, checked, what):
    """ The object checks its arguments or not, as it should. """
    for name, func in calls(kind, thing).items():
        good, bad = call(func, build.array([2])), call(func, build.array([3]))
        if not good.ok:
            raise Violation(f"{what}, {kind} ({name}): a fitting array gave {good!r}")
        want = "TypeError" if checked else "ok"
        if bad.kind != want:
            raise Violation(
                f"{what}, {kind} ({name}): should be {'checked' if checked else 'unchecked'}, "
                f"but an array of the wrong size gave {bad!r}"
            )
        if not checked and (good.out or bad.out):
            raise Violation(f"{what}, {kind} ({name}): unchecked, but printed {good.out + bad.out!r}")


def snapshot(thing):
    """ The parts of a class or function which decorating could change. """
    return {k: id(v) for k, v in vars(thing).items()}


def run(case, on):
    """ The history; ``on`` is what the configuration says. """
    made = []
    put_env(case["start"])
    now = case["start"]
    done = [f"on={on}", f"ASTA_TYPECHECK={now!r}"]
    for op, arg in case["ops"]:
        enabled = on and now in (None, "1")
        if op == "set":
            now = arg
            put_env(now)
            done.append(f"ASTA_TYPECHECK={now!r}")
            continue
        what = "; ".join(done)
        if op == "call":
            check(*made[arg], what)
            continue
        if op == "new":
            kind, plain, before = arg, target(arg), False
            done.append(f"decorate {kind}")
        else:
            kind, plain, before = made[arg]
            done.append(f"decorate number {arg} again")
        if kind == "bare" and enabled:
            # Missing annotations are an error of their own; not the subject here.
            made.append([kind, plain, before])
            continue
        old = snapshot(plain)
        res = call(api.typechecked, plain)
        if not res.ok:
            raise Violation(f"{'; '.join(done)}: decorating {res!r}")
        if not enabled and (res.value is not plain or snapshot(plain) != old):
            raise Violation(f"{'; '.join(done)}: off, but the decorator changed what it was given")
        if kind in ("class", "subclass") and res.value is not plain:
            raise Violation(f"{'; '.join(done)}: decorating a class gave {res!r}")
        made.append([kind, res.value, before or enabled])
        if kind in ("class", "subclass"):
            for item in made:
                if item[1] is plain:
                    item[2] = before or enabled
        check(*made[-1], "; ".join(done))
    for item in made:
        check(*item, "; ".join(done))
    return made


def decide(case, on=True):
    """ In this process. """
    before = os.environ.get("ASTA_TYPECHECK")
    try:
        made = run(case, on)
    finally:
        put_env(before)
    return Note(len(made) > 1, *{"checked" if m[2] else "unchecked" for m in made})


def child(case, scratch):
    """ Import under the case's configuration, then run the history. """
    os.chdir(scratch)
    os.environ["HOME"] = scratch
    kind = case["file"]
    with open("pyproject.toml" if kind.startswith("toml") else kind, "w") as handle:
        handle.write({"astarc": "[MASTER]\n", "setup.cfg": "[asta.master]\n"}.get(kind, "[tool.asta.master]\n"))
        for option, value in (("on", case["config"]), ("print-passes", case["quiet"])):
            if value and kind.startswith("toml"):
                boolean = {"yes": "true", "no": "false"}[value]
                handle.write(f"{option} = {boolean}\n" if kind == "toml boolean" else f'{option} = "{value}"\n')
            elif value:
                handle.write(f"{option}={value}\n")
    put_env(case["imported"])
    import asta

    if not os.path.realpath(asta.__file__).startswith(os.path.realpath(REPO)):
        raise RuntimeError(asta.__file__)
    try:
        return sorted({m[2] for m in run(case, case["config"] != "no")})
    except Violation as exc:
        return str(exc)


def decide_import(case):
    """ In a fresh process. """
    import shutil
    import tempfile

    if "asta" in sys.modules:
        raise RuntimeError("asta was imported")
    scratch = tempfile.mkdtemp(prefix="pbt-c14-")
    try:
        res = fork(child, case, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    what = f"{case['file']} with on={case['config']}, imported under ASTA_TYPECHECK={case['imported']!r}"
    if "error" in res:
        if res["asta"]:
            raise Violation(f"{what}: {res['error']}")
        raise RuntimeError(res["trace"])
    if isinstance(res["value"], str):
        raise Violation(f"{what}: {res['value']}")
    # The banner tells that checks are on while nothing else does.
    if case["quiet"] == "no":
        enabled = case["config"] != "no" and case["imported"] in (None, "1")
        if ("ENABLED" in res["out"]) != enabled:
            raise Violation(f"{what}: at import, {res['out'][:80]!r} was printed")
    return Note(bool(res["value"]), *(["checked" if x else "unchecked" for x in res["value"]]))


SUBS = [
    Sub("on", make, decide, 2500, 60000, batch=6),
    Sub("default", make, decide, 800, 20000, profile="loud", batch=6),
    Sub("off", make, lambda case: decide(case, False), 800, 20000, profile="off", batch=6),
    Sub("fresh", make_import, decide_import, 240, 6000, profile="fork", batch=2),
]
