""" C13: raise-errors and print-passes change only how outcomes are reported. """
from pbt import api, build, funcs, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.hints import Context, HintGen, Options, ValueGen, fits, has_array
from pbt.props import c06, c08
from pbt.sandbox import call
from pbt.variables import DIMS, Names

SHARDS = {"soft": 3, "core": 2, "loud": 2, "softloud": 2, "softnonasta": 1, "softfirst": 1}
QUICK = 1.5
RULE = (
    "A case is a function with one to three hinted parameters and a result, and values with up to two "
    "mistakes; or one with symbolic shapes; or one with variables that were never set. Each runs under a "
    "fixed setting of raise-errors and print-passes. Distinct cases with an array annotation count as "
    "non-trivial."
)
NOTE = (
    "Whether the call would raise is decided by the definitions of C06, C08 and C12, not by running it "
    "twice; with errors printed, result, body runs and exceptions are those of the undecorated function. "
    "A report is any output (or, when passes are printed, output with FAILED)."
)


class Boom(Exception):
    """ Raised by a body. """


LEAVES = ("int", "str", "Any", "Base", "bool")


def make(d, opts=Options()):
    generator = HintGen(d, leaves=LEAVES, in_union=opts.nonasta)
    hints = [generator.hint(d.pick([0, 1, 1, 2])) for _ in range(d.int(1, 3))]
    where = d.int(0, len(hints))
    flaws = d.pick([0, 1, 1, 2])
    values = [ValueGen(d, flaws if i == where else 0, opts).value(h) for i, h in enumerate(hints)]
    ret = generator.hint(d.pick([0, 1]))
    result = ValueGen(d, flaws if where == len(hints) else 0, opts).value(ret)
    return dict(hints=hints, values=values, ret=ret, result=result, raises=d.bool(8))


def prepare(case):
    """ The function, its values and a list of body runs. """
    ctx = Context()
    hints = [ctx.hint(h) for h in case["hints"]]
    ret = ctx.hint(case["ret"])
    values = [ctx.value(v) for v in case["values"]]
    result = ctx.value(case["result"])
    error = Boom("by the body") if case["raises"] else None
    ran = []

    def body(bound):
        ran.append(bound)
        if error:
            raise error
        return result

    func = api.typechecked(funcs.function([funcs.param(f"p{i}", h) for i, h in enumerate(hints)], ret, body))
    what = f"hints {hints} -> {ret!r}, values {values} -> {result!r}"
    return ctx, func, values, result, error, ran, what


def verdicts(case, ctx, values, result, opts):
    """ Whether the arguments, and the result, fit. """
    args = all(fits(h, v, ctx, opts) for h, v in zip(case["hints"], values))
    return args, fits(case["ret"], result, ctx, opts)


def decide_soft(case, opts=Options(), passes=False):
    """ raise-errors=no. """
    ctx, func, values, result, error, ran, what = prepare(case)
    out = call(func, *values)
    args, good = verdicts(case, ctx, values, result, opts)
    soft(out, result, error, ran, what)
    bad = not args or (not good and error is None)
    reported = "FAILED" in out.out if passes else bool(out.out.strip())
    if reported != bad:
        raise Violation(
            f"{what}: arguments fit: {args}, result fits: {good}, but the output is {out.out!r}"
        )
    return Note(has_array(case["hints"] + [case["ret"]]), "would raise" if bad else "passes")


def soft(out, result, error, ran, what):
    """ The call went as if undecorated. """
    if error is not None:
        if out.exc is not error:
            raise Violation(f"{what}: the body raised {error!r}, the call {out!r}")
    elif not out.ok or out.value is not result:
        raise Violation(f"{what}: with raise-errors=no, the call {out!r}")
    if len(ran) != 1:
        raise Violation(f"{what}: the body ran {len(ran)} times")


def decide_soft_first(case):
    return decide_soft(case, Options(everything=False))


def decide_soft_nonasta(case):
    return decide_soft(case, Options(nonasta=True))


def decide_softloud(case):
    return decide_soft(case, passes=True)


def decide_quiet(case):
    """ raise-errors=yes, print-passes=no. """
    ctx, func, values, result, error, ran, what = prepare(case)
    out = call(func, *values)
    args, good = verdicts(case, ctx, values, result, Options())
    expect(out, args, good, error, what)
    if out.ok and out.out:
        raise Violation(f"{what}: the call passed, but printed {out.out!r}")
    return Note(has_array(case["hints"] + [case["ret"]]), out.kind)


def expect(out, args, good, error, what):
    """ The verdict does not depend on what is printed. """
    want = "TypeError" if not args else "Boom" if error else "ok" if good else "TypeError"
    if out.kind != want:
        raise Violation(f"{what}: arguments fit: {args}, result fits: {good}, but the call {out!r}")


def count(spec, value, ctx):
    """ How many array annotations are checked, at least, when a value fits. Exact without Unions. """
    kind = spec[0]
    if kind == "arr":
        return 1
    if kind in ("leaf", "none", "bare"):
        return 0
    if kind == "ann":
        return count(spec[1], value, ctx)
    if kind == "union":
        first = next(s for s in spec[1] if fits(s, value, ctx, Options()))
        return count(first, value, ctx)
    if kind in ("list", "seq", "set", "vartuple"):
        return sum(count(spec[1], v, ctx) for v in value)
    if kind == "tuple":
        return sum(count(s, v, ctx) for s, v in zip(spec[1], value))
    if kind == "dict":
        return sum(count(spec[1], k, ctx) + count(spec[2], v, ctx) for k, v in value.items())
    if kind == "tdict":
        return sum(count(s, value[k], ctx) for k, s in spec[2] if k in value)
    return sum(count(s, getattr(value, k), ctx) for k, s in spec[2])


def has_union(specs):
    """ Whether a Union occurs. """
    return "union" in str(specs)


def decide_loud(case):
    """ raise-errors=yes, print-passes=yes. """
    ctx, func, values, result, error, ran, what = prepare(case)
    out = call(func, *values)
    args, good = verdicts(case, ctx, values, result, Options())
    expect(out, args, good, error, what)
    if out.ok:
        want = sum(count(h, v, ctx) for h, v in zip(case["hints"], values)) + count(case["ret"], result, ctx)
        got = out.out.count("PASSED")
        exact = not has_union(case["hints"] + [case["ret"]])
        if got < want or (exact and got != want) or "FAILED" in out.out:
            raise Violation(f"{what}: {want} checks of asta annotations passed, but the output is {out.out!r}")
    return Note(has_array(case["hints"] + [case["ret"]]), out.kind)


# ------------------------------------------------------------------ symbols


def decide_symbols(case):
    """ Systems of equations over a whole call, with errors printed. """
    ran = []
    result = c06.value(case["ret"])
    func = api.typechecked(
        funcs.function(c06.parameters(case), c06.annotation(case["ret"]), lambda bound: ran.append(bound) or result)
    )
    args, kwargs = c06.arguments(case)
    out = call(func, *args, **kwargs)
    what = f"call with {[c06.pairs(p) for p in case['params']]} returning {c06.pairs(case['ret'])}"
    soft(out, result, None, ran, what)
    want = c06.joint(case["params"] + [case["ret"]], case["hint"])
    if want != "maybe" and bool(out.out.strip()) != (want == "no"):
        raise Violation(f"{what}: solvable: {want}, but the output is {out.out!r}")
    return Note(want != "maybe", want)


# -------------------------------------------------------- unset and invalid


def decide_unset(case):
    """ Variables which were never set, with errors printed. """
    names = Names(case.get("style", 0))
    for name, value in case["values"].items():
        if case["early"]:
            names.set(dict(op="dim" if name in DIMS else "shape", name=name, value=value))
    ann = c08.grouped(case, names)
    for name, value in case["values"].items():
        names.set(dict(op="dim" if name in DIMS else "shape", name=name, value=value))
    value = {"array": build.array(case["shape"]), "none": None, "float": 1.5, "list": [1, 2]}[case["value"]]
    ran = []
    func = api.typechecked(funcs.function([funcs.param("x", ann)], ann, lambda b: ran.append(b) or value))
    out = call(func, value)
    soft(out, value, None, ran, f"{ann!r} (never set: {case['unset']}) against {value!r}")
    if not out.out.strip():
        raise Violation(f"{ann!r} (never set: {case['unset']}) against {value!r}: nothing was printed")
    # Without its values nothing can be said about the array.
    reports = [line for line in out.out.splitlines() if "FAILED" in line or "PASSED" in line]
    named = [{n for n in case["unset"] if names(n) in line} for line in reports]
    if not all(named) or "'x'" in out.out or set().union(*named) != set(case["unset"]):
        raise Violation(f"{ann!r} against {value!r}: {case['unset']} were never set, but the output is {out.out!r}")
    return Note(True, case["value"])


def decide_fraction(case):
    """ Dimensions which are not integers, with errors printed. """
    names = Names(case.get("style", 0))
    ann = names.annotation("np", [case["tree"], "..."] if case["where"] == "dots" else [case["tree"]])
    for name, size in case["env"].items():
        setattr(api.dims, names(name), size)
    value = build.array([case["size"]]) if case["value"] == "array" else None
    ran = []
    func = api.typechecked(funcs.function([funcs.param("x", ann)], None, lambda b: ran.append(b) or value))
    out = call(func, value)
    soft(out, value, None, ran, f"{ann!r} with {case['env']} against {value!r}")
    size = c08.size_of(case["tree"], case["env"])
    if size == "maybe":
        return Note(False, "unknown")
    if size is None:
        if "FAILED" not in out.out:
            raise Violation(f"{ann!r} with {case['env']}, a division by zero, against {value!r}: the output is {out.out!r}")
        return Note(True, "divided by zero")
    if size == -1 or size.denominator == 1 and "." in repr(case["tree"]):
        # As in C08: a float which is whole is not claimed to be either an integer or none.
        return Note(False, "wildcard" if size == -1 else "whole float")
    bad = size.denominator != 1 or value is None or size != case["size"]
    if bool(out.out.strip()) != bad:
        raise Violation(f"{ann!r} with {case['env']} ({size}) against {value!r}: the output is {out.out!r}")
    return Note(size.denominator != 1, "fractional" if size.denominator != 1 else "whole")


SUBS = [
    Sub("soft", make, decide_soft, 4000, 80000, profile="soft", size=128, batch=6),
    Sub("soft symbols", c06.make_call, decide_symbols, 700, 10000, profile="soft", size=160, batch=4),
    Sub("soft unset", c08.make_unset, decide_unset, 1000, 10000, profile="soft"),
    Sub("soft and loud unset", c08.make_unset, decide_unset, 600, 8000, profile="softloud"),
    Sub("soft fraction", c08.make_fraction, decide_fraction, 600, 10000, profile="soft"),
    Sub("soft first", lambda d: make(d, Options(everything=False)), decide_soft_first, 1500, 30000,
        profile="softfirst", size=128, batch=6),
    Sub("soft nonasta", lambda d: make(d, Options(nonasta=True)), decide_soft_nonasta, 1500, 30000,
        profile="softnonasta", size=128, batch=6),
    Sub("soft and loud", make, decide_softloud, 2000, 40000, profile="softloud", size=128, batch=6),
    Sub("quiet", make, decide_quiet, 2500, 50000, size=128, batch=6),
    Sub("loud", make, decide_loud, 2500, 50000, profile="loud", size=128, batch=6),
]
