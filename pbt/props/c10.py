""" C10: The decorator is transparent for calls that pass, and guards those that fail. """
import asyncio
import contextvars
import decimal
import functools
import hashlib
import os
import sys
import threading
import warnings

import numpy as np

from pbt import api, build, funcs, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.hints import Context, HintGen, Options, ValueGen, fits
from pbt.sandbox import call

SHARDS = {"core": 5, "both": 1}
QUICK = 7
RULE = (
    "A case is a callable (function, method, class or static method) with up to four annotated "
    "parameters and a result, arguments and result generated from the hints with up to two mistakes, "
    "and what its body does: return, or raise one of several exceptions. 'ambient': what the body sees of, and does to, the "
    "context of the call (thread, context variables, numpy's errors, warnings, exception being handled). Distinct cases with at least "
    "one parameter or an exception count as non-trivial."
)
NOTE = (
    "The body counts its runs and records the identities of its arguments; results and exceptions are "
    "compared by identity, the contents of arrays before and after the call by hash."
)


class Boom(Exception):
    """ An ordinary exception. """


class Halt(BaseException):
    """ Not even an Exception. """


ERRORS = {
    "boom": Boom, "type": TypeError, "value": ValueError, "stop": StopIteration, "halt": Halt,
    "assert": AssertionError, "attribute": AttributeError, "key": KeyError, "exit": GeneratorExit,
}


def make(d):
    generator = HintGen(d)
    hints = [generator.hint(d.pick([0, 0, 1, 2])) for _ in range(d.int(0, 4))]
    flaws = d.pick([0, 0, 1, 1, 2])
    where = d.int(0, len(hints))
    values = [ValueGen(d, flaws if i == where else 0).value(h) for i, h in enumerate(hints)]
    ret = None if d.bool(15) else generator.hint(d.pick([0, 0, 1, 2]))
    result = ValueGen(d, flaws if where == len(hints) else 0).value(ret or ["leaf", "Any"])
    return dict(
        hints=hints, values=values, ret=ret, result=result, names=d.shuffle(["a", "b", "c", "x", "y"])[: len(hints)],
        raises=d.pick(sorted(ERRORS)) if d.bool(30) else None, form=d.pick(funcs.FORMS), by_name=d.int(0, len(hints)),
        whole=d.bool(30), calls=d.pick([1, 1, 2]), echo=d.bool(20),
    )


def contents(values):
    """ A digest of the arrays in values. """
    digest = hashlib.sha256()

    def walk(value):
        if isinstance(value, build.np.ndarray):
            digest.update(f"{value.shape}{value.dtype}{value.strides}{value.flags.writeable}".encode())
            if value.size < 1000 and value.dtype != object:
                digest.update(value.tobytes())
        elif isinstance(value, dict):
            for key, item in value.items():
                digest.update(repr(key).encode())
                walk(item)
        elif isinstance(value, (list, tuple, set, frozenset)):
            digest.update(f"{type(value)}{len(value)}".encode())
            for item in value:
                walk(item)

    walk(values)
    return digest.hexdigest()


def materialise(value):
    """ Arrays with memory of their own and contents, in place of strided ones. """
    np = build.np
    if isinstance(value, np.ndarray) and type(value) is np.ndarray and value.size < 1000 and value.dtype.kind in "fiu":
        return (np.arange(value.size) % 100).reshape(value.shape).astype(value.dtype)
    if type(value) is list:
        return [materialise(v) for v in value]
    return value


def decide(case):
    ctx = Context()
    hints = [ctx.hint(h) for h in case["hints"]]
    ret = ctx.hint(case["ret"]) if case["ret"] else funcs.NONE
    values = [materialise(ctx.value(v)) for v in case["values"]]
    result = materialise(ctx.value(case["result"]))
    if case["echo"] and values:
        result = values[0]
    names = case["names"]
    seen = []
    error = ERRORS[case["raises"]]("raised by the body") if case["raises"] else None

    def body(bound):
        seen.append(bound)
        if error is not None:
            raise error
        return result

    params = [funcs.param(n, h) for n, h in zip(names, hints)]
    whole = case["whole"] and case["form"] != "function" and (params or case["ret"])
    func = funcs.member(
        case["form"], params, ret, body, decorator=None if whole else api.typechecked,
        whole=api.typechecked if whole else None, name="some_name",
    )
    if func.__name__ != "some_name" or func.__module__ != "generated":
        raise Violation(f"the decorated function is called {func.__module__}.{func.__name__}")
    opts = Options()
    bad = [n for n, h, v in zip(names, case["hints"], values) if not fits(h, v, ctx, opts)]
    good_result = case["ret"] is None or fits(case["ret"], result, ctx, opts)
    split = case["by_name"]
    before = contents([values, result])
    for _ in range(case["calls"]):
        seen.clear()
        try:
            out = call(func, *values[:split], **dict(zip(names[split:], values[split:])))
        except BaseException as exc:  # pylint: disable=broad-except
            if exc is not error:
                raise
            out = None
        got = error if out is None else out.exc
        what = f"{case['form']} with hints {hints} -> {ret if case['ret'] else ''} called with {values}"
        if bad:
            if not isinstance(got, TypeError) or got is error or seen:
                raise Violation(f"{what}: {out!r}, body ran {len(seen)} times, but {bad} do not fit")
            continue
        if len(seen) != 1:
            raise Violation(f"{what}: the body ran {len(seen)} times; {out!r}")
        for name, value in zip(names, values):
            if seen[0][name] is not value:
                raise Violation(f"{what}: the body got {seen[0][name]!r} for {name}, not the object passed")
        if error is not None:
            if got is not error:
                raise Violation(f"{what}: {out!r}, but the body raised {error!r}")
        elif not good_result:
            if not isinstance(got, TypeError):
                raise Violation(f"{what}: {out!r}, but the result {result!r} does not fit")
        elif got is not None or out.value is not result:
            raise Violation(f"{what}: {out!r}, but the body returned {result!r}")
    if contents([values, result]) != before:
        raise Violation(f"the call modified its arguments or result: {values}, {result}")
    return Note(
        params or error, "bad argument" if bad else "raises" if error else
        "passes" if good_result else "bad result", case["form"],
    )


# -------------------------------------------- generators, coroutines, tensors


def make_lazy(d):
    pattern = gen.plain_pattern(d, max_len=2)
    return dict(kind=d.pick(["generator", "async", "lambda", "partial", "wraps", "bound"]), pat=pattern,
                shape=gen.near_shape(d, pattern, 70, 25), items=d.some(lambda: d.int(0, 9), 0, 4), named=d.bool(30))


def decide_lazy(case):
    """ Functions which do not run when called are still guarded, and otherwise unchanged. """
    ann = build.array_annotation(None, case["pat"])
    value = build.array(case["shape"])
    kind, items = case["kind"], case["items"]
    want = ref.match(case["pat"], case["shape"])
    if kind == "generator":

        def func(x):
            for item in items:
                yield item, x
    elif kind == "async":

        async def func(x):
            return items, x
    elif kind == "lambda":
        func = lambda x: (items, x)  # noqa: E731
    elif kind == "wraps":

        def inner(x):
            return items, x

        inner.__annotations__ = {"x": ann}

        @functools.wraps(inner)
        def func(*args, **kwargs):
            return inner(*args, **kwargs)
    elif kind == "bound":

        class Gen:
            """ Has a method. """

            def method(self, x):
                return items, x

        Gen.method.__annotations__ = {"x": ann}
        func = Gen().method
    else:

        def func(x):
            def inner():
                return items, x

            return inner
    if kind not in ("wraps", "bound"):
        func.__annotations__ = {"x": ann}
    out = call(api.typechecked(func), *([] if case["named"] else [value]), **({"x": value} if case["named"] else {}))
    if out.kind != ("ok" if want else "TypeError"):
        raise Violation(f"{kind} with a parameter {ann!r} called with shape {case['shape']}: {out!r}")
    if want:
        if kind == "generator":
            got = list(out.value)
            good = len(got) == len(items) and all(a == b[0] and b[1] is value for a, b in zip(items, got))
        else:
            got = asyncio.run(out.value) if kind == "async" else out.value() if kind == "partial" else out.value
            good = got[0] is items and got[1] is value
        if not good:
            raise Violation(f"{kind} gives {got!r}")
    return Note(True, kind, "passes" if want else "fails")


def make_tensors(d):
    places = []
    for _ in range(d.int(1, 3)):
        fw = d.pick(["np", "tf", "torch"])
        pattern = gen.plain_pattern(d, max_len=2, sizes=gen.small)
        places.append(dict(fw=fw, pat=pattern, shape=gen.near_shape(d, pattern, 85, 10)))
    return dict(params=places[:-1], ret=places[-1], raises=d.bool(20))


def decide_tensors(case):
    """ Identity and guarding for tensors. """
    seen = []
    error = Boom("raised by the body") if case["raises"] else None
    values = [build.value(p["fw"], "float32", p["shape"]) for p in case["params"]]
    result = build.value(case["ret"]["fw"], "float32", case["ret"]["shape"])

    def body(bound):
        seen.append(bound)
        if error:
            raise error
        return result

    params = [funcs.param(f"p{i}", build.annotation(p["fw"], None, p["pat"])) for i, p in enumerate(case["params"])]
    ret = build.annotation(case["ret"]["fw"], None, case["ret"]["pat"])
    out = call(api.typechecked(funcs.function(params, ret, body)), *values)
    bad = [i for i, p in enumerate(case["params"]) if not ref.match(p["pat"], p["shape"])]
    if bad:
        good = isinstance(out.exc, TypeError) and not seen
    elif error:
        good = out.exc is error and len(seen) == 1
    elif not ref.match(case["ret"]["pat"], case["ret"]["shape"]):
        good = isinstance(out.exc, TypeError) and len(seen) == 1
    else:
        good = out.ok and out.value is result and len(seen) == 1
    if seen and any(seen[0][f"p{i}"] is not v for i, v in enumerate(values)):
        good = False
    if not good:
        raise Violation(f"{case}: {out!r}, the body ran {len(seen)} times")
    return Note(bool(values), "bad argument" if bad else "runs")


# ------------------------------------------------- what a class refers to


def make_foreign(d):
    """ A decorated class with attributes which are defined elsewhere. """
    pattern = gen.plain_pattern(d, max_len=2)
    return dict(
        name=d.pick(["Net", "A"]), pat=pattern, shape=gen.near_shape(d, pattern, 40, 40),
        attrs=[
            dict(kind=d.pick(["function", "class", "static", "instance", "data", "property"]),
                 like=d.pick(["Net", "A", "other", "Netty", "Net_helper", "Config", "method", "SubNet.method", "f.<locals>.Net.method", "MyA.run"]))
            for _ in range(d.int(1, 3))
        ],
        nest=d.bool(40), base=d.bool(40),
    )


def decide_foreign(case):
    """ Decorating a class leaves alone what it only refers to. """
    ann = build.array_annotation(None, case["pat"])
    value = build.array(case["shape"])
    fits_it = ref.match(case["pat"], case["shape"])

    def elsewhere(name):
        """ A function from elsewhere. """

        def func(*args: ann) -> int:
            return len(args)

        func.__name__ = name
        func.__qualname__ = name
        return func

    def method(self, x: ann) -> int:
        return 3

    method.__name__ = "method"
    method.__qualname__ = f"{case['name']}.method"
    body, foreign = {"method": method}, {}
    for index, attr in enumerate(case["attrs"]):
        inner = elsewhere(attr["like"])
        if attr["kind"] in ("class", "instance"):
            helper = elsewhere("run")
            helper.__qualname__ = f"{attr['like']}X.run"
            thing = type(attr["like"] + "X", (), {"run": helper, "__annotations__": {"x": ann}})
            thing.__qualname__ = attr["like"] + "X"
            inner = thing
            if attr["kind"] == "instance":
                thing = thing()
        else:
            thing = inner
        kept = dict(vars(inner)) if isinstance(inner, type) else None
        body[f"attr{index}"] = {"data": [1, inner], "property": property(lambda self: 4)}.get(attr["kind"], thing)
        foreign[f"attr{index}"] = (attr["kind"], body[f"attr{index}"], inner, kept)
    bases = ()
    if case["base"]:
        parent_method = elsewhere("parent")
        parent_method.__qualname__ = case["name"] + "Base.parent"
        bases = (type(case["name"] + "Base", (), {"parent": parent_method}),)
    cls = type(case["name"], bases, body)
    cls.__qualname__ = case["name"]
    out = call(api.typechecked, cls)
    what = f"class {case['name']} with {case['attrs']} and a method for {ann!r}"
    if not out.ok or out.value is not cls:
        raise Violation(f"{what}: decorating gave {out!r}")
    for key, (kind, thing, inner, kept) in foreign.items():
        if vars(cls)[key] is not thing:
            raise Violation(f"{what}: {key}, a {kind} from elsewhere, was replaced")
        if kept is not None and dict(vars(inner)) != kept:
            raise Violation(f"{what}: {key}, a {kind} from elsewhere, was changed")
    if bases and vars(bases[0])["parent"] is not parent_method:
        raise Violation(f"{what}: the base class was changed")
    out = call(cls().method, value)
    if out.kind != ("ok" if fits_it else "TypeError"):
        raise Violation(f"{what}: the method called with shape {case['shape']} {out!r}")
    return Note(any(a["kind"] in ("function", "class") for a in case["attrs"]), *{a["kind"] for a in case["attrs"]})


# ------------------------------------------------- where the body runs

VARIABLE = contextvars.ContextVar("VARIABLE", default=0)


def make_ambient(d):
    pattern = gen.plain_pattern(d, max_len=2, sizes=gen.small)
    return dict(
        pat=pattern, shape=gen.near_shape(d, pattern, 90, 5), outer=d.int(0, 3), inner=d.int(0, 3), kind=d.pick(funcs.FORMS),
        err=d.pick(["warn", "ignore", "raise"]), body=d.pick(["warn", "ignore", "raise", None]), handling=d.bool(30),
        precision=d.int(3, 30), filters=d.pick(["default", "error", "ignore"]), raises=d.bool(25),
    )


def ambience():
    """ What code can tell about where it runs. """
    return dict(
        thread=threading.get_ident(), variable=VARIABLE.get(), err=np.geterr(), handled=sys.exc_info()[1],
        precision=decimal.getcontext().prec, filters=list(warnings.filters), trace=sys.gettrace(), limit=sys.getrecursionlimit(),
        options=repr(np.get_printoptions()), directory=os.getcwd(), environment=dict(os.environ),
    )


def decide_ambient(case):
    """ The body runs in the context of the call, and what it does to it lasts. """
    ann = build.array_annotation(None, case["pat"])
    value, seen = build.array(case["shape"]), []
    error = Boom("raised by the body")

    def body(_):
        seen.append(ambience())
        VARIABLE.set(case["inner"])
        if case["body"]:
            np.seterr(all=case["body"])
        if case["raises"]:
            raise error
        return value

    func = funcs.member(case["kind"], [funcs.param("x", ann)], ann, body, decorator=api.typechecked, name="some_name")
    good = ref.match(case["pat"], case["shape"])

    def run():
        VARIABLE.set(case["outer"])
        decimal.getcontext().prec = case["precision"]
        with np.errstate(all=case["err"]), warnings.catch_warnings():
            warnings.simplefilter(case["filters"])
            outside = ambience()
            try:
                if case["handling"]:
                    raise KeyError("handled by the caller")
                outside = ambience()
                out = call(func, value)
            except KeyError:
                outside = ambience()
                out = call(func, value)
            after = ambience()
        what = f"{case['kind']} with a parameter {ann!r} called with shape {case['shape']}: {out!r}"
        if not good:
            if seen or out.kind != "TypeError":
                raise Violation(f"{what}, the body ran {len(seen)} times")
            want = outside
        else:
            if len(seen) != 1 or (out.exc is not error if case["raises"] else out.exc or out.value is not value):
                raise Violation(f"{what}, the body ran {len(seen)} times")
            differ = {k: (v, seen[0][k]) for k, v in outside.items() if seen[0][k] != v}
            if differ:
                raise Violation(f"{what}; the body does not run in the context of the call (there, here): {differ}")
            if case["raises"] and error.__context__ is not (outside["handled"]):
                raise Violation(f"{what}; the exception of the body was raised while handling {error.__context__!r}")
            want = dict(outside, variable=case["inner"])
            if case["body"]:
                want["err"] = dict.fromkeys(outside["err"], case["body"])
        after["handled"] = want["handled"] = None
        differ = {k: (v, after[k]) for k, v in want.items() if after[k] != v}
        if differ:
            raise Violation(f"{what}; the context differs after the call (should be, is): {differ}")

    precision = decimal.getcontext().prec
    try:
        contextvars.copy_context().run(run)
    finally:
        decimal.getcontext().prec = precision
    return Note(True, "handling" if case["handling"] else "plain", "runs" if good else "bad argument")


SUBS = [
    Sub("ambient", make_ambient, decide_ambient, 500, 8000, size=96),
    Sub("foreign", make_foreign, decide_foreign, 1200, 15000),
    Sub("call", make, decide, 6000, 120000, size=160, batch=5),
    Sub("lazy", make_lazy, decide_lazy, 1200, 15000),
    Sub("tensors", make_tensors, decide_tensors, 800, 10000, profile="both"),
]
