""" C21: check-non-asta-types checks ordinary annotations and nothing else does. """
from pbt import api, funcs, ordinary
from pbt.core import Note, Sub, Violation
from pbt.hints import Context, HintGen, Options, Unknown, ValueGen, depth, fits, has_array
from pbt.sandbox import call, show

SHARDS = {"core": 3, "nonasta": 4}
QUICK = 6
RULE = (
    "A case is a function whose parameters and result have ordinary annotations (some sixty: builtin "
    "types, classes, Callable of several arities, Type, Literal, IO, protocols...), array annotations, "
    "and containers of both, called with values generated from them with up to two mistakes; or one "
    "such annotation and one of a hundred values, or all of them one after the other ('rows'). Distinct cases with an ordinary annotation for which "
    "the oracle has an answer count as non-trivial."
)
NOTE = (
    "Oracle: isinstance, issubclass, equality and type for Literal, and the number of positional "
    "arguments a callable takes, applied recursively (with check-non-asta-types=yes) or taken to hold "
    "always (no). No opinion: bytearray for bytes, Literals equal to a value of another type, required "
    "keyword-only parameters, the elements of containers such as Mapping and Iterable, TypeVars."
)
YES, NO = Options(nonasta=True), Options(nonasta=False)


def make_leaf(opts):
    """ One ordinary annotation against one value. """

    def make(d):
        spec = HintGen(d).ordinary()
        if opts.nonasta and d.bool(2):
            spec = ["ord", "None"]
        value = ValueGen(d, d.pick([0, 1]), opts).value(spec)
        return dict(hints=[spec], values=[value], ret=None, result=None, how=d.pick(["arg", "ret", "kwarg", "default"]))

    return make


def make_nested(opts):
    """ Several hints of both kinds, nested. """

    def make(d):
        generator = HintGen(d, in_union=opts.nonasta or d.bool(30), ords=d.pick([30, 60, 90]))
        hints = [generator.hint(d.pick([0, 1, 1, 2])) for _ in range(d.int(1, 3))]
        flaws, where = d.pick([0, 0, 1, 1, 2]), d.int(0, len(hints))
        values = [ValueGen(d, flaws if i == where else 0, opts).value(h) for i, h in enumerate(hints)]
        ret = generator.hint(d.pick([0, 0, 1])) if d.bool(40) else None
        result = ValueGen(d, flaws if where == len(hints) else 0, opts).value(ret) if ret else None
        return dict(hints=hints, values=values, ret=ret, result=result, how=d.pick(["arg", "arg", "kwarg"]))

    return make


def ordinary_in(spec):
    """ Whether an ordinary annotation occurs. """
    if not isinstance(spec, list):
        return False
    return spec[:1] in (["ord"], ["call"], ["leaf"]) or any(ordinary_in(s) for s in spec)


def decide_with(opts):
    """ One call. """

    def decide(case):
        ctx = Context()
        hints = [ctx.hint(h) for h in case["hints"]]
        values = [ctx.value(v) for v in case["values"]]
        ret = ctx.hint(case["ret"]) if case["ret"] else None
        result = ctx.value(case["result"]) if case["ret"] else 5
        ran = []

        def body(args):
            ran.append(args)
            return result

        how = case["how"]
        names = [f"p{i}" for i in range(len(hints))]
        if how == "ret":
            result = values[0]
            func = funcs.function([], hints[0], body)
            out = call(api.typechecked(func))
        else:
            default = values[0] if how == "default" else funcs.NONE
            params = [funcs.param(n, h, default=default) for n, h in zip(names, hints)]
            func = api.typechecked(funcs.function(params, ret if case["ret"] else funcs.NONE, body))
            if how == "default":
                out = call(func)
            elif how == "kwarg":
                out = call(func, **dict(zip(names, values)))
            else:
                out = call(func, *values)
        what = (
            f"hints {hints} -> {ret!r}, values {[show(v) for v in values]} -> {show(result)} ({how}): "
            f"the call {out!r}"
        )
        if out.kind not in ("ok", "TypeError"):
            raise Violation(what)
        try:
            good = [fits(h, v, ctx, opts) for h, v in zip(case["hints"], values)]
            want = all(good) and (not case["ret"] or fits(case["ret"], result, ctx, opts))
        except Unknown:
            return Note(False, "no opinion")
        if out.ok != want:
            raise Violation(f"{what}; it should {'be accepted' if want else 'raise TypeError'}")
        if out.ok and out.value is not result:
            raise Violation(f"{what}; not the result itself")
        if len(ran) != (1 if all(good) or how == "ret" else 0):
            raise Violation(f"{what}; the body ran {len(ran)} times")
        return Note(
            any(ordinary_in(h) for h in case["hints"] + [case["ret"]]), "accepted" if want else "rejected",
            f"depth {max(depth(h) for h in case['hints'])}",
            *{h[1] if h[0] == "ord" else h[0] for h in case["hints"][:1]},
        )

    return decide


def make_pair(d):
    """ Any annotation and any value. """
    return dict(
        hints=[["ord", d.pick(sorted(ordinary.HINTS))]], values=[["ord", d.pick(ordinary.VALUE_NAMES)]],
        ret=None, result=None, how=d.pick(["arg", "ret"]),
    )


def make_pair_no(d):
    """ Not None, which as a hint of its own stands for NoneType. """
    case = make_pair(d)
    if case["hints"] == [["ord", "None"]]:
        case["hints"] = [["ord", "int"]]
    return case


def make_row(d):
    """ An annotation and all values, in some order, starting anywhere. """
    return dict(hint=["ord", d.pick(sorted(ordinary.HINTS))], first=d.int(0, 63), step=d.pick([1, 1, 3, 7]), ret=d.bool(30))


def decide_row(opts):
    """ One function is called with one value after another. """

    def decide(case):
        ctx = Context()
        if opts is NO and case["hint"] == ["ord", "None"]:
            return Note(False)
        hint = ctx.hint(case["hint"])
        params = [funcs.param("x", funcs.NONE if case["ret"] else hint)]
        held = []
        if case["ret"]:
            func = funcs.function([], hint, lambda _: held[-1])
        else:
            func = funcs.function(params, None, lambda _: None)
        func = api.typechecked(func)
        count = len(ordinary.VALUE_NAMES)
        verdicts = set()
        for index in range(count):
            name = ordinary.VALUE_NAMES[(case["first"] + index * case["step"]) % count]
            value = ctx.value(["ord", name])
            held.append(value)
            out = call(func) if case["ret"] else call(func, value)
            try:
                want = fits(case["hint"], value, ctx, opts)
            except Unknown:
                want = None
            if out.kind not in ("ok", "TypeError") or (want is not None and out.ok != want):
                raise Violation(f"{hint!r} and {show(value)} ({name}): the call {out!r}; fits: {want}")
            verdicts.add(want)
        return Note(True, *(str(v) for v in sorted(verdicts, key=str)))

    return decide


SUBS = [
    Sub("rows", make_row, decide_row(YES), 1000, 10000, profile="nonasta", size=8, batch=4),
    Sub("rows off", make_row, decide_row(NO), 300, 3000, size=8, batch=4),
    Sub("pairs", make_pair, decide_with(YES), 3000, 60000, profile="nonasta", size=8, batch=16),
    Sub("leaves", make_leaf(YES), decide_with(YES), 5000, 100000, profile="nonasta", size=32),
    Sub("nested", make_nested(YES), decide_with(YES), 3500, 100000, profile="nonasta", size=200, batch=4),
    Sub("pairs off", make_pair_no, decide_with(NO), 3000, 30000, size=8, batch=16),
    Sub("leaves off", make_leaf(NO), decide_with(NO), 1500, 50000, size=32),
    Sub("nested off", make_nested(NO), decide_with(NO), 3000, 100000, size=200, batch=4),
]
