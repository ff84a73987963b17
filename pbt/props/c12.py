""" C12: Containers are checked exhaustively and structurally. """
from pbt import api, build, funcs, gen
from pbt.core import Note, Sub, Violation
from pbt.hints import Context, HintGen, Options, ValueGen, depth, fits, has_array
from pbt.sandbox import call

SHARDS = {"core": 4, "first": 2, "both": 1}
QUICK = 6
RULE = (
    "A case is a hint of containers of array annotations (List, Tuple, Dict, Set, Sequence, Optional, "
    "Union, TypedDict, NamedTuple, typing and builtin spelling, X | Y) up to four deep, and a value "
    "generated from it with up to two deliberate mistakes anywhere in it; distinct cases with an array "
    "annotation inside a container count as non-trivial."
)
NOTE = (
    "Agreement with a recursive definition of fitting, for a parameter and for the result. Symbols are "
    "left to C06, and ordinary types in Unions are left out."
)
EVERYTHING, FIRST = Options(everything=True), Options(everything=False)


def make(d, max_depth=3, opts=EVERYTHING):
    spec = HintGen(d).hint(d.int(1, max_depth))
    value = ValueGen(d, d.pick([0, 1, 1, 1, 2]), opts).value(spec)
    return dict(hint=spec, value=value, ret=d.bool(25))


def make_deep(d):
    return make(d, 5)


def check(case, opts):
    ctx = Context()
    hint = ctx.hint(case["hint"])
    value = ctx.value(case["value"])
    ran = []

    def body(args):
        ran.append(1)
        return value if case["ret"] else None

    if case["ret"]:
        func = funcs.function([funcs.param("x", int)], hint, body)
        out = call(api.typechecked(func), 5)
    else:
        func = funcs.function([funcs.param("x", hint)], None, body)
        out = call(api.typechecked(func), value)
    want = fits(case["hint"], value, ctx, opts)
    if out.kind != ("ok" if want else "TypeError"):
        raise Violation(
            f"{'returning' if case['ret'] else 'passing'} {value!r} where the hint is {hint!r}: the call {out!r}; "
            f"the value {'fits' if want else 'does not fit'}"
        )
    if len(ran) != (1 if want or case["ret"] else 0):
        raise Violation(f"passing {value!r} for {hint!r}: the body ran {len(ran)} times")
    return Note(
        has_array(case["hint"]) and case["hint"][0] != "arr", "fits" if want else "does not fit",
        f"depth {depth(case['hint'])}", case["hint"][0],
    )


def decide(case):
    return check(case, EVERYTHING)


def decide_first(case):
    return check(case, FIRST)


# ------------------------------------------- one mistake at a known position


def make_position(d):
    """ A list, sequence, tuple, dict or set of several equal elements, one of which is wrong. """
    kind = d.pick(["list", "seq", "vartuple", "dict", "set", "tuple", "tdict", "ntuple"])
    count = d.int(1, 7)
    if d.bool(12):
        count = d.pick([11, 17, 33, 65, 101, 130, 257, 300]) if kind not in ("tuple", "tdict", "ntuple") else d.pick([11, 17, 33])
    wrong = d.pick([None, count - 1] + list(range(count)) if d.bool(80) else [count // 2])
    return dict(
        kind=kind, count=count, wrong=wrong, outer=d.some(lambda: d.pick(["list", "dict", "opt", "tuple"]), 0, 2),
        how=d.pick(["shape", "dtype", "none"]), form=d.pick([None, 0, 1, 2, count]),
    )


def build_position(case):
    good, bad = ["arr", "float64", [2]], {
        "shape": ["arr", "float64", [3]], "dtype": ["arr", "int64", [2]], "none": ["none"],
    }[case["how"]]
    items = [bad if i == case["wrong"] else good for i in range(case["count"])]
    leaf = ["arr", "py:float", [2]]
    kind = case["kind"]
    if kind in ("list", "seq", "vartuple"):
        hint, value = [kind, leaf, 0], ["list" if kind != "vartuple" else "tuple", items]
    elif kind == "dict":
        hint = ["dict", ["leaf", "str"], leaf, 0]
        value = ["dict", [[["leaf", f"=k{i}"], v] for i, v in enumerate(items)]]
    elif kind == "set":
        hint, value = ["set", leaf, 0], ["set", [["harr"] + v[1:] if v[0] == "arr" else v for v in items]]
    elif kind == "tuple":
        hint, value = ["tuple", [leaf] * case["count"], 0], ["tuple", items]
    else:
        fields = [[f"f{i}", leaf] for i in range(case["count"])]
        if kind == "tdict":
            form = case.get("form")
            hint = ["tdict", "1", fields, True] + ([[form, True, []]] if form is not None else [])
            value = ["dict", [[["leaf", "=" + k], v] for (k, _), v in zip(fields, items)]]
        else:
            level = min(case.get("form") or 0, 2)
            hint, value = ["ntuple", "1", fields] + [level] * (level > 0), ["nt", "1" + "/" * level, items]
    for outer in case["outer"]:
        if outer == "list":
            hint, value = ["list", hint, 0], ["list", [value]]
        elif outer == "dict":
            hint, value = ["dict", ["leaf", "str"], hint, 0], ["dict", [[["leaf", "=k"], value]]]
        elif outer == "opt":
            hint = ["union", [hint, ["none"]], 0]
        else:
            hint, value = ["tuple", [hint, ["leaf", "Any"]], 0], ["tuple", [value, ["leaf", "int"]]]
    return dict(hint=hint, value=value, ret=False)


def decide_position(case):
    note = check(build_position(case), EVERYTHING)
    return Note(case["count"] > 1, case["kind"], *note.labels[:1])


def decide_position_first(case):
    note = check(build_position(case), FIRST)
    return Note(case["count"] > 1, case["kind"], *note.labels[:1])


# ------------------------------------------------------ several frameworks


def make_frameworks(d):
    """ Tuples and lists of arrays and tensors of all frameworks. """
    fws = [d.pick(["np", "tf", "torch"]) for _ in range(d.int(1, 4))]
    hints, values = [], []
    for fw in fws:
        pattern = gen.plain_pattern(d, max_len=2, sizes=gen.small)
        hints.append(["arr", None, pattern, fw])
        values.append(["arr", "float32", gen.near_shape(d, pattern, 75, 20), d.pick([fw] * 5 + ["np", "tf", "torch"])])
    if d.bool(30):
        return dict(hint=["list", ["union", hints, 0], 0], value=["list", values], ret=d.bool(30))
    return dict(hint=["tuple", hints, 0], value=["tuple", values], ret=d.bool(30))


SUBS = [
    Sub("hints", make, decide, 7000, 150000, size=128, batch=6),
    Sub("deep", make_deep, decide, 1500, 50000, size=400, batch=2),
    Sub("position", make_position, decide_position, 1500, 20000, size=24),
    Sub("first", lambda d: make(d, opts=FIRST), decide_first, 2500, 50000, profile="first", size=128, batch=6),
    Sub("first position", make_position, decide_position_first, 1000, 10000, profile="first", size=24),
    Sub("frameworks", make_frameworks, decide, 800, 10000, profile="both"),
]
