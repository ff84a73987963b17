""" C08: Unset or invalid dims and shapes never let a check pass silently. """
from typing import Dict, List, Optional, Sequence, Tuple

from pbt import api, build, funcs, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.sandbox import call
from pbt.variables import DIMS, SHAPES, Names, annotation_items, depends, dim_expression, dim_names, is_shape, style

SHARDS = {"core": 4}
QUICK = 7
RULE = (
    "A case is an annotation which uses a variable that was never set with a value and a place for it; "
    "a sequence of valid and invalid assignments with a checked call after each; or a dimension "
    "expression with sizes for which it is fractional or divides by zero; in 'attributes' the variable is "
    "used by an attribute constraint. Distinct cases count as non-trivial if the "
    "annotation is in a container or has an expression, the sequence has an invalid assignment after a "
    "valid one, or the expression is really fractional."
)
NOTE = (
    "Every such call must raise TypeError (naming the variable, outside of Unions), whatever the value; "
    "after a rejected assignment, calls must agree with the last valid value."
)

# ---------------------------------------------------------------- never set


def make_unset(d):
    items = annotation_items(d)
    used = set()
    for item in items:
        used |= {item[1]} if is_shape(item) else dim_names(item) if isinstance(item, list) else set()
    if not used:
        used = {"S"}
        items.append(["shape", "S", "bare"])
    unset = [n for n in sorted(used) if d.bool(60)] or [sorted(used)[0]]
    values = {
        n: d.int(1, 3) if n in DIMS else d.some(lambda: d.int(1, 3), 0, 2) for n in sorted(used - set(unset))
    }
    # Variables set early may cancel the others out, as in (X - 1) * Y.
    early = d.bool(30) and all(
        depends(ref.put(item, values), name)
        for item in items if isinstance(item, list) and not is_shape(item)
        for name in dim_names(item) & set(unset)
    )
    group = d.pick([None, None, None, "tuple", "tuple", "sum"])
    if group == "sum":
        items = [-1 if e == "..." else e for e in items]
    start = d.int(0, len(items) - 1)
    return dict(
        items=items, unset=unset, values=values, early=early, group=group, span=[start, d.int(start + 1, len(items))],
        style=style(d),
        place=d.pick(["arg", "arg", "ret", "list", "dict", "optional", "tuple", "sequence", "second"]),
        value=d.pick(["array", "array", "array", "none", "float", "list"]),
        shape=d.some(lambda: d.int(0, 3), 0, 3),
    )


def grouped(case, names):
    """ The annotation: its items one by one, some of them in a tuple of their own, or joined with +. """
    items, group = case["items"], case["group"]
    if group == "sum":
        total = ()
        for item in items:
            total = total + (getattr(api.shapes, names(item[1])) if is_shape(item) else names.items([item]))
        return api.Array[total]
    if group == "tuple":
        start, end = case["span"]
        inner = names.items(items[start:end])
        if inner:
            return build.annotate(api.Array, *names.items(items[:start]), inner, *names.items(items[end:]))
    return names.annotation("np", items)


def decide_unset(case):
    names = Names(case.get("style", 0))

    def assign():
        for name, value in case["values"].items():
            names.set(dict(op="dim" if name in DIMS else "shape", name=name, value=value))

    if case["early"]:
        assign()
    ann = grouped(case, names)
    if not case["early"]:
        assign()
    value = {
        "array": build.array(case["shape"]), "none": None, "float": 1.5, "list": [1, 2],
    }[case["value"]]
    place, ran = case["place"], []
    if place == "optional" and value is None:
        return Note(False, "None for Optional")

    def body(_):
        ran.append(1)
        return value

    if place == "ret":
        func, args = funcs.function([funcs.param("x", int)], ann, body), [3]
    elif place == "second":
        params = [funcs.param("x", api.Array), funcs.param("y", ann)]
        func, args = funcs.function(params, None, body), [build.array([2]), value]
    else:
        hint, arg = {
            "arg": lambda: (ann, value), "list": lambda: (List[ann], [value]),
            "dict": lambda: (Dict[str, ann], {"k": value}), "optional": lambda: (Optional[ann], value),
            "tuple": lambda: (Tuple[int, ann], (1, value)), "sequence": lambda: (Sequence[ann], (value,)),
        }[place]()
        func, args = funcs.function([funcs.param("x", hint)], None, body), [arg]
    func = api.typechecked(func)
    for attempt in range(2):
        ran.clear()
        out = call(func, *args)
        if not isinstance(out.exc, TypeError):
            raise Violation(f"call {attempt} against {ann!r} ({place}) {out!r}; {case['unset']} were never set")
        if place != "optional" and not any(names(n) in str(out.exc) for n in case["unset"]):
            raise Violation(f"the error names none of {case['unset']} ({names('')}...): {out.exc}")
        if len(ran) != (1 if place == "ret" else 0):
            raise Violation(f"the body ran {len(ran)} times ({place})")
    # Once they are set, the annotation is as good as any other.
    for name in case["unset"]:
        names.set(dict(op="dim" if name in DIMS else "shape", name=name, value=1 if name in DIMS else [1]))
    values = {**case["values"], **{n: 1 if n in DIMS else [1] for n in case["unset"]}}
    pattern = []
    for item in case["items"]:
        if is_shape(item):
            pattern += values[item[1]]
        elif isinstance(item, list):
            size = ref.evaluate(item, values)
            if size.denominator != 1 or size < 0:
                return Note(True, place)
            pattern.append(int(size))
        else:
            pattern.append(item)
    out = call(func, *args)
    want = case["value"] == "array" and ref.match(pattern, case["shape"])
    if out.kind != ("ok" if want else "TypeError"):
        raise Violation(f"once all variables were set, a call against {ann!r}, now {pattern}, {out!r}")
    return Note(place not in ("arg", "ret") or len(case["items"]) > 1, place, case["value"])


# ------------------------------------------------------- invalid assignments

BAD_DIMS = ["float", "whole float", "str", "none", "list", "tuple", "npint", "symbol", "array", "ellipsis", "complex"]
BAD_SHAPES = [
    "list", "int", "none", "str", "float", "set", "array", "symbol", "(float)", "(none)", "(str)", "(int,float)",
    "((int),)", "(symbol)", "(ellipsis)", "(npint)", "(list)", "dict", "generator",
]


def bad_value(kind):
    """ Something which is not a legal value. """
    np = build.np
    return {
        "float": lambda: 2.5, "whole float": lambda: 2.0, "str": lambda: "3", "none": lambda: None,
        "list": lambda: [2, 3], "tuple": lambda: (2,), "npint": lambda: np.int64(3), "set": lambda: {2},
        "symbol": lambda: api.symbols.X, "array": lambda: np.zeros(2, int), "ellipsis": lambda: ...,
        "complex": lambda: 2j, "int": lambda: 3, "(float)": lambda: (2.0,), "(none)": lambda: (None,),
        "(str)": lambda: ("2",), "(int,float)": lambda: (1, 2, 3.0), "((int),)": lambda: ((1, 2),),
        "(symbol)": lambda: (1, api.symbols.X), "(ellipsis)": lambda: (1, ...), "(npint)": lambda: (np.int64(2),),
        "(list)": lambda: ([1],), "dict": lambda: {1: 2}, "generator": lambda: (i for i in (1, 2)),
    }[kind]()


def make_assign(d):
    ops = []
    for _ in range(d.int(1, 7)):
        name = d.pick(["A", "S"])
        if d.bool():
            ops.append(dict(name=name, bad=d.pick(BAD_DIMS if name == "A" else BAD_SHAPES)))
        else:
            value = d.pick([1, 2, 3, 0]) if name == "A" else d.some(lambda: d.int(0, 3), 0, 3)
            ops.append(dict(name=name, value=value))
    return dict(ops=ops, style=style(d))


def decide_assign(case):
    names = Names(case.get("style", 0))
    dim_ann = names.annotation("np", [["dim", "A"]])
    shape_ann = names.annotation("np", [["shape", "S", "bare"]])

    @api.typechecked
    def dim_func(x: dim_ann) -> None:
        pass

    @api.typechecked
    def shape_func(x: shape_ann) -> None:
        pass

    now = {}
    useful = False
    for op in case["ops"]:
        name = op["name"]
        owner = api.dims if name == "A" else api.shapes
        if "bad" in op:
            out = call(setattr, owner, names(name), bad_value(op["bad"]))
            if not isinstance(out.exc, TypeError):
                raise Violation(f"assigning {bad_value(op['bad'])!r} to {name} {out!r}, expected TypeError")
            useful |= bool(now)
        else:
            names.set(dict(op="dim" if name == "A" else "shape", name=name, value=op["value"]))
            now[name] = op["value"]
        for func, key in ((dim_func, "A"), (shape_func, "S")):
            shape = None if key not in now else [now[key]] if key == "A" else now[key]
            for trial in ([shape] if shape is not None else []) + [[5, 5], [9]]:
                out = call(func, build.array(trial))
                want = trial == shape
                if out.kind != ("ok" if want else "TypeError"):
                    raise Violation(f"after {case['ops']} ({now} in force), shape {trial} for {key} {out!r}")
            if key in now:
                read = getattr(api.dims if key == "A" else api.shapes, names(key))
                if read != (now[key] if key == "A" else tuple(now[key])):
                    raise Violation(f"{key} reads as {read!r} after {case['ops']}")
    return Note(useful, f"{len(case['ops'])} assignments")


# --------------------------------------------------------------- fractional


def make_fraction(d):
    if d.bool(25):
        return make_ratio(d)
    base = dim_expression(d, 1)
    if ref.names(base) == set():
        base = ["dim", "A"]
    tree = ["/", base, d.int(2, 3)] if d.bool(60) else ["*", base, d.pick([0.5, 1.5, 0.25, 2.5])]
    wrap = d.pick(["", "", "+", "*"])
    if wrap == "+":
        tree = ["+", tree, d.int(1, 2)]
    elif wrap == "*":
        tree = ["*", tree, ["dim", d.pick(DIMS)]]
    env = gen.assignment(d, DIMS, 1, 6)
    value = ref.evaluate(tree, env)
    size = int(value) if value.denominator == 1 and value >= 0 else d.pick([int(abs(value)), 1, 2])
    return dict(
        tree=tree, env=env, where=d.pick(["only", "first", "last", "dots"]), size=size + d.pick([0, 0, 0, 1]),
        place=d.pick(["arg", "arg", "ret", "list", "optional"]), value=d.pick(["array", "array", "array", "none"]),
    )


def make_ratio(d):
    """ One variable, or what is left of it, divides others; it may be zero. """
    over = d.pick(DIMS)
    names = [n for n in DIMS if n != over]
    base = dim_expression(d, d.int(0, 1), names)
    divisor = ["dim", over] if d.bool(60) else ["-", ["dim", over], d.int(1, 2)]
    tree = ["/", base, divisor]
    wrap = d.pick(["", "", "+", "*", "sym", "+sym"])
    if wrap == "+":
        tree = ["+", tree, d.int(1, 2)]
    elif wrap == "*":
        tree = ["*", tree, ["dim", d.pick(names)]]
    elif wrap:
        tree = [wrap[0] if wrap == "+sym" else "*", ["sym", "X"], tree]
    env = gen.assignment(d, DIMS, 1, 6)
    env[over] = d.pick([0, 1, 2, 3]) if divisor[0] == "dim" else d.pick([divisor[2], divisor[2], 3, 4])
    value = size_of(tree, env)
    size = int(value) if value not in (None, "maybe") and value.denominator == 1 and value >= 0 else d.pick([0, 1, 2])
    return dict(
        tree=tree, env=env, where=d.pick(["only", "first", "last", "dots"]), size=size + d.pick([0, 0, 0, 1]),
        place=d.pick(["arg", "arg", "ret", "list", "optional"]), value=d.pick(["array", "array", "array", "none"]),
    )


def size_of(tree, env):
    """ The value of an expression; None if a number other than zero is divided by zero; "maybe" where that depends. """
    try:
        return ref.evaluate(tree, env)
    except KeyError:
        # With a symbol, only a division by zero is sure to be wrong.
        inner = next(t for t in tree[1:] if t != ["sym", "X"])
        return None if size_of(inner, env) is None else "maybe"
    except ZeroDivisionError:
        ratio = tree if tree[0] == "/" else next(t for t in tree[1:] if isinstance(t, list) and t[0] == "/")
        factor = 1 if tree is ratio or tree[0] != "*" else next(t for t in tree[1:] if t is not ratio)
        zeros = ref.evaluate(ratio[1], env) == 0 or (factor != ["sym", "X"] and ref.evaluate(factor, env) == 0)
        return "maybe" if zeros or min(env[n] for n in ref.names(ratio[1])) == 0 else None


def decide_fraction(case):
    names = Names(case.get("style", 0))
    tree = case["tree"]
    where = {"only": [tree], "first": [tree, 2], "last": [-1, tree], "dots": ["...", tree]}[case["where"]]
    shape = {"only": [], "first": [], "last": [2], "dots": [3, 1]}[case["where"]] + [case["size"]]
    shape += [2] if case["where"] == "first" else []
    ann = names.annotation("np", where)
    for name, size in case["env"].items():
        setattr(api.dims, names(name), size)
    value = build.array(shape) if case["value"] == "array" else None
    if case["place"] == "optional" and value is None:
        return Note(False, "None for Optional")
    if case["place"] == "ret":
        func = funcs.function([], ann, lambda _: value)
    else:
        hint = {"arg": ann, "list": List[ann], "optional": Optional[ann]}[case["place"]]
        func = funcs.function([funcs.param("x", hint)], None, lambda _: None)
    args = [] if case["place"] == "ret" else [[value] if case["place"] == "list" else value]
    out = call(api.typechecked(func), *args)
    size = size_of(tree, case["env"])
    if size == "maybe":
        return Note(False, "unknown")
    if size is None or size.denominator != 1:
        if not isinstance(out.exc, TypeError):
            raise Violation(f"{ann!r} with {case['env']}, where a dimension is {size}: the call {out!r}")
        return Note(True, "divided by zero" if size is None else "fractional", case["place"])
    if size == -1 or "." in repr(tree):
        # A float which is whole, e.g. 2.0, is not claimed to be either an integer or none.
        return Note(False, "wildcard" if size == -1 else "whole float")
    pattern = [int(size) if e is tree else e for e in where]
    want = value is not None and ref.match(pattern, shape)
    if out.kind != ("ok" if want else "TypeError"):
        raise Violation(f"{ann!r} with {case['env']}, that is {pattern}: shape {shape} {out!r}")
    return Note(False, "whole")


# ------------------------------------------------------------ many variables


def make_wide(d):
    count = d.int(3, 9)
    values = [d.int(1, 4) for _ in range(count)]
    return dict(
        values=values, unset=d.int(0, count - 1), order=d.shuffle(list(range(count))), style=style(d),
        how=d.pick(["sum", "sum", "product", "dims"]), off=d.pick([0, 0, 1, -1]),
    )


def decide_wide(case):
    """ However many variables there are, all of them must be set, and all count. """
    names = Names(case["style"])
    keys = [names(f"A{i}") for i in range(len(case["values"]))]
    symbols = [getattr(api.dims, k) for k in keys]
    order, values = case["order"], case["values"]
    if case["how"] == "dims":
        ann = build.annotate(api.Array, *[symbols[i] for i in order])
        shape = [values[i] for i in order]
        shape[-1] += case["off"]
    else:
        total, size = symbols[order[0]], values[order[0]]
        for i in order[1:]:
            total, size = (total + symbols[i], size + values[i]) if case["how"] == "sum" else (total * symbols[i], size * values[i])
        ann = build.annotate(api.Array, total)
        shape = [size + case["off"]]
    value = build.array(shape)
    func = api.typechecked(funcs.function([funcs.param("x", ann)], int, lambda bound: 1))
    for i in order:
        if i != case["unset"]:
            setattr(api.dims, keys[i], values[i])
    out = call(func, value)
    if out.kind != "TypeError" or keys[case["unset"]] not in str(out.exc):
        raise Violation(f"{ann!r} against shape {shape} with {keys[case['unset']]} not set: {out!r}")
    setattr(api.dims, keys[case["unset"]], values[case["unset"]])
    out = call(func, value)
    if out.kind != ("TypeError" if case["off"] else "ok"):
        raise Violation(f"{ann!r} with all of {dict(zip(keys, values))} set against shape {shape}: {out!r}")
    return Note(len(values) > 4, case["how"])


# ------------------------------------------------- variables in attributes


class Tagged(build.np.ndarray):
    """ An array which can have more attributes. """


def make_attributes(d):
    """ An attribute whose value depends on a variable which was never set. """
    while True:
        tree = ["shape", d.pick(SHAPES)] if d.bool(25) else dim_expression(d)
        used = [tree[1]] if tree[0] == "shape" else [n for n in DIMS if n in dim_names(tree) and depends(tree, n)]
        if used:
            break
    unset = [n for n in used if d.bool(60)] or used[:1]
    return dict(
        tree=tree, unset=unset, values={n: d.int(1, 4) for n in used if n not in unset}, pat=None if d.bool() else d.pick([[-1], ["..."], [2]]),
        attr=d.pick([0, 1, 2, 3, 5, -1, 2.5, None, "X", True, [], [1, 2]]), has=d.bool(85), other=d.bool(30),
        place=d.pick(["arg", "ret", "list", "dict", "optional", "tuple"]), dtype=d.pick([None, "py:float"]), style=style(d),
    )


def decide_attributes(case):
    names = Names(case["style"])
    tree = case["tree"]
    value = getattr(api.shapes, names(tree[1])) if tree[0] == "shape" else build.expr(tree, names.rename)
    attrs = {"one": value, "two": 3} if case["other"] else {"one": value}
    parts = [build.dtype_arg("np", case["dtype"])] if case["dtype"] else []
    ann = build.annotate(api.Array, *parts, *(build.pattern(case["pat"]) if case["pat"] else ()), attrs)
    for name, size in case["values"].items():
        setattr(api.dims, names(name), size)
    array = build.np.zeros(2).view(Tagged)
    array.two = 3
    if case["has"]:
        array.one = tuple(case["attr"]) if isinstance(case["attr"], list) else case["attr"]
    hint, arg = {
        "arg": lambda: (ann, array), "list": lambda: (List[ann], [array]), "ret": lambda: (ann, array),
        "dict": lambda: (Dict[str, ann], {"k": array}), "optional": lambda: (Optional[ann], array),
        "tuple": lambda: (Tuple[int, ann], (1, array)),
    }[case["place"]]()
    if case["place"] == "ret":
        func, args = funcs.function([], ann, lambda _: array), []
    else:
        func, args = funcs.function([funcs.param("x", hint)], None, lambda _: None), [arg]
    for attempt in range(2):
        out = call(api.typechecked(func), *args)
        if not isinstance(out.exc, TypeError):
            raise Violation(f"call {attempt} against {ann!r} ({case['place']}), attributes {vars(array)}: {out!r}; {case['unset']} were never set")
        if case["place"] != "optional" and not any(names(n) in str(out.exc) for n in case["unset"]):
            raise Violation(f"the error names none of {case['unset']} ({names('')}...): {out.exc}")
    return Note(True, case["place"], "shape" if tree[0] == "shape" else "dim")


SUBS = [
    Sub("attributes", make_attributes, decide_attributes, 800, 15000, size=64),
    Sub("wide", make_wide, decide_wide, 600, 12000),
    Sub("unset", make_unset, decide_unset, 4000, 60000),
    Sub("assign", make_assign, decide_assign, 1500, 20000),
    Sub("fraction", make_fraction, decide_fraction, 2500, 40000),
]
