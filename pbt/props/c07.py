""" C07: Checked calls always use the current values of dims and shapes. """
from typing import Dict, List, Optional, Tuple

import numpy as np

from pbt import api, build, funcs, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.sandbox import call
from pbt.variables import DIMS, SHAPES, Model, Names, annotation_items, assignment_op, dim_expression, dim_names, shape_for, style

SHARDS = {"core": 5, "both": 2}
QUICK = 5
RULE = (
    "A case is a history: assignments to dimension and shape variables, annotations written meanwhile "
    "(which use them bare, unpacked and in expressions), and calls of functions with these annotations "
    "(some of which assign variables while the body runs); it is non-trivial if some function is called "
    "under two different values of a variable it still depends on. 'attributes': attribute constraints "
    "whose values depend on the variables, through several rounds of assignments."
)
NOTE = (
    "Agreement of every call with a model of the variables (a variable written before it is set is "
    "looked up at each check, one written afterwards is its value) and the reference matcher. "
    "Expressions which evaluate to negative or fractional sizes are left out (see C08)."
)
PLACES = ["arg", "arg", "arg", "ret", "list", "dict", "optional", "tuple"]


def make(d, fws=("np",)):
    model = Model()
    ops, anns = [], []

    def assign(op):
        model.set(op)
        ops.append(op)

    def write():
        items = annotation_items(d)
        anns.append(model.read(items))
        ops.append(
            dict(op="write", items=items, fw=d.pick(fws), place=d.pick(PLACES), dtype=d.pick([None, "py:float"]))
        )

    def invoke():
        items = anns[d.int(0, len(anns) - 1)]
        during = [assignment_op(d) for _ in range(d.pick([0, 0, 0, 1, 2]))]
        before = model.pattern(items)
        for item in during:
            model.set(item)
        base = before if d.bool() else model.pattern(items)
        base = [e if not isinstance(e, list) else 1 for e in base or []]
        ops.append(
            dict(op="call", ann=anns.index(items), shape=shape_for(d, base), during=during, same=not d.bool(12))
        )

    for _ in range(d.int(0, 2)):
        assign(assignment_op(d))
    for _ in range(d.int(1, 2)):
        write()
    for name in d.shuffle(DIMS + SHAPES)[d.pick([0, 0, 0, 0, 1]) :]:
        assign(assignment_op(d, [name]))
    for _ in range(d.int(5, 14)):
        kind = d.pick(["call", "call", "call", "set", "set", "write"])
        if kind == "set":
            assign(assignment_op(d))
        elif kind == "write":
            write()
        else:
            invoke()
    return dict(ops=ops, style=style(d))


def make_frameworks(d):
    return make(d, ("np", "tf", "torch"))


def build_function(place, ann, body):
    """ A function whose parameter or result has the annotation. """
    if place == "ret":
        return api.typechecked(funcs.function([funcs.param("x", int)], ann, body))
    hint = {
        "arg": lambda: ann, "list": lambda: List[ann], "dict": lambda: Dict[str, ann],
        "optional": lambda: Optional[ann], "tuple": lambda: Tuple[int, ann],
    }[place]()
    return api.typechecked(funcs.function([funcs.param("x", hint)], None, body))


def wrap(place, value):
    """ The argument which carries a value. """
    return {"list": [value], "dict": {"k": value}, "tuple": (1, value)}.get(place, value)


def decide(case):
    names, model = Names(case.get("style", 0)), Model()
    written, history = [], []
    varied = False
    for op in case["ops"]:
        history.append(op)
        if op["op"] in ("dim", "shape"):
            names.set(op)
            model.set(op)
        elif op["op"] == "write":
            state = dict(during=[], result=None)

            def body(_, state=state):
                state["ran"] += 1
                for item in state["during"]:
                    names.set(item)
                return state["result"]

            ann = names.annotation(op["fw"], op["items"], op["dtype"])
            written.append(
                dict(op=op, items=model.read(op["items"]), state=state, seen={}, ann=ann,
                     func=build_function(op["place"], ann, body))
            )
        else:
            varied |= run(op, written[op["ann"]], model, history)
    return Note(varied, f"{len(written)} annotations", "assigned in a call" if any(
        o.get("during") for o in case["ops"]) else "no assignments in calls")


def run(op, entry, model, history):
    """ One call. Returns whether the function saw another pattern before. """
    spec = entry["op"]
    dtype = {"np": "float64", "tf": "float32", "torch": "float32"}[spec["fw"]]
    if not op["same"]:
        dtype = "int8"
    value = build.value(spec["fw"], dtype, op["shape"])
    state = entry["state"]
    state.update(during=op["during"], result=value if spec["place"] == "ret" else None, ran=0)
    out = call(entry["func"], 7 if spec["place"] == "ret" else wrap(spec["place"], value))
    before = model.pattern(entry["items"]), model.unset(entry["items"])
    for item in op["during"]:
        if state["ran"]:
            model.set(item)
    after = model.pattern(entry["items"]), model.unset(entry["items"])
    pattern, unset = after if spec["place"] == "ret" else before
    same = op["same"] or spec["dtype"] is None
    if not out.ok and not isinstance(out.exc, TypeError):
        raise Violation(f"after {history}: the call {out!r}")
    if unset:
        # C08 is about these; they must not pass, unless the Union member was not reached.
        if out.ok:
            raise Violation(f"after {history}: the call passed although {unset} were never set")
        return False
    if pattern is None or any(isinstance(e, list) for e in pattern):
        return False
    if any(a == b == "..." for a, b in zip(pattern, pattern[1:])):
        return False
    want = same and ref.match(pattern, op["shape"])
    if out.ok != want:
        raise Violation(
            f"after {history}: shape {tuple(op['shape'])}, dtype {dtype} against {entry['ann']!r}, now "
            f"{pattern}, {out!r}; expected it to {'pass' if want else 'fail'}"
        )
    key = str(pattern)
    entry["seen"][key] = entry["seen"].get(key, 0) + 1
    return len(entry["seen"]) > 1


# ------------------------------------------- expressions and mixed variables


def make_mixed(d):
    """ Dimension variables and symbols in the same expressions. """
    # The symbols "a" and "b" get the same names as the variables "A" and "B".
    names = (gen.NAMES if d.bool() else ["a", "b"])[: d.int(1, 2)]
    dims = ["A", "B"]
    pattern = []
    for _ in range(d.int(1, 3)):
        kind = d.pick(["sym", "dim", "d*s", "d+s", "s+d", "e", "sym"])
        sym, dim = ["sym", d.pick(names)], ["dim", d.pick(dims)]
        pattern.append({
            "sym": sym, "dim": dim, "d*s": ["*", dim, sym], "d+s": ["+", dim, sym],
            "s+d": ["+", ["*", sym, 2], dim], "e": ["-", ["+", sym, dim], 1],
        }[kind])
    env = gen.assignment(d, names, 1, 5)
    rounds = []
    for _ in range(d.int(1, 3)):
        values = gen.assignment(d, dims, 1, 4)
        shape = [int(ref.evaluate(e, {**env, **values})) for e in pattern]
        if d.bool(40):
            shape = gen.mutate(d, shape, 1)
        rounds.append(dict(dims=values, shape=shape))
    return dict(pat=pattern, hint=env, rounds=rounds, mention=d.bool(50), sparing=d.bool(50), style=style(d))


def decide_mixed(case):
    names = Names(case.get("style", 0))
    if case["mention"]:
        getattr(api.dims, names("A"))
    ann = names.annotation("np", case["pat"])
    used = set().union(*[dim_names(e) for e in case["pat"]])

    @api.typechecked
    def func(x: ann) -> ann:
        return x

    for step in case["rounds"]:
        for name, size in step["dims"].items():
            if case["sparing"] and name not in used:
                continue
            setattr(api.dims, names(name), size)
        pattern = [ref.put(e, step["dims"]) for e in case["pat"]]
        pattern = [e if ref.names(e) else int(ref.evaluate(e, {})) for e in map(fold, pattern)]
        want = ref.symbolic_match(pattern, step["shape"], case["hint"])
        out = call(func, build.array(step["shape"]))
        if want != "maybe" and out.kind != ("ok" if want == "yes" else "TypeError"):
            raise Violation(
                f"with dims {step['dims']}, shape {step['shape']} against {ann!r} {out!r}; expected {want}"
            )
    return Note(len(case["rounds"]) > 1, f"{len(case['rounds'])} rounds")


def fold(tree):
    """ An int where an expression has no names left. """
    if isinstance(tree, list) and not ref.names(tree):
        return int(ref.evaluate(tree, {}))
    return tree


# ------------------------------------------------- variables in attributes


class Tagged(np.ndarray):
    """ An array which can have more attributes. """


def make_attributes(d):
    """ Attributes whose values depend on variables. """
    attrs = {}
    for name in ["size_", "tag"][: d.int(1, 2)]:
        attrs[name] = d.pick([["shape", "S"], ["+shape", "S", "T"]]) if d.bool(25) else dim_expression(d)
    if d.bool(30):
        plain = dict(note=["plain", d.pick([None, "a", 3, 1.5])])
        attrs = {**plain, **attrs} if d.bool() else {**attrs, **plain}
    items = None if d.bool(40) else [["dim", d.pick(DIMS)] if d.bool() else d.pick([-1, 2, "..."])]
    values = lambda: {**{n: d.int(0, 6) for n in DIMS}, **{n: d.some(lambda: d.int(0, 3), 0, 2) for n in SHAPES}}
    rounds = []
    for _ in range(d.int(1, 4)):
        rounds.append(dict(
            values=values(), delta={n: d.int(1, 2) if d.bool(20) else 0 for n in attrs}, gone=d.bool(5),
            shape=d.some(lambda: d.int(1, 4), 0, 2) if d.bool(15) else None,
        ))
    return dict(attrs=attrs, items=items, dtype=d.pick([None, "py:float"]), rounds=rounds, place=d.pick(PLACES),
                early=[n for n in DIMS + SHAPES if d.bool(20)], style=style(d))


def decide_attributes(case):
    names = Names(case["style"])
    first = {n: case["rounds"][0]["values"][n] for n in case["early"]}

    def assign(values):
        for name, value in values.items():
            names.set(dict(op="dim" if name in DIMS else "shape", name=name, value=value))

    def now(tree, values):
        """ What the attribute should be. """
        values = {**values, **first}
        if tree[0] == "plain":
            return tree[1]
        if "shape" in tree[0]:
            return tuple(sum((values[n] for n in tree[1:]), []))
        return int(ref.evaluate(tree, values))

    def write(tree):
        if tree[0] == "plain":
            return tree[1]
        if "shape" in tree[0]:
            first_one, *rest = [getattr(api.shapes, names(n)) for n in tree[1:]]
            return sum(rest, first_one) if not rest or not isinstance(first_one, tuple) else first_one + rest[0]
        return build.expr(tree, names.rename)

    assign(first)
    attrs = {key: write(tree) for key, tree in case["attrs"].items()}
    parts = [build.dtype_arg("np", case["dtype"])] if case["dtype"] else []
    ann = build.annotate(api.Array, *parts, *(names.items(case["items"]) if case["items"] else ()), attrs)
    state = {}
    func = build_function(case["place"], ann, lambda _: state["result"])
    seen = []
    for turn, step in enumerate(case["rounds"]):
        assign(step["values"])
        wanted = {key: now(tree, step["values"]) for key, tree in case["attrs"].items()}
        pattern = None
        if case["items"]:
            pattern = [{**step["values"], **first}[e[1]] if isinstance(e, list) else e for e in case["items"]]
        shape = step["shape"]
        if shape is None:
            shape = [] if pattern is None else [1 if e == -1 else e for e in pattern if e != "..."]
        value = np.zeros(shape).view(Tagged)
        for index, (key, what) in enumerate(wanted.items()):
            if step["gone"] and index == 0:
                continue
            delta = step["delta"][key]
            if delta and case["attrs"][key][0] == "plain":
                what = "other"
            elif delta:
                what = what + (delta,) if isinstance(what, tuple) else what + delta
            setattr(value, key, what)
        want = (pattern is None or ref.match(pattern, shape)) and not step["gone"] and not any(step["delta"].values())
        state["result"] = value
        out = call(func, 7 if case["place"] == "ret" else wrap(case["place"], value))
        if out.kind != ("ok" if want else "TypeError"):
            raise Violation(
                f"call {turn} with {step['values']} against {ann!r} (read early: {first}), attributes {vars(value)}, shape {shape}: "
                f"{out!r}; the attributes should be {wanted}"
            )
        seen.append(str(wanted))
    return Note(len(set(seen)) > 1, case["place"], f"{len(seen)} rounds")


SUBS = [
    Sub("attributes", make_attributes, decide_attributes, 1200, 20000, size=96),
    Sub("history", make, decide, 5000, 100000, size=400, batch=3),
    Sub("mixed", make_mixed, decide_mixed, 600, 10000, size=64),
    Sub("frameworks", make_frameworks, decide, 800, 10000, profile="both", size=400, batch=3),
]
