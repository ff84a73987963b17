""" C06: A symbol has one value across all arguments and the return of a call. """
import copy
import itertools
from typing import Annotated, Dict, List, NamedTuple, Optional, Sequence, Set, Tuple, TypedDict, Union

from pbt import api, build, funcs, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.hints import HashableArray
from pbt.props.c05 import fill, wide
from pbt.sandbox import call

SHARDS = {"core": 6, "both": 2}
RULE = (
    "A case of 'call' is a signature whose parameters and result are annotated with arrays of symbolic "
    "shapes, bare or in containers, and values computed from one assignment, with up to two sizes "
    "changed; some expressions round (X // 2, X % 2, Max, Min); it is non-trivial if some symbol occurs "
    "in two different annotated places and the oracle has an answer. A case of 'nested' is a tree of "
    "calls, each with its own sizes, run by the bodies of one another, which may hand on arguments and "
    "results; it is non-trivial if two calls need different values for one symbol."
)
NOTE = (
    "Three-valued oracle on the union of the equations of a call: witness of positive sizes, exact "
    "contradiction, or no claim. Patterns have at most one ellipsis, so that each array gives one "
    "system. Symbols within Union members and patterns with several ellipses are a known finding."
)


# How arrays are held; in FIXED each has an annotation of its own.
KINDS = [
    "list", "list", "tuple", "tuple", "dict", "dict", "optional", "int", "vartuple", "sequence", "typed dict",
    "named tuple", "listdict", "dictlist", "tuplelist", "annotated", "listlist", "set",
    "dict keys",
]
# Keys of dictionaries and of **kwargs.
KEYS = ["k0", "k1", "_k", "self", "args", "func", "return", "k-1", "X"]
FIXED = ("tuple", "typed dict", "named tuple", "tuplelist", "dict keys")


def leaf(d, names, fw="np", mixed=False):
    """ An array annotation with symbols; ``mixed``: most dimensions relate two of them. """
    pattern = []
    for _ in range(d.int(1, 3)):
        kind = d.pick(["s", "m", "m", "e", "."] if mixed else ["s", "s", "s", "e", "n", "w", "."])
        if kind == "." and "..." in pattern:
            kind = "s"
        if kind == "s":
            pattern.append(["sym", d.pick(names)])
        elif kind == "m":
            one, two = (["sym", n] for n in d.shuffle(names)[:2])
            one = ["*", one, d.int(2, 3)] if d.bool(25) else ["+", one, d.int(1, 3)] if d.bool(15) else one
            pattern.append(["*" if d.bool(15) and one[0] == "sym" else "+", one, two])
        elif kind == "e" and d.bool(20):
            pattern.append(gen.rounding(d, names))
        elif kind == "e":
            pattern.append(gen.expression(d, names, 1, linear=not d.bool(25)))
        else:
            pattern.append({"n": d.int(1, 3), "w": -1, ".": "..."}[kind])
    return dict(pat=pattern, fw=fw)


def place(d, names, env, fw="np", mixed=False):
    """ An annotated parameter or result, with its value. """
    kind = d.pick(["arr"] * (30 if mixed else 6) + KINDS)
    one = leaf(d, names, fw, mixed)
    if kind == "int":
        return dict(kind="int")
    kind = "tuple" if kind == "dict keys" and fw != "np" else kind
    if kind in FIXED:
        leaves = [one] + [leaf(d, names, fw, mixed) for _ in range(d.int(0, 1))]
        return dict(kind=kind, leaves=leaves, shapes=[fill(d, x["pat"], env) for x in leaves])
    kind = "list" if kind == "set" and fw != "np" else kind
    count = 1 if kind in ("arr", "annotated") else d.int(0, 1) if kind == "optional" else d.int(0, 3)
    return dict(kind=kind, leaves=[one], shapes=[fill(d, one["pat"], env) for _ in range(count)])


def make_call(d):
    mixed = d.bool(25)
    names = gen.NAMES[: d.int(2 if mixed else 1, 3)]
    env = gen.assignment(d, names, 1, 5)
    places = [
        place(d, names, env, mixed=mixed) for _ in range(d.int(4, 7) if d.bool(10) else d.int(1, 3))
    ]
    for kind in ("args", "kwargs"):
        if d.bool(10):
            one = leaf(d, names)
            places.append(dict(
                kind=kind, leaves=[one], shapes=[fill(d, one["pat"], env) for _ in range(d.int(0, 3))],
                keys=d.int(0, 6),
            ))
    ret = place(d, names, env, mixed=mixed)
    for _ in range(d.pick([0, 0, 1, 1, 2])):
        if mixed and ret.get("shapes") and d.bool(60):
            i = d.int(0, len(ret["shapes"]) - 1)
            ret["shapes"][i] = gen.mutate(d, ret["shapes"][i], 1)
            continue
        where = d.pick(places + [ret])
        if where.get("shapes"):
            i = d.int(0, len(where["shapes"]) - 1)
            where["shapes"][i] = gen.mutate(d, where["shapes"][i], 1)
    return dict(params=places, ret=ret, hint=env)


def make_wide(d):
    """ Many symbols, spread over many parameters. """
    _, env, dims = wide(d, 5, 14)
    places = []
    if d.bool(30):
        # A long sum, whose symbols come later.
        names = (gen.NAMES + ["A", "B"])[: d.int(3, 5)]
        env = gen.assignment(d, names, 1, 3)
        long = ["sym", names[0]]
        for name in names[1:]:
            long = ["+", long, ["sym", name]]
        dims = [long] + d.shuffle([["sym", n] for n in names])
    while dims:
        count = d.int(1, 3)
        pattern, dims = dims[:count], dims[count:]
        kind = d.pick(["arr"] * 4 + ["list", "optional", "dict"])
        places.append(dict(kind=kind, leaves=[dict(pat=pattern, fw="np")], shapes=[fill(d, pattern, env)]))
    if d.bool():
        where = d.pick(places)
        i = d.int(0, len(where["shapes"][0]) - 1)
        where["shapes"][0][i] = max(1, where["shapes"][0][i] + d.pick([-1, 1, 1, 2]))
    ret = places.pop() if d.bool(70) and len(places) > 1 else dict(kind="int")
    return dict(params=places, ret=ret, hint=env)


def make_frameworks(d):
    case = make_call(d)
    for item in case["params"] + [case["ret"]]:
        for one in item.get("leaves", []):
            one["fw"] = d.pick(["np", "tf", "torch"]) if item["kind"] not in ("set", "dict keys") else "np"
    return case


def annotation(item):
    """ The annotation of a place. """
    if item["kind"] == "int":
        return int
    anns = [build.annotation(x["fw"], None, x["pat"]) for x in item["leaves"]]
    fields = {f"f{i}": a for i, a in enumerate(anns)}
    return {
        "typed dict": lambda: TypedDict("Record", fields),
        "named tuple": lambda: named(item, fields), "listdict": lambda: List[Dict[str, anns[0]]],
        "dictlist": lambda: Dict[int, List[anns[0]]],
        "tuplelist": lambda: List[Tuple[tuple(anns)]],
        "annotated": lambda: Annotated[anns[0], "note"], "listlist": lambda: List[List[anns[0]]],
        "dict keys": lambda: Dict[anns[0], anns[-1] if anns[1:] else int],
        "set": lambda: Set[anns[0]], "args": lambda: anns[0], "kwargs": lambda: anns[0],
        "arr": lambda: anns[0], "list": lambda: List[anns[0]], "tuple": lambda: Tuple[tuple(anns)],
        "dict": lambda: Dict[str, anns[0]], "optional": lambda: Optional[anns[0]],
        "vartuple": lambda: Tuple[anns[0], ...], "sequence": lambda: Sequence[anns[0]],
    }[item["kind"]]()


_NAMED = {}


def named(item, fields):
    """ The named tuple class of a place: the annotation and the value share it. """
    key = repr((item["leaves"]))
    if key not in _NAMED:
        if len(_NAMED) > 2000:
            _NAMED.clear()
        _NAMED[key] = NamedTuple("Pair", list(fields.items()))
    return _NAMED[key]


def value(item):
    """ The value of a place. """
    if item["kind"] == "int":
        return 3
    fws = [x["fw"] for x in item["leaves"]] * (1 if item["kind"] in FIXED else 10)
    arrays = [build.value(fw, "float32", s) for fw, s in zip(fws, item["shapes"])]
    kind = item["kind"]
    if kind in ("arr", "annotated"):
        return arrays[0]
    if kind == "set":
        return {a.view(HashableArray) for a in arrays}
    if kind == "dict keys":
        return {arrays[0].view(HashableArray): arrays[-1] if arrays[1:] else 3}
    if kind == "listlist":
        return [arrays[:1], [], arrays[1:]]
    if kind == "optional":
        return arrays[0] if arrays else None
    if kind in ("dict", "kwargs"):
        return dict(zip(KEYS[item.get("keys", 0) :], arrays))
    if kind == "typed dict":
        return {f"f{i}": a for i, a in enumerate(arrays)}
    if kind == "named tuple":
        return annotation(item)(*arrays)
    if kind == "listdict":
        return [{"a": a, "b": a} for a in arrays]
    if kind == "dictlist":
        return {i: [a] * i for i, a in enumerate(arrays, 1)}
    if kind == "tuplelist":
        return [tuple(arrays)]
    return arrays if kind in ("list", "sequence") else tuple(arrays)


def pairs(item):
    """ (pattern, shape) for each array in a place. """
    if item["kind"] == "int":
        return []
    leaves = item["leaves"] if item["kind"] in FIXED else item["leaves"] * len(item["shapes"])
    return [(x["pat"], s) for x, s in zip(leaves, item["shapes"])]


def joint(items, hint):
    """ Verdict for all places together. """
    equations = []
    for item in items:
        for pattern, shape in pairs(item):
            found = list(ref.alignments(pattern, shape))
            if not found:
                return "no"
            equations += found[0]
    return ref.solvable(equations, hint)


def parameters(case):
    """ The parameters of a case. """
    kinds = {"args": funcs.VAR, "kwargs": funcs.VARKW}
    return [
        funcs.param(f"p{i}", annotation(p), kinds.get(p["kind"], funcs.ANY)) for i, p in enumerate(case["params"])
    ]


def arguments(case):
    """ What to call it with. """
    args, kwargs = [], {}
    for item in case["params"]:
        if item["kind"] == "args":
            args += value(item)
        elif item["kind"] == "kwargs":
            kwargs.update(value(item))
        else:
            args.append(value(item))
    return args, kwargs


def decide_call(case):
    ran = []
    result = value(case["ret"])

    def body(_):
        ran.append(1)
        return result

    func = api.typechecked(funcs.function(parameters(case), annotation(case["ret"]), body))
    args, kwargs = arguments(case)
    out = call(func, *args, **kwargs)
    args = joint(case["params"], case["hint"])
    both = "no" if args == "no" else joint(case["params"] + [case["ret"]], case["hint"])
    if not out.ok and not isinstance(out.exc, TypeError):
        raise Violation(f"the call {out!r}")
    shown = f"call with {[pairs(p) for p in case['params']]} returning {pairs(case['ret'])} {out!r}"
    if args == "no" and (out.ok or ran):
        raise Violation(f"{shown}; body ran {len(ran)} times, but the arguments cannot agree")
    if args == "yes" and len(ran) != 1:
        raise Violation(f"{shown}; body ran {len(ran)} times, but the arguments agree")
    if both == "no" and out.ok:
        raise Violation(f"{shown}, but no assignment satisfies the whole call")
    if both == "yes" and not out.ok:
        raise Violation(f"{shown}, but {case['hint']} or another assignment satisfies the whole call")
    uses = {}
    for index, item in enumerate(case["params"] + [case["ret"]]):
        for number, (pattern, _) in enumerate(pairs(item)):
            for elem in pattern:
                if isinstance(elem, list):
                    for name in ref.names(elem):
                        uses.setdefault(name, set()).add((index, number))
    return Note(
        both != "maybe" and any(len(v) > 1 for v in uses.values()),
        f"args {args}, call {both}", f"{len(case['params'])} parameters",
        *sorted({item["kind"] for item in case["params"]}),
    )


# ------------------------------------------------------------- nested calls


FUNCS = {
    "same": ([[["sym", "X"]], [["sym", "X"]]], [["sym", "X"]]),
    "matmul": ([[["sym", "X"], ["sym", "Y"]], [["sym", "Y"], ["sym", "Z"]]], [["sym", "X"], ["sym", "Z"]]),
    "batch": ([[["sym", "X"], "..."], ["...", ["sym", "Y"]]], [["sym", "X"], ["sym", "Y"]]),
    "grow": ([[["sym", "X"]], [["+", ["sym", "X"], 1]]], [["*", ["sym", "X"], 2]]),
}


def make_node(d, depth, parent=None):
    name = parent["fn"] if parent and d.bool(40) else d.pick(sorted(FUNCS))
    params, ret = FUNCS[name]
    env = gen.assignment(d, gen.NAMES, 1, 4)
    shapes = [fill(d, p, env) for p in params] + [fill(d, ret, env)]
    if d.bool(35):
        i = d.int(0, 2)
        shapes[i] = gen.mutate(d, shapes[i], 1)
    node = dict(
        fn=name, shapes=shapes, hint=env, fail=d.bool(10),
        # What it returns: a new array, one of its arguments or what the last call returned.
        gives=d.pick(["new", "new", "new", 0, 1, "last", "last"]),
        # An argument which is one of the caller's own.
        takes=[d.int(0, 1), d.int(0, 1)] if parent and d.bool(25) else None,
    )
    if node["takes"]:
        mine, theirs = node["takes"]
        node["shapes"][mine] = parent["shapes"][theirs]
    if node["gives"] in (0, 1):
        node["shapes"][2] = node["shapes"][node["gives"]]
    node["calls"] = [make_node(d, depth - 1, node) for _ in range(d.int(0, 2))] if depth else []
    return node


def make_nested(d):
    return dict(roots=[make_node(d, 2) for _ in range(d.int(1, 3))])


class Boom(Exception):
    """ Raised by a body. """


def decide_nested(case):
    """ All calls share a few functions, which call one another and hand on what they get. """
    case = copy.deepcopy(case)
    stack = []
    seen = []

    def body(bound):
        node = stack[-1]
        given = [bound["p0"], bound["p1"]]
        last = None
        for child in node["calls"]:
            out = run(child, given)
            last = out.value if out.ok else last
        if node["fail"]:
            raise Boom
        if node["gives"] == "last" and last is not None:
            node["shapes"][2] = list(last.shape)
            return last
        return build.array(node["shapes"][2]) if node["gives"] in ("new", "last") else given[node["gives"]]

    checked = {}
    for name, (params, ret) in FUNCS.items():
        checked[name] = api.typechecked(
            funcs.function(
                [funcs.param(f"p{i}", build.annotation("np", None, p)) for i, p in enumerate(params)],
                build.annotation("np", None, ret), body, name=name,
            )
        )

    def run(node, given=None):
        stack.append(node)
        arrays = [build.array(s) for s in node["shapes"][:2]]
        if node["takes"]:
            mine, theirs = node["takes"]
            arrays[mine] = given[theirs]
        out = call(checked[node["fn"]], *arrays)
        stack.pop()
        seen.append((node, out))
        return out

    for root in case["roots"]:
        run(root)
    needs = {}
    for node, out in seen:
        params, ret = FUNCS[node["fn"]]
        items = [dict(kind="arr", leaves=[dict(pat=p)], shapes=[s]) for p, s in zip(params + [ret], node["shapes"])]
        args = joint(items[:2], node["hint"])
        want = "no" if args == "no" else joint(items, node["hint"])
        if node["fail"] and args == "yes":
            if not isinstance(out.exc, Boom):
                raise Violation(f"{node['fn']}{node['shapes']} {out!r}, but its body raised Boom")
        elif node["fail"]:
            if out.ok or (args == "no" and not isinstance(out.exc, TypeError)):
                raise Violation(f"{node['fn']}{node['shapes']} {out!r}")
        elif want != "maybe" and out.kind != ("ok" if want == "yes" else "TypeError"):
            raise Violation(f"{node['fn']}{node['shapes']} {out!r} among other calls; alone it is: {want}")
        if want == "yes":
            for name, size in node["hint"].items():
                needs.setdefault(name, set()).add(size)
    return Note(len(seen) > 1 and any(len(v) > 1 for v in needs.values()), f"{min(len(seen), 6)} calls")


# --------------------------------------------------------- known findings


def make_choice(d):
    """ Unused: these cases only come from known_findings.jsonl. """
    return dict(params=[], shapes=[], hint={})


def decide_choice(case):
    """
    Parameters are lists of alternative patterns (a Union); any choice of
    members and cuts which can be solved together makes the call legal.
    """
    anns = []
    for members in case["params"]:
        built = tuple(build.annotation("np", None, p) for p in members)
        anns.append(Union[built])
    func = api.typechecked(
        funcs.function([funcs.param(f"p{i}", a) for i, a in enumerate(anns)], None, lambda _: None)
    )
    out = call(func, *[build.array(s) for s in case["shapes"]])
    options = [
        [eqs for pattern in members for eqs in ref.alignments(pattern, shape)]
        for members, shape in zip(case["params"], case["shapes"])
    ]
    want = any(
        ref.solvable([e for part in parts for e in part], case["hint"]) == "yes"
        for parts in itertools.product(*options)
    )
    if want and not out.ok:
        raise Violation(f"call with shapes {case['shapes']} against {anns} {out!r}, although {case['hint']} fits")
    return Note(want)


SUBS = [
    Sub("choice", make_choice, decide_choice, 0, 0),
    Sub("call", make_call, decide_call, 3500, 60000, size=160, batch=4),
    Sub("wide", make_wide, decide_call, 200, 4000, size=200),
    Sub("nested", make_nested, decide_nested, 700, 12000, size=220, batch=2),
    Sub("frameworks", make_frameworks, decide_call, 800, 10000, profile="both", size=160, batch=4),
]
