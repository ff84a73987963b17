""" C09: Shape arithmetic denotes tuple concatenation in order. """
from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.sandbox import call
from pbt.variables import Names, dim_expression, dim_names, style

SHARDS = {"core": 4}
QUICK = 5
RULE = (
    "A case is a pool of expressions joining shape variables, tuples and earlier expressions of the "
    "pool with + in any association, one to three annotations made of them (bare, unpacked, among "
    "sizes), one or two rounds of values, and shapes which fit, are permuted or changed; it is "
    "non-trivial if an expression has at least two joins of variables, or one is used twice."
)
NOTE = (
    "Agreement with concatenation of the values in writing order, for fitting and near-miss shapes. "
    "Unpacked variables inside a tuple which is then added to a variable are not covered."
)
SHAPES = ["S", "T", "U"]
DIMS = ["A", "B"]


def element(d):
    """ An element of a tuple. """
    kind = d.pick(["n", "n", "d", "e", "w", "x"])
    if kind == "d":
        return ["dim", d.pick(DIMS)]
    if kind == "e":
        return dim_expression(d, 1)
    if kind == "x":
        return ["sym", "X"]
    return d.int(0, 3) if kind == "n" else -1


def tree(d, pool, depth):
    """ An expression. """
    kinds = ["+", "shape", "+", "+", "+"] if depth else ["shape"]
    kind = d.pick(kinds + (["ref", "ref"] if pool else []) + ["tuple"])
    if kind == "ref":
        return ["ref", d.int(0, pool - 1)]
    if kind == "shape":
        return ["shape", d.pick(SHAPES)]
    if kind == "tuple":
        return ["tuple", d.some(lambda: element(d), 1 if depth else 0, 2)]
    return ["+", tree(d, pool, depth - 1), tree(d, pool, depth - 1)]


def make(d):
    pool = []
    for _ in range(d.int(1, 3)):
        pool.append(tree(d, len(pool), 3))
    anns = []
    for _ in range(d.int(1, 3)):
        parts = []
        for _ in range(d.pick([1, 1, 1, 2, 3])):
            kind = d.pick(["bare", "bare", "unpack", "elem"])
            parts.append([kind, element(d) if kind == "elem" else ["ref", d.int(0, len(pool) - 1)]])
        anns.append(dict(parts=parts, dtype=d.pick([None, "py:float"])))
    rounds = []
    for _ in range(d.int(1, 2)):
        rounds.append(dict(
            shapes={n: d.some(lambda: d.int(1, 3), 0, 3) for n in SHAPES},
            dims=gen.assignment(d, DIMS, 1, 3),
            edits=[d.pick(["none", "none", "mutate", "mutate", "reverse", "rotate"]) for _ in anns],
            seed=[d.byte() for _ in range(8)],
        ))
    return dict(pool=pool, anns=anns, rounds=rounds, early=d.bool(15), reads=d.bool(30), style=style(d))


def flat(node, pool, env):
    """ The elements an expression denotes. """
    kind = node[0]
    if kind == "ref":
        return flat(pool[node[1]], pool, env)
    if kind == "shape":
        return list(env["shapes"][node[1]])
    if kind == "tuple":
        return [put(e, env) for e in node[1]]
    return flat(node[1], pool, env) + flat(node[2], pool, env)


def put(elem, env):
    """ An element with the values of dimension variables. """
    if isinstance(elem, list) and dim_names(elem):
        value = ref.evaluate(elem, env["dims"])
        return int(value) if value.denominator == 1 and value >= 0 else None
    return elem


def construct(node, built, names):
    """ Build an expression out of the variables. """
    kind = node[0]
    if kind == "ref":
        return built[node[1]]
    if kind == "shape":
        return getattr(api.shapes, names(node[1]))
    if kind == "tuple":
        return tuple(build.elem(e, lambda n: names(n) if n in DIMS else n) for e in node[1])
    return construct(node[1], built, names) + construct(node[2], built, names)


def decide(case):
    names = Names(case.get("style", 0))

    def assign(env):
        for name, value in env["shapes"].items():
            setattr(api.shapes, names(name), tuple(value))
        for name, value in env["dims"].items():
            setattr(api.dims, names(name), value)

    first = case["rounds"][0]
    if case["early"]:
        assign(first)
    built = []
    for node in case["pool"]:
        built.append(construct(node, built, names))
    checks = []
    for ann in case["anns"]:
        items = () if ann["dtype"] is None else (float,)
        for kind, node in ann["parts"]:
            if kind == "elem":
                items += (build.elem(node, lambda n: names(n) if n in DIMS else n),)
                continue
            value = construct(node, built, names)
            # An empty tuple next to sizes, or a tuple of tuples, is no legal subscript.
            if kind == "unpack" or (isinstance(value, tuple) and (len(ann["parts"]) > 1 or not value)):
                items += (*value,)
            else:
                items += (value,)
        if not items or items == (float,):
            items += ((),)
        array_ann = build.annotate(api.Array, *items)

        @api.typechecked
        def func(x: array_ann) -> None:
            pass

        checks.append((array_ann, func))
        if case["reads"]:
            repr(array_ann), hash(array_ann)
    joined = 0
    for number, env in enumerate(case["rounds"]):
        assign(env)
        known = first if case["early"] else env
        for (array_ann, func), ann, edit in zip(checks, case["anns"], env["edits"]):
            pattern = []
            for kind, node in ann["parts"]:
                pattern += [put(node, known)] if kind == "elem" else flat(node, case["pool"], known)
            joined = max(joined, len(pattern))
            if None in pattern:
                continue
            shape = [2 if isinstance(e, list) else e if e != -1 else 1 for e in pattern]
            if edit == "reverse":
                shape = shape[::-1]
            elif edit == "rotate":
                shape = shape[1:] + shape[:1]
            elif edit == "mutate":
                shape = gen.mutate(gen.D(bytes(env["seed"])), shape)
            want = ref.symbolic_match(pattern, shape, {"X": 2})
            out = call(func, build.array(shape))
            if want != "maybe" and out.kind != ("ok" if want == "yes" else "TypeError"):
                raise Violation(
                    f"round {number}, {env['shapes']}, {env['dims']}: {array_ann!r} (now {pattern}) against "
                    f"shape {tuple(shape)} {out!r}"
                )
    joins = str(case["pool"]).count("'+'")
    refs = str(case["pool"] + case["anns"]).count("'ref'")
    return Note(joins > 1 or refs > 1, f"{min(joins, 6)} joins", "early" if case["early"] else "lazy")


# ----------------------------------------------------------------- rejected

BAD = [
    "list", "int", "str", "none", "float", "set", "dict", "(float)", "(none)", "(str)", "(ellipsis)", "(list)",
    "((int),)", "(npint)", "symbol", "array",
]


def bad_value(kind):
    """ Something which is not a shape. """
    np = build.np
    return {
        "list": [1, 2], "int": 3, "str": "abc", "none": None, "float": 2.0, "set": {1}, "dict": {1: 1},
        "(float)": (1, 2.0), "(none)": (None,), "(str)": ("a",), "(ellipsis)": (1, ...), "(list)": ([1],),
        "((int),)": ((1, 2),), "(npint)": (np.int64(2),), "symbol": api.symbols.X, "array": np.zeros(2),
    }[kind]


def make_bad(d):
    return dict(
        tree=tree(d, 0, d.int(0, 2)), bad=d.pick(BAD), side=d.pick(["left", "right"]),
        shapes={n: d.some(lambda: d.int(1, 3), 0, 2) for n in SHAPES}, dims=gen.assignment(d, DIMS, 1, 3),
    )


def has_variable(node):
    """ Whether an expression is more than a plain tuple. """
    return node[0] == "shape" or (node[0] == "+" and (has_variable(node[1]) or has_variable(node[2])))


def decide_bad(case):
    names = Names(case.get("style", 0))
    node = case["tree"]
    if not has_variable(node):
        return Note(False, "plain tuple")
    left = construct(node, [], names)
    other = bad_value(case["bad"])
    out = call(lambda: left + other if case["side"] == "right" else other + left)
    if not isinstance(out.exc, TypeError):
        raise Violation(f"{left!r} joined with {other!r} ({case['side']}) {out!r}, expected TypeError")
    # The operand is still good.
    env = case
    ann = api.Array[left]
    for name, value in env["shapes"].items():
        setattr(api.shapes, names(name), tuple(value))
    for name, value in env["dims"].items():
        setattr(api.dims, names(name), value)
    pattern = flat(node, [], env)
    if None in pattern:
        return Note(True, case["bad"])

    @api.typechecked
    def func(x: ann) -> None:
        pass

    shape = [2 if isinstance(e, list) else e if e != -1 else 1 for e in pattern]
    out = call(func, build.array(shape))
    if ref.symbolic_match(pattern, shape, {"X": 2}) == "yes" and not out.ok:
        raise Violation(f"after joining {left!r} with {other!r} failed, shape {shape} {out!r}")
    out = call(func, build.array(shape + [9]))
    if out.ok:
        raise Violation(f"after joining {left!r} with {other!r} failed, shape {shape + [9]} {out!r}")
    return Note(True, case["bad"])


SUBS = [
    Sub("join", make, decide, 5000, 100000, size=140, batch=5),
    Sub("reject", make_bad, decide_bad, 1500, 15000),
]
