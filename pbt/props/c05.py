""" C05: Symbolic dimensions match iff some assignment of sizes satisfies them. """
from pbt import api, build, gen, ref
from pbt.core import Note, Sub, TooLong, Violation, within
from pbt.observe import verdict

SHARDS = {"core": 6, "both": 2}
QUICK = 1.5
RULE = (
    "A case is a pattern with expressions over one to fourteen symbols of all kinds of names (sums, differences, products, "
    "powers, halves, decimal coefficients, terms which cancel out, X // 2, X % 2, Max, Min, possibly next to sizes, -1 "
    "and an ellipsis) and a shape computed from an assignment, changed in one place, or unrelated; distinct cases in which some cut of the shape gives a system of at least "
    "one equation, and for which the oracle has an answer, count as non-trivial."
)
NOTE = (
    "Three-valued oracle: yes with a witness of positive sizes, no when exact elimination derives a "
    "contradiction over all numbers, otherwise no claim (e.g. only negative or fractional solutions). "
    "Several coupled expressions which are not linear, or round, can take sympy too long, a known finding: no claim where they do."
)


def fill(d, pattern, env, sizes=gen.small):
    """ A shape for a pattern with expressions, given an assignment. """
    res = []
    for elem in pattern:
        if isinstance(elem, list):
            value = ref.evaluate(elem, env)
            res.append(int(value) if value.denominator == 1 and 0 <= value < 10 ** 6 else sizes(d))
        elif elem == "...":
            res += d.some(lambda: gen.positive(d, sizes), 0, 2)
        else:
            res.append(gen.positive(d, sizes) if elem == -1 else elem)
    return res


def sym_pattern(d, names, max_len=4, dots=1, wild=True, depth=2, linear=False):
    """ A pattern in which most elements are expressions. """
    res = []
    for _ in range(d.int(1, max_len)):
        kind = d.pick(["e", "e", "e", "e", "n"] + (["w"] if wild else []) + ["."] * dots)
        if kind == "." and "..." in res:
            kind = "e"
        if kind == "e":
            res.append(gen.expression(d, names, depth, linear=linear))
        else:
            res.append({"n": d.int(0, 3), "w": -1, ".": "..."}[kind])
    return res


def make_system(d, **kwargs):
    names = gen.NAMES[: d.int(1, 3)]
    pattern = sym_pattern(d, names, **kwargs)
    env = gen.assignment(d, names)
    shape = fill(d, pattern, env)
    if d.bool():
        shape = gen.mutate(d, shape, 1)
    return dict(pat=pattern, shape=shape, hint=env, how=d.pick(["isinstance"] * 3 + ["argument", "return"]))


def make_linear(d):
    return make_system(d, linear=True, dots=0, wild=False)


def make_cuts(d):
    """ An ellipsis among few symbols over a tiny alphabet: only some cuts are solvable. """
    names = gen.NAMES[: d.int(1, 2)]
    pattern = sym_pattern(d, names, max_len=4, dots=0, depth=1)
    pattern = [[p, ["sym", d.pick(names)]][d.int(0, 1)] for p in pattern]
    pattern.insert(d.int(0, len(pattern)), "...")
    if len(pattern) > 2 and d.bool(30):
        where = d.int(0, len(pattern))
        if "..." not in pattern[max(0, where - 1) : where + 1]:
            pattern.insert(where, "...")
    env = gen.assignment(d, names, 1, 3)
    shape = fill(d, pattern, env) if d.bool(60) else d.some(lambda: d.int(1, 3), 0, 5)
    if d.bool(30):
        shape = gen.mutate(d, shape, 1)
    return dict(pat=pattern, shape=shape[:6], hint=env, how=d.pick(["isinstance"] * 3 + ["argument", "return"]))


ODD_NAMES = ["E", "I", "S", "N", "Q", "O", "C", "pi", "oo", "x", "lamda", "X1", "x_2", "Gamma", "zeta", "Dim", "X", "Y"]


def make_many(d):
    """ Up to six symbols, of all kinds of names, in one annotation; also differences. """
    names = d.shuffle(ODD_NAMES)[: d.int(1, 6)]
    env = gen.assignment(d, names, 1, 9)
    if d.bool(20):
        env[names[0]] = d.pick([64, 257, 1000, 4096])
    pattern = []
    for _ in range(d.int(1, 6)):
        tree = gen.expression(d, names, 1, linear=not d.bool(15))
        how = d.pick(["", "", "-n", "n-", "-e", "sum"])
        if how == "-n":
            tree = ["-", tree, d.int(1, 3)]
        elif how == "n-":
            tree = ["-", d.int(3, 12), tree]
        elif how == "-e":
            tree = ["-", tree, ["sym", d.pick(names)]]
        elif how == "sum":
            tree = ["+", tree, ["sym", d.pick(names)]]
        pattern.append(tree)
    if d.bool(30):
        pattern.insert(d.int(0, len(pattern)), d.pick([-1, 2, "..."]))
    shape = fill(d, pattern, env)
    if d.bool():
        shape = gen.mutate(d, shape, 1)
    return dict(pat=pattern, shape=shape, hint=env, how=d.pick(["isinstance"] * 3 + ["argument", "return"]))


def wide(d, low=7, high=14):
    """ Many symbols, each in one dimension or more, most of them alone or in a sum of two. """
    names = d.shuffle(ODD_NAMES + ["A", "B", "D", "a1", "batch", "height", "width"])[: d.int(low, high)]
    env = gen.assignment(d, names, 1, 3)
    pattern = []
    for name in names:
        one, other = ["sym", name], ["sym", d.pick(names)]
        pattern.append(d.pick([one, one, one, ["+", one, other], ["+", one, d.int(1, 3)], ["*", one, 2]]))
    for _ in range(d.int(0, 3)):
        pattern.append(d.pick([["sym", d.pick(names)], ["+", ["sym", d.pick(names)], ["sym", d.pick(names)]]]))
    return names, env, d.shuffle(pattern)


def make_wide(d):
    """ More symbols than in 'many', and more dimensions. """
    _, env, pattern = wide(d)
    if d.bool(20):
        pattern.insert(d.int(0, len(pattern)), "...")
    shape = fill(d, pattern, env)
    if d.bool():
        i = d.int(0, len(shape) - 1)
        shape[i] = max(1, shape[i] + d.pick([-1, 1, 1, 2]))
    return dict(pat=pattern, shape=shape, hint=env, how=d.pick(["isinstance"] * 3 + ["argument", "return"]))


def make_same(d):
    """ One polynomial written in two ways, or two which differ by a little. """
    names = gen.NAMES[: d.int(1, 2)]
    base = gen.expression(d, names, 2)
    form = d.pick(["x+0", "1*x", "x+x-x", "2x/2", "(x+1)-1"])
    other = {
        "x+0": ["+", base, 0], "1*x": ["*", base, 1], "x+x-x": ["-", ["+", base, base], base],
        "2x/2": ["/", ["*", base, 2], 2], "(x+1)-1": ["-", ["+", base, 1], 1],
    }[form]
    env = gen.assignment(d, names, 1, 4)
    value = ref.evaluate(base, env)
    value = int(value) if value.denominator == 1 else 3
    pattern = [base, other] if d.bool() else [base, -1, other]
    shape = [value] + [2] * (len(pattern) - 2) + [value + d.pick([0, 0, 1, 2])]
    return dict(pat=pattern, shape=shape, hint=env, how="isinstance")


def constant(d, names):
    """ An expression in which the symbols cancel out, so that it is a number. """
    base = gen.expression(d, names, 1)
    num = d.pick([0, 1, 2, 3, 3, 5])
    form = d.pick(["x-x+n", "n+x-x", "x*n-x*n+n", "x+n-x", "half"])
    if form == "x-x+n":
        return ["+", ["-", base, base], num]
    if form == "n+x-x":
        return ["-", ["+", num, base], base]
    if form == "x+n-x":
        return ["-", ["+", base, num], base]
    if form == "half":
        return ["+", ["-", base, base], ["/", ["-", ["+", base, num], base], 2]]
    return ["+", ["-", ["*", base, 2], ["*", 2, base]], num]


def make_constants(d):
    """ Expressions which are numbers, by themselves and among others. """
    names = gen.NAMES[: d.int(1, 2)]
    pattern = sym_pattern(d, names, max_len=2, depth=1) if d.bool(60) else []
    for _ in range(d.int(1, 2)):
        pattern.insert(d.int(0, len(pattern)), constant(d, names))
    env = gen.assignment(d, names)
    shape = fill(d, pattern, env)
    if d.bool():
        shape = gen.mutate(d, shape, 1)
    return dict(pat=pattern, shape=shape, hint=env, how=d.pick(["isinstance", "argument", "return"]))


def decimal(d, tree):
    """ The same tree with decimal fractions in it. """
    if tree[0] == "sym":
        return ["*", d.pick([0.5, 1.5, 2.0, 0.25]), tree] if d.bool(60) else tree
    return [tree[0]] + [decimal(d, t) if isinstance(t, list) else t for t in tree[1:]]


def make_decimals(d):
    """ Decimal coefficients, which binary floats represent exactly. """
    case = make_system(d, linear=True, depth=1)
    case["pat"] = [decimal(d, e) if isinstance(e, list) else e for e in case["pat"]]
    case["hint"] = {k: 4 * v for k, v in case["hint"].items()}
    case["shape"] = fill(d, case["pat"], case["hint"])
    if d.bool(40):
        case["shape"] = gen.mutate(d, case["shape"], 1)
    return case


def make_rounding(d):
    """ Expressions which round, most of whose symbols are sizes as well. """
    names = gen.NAMES[: d.int(1, 3)]
    pattern = [gen.rounding(d, names) for _ in range(d.int(1, 2))]
    for name in names:
        if d.bool(75):
            pattern.append(["**", ["sym", name], d.int(2, 4)] if d.bool(15) else ["sym", name])
    if d.bool(30):
        pattern.append(d.pick([-1, 2, gen.expression(d, names, 1, linear=d.bool(60))]))
    pattern = d.shuffle(pattern)
    if d.bool(15):
        pattern.insert(d.int(0, len(pattern)), "...")
    env = gen.assignment(d, names, 1, 9)
    shape = fill(d, pattern, env)
    if d.bool():
        shape = gen.mutate(d, shape, 1)
    return dict(pat=pattern, shape=shape, hint=env, how=d.pick(["isinstance"] * 3 + ["argument", "return"]))


def coupled(pattern):
    """ Whether two expressions or more are not linear (an upper bound). """
    def degree(tree):
        if not isinstance(tree, list):
            return 0
        if tree[0] == "sym":
            return 1
        below = [degree(t) for t in tree[1:]]
        if tree[0] == "**":
            return below[0] * tree[2]
        if tree[0] in ("//", "%", "max", "min"):
            return 2
        return sum(below) if tree[0] == "*" else max(below)

    names = set().union(*[ref.names(e) for e in pattern if isinstance(e, list)])
    return names and sum(degree(e) > 1 for e in pattern if isinstance(e, list)) > 1


def decide(case):
    fw = case.get("fw", "np")
    ann = build.annotation(fw, None, case["pat"])
    value = build.value(fw, "float32", case["shape"])
    try:
        with within(8 if coupled(case["pat"]) else 60):
            got = verdict(case["how"], value, ann)
    except TooLong as exc:
        if coupled(case["pat"]):
            return Note(False, "not solved in time")
        raise Violation(f"{case['how']}: shape {tuple(case['shape'])} against {ann!r}: {exc}") from exc
    want = ref.symbolic_match(case["pat"], case["shape"], case["hint"])
    if want != "maybe" and got != (want == "yes"):
        raise Violation(
            f"{case['how']}: shape {tuple(case['shape'])} against {ann!r} is {got}, but a solution "
            f"{'exists' if want == 'yes' else 'cannot exist'}"
        )
    equations = next(ref.alignments(case["pat"], case["shape"]), None)
    return Note(
        want != "maybe" and equations, want, case["how"],
        "cannot be cut" if equations is None else f"{min(len(equations), 4)} equations",
    )


def make_fw(d):
    return dict(make_system(d) if d.bool() else make_cuts(d), fw=d.pick(["tf", "torch"]))


# --------------------------------------------------------- known findings


def make_endless(d):
    """ Unused: this case only comes from known_findings.jsonl. """
    return dict(pat=[], shape=[])


def decide_endless(case):
    """ A system which sympy does not solve in time. """
    ann = build.annotation("np", None, case["pat"])
    try:
        with within(10):
            isinstance(build.value("np", "float32", case["shape"]), ann)
    except TooLong as exc:
        raise Violation(f"{case['shape']} against {ann!r}: {exc}") from exc
    return Note(True)


SUBS = [
    Sub("system", make_system, decide, 4000, 60000),
    Sub("linear", make_linear, decide, 2500, 40000),
    Sub("cuts", make_cuts, decide, 3000, 50000),
    Sub("constants", make_constants, decide, 2000, 30000),
    Sub("rounding", make_rounding, decide, 1200, 20000),
    Sub("decimals", make_decimals, decide, 1500, 20000),
    Sub("many", make_many, decide, 1500, 25000, size=96),
    Sub("wide", make_wide, decide, 300, 6000, size=160),
    Sub("same", make_same, decide, 1200, 10000),
    Sub("frameworks", make_fw, decide, 800, 8000, profile="both"),
    Sub("endless", make_endless, decide_endless, 0, 0),
]
