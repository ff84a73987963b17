""" C01: Array shape patterns match exactly the shapes they describe. """
import itertools

from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation

SHARDS = {"core": 4}
QUICK = 6
RULE = (
    "A case is a shape pattern and an array shape, derived from the pattern (fitting, with one or "
    "two edits) or unrelated; distinct cases whose pattern has an ellipsis, a wildcard or a zero, or "
    "whose rank equals the pattern's length, count as non-trivial."
)


NOTE = (
    "Agreement with an independent table-based matcher on every generated pattern and shape; the "
    "part of the domain over {0,1,2,-1,...} up to length 4 is covered densely. Trusts numpy and the matcher."
)


class Sub2(build.np.ndarray):
    """ A subclass of ndarray. """


def verdict(ann, value):
    """ isinstance as a plain bool. """
    return isinstance(value, ann)


def decide_match(case):
    pattern, shape = case["pat"], case["shape"]
    ann = build.array_annotation(None, pattern)
    value = build.array(shape)
    if case["sub"]:
        value = value.view(Sub2)
    got = isinstance(value, ann)
    want = ref.match(pattern, shape)
    if got != want:
        raise Violation(
            f"isinstance(array of shape {tuple(shape)}, {ann!r}) is {got}, expected {want}"
        )
    return Note(
        "..." in pattern or -1 in pattern or 0 in shape or len(pattern) == len(shape),
        "match" if want else "mismatch", f"ellipses={pattern.count('...')}",
        "zero size" if 0 in shape else "no zero size",
    )


def make_match(d):
    return dict(gen.pattern_and_shape(d), sub=d.bool(10))


def make_multi(d):
    """ Patterns dominated by ellipses over a tiny alphabet: ambiguous cuts. """
    two = lambda d: d.int(1, 2)
    pattern = gen.plain_pattern(d, max_len=9, sizes=two, dots=3)
    if d.bool():
        shape = d.some(lambda: two(d), 0, 8)
    else:
        shape = gen.fitting_shape(d, pattern, two)
    return {"pat": pattern, "shape": shape, "sub": False}


def make_long(d):
    return dict(gen.long_case(d), sub=False)


VALUES = ["none", "int", "list", "tuple", "str", "npscalar", "memoryview", "object", "class"]


def decide_other(case):
    """ Values which are not arrays never match; no shape matches any array. """
    np = build.np
    kind = case["kind"]
    ann = build.array_annotation(None, case["pat"])
    if kind == "anyshape":
        got = isinstance(build.array(case["shape"]), api.Array)
        if got is not True:
            raise Violation(f"an array of shape {case['shape']} is not an instance of Array")
        return Note(True, "anyshape")
    value = {
        "none": None, "int": 3, "list": [1.0, 2.0], "tuple": tuple(case["shape"]), "str": "abc",
        "npscalar": np.float64(1.5), "memoryview": memoryview(b"abc"), "object": object(),
        "class": np.ndarray,
    }[kind]
    got = isinstance(value, ann)
    if got is not False:
        raise Violation(f"isinstance({value!r}, {ann!r}) is {got}")
    return Note(True, kind)


def make_other(d):
    return dict(gen.pattern_and_shape(d), kind=d.pick(VALUES + ["anyshape"] * 6))


# A finite part of the domain; each case is one pattern against all of the shapes.
def _patterns():
    alphabet = [0, 1, 2, -1, "..."]
    for length in range(0, 5):
        for pattern in itertools.product(alphabet, repeat=length):
            if not any(a == b == "..." for a, b in zip(pattern, pattern[1:])):
                yield list(pattern)


def _shapes():
    for length in range(0, 5):
        for shape in itertools.product([0, 1, 2], repeat=length):
            yield list(shape)


def decide_table(case):
    """ One pattern against every shape over {0, 1, 2} of rank up to 4. """
    ann = build.array_annotation(None, case["pat"])
    for shape in _shapes():
        got = isinstance(build.array(shape), ann)
        want = ref.match(case["pat"], shape)
        if got != want:
            raise Violation(
                f"isinstance(array of shape {tuple(shape)}, {ann!r}) is {got}, expected {want}"
            )
    return Note(True, f"length={len(case['pat'])}")


TABLE = []


def make_table(d):
    if not TABLE:
        TABLE.extend(_patterns())
    return {"pat": TABLE[d.int(0, len(TABLE) - 1)]}


SUBS = [
    Sub("match", make_match, decide_match, 20000, 600000),
    Sub("ambiguous", make_multi, decide_match, 12000, 400000),
    Sub("long", make_long, decide_match, 3000, 60000, size=160, batch=4),
    Sub("other", make_other, decide_other, 2000, 20000),
    Sub("table", make_table, decide_table, 400, 6000),
]
