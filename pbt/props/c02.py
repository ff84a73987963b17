""" C02: Array dtype matching is exact, and joins with the shape by conjunction. """
import numpy as np

from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation

SHARDS = {"core": 4}
QUICK = 8
RULE = (
    "A case is a dtype argument (or none), a shape pattern (or none) and an array's dtype and shape, "
    "drawn to agree, nearly agree (same kind, width, byte order or unit differs) or not; cases with "
    "a dtype argument count as non-trivial when distinct. 'pairs' takes one argument against every "
    "dtype of a fixed list, over three shapes; 'extension' has dtypes which are not numpy's own (bfloat16, int4)."
)
NOTE = (
    "Agreement with an independent definition of 'same dtype' (numpy's type string and byte order) "
    "joined with the reference shape matcher. Structured dtypes and np.str_/np.bytes_ arguments are "
    "outside the domain. Trusts numpy."
)


def check(arg, pattern, dtype, shape, wrapper=None):
    ann = build.annotation("np", arg, pattern)
    value = build.array(shape, dtype)
    if wrapper == "real":
        value = np.array(value)
    elif wrapper == "fortran":
        value = np.asfortranarray(value)
    elif wrapper == "masked":
        value = np.ma.masked_array(value)
    got = isinstance(value, ann)
    same = build.dtype_matches("np", arg, dtype)
    fits = pattern is None or ref.match(pattern, list(value.shape))
    if got != (same and fits):
        raise Violation(
            f"isinstance(array of dtype {value.dtype.str} and shape {value.shape}, {ann!r} "
            f"from dtype argument {arg}) is {got}: dtype matches: {same}, shape matches: {fits}"
        )
    return same, fits


def make_match(d):
    arg = gen.np_dtype_arg(d) if not d.bool(10) else None
    pattern = None if d.bool(25) else gen.plain_pattern(d, max_len=4)
    shape = (
        d.some(lambda: gen.size(d), 0, 3) if pattern is None else gen.near_shape(d, pattern, 70, 20)
    )
    return dict(
        arg=arg, pat=pattern, dtype=gen.near_dtype(d, arg), shape=shape,
        wrap=d.pick([None, None, None, "real", "fortran", "masked"]),
    )


def decide_match(case):
    wrap = case["wrap"]
    if wrap and np.prod([s or 1 for s in case["shape"]], dtype=float) > 10000:
        wrap = None
    same, fits = check(case["arg"], case["pat"], case["dtype"], case["shape"], wrap)
    return Note(
        case["arg"] is not None, f"dtype {'same' if same else 'differs'}",
        f"shape {'fits' if fits else 'differs'}", "empty" if 0 in case["shape"] else "non-empty",
    )


def make_pairs(d):
    return dict(arg=gen.np_dtype_arg(d))


def decide_pairs(case):
    for dtype in gen.NP_NATIVE + gen.NP_OTHER:
        for shape in ([], [0], [2, 3]):
            check(case["arg"], None, dtype, shape)
    return Note(True, case["arg"].split(":")[0])


def make_conversion(d):
    """ Arrays made the way users make them. """
    return dict(arg="py:" + d.pick(gen.PY_TYPES), items=d.int(0, 3), source=d.pick(
        ["zeros", "astype", "array", "arange", "view", "newbyteorder", "scalar"]))


def decide_conversion(case):
    name = case["arg"].split(":")[1]
    example = gen.PY_EXAMPLES[name]
    base = np.zeros((case["items"],), np.dtype(example))
    source = case["source"]
    if source == "astype":
        value = np.zeros((case["items"],)).astype(np.dtype("O")).astype("O")
    elif source == "array":
        content = {"float": 1.5, "int": 2, "bool": True, "complex": 1j, "str": "ab",
                   "bytes": b"ab"}.get(name)
        value = np.array([content] * (case["items"] + 1))
    elif source == "arange":
        value = np.arange(case["items"])
    elif source == "view" and base.dtype.itemsize == 8 and base.dtype.kind != "O":
        value = base.view("uint64")
    elif source == "newbyteorder" and base.dtype.kind in "iufc":
        value = base.astype(base.dtype.newbyteorder())
    elif source == "scalar":
        value = np.array(base.dtype.type(0)) if base.dtype.kind in "iufcb" else base
    else:
        value = base
    ann = build.annotation("np", case["arg"])
    got = isinstance(value, ann)
    want = build.dtype_matches("np", case["arg"], value.dtype)
    if got != want:
        raise Violation(f"isinstance(array of dtype {value.dtype.str}, {ann!r}) is {got}")
    return Note(True, source, "match" if want else "mismatch")


# ------------------------------------------- dtypes which extend numpy's own

EXTENSIONS = ["bfloat16", "float8_e4m3fn", "float8_e5m2", "float8_e4m3b11fnuz", "int4", "uint4"]
PLAIN = ["float16", "float32", "int8", "uint8", "int16", "uint16", "V1", "V2", "S1", "bool", "object"]


def named_dtype(name):
    """ By name, numpy's or of the package ml_dtypes (a dependency of TensorFlow). """
    if name in EXTENSIONS:
        import ml_dtypes

        return np.dtype(getattr(ml_dtypes, name))
    return np.dtype(name)


def make_extension(d):
    """ One of them against another, or one of numpy's of the same width. """
    names = EXTENSIONS * 2 + PLAIN
    arg = d.pick(names)
    pattern = None if d.bool(30) else gen.plain_pattern(d, max_len=3)
    shape = d.some(lambda: gen.size(d), 0, 3) if pattern is None else gen.near_shape(d, pattern, 80, 20)
    return dict(arg=arg, dtype=arg if d.bool(40) else d.pick(names), how=d.pick(["dtype", "type", "tuple"]), pat=pattern, shape=shape)


def decide_extension(case):
    arg, dtype, how = named_dtype(case["arg"]), named_dtype(case["dtype"]), case["how"]
    fits = case["pat"] is None or ref.match(case["pat"], case["shape"])
    same = case["arg"] == case["dtype"]
    value = build.array(case["shape"], dtype)
    what = arg.type if how == "type" and case["arg"] in EXTENSIONS else arg
    if case["pat"] is None:
        ann = api.Array[what]
    else:
        pattern = build.pattern(case["pat"])
        ann = api.Array[what, pattern] if how == "tuple" and pattern else api.Array[(what, *(pattern or ((),)))]
    got = isinstance(value, ann)
    if got != (same and fits):
        raise Violation(
            f"isinstance(array of dtype {case['dtype']} and shape {value.shape}, {ann!r}) is {got}: "
            f"dtype matches: {same}, shape matches: {fits}"
        )
    return Note(True, "same" if same else "differs", "fits" if fits else "shape differs")


SUBS = [
    Sub("match", make_match, decide_match, 24000, 600000),
    Sub("pairs", make_pairs, decide_pairs, 400, 4000, size=8),
    Sub("extension", make_extension, decide_extension, 300, 8000, size=64),
    Sub("sources", make_conversion, decide_conversion, 800, 8000, size=8),
]
