""" C25: Scalar matches exactly the scalars of every framework and of Python. """
import collections
import datetime
import decimal
import enum
import fractions

import numpy as np

from pbt import api, build, gen
from pbt.core import Note, Sub, Violation
from pbt.observe import verdict
from pbt.props.c20 import check
from pbt.sandbox import show

SHARDS = {"core": 2, "tf": 1, "torch": 1, "both": 2, "nonasta": 1}
QUICK = 5
RULE = (
    "'values': a value made from drawn numbers, texts, types (also subclasses made for the case), or an "
    "array or tensor of any dtype and rank, against Scalar; 'dims': an annotation whose only dimension is "
    "Scalar or (), in one of several spellings, against an array or tensor of any rank. Distinct cases "
    "count as non-trivial if the value is a scalar, is 0-d or has one element, or looks like a scalar."
)
NOTE = (
    "Oracle: rank 0 for arrays and tensors; for other values, an instance of bool, int, float, complex, "
    "bytes, str, datetime or timedelta. numpy's own scalars count only where they are instances of those "
    "(np.float64, np.complex128, np.str_, np.bytes_)."
)
PYTHON = (bool, int, float, complex, bytes, str, datetime.datetime, datetime.timedelta)
MAKERS = {
    "bool": lambda n: bool(n % 2), "int": lambda n: n, "huge": lambda n: n * 10 ** 40, "float": lambda n: n / 7,
    "nan": lambda n: float("nan"), "inf": lambda n: float("inf"), "complex": lambda n: complex(n, 1),
    "bytes": lambda n: b"x" * (n % 5), "str": lambda n: "y" * (n % 5), "datetime": lambda n: datetime.datetime(2000, 1, 1) + datetime.timedelta(n),
    "timedelta": lambda n: datetime.timedelta(n),
    # Not scalars.
    "date": lambda n: datetime.date(2000, 1, 1), "time": lambda n: datetime.time(1), "timezone": lambda n: datetime.timezone.utc,
    "None": lambda n: None, "ellipsis": lambda n: ..., "list": lambda n: [n], "tuple": lambda n: (), "dict": lambda n: {},
    "set": lambda n: {n}, "bytearray": lambda n: bytearray(n % 5), "memoryview": lambda n: memoryview(b"x"),
    "Decimal": decimal.Decimal, "Fraction": fractions.Fraction, "range": range, "object": lambda n: object(),
    "type": lambda n: [int, float, str, bool, np.ndarray][n % 5], "function": lambda n: len, "array like": lambda n: Like(()),
    "slice": slice, "npdtype": lambda n: np.dtype("float64"), "shape": lambda n: np.zeros(n % 3).shape,
    "symbol": lambda n: api.symbols.X, "number": lambda n: api.symbols.X - api.symbols.X + n,
    "Scalar": lambda n: api.Scalar, "Array": lambda n: api.Array[()],
}
NUMPY_SCALARS = [
    "bool_", "int8", "int16", "int32", "int64", "uint8", "uint64", "float16", "float32", "float64", "longdouble",
    "complex64", "complex128", "str_", "bytes_", "datetime64", "timedelta64", "void",
]


class Like:
    """ Looks like an array. """

    def __init__(self, shape):
        self.shape = shape
        self.dtype = np.dtype("float64")
        self.ndim = len(shape)


class Sized(np.ndarray):
    """ A subclass of arrays. """


def make_value(d, frameworks):
    """ A value. """
    kind = d.pick(["py", "py", "sub", "np", "enum", "arr", "arr", "arr", "odd"])
    if kind in ("py", "sub"):
        name = d.pick(sorted(MAKERS)) if kind == "py" else d.pick(["int", "float", "complex", "bytes", "str", "datetime", "timedelta", "list", "tuple", "dict", "date"])
        return dict(kind=kind, name=name, n=d.int(0, 300), levels=d.int(1, 3))
    if kind == "np":
        return dict(kind=kind, name=d.pick(NUMPY_SCALARS), n=d.int(0, 100))
    if kind == "enum":
        return dict(kind=kind, name=d.pick(["Enum", "IntEnum", "StrEnum", "IntFlag"]), n=d.int(0, 3))
    if kind == "odd":
        return dict(
            kind=kind, name=d.pick(["subclass", "structured", "masked", "matrix", "recarray", "item", "masked constant"]),
            shape=d.some(lambda: d.int(0, 2), 0, 3) if d.bool() else [],
        )
    fw = d.pick(frameworks)
    return dict(
        kind=kind, fw=fw, dtype=gen.value_dtype(d, fw), symbolic=fw == "tf" and d.bool(20),
        shape=[] if d.bool(40) else d.some(lambda: d.pick([1, 1, 0, 2, 3]), 1, 4),
    )


def make(frameworks):
    """ Cases of 'values'. """
    return lambda d: make_value(d, frameworks)


def value_and_truth(case):
    """ The value, and whether it is a scalar. """
    kind = case["kind"]
    if kind == "arr" and case.get("symbolic"):
        return build.symbolic(case["dtype"], case["shape"]), not case["shape"]
    if kind == "arr":
        return build.value(case["fw"], case["dtype"], case["shape"]), not case["shape"]
    if kind == "odd":
        shape, name = tuple(case["shape"]), case["name"]
        if name == "subclass":
            value = np.zeros(shape).view(Sized)
        elif name == "structured":
            value = np.zeros(shape, [("a", "i4"), ("b", "f8")])
        elif name == "masked":
            value = np.ma.masked_array(np.zeros(shape))
        elif name == "matrix":
            value = np.matrix([[1.0]])
        elif name == "recarray":
            value = np.recarray(shape, dtype=[("a", "i4")])
        elif name == "masked constant":
            value = np.ma.masked
        else:
            # Indexing an array with () gives a scalar of numpy, or a view.
            value = np.zeros(shape, "float32")[()]
        if isinstance(value, np.ndarray):
            return value, value.ndim == 0
        return value, isinstance(value, PYTHON)
    if kind == "np":
        value = np.zeros((), {"str_": "U3", "bytes_": "S3", "void": "V3", "datetime64": "M8[D]", "timedelta64": "m8[D]"}.get(case["name"], case["name"]))[()]
        return value, isinstance(value, PYTHON)
    if kind == "enum":
        base = getattr(enum, case["name"])
        value = list(base("E", ["A", "B", "C", "D"]))[case["n"]]
        return value, isinstance(value, PYTHON)
    value = MAKERS[case["name"]](case["n"])
    if kind == "sub":
        cls = type(value)
        for level in range(case["levels"]):
            cls = type(f"Sub{level}", (cls,), {})
        if isinstance(value, datetime.datetime):
            value = cls(2000, 1, 1)
        elif isinstance(value, datetime.date):
            value = cls(2000, 1, 2)
        elif isinstance(value, datetime.timedelta):
            value = cls(3)
        else:
            value = cls(value)
    return value, isinstance(value, PYTHON)


def decide(case):
    """ isinstance(value, Scalar). """
    value, want = value_and_truth(case)
    got = isinstance(value, api.Scalar)
    if got is not want:
        raise Violation(f"isinstance({show(value)} of type {type(value)}, Scalar) is {got}, not {want}")
    near = want or case["kind"] in ("np", "enum", "odd", "sub") or case.get("shape") and set(case["shape"]) == {1}
    return Note(near, case["kind"], f"{want}")


def decide_hint(case):
    """ Scalar as an ordinary annotation, with check-non-asta-types=yes. """
    value, want = value_and_truth(case)
    for how in ("argument", "return"):
        if verdict(how, value, api.Scalar) is not want:
            raise Violation(f"{show(value)} of type {type(value)} for the annotation Scalar ({how}): not {want}")
    return Note(want, case["kind"])


FORMS = ["()", "Scalar", "(Scalar,)", "((),)", "dtype,()", "dtype,Scalar", "dtype,((),)", "steps ()", "steps Scalar", "Scalar,attrs", "(),attrs"]


def make_dims(frameworks):
    """ Cases of 'dims'. """

    def build_case(d):
        fw = d.pick(frameworks)
        arg = gen.dtype_arg(d, fw)
        return dict(
            fw=fw, form=d.pick(FORMS), arg=arg, dtype=gen.value_dtype(d, fw, arg), vfw=fw if d.bool(85) else d.pick(frameworks),
            shape=[] if d.bool() else d.some(lambda: d.pick([1, 1, 0, 2]), 1, 3),
            how=d.pick(["isinstance", "isinstance", "argument", "return", "list", "optional"]),
            other=make_value(d, frameworks) if d.bool(20) else None,
        )

    return build_case


def decide_dims(case):
    """ The annotation matches 0-d values of the dtype, and its spellings are equal. """
    fw, form = case["fw"], case["form"]
    cls = getattr(api, build.annotation_class(fw))
    dtype = build.dtype_arg(fw, case["arg"])
    scalar = api.Scalar
    attrs = {"shape": ()} if fw == "np" else {"ndim": 0}
    ann, twin = {
        "()": lambda: (cls[()], cls[scalar]), "Scalar": lambda: (cls[scalar], cls[()]),
        "(Scalar,)": lambda: (cls[(scalar,)], cls[()]), "((),)": lambda: (cls[((),)], cls[scalar]),
        "dtype,()": lambda: (cls[dtype, ()], cls[dtype, scalar]), "dtype,Scalar": lambda: (cls[dtype, scalar], cls[dtype, ()]),
        "dtype,((),)": lambda: (cls[(dtype, ())], cls[dtype][scalar]),
        "steps ()": lambda: (cls[dtype][()], cls[scalar][dtype]), "steps Scalar": lambda: (cls[dtype][scalar], cls[()][dtype]),
        "Scalar,attrs": lambda: (cls[scalar, attrs], cls[(), attrs]), "(),attrs": lambda: (cls[(), attrs], cls[attrs][scalar]),
    }[form]()
    if ann != twin or hash(ann) != hash(twin) or repr(ann) != repr(twin):
        raise Violation(f"{ann!r} and {twin!r} ({form}) are not the same")
    arg = case["arg"] if form.startswith(("dtype", "steps")) else None
    if case["other"]:
        value, _ = value_and_truth(case["other"])
        other = case["other"]
        if other["kind"] == "odd" and isinstance(value, np.ndarray):
            return Note(False, "odd array")
        want = (
            other["kind"] == "arr" and other["fw"] == fw and not other["shape"]
            and build.dtype_matches(fw, arg, other["dtype"]) and not form.endswith("attrs")
        )
        if form.endswith("attrs") and other["kind"] == "arr":
            return Note(False, "attributes")
        if case["how"] == "optional" and value is None:
            return Note(False, "None is optional")
        rank = "?"
    else:
        value = build.value(case["vfw"], case["dtype"] if case["vfw"] == fw else "float32", case["shape"])
        want = case["vfw"] == fw and not case["shape"] and build.dtype_matches(fw, arg, case["dtype"])
        rank = len(case["shape"])
        if form.endswith("attrs") and fw == "tf":
            want = want and value.ndim == 0
    for hint in (ann, twin):
        got = check(case["how"], value, hint)
        if got is not want:
            raise Violation(f"{show(value)} (rank {rank}) against {hint!r} ({form}, {case['how']}) is {got}, not {want}")
    return Note(want or rank == 0 or set(case["shape"]) == {1}, form, f"{want}")


SUBS = [
    Sub("values", make(["np"]), decide, 5000, 60000, size=24),
    Sub("values tf", make(["np", "tf"]), decide, 3000, 40000, profile="tf", size=24),
    Sub("values torch", make(["np", "torch"]), decide, 3000, 40000, profile="torch", size=24),
    Sub("values both", make(["np", "tf", "torch"]), decide, 3000, 60000, profile="both", size=24),
    Sub("hints", make(["np"]), decide_hint, 2000, 30000, profile="nonasta", size=24),
    Sub("dims", make_dims(["np"]), decide_dims, 3000, 60000, size=48),
    Sub("dims both", make_dims(["np", "tf", "torch"]), decide_dims, 2500, 60000, profile="both", size=48),
]
