""" C22: isinstance and @typechecked give the same verdict on the same annotation. """
import datetime
from typing import Dict, List, Optional, Tuple, Union

import numpy as np

from pbt import api, build, funcs, gen, ordinary
from pbt.core import Note, Sub, Violation
from pbt.props.c16 import tidy
from pbt.sandbox import call, show

SHARDS = {"core": 4, "both": 4}
QUICK = 3
RULE = (
    "A case is an annotation (dtype arguments of every kind, patterns with literals, zeros, wildcards, "
    "ellipses and symbolic expressions, attributes, aliases; all frameworks) and a value: an array or "
    "tensor which fits or nearly fits, an array of a subclass, an object which merely looks like an "
    "array, a scalar or anything else. It is passed and returned in one of ten ways. Distinct cases in "
    "which the value is an array or tensor count as non-trivial."
)
NOTE = (
    "Differential: the two ways of asking are compared with each other, so that the domain is wider than "
    "that of the reference models: structured and sub-array dtypes, arbitrary classes as dtypes, "
    "underdetermined and unsolvable systems. Where isinstance raises, the call must raise the same."
)
HOWS = [
    "argument", "argument", "return", "keyword", "default", "varargs", "varkw", "method", "list", "tuple", "dict",
    "optional", "set of one", "nested list",
]
SYMS = ["X", "Y", "Z"]


def make_elem(d):
    """ A dimension. """
    how = d.int(0, 19) / 2
    if how == 0.5:
        return None
    if how < 3:
        return d.int(0, 4)
    if how < 5:
        return -1
    if how < 7:
        return "..."
    if how < 8:
        # Constant, though it has symbols.
        name = ["sym", d.pick(SYMS)]
        return ["+", ["-", name, name], d.int(0, 4)]
    return gen.expression(d, SYMS, d.int(0, 2))


def make(frameworks):
    """ An annotation, a value and a way. """

    def build_case(d):
        fw = d.pick(frameworks)
        arg = None if d.bool(40) else gen.dtype_arg(d, fw) if fw != "np" or d.bool(80) else "odd:" + d.pick(sorted(ODD_DTYPES))
        pat = None if d.bool(15) else tidy(d.some(lambda: make_elem(d), 0, 5))
        attrs = {}
        if d.bool(20):
            attrs = {d.pick(["ndim", "itemsize", "shape", "tag", "size"]): d.pick([0, 1, 2, 8, "a", None, [], [2], [2, 2]]) for _ in range(d.int(1, 2))}
        env = gen.assignment(d, SYMS, 1, 3)
        shape = fitting(d, pat or [], env) if pat is not None else d.some(lambda: gen.small(d), 0, 3)
        if d.bool(35):
            shape = gen.mutate(d, shape)
        vfw = fw if d.bool(90) else d.pick(frameworks)
        if vfw == fw and not (arg or "").startswith("odd:"):
            dtype = gen.value_dtype(d, fw, arg)
        else:
            dtype = gen.value_dtype(d, vfw)
        return dict(
            fw=fw, arg=arg, pat=pat, attrs=attrs or None, how=d.pick(HOWS), vfw=vfw, dtype=dtype,
            shape=[min(s, 5) for s in shape][:6], kind=d.pick(["plain"] * 6 + ["odd", "odd", "other"]),
            odd=d.pick(ODD), other=d.pick(ordinary.VALUE_NAMES), steps=d.bool(30),
        )

    return build_case


def fitting(d, pat, env):
    """ Sizes for a pattern, under an assignment. """
    from pbt import ref

    res = []
    for elem in pat:
        if elem == "...":
            res += [d.int(1, 3) for _ in range(d.int(0, 2))]
        elif elem == -1:
            res.append(d.int(1, 3))
        elif elem is None:
            res += d.pick([[], [0], [1], [2]])
        elif isinstance(elem, int):
            res.append(elem)
        else:
            value = ref.evaluate(elem, env)
            res.append(max(0, int(value)))
    return res


ODD_DTYPES = {
    "structured": np.dtype([("a", "i4"), ("b", "f8")]), "subarray": np.dtype(("f8", (2,))), "dict": dict,
    "ordinary class": ordinary.Base, "generic": np.generic, "number": np.number, "floating": np.floating,
    "str_": np.str_, "bytes_": np.bytes_, "object_": np.object_, "void": np.void, "V8": np.dtype("V8"),
    "datetime64": np.datetime64, "date": datetime.date, "memoryview": memoryview, "bytearray": bytearray,
    "longdouble": np.longdouble, "intp": np.intp,
}
ODD = [
    "structured", "subarray", "void", "matrix", "masked", "recarray", "chararray", "memoryview", "list", "scalar",
    "annotation", "annotation value", "duck", "duck class", "fortran", "strided", "readonly", "float class", "subclass",
    "tagged", "sharedmem", "shape raises", "no dtype", "shape list", "dtype only",
]


class Sub1(np.ndarray):
    """ A subclass of arrays. """


class Duck:
    """ Looks like an array. """

    def __init__(self, shape, dtype="float64"):
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype)
        self.ndim = len(shape)
        self.size = 1
        self.itemsize = self.dtype.itemsize
        self.tag = "a"


class Claims(Duck):
    """ Claims to be an array. """

    @property
    def __class__(self):
        return np.ndarray


def odd_value(name, shape):
    """ Unusual arrays, and what is like one. """
    shape = tuple(shape)
    zeros = np.zeros(shape)
    if name in ("structured", "subarray", "void"):
        dtype = {"structured": [("a", "i4"), ("b", "f8")], "subarray": ("f8", (2,)), "void": "V8"}[name]
        return np.zeros(shape, dtype)
    if name == "matrix":
        return np.matrix(np.zeros((shape + (1, 1))[:2]))
    if name == "masked":
        return np.ma.masked_array(zeros)
    if name == "recarray":
        return np.recarray(shape, dtype=[("a", "i4")])
    if name == "chararray":
        return np.chararray(shape)
    if name == "memoryview":
        return memoryview(zeros)
    if name == "list":
        return zeros.tolist()
    if name == "scalar":
        return np.float64(1)
    if name == "annotation":
        return api.Array
    if name == "annotation value":
        return api.Array[float, shape or ()]
    if name == "duck":
        return Duck(shape)
    if name == "shape raises":

        class Raises(Duck):
            """ Cannot tell its shape. """

            shape = property(lambda self: 1 / 0, lambda self, value: None)

        return Raises(shape)
    if name in ("no dtype", "shape list", "dtype only"):
        res = Duck(shape)
        if name == "no dtype":
            del res.dtype
        elif name == "shape list":
            res.shape = list(shape)
        else:
            del res.shape
        return res
    if name == "duck class":
        return Duck
    if name == "fortran":
        return np.zeros(shape, order="F")
    if name == "strided":
        return np.zeros(tuple(2 * s for s in shape))[tuple(slice(None, None, 2) for _ in shape)]
    if name == "readonly":
        zeros.flags.writeable = False
        return zeros
    if name == "float class":
        return np.ndarray
    res = zeros.view(Sub1)
    if name == "tagged":
        res.tag = "a"
    return res


def ask(how, value, ann, framework_value):
    """ The verdict of a call. """
    if how in ("argument", "keyword", "method"):
        params, hint, arg = [funcs.param("x", ann)], None, (value,)
    elif how == "default":
        params, hint, arg = [funcs.param("x", ann, default=value)], None, ()
    elif how == "varargs":
        params, hint, arg = [funcs.param("x", ann, funcs.VAR)], None, (value,)
    elif how == "varkw":
        params, hint, arg = [funcs.param("x", ann, funcs.VARKW)], None, ()
    elif how == "return":
        params, hint, arg = [], ann, ()
    else:
        made, wrapped = {
            "list": (List[ann], [value]), "tuple": (Tuple[ann, ...], (value,)), "dict": (Dict[str, ann], {"k": value}),
            "optional": (Tuple[Optional[ann]], (value,)), "set of one": (Tuple[ann], (value,)),
            "nested list": (Dict[str, List[Tuple[ann]]], {"k": [(value,)]}),
        }[how]
        params, hint, arg = [funcs.param("x", made)], None, (wrapped,)
    body = lambda args: value if how == "return" else None
    form = "method" if how == "method" else "function"
    func = funcs.member(form, params, hint, body, decorator=api.typechecked)
    if how == "keyword":
        return call(func, x=value)
    if how == "varkw":
        return call(func, anything=value)
    return call(func, *arg)


def decide(case):
    """ Both verdicts. """
    fw, arg = case["fw"], case["arg"]
    attrs = case["attrs"]
    if attrs is not None:
        attrs = {k: tuple(v) if isinstance(v, list) else v for k, v in attrs.items()}
    cls = getattr(api, build.annotation_class(fw))
    items = []
    if arg is not None:
        items.append(ODD_DTYPES[arg[4:]] if arg.startswith("odd:") else build.dtype_arg(fw, arg))
    if case["steps"] and items:
        cls, items = cls[items[0]], []
    if case["pat"] is not None:
        items += list(build.pattern(case["pat"])) or [()]
    if attrs is not None:
        items.append(attrs)
    ann = build.annotate(cls, *items) if items else cls
    kind = case["kind"]
    if kind == "plain":
        value = build.value(case["vfw"], case["dtype"], case["shape"])
    elif kind == "odd":
        value = odd_value(case["odd"], case["shape"])
    else:
        value = ordinary.value(case["other"])
    first = call(isinstance, value, ann)
    if case["how"] == "optional" and value is None:
        return Note(False, "None is optional")
    second = ask(case["how"], value, ann, case["vfw"])
    what = f"{show(value)} (shape {case['shape']}) against {ann!r} ({case['how']}): isinstance {first!r}, the call {second!r}"
    if not first.ok:
        if second.kind != first.kind:
            raise Violation(what)
        return Note(False, "isinstance raises")
    if second.kind != ("ok" if first.value else "TypeError"):
        raise Violation(what)
    again = call(isinstance, value, ann)
    if again.kind != "ok" or again.value is not first.value:
        raise Violation(what + f"; isinstance again {again!r}")
    return Note(kind != "other", kind, f"{first.value}", case["how"])


SUBS = [
    Sub("arrays", make(["np"]), decide, 8000, 200000, size=96),
    Sub("frameworks", make(["np", "tf", "torch"]), decide, 6000, 120000, profile="both", size=96),
]
