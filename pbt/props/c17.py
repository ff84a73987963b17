""" C17: Equivalent subscript spellings agree and invalid subscripts raise TypeError. """
import datetime
import decimal
import fractions

import numpy as np

from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.props.c16 import RESPELL, SYMS, tidy
from pbt.sandbox import call

SHARDS = {"core": 4, "both": 3}
QUICK = 5
RULE = (
    "A case is an annotation with all its spellings (in a random order of attributes) and values which "
    "fit or nearly fit; or a subscript made of valid parts with something invalid put in one place, "
    "applied to the class or to an alias. Distinct cases count as non-trivial if there are three "
    "spellings or more, or if the invalid part is not the only part."
)
NOTE = (
    "All spellings must be equal, hash alike and give one verdict on every value, which for patterns "
    "without symbols must be the reference matcher's. Every invalid subscript must raise TypeError when "
    "written; the same without the invalid part must not."
)


# ------------------------------------------------------------------- spellings


def make_spelling(d, fws=("np",)):
    """ An annotation and values. """
    fw = d.pick(fws)
    dtype = gen.dtype_arg(d, fw) if d.bool(60) else None
    how = d.int(0, 9)
    if how == 0:
        pat = None
    elif how < 3:
        pat = []
    elif how < 8:
        pat = gen.plain_pattern(d, max_len=4, wild=d.bool(70), dots=d.int(0, 1))
    else:
        pat = tidy([gen.expression(d, SYMS, 1) if d.bool() else d.pick([1, 2, 3, -1, "..."]) for _ in range(d.int(1, 3))])
    if dtype is None and pat is None:
        pat = []
    plain = [e for e in pat or [] if not isinstance(e, list)]
    values = []
    for _ in range(d.int(1, 3)):
        shape = gen.near_shape(d, plain, 60, 30)[:5]
        values.append([gen.value_dtype(d, fw, dtype), [min(s, 70) for s in shape]])
    return dict(fw=fw, dtype=dtype, pat=pat, values=values, attrs=d.pick([None, None, None, "none", "ndim", "both"]))


def dtype_spellings(fw, dtype):
    """ Ways to write a dtype. """
    res = [build.dtype_arg(fw, dtype)]
    seen = {dtype}
    while RESPELL[fw].get(dtype) and RESPELL[fw][dtype] not in seen:
        dtype = RESPELL[fw][dtype]
        seen.add(dtype)
        res.append(build.dtype_arg(fw, dtype))
    if fw == "np" and isinstance(res[0], type) and res[0] not in (str, bytes, datetime.datetime, datetime.timedelta):
        res.append(np.zeros(1, res[0]).dtype)
    return res


def shape_spellings(fw, pat):
    """ Ways to write a shape: lists of subscript items. """
    items = list(build.pattern(pat))
    sizes = all(isinstance(i, int) and i >= 0 for i in items)
    res = [[()], [api.Scalar]] if not items else [items, [tuple(items)]]
    if sizes and all(i < 100 for i in items):
        if fw == "np":
            res.append([build.array(items).shape])
        elif fw == "torch":
            res += [[api.torch.Size(items)], [build.value("torch", "float32", items).shape]]
        else:
            res.append([api.tf.TensorShape(items)])
            try:
                res.append([build.value("tf", "float32", items).shape])
            except build.TooBig:
                pass
    return res


def decide_spelling(case):
    """ All spellings. """
    fw, dtype, pat = case["fw"], case["dtype"], case["pat"]
    cls = getattr(api, build.annotation_class(fw))
    attrs = {None: [[]], "none": [[{}]], "ndim": [[{"ndim": 2}]], "both": [[{"ndim": 2, "dtype": 3}], [{"dtype": 3, "ndim": 2}]]}
    subscripts = []
    for first in [[t] for t in dtype_spellings(fw, dtype)] if dtype else [[]]:
        for rest in shape_spellings(fw, pat) if pat is not None else [[]]:
            for last in attrs[case["attrs"]]:
                subscripts.append(first + rest + last)
    anns = []
    for items in subscripts:
        # As written: Array[x] if there is one item (or as a tuple of one).
        variants = [items[0], tuple(items)] if len(items) == 1 else [tuple(items)]
        for item in variants:
            res = call(cls.__class__.__getitem__, cls, item)
            if not res.ok:
                raise Violation(f"{cls.__name__}[{item!r}] {res!r}")
            anns.append((item, res.value))
    base = anns[0]
    for item, ann in anns[1:]:
        if ann != base[1] or base[1] != ann or hash(ann) != hash(base[1]):
            raise Violation(
                f"{cls.__name__}[{item!r}] is {ann!r}, {cls.__name__}[{base[0]!r}] is {base[1]!r}: not equal"
            )
    # They are for checking only.
    for args in ((), (1,), (np.zeros(2),), ([1, 2], float)):
        res = call(base[1], *args)
        if res.kind != "TypeError":
            raise Violation(f"{base[1]!r} called with {args} {res!r}")
    plain = case["attrs"] in (None, "none") and (pat is None or not any(isinstance(e, list) for e in pat))
    for vdtype, shape in case["values"]:
        value = build.value(fw, vdtype, shape)
        got = [isinstance(value, ann) for _, ann in anns]
        if plain:
            want = build.dtype_matches(fw, dtype, vdtype) and (pat is None or ref.match(pat, shape))
        else:
            want = got[0]
        for answer, (item, ann) in zip(got, anns):
            if answer is not want:
                raise Violation(
                    f"{vdtype} of shape {shape} against {cls.__name__}[{item!r}] ({ann!r}): {answer}, should be {want}"
                )
    return Note(len(anns) > 2, "plain" if plain else "other")


# --------------------------------------------------------------------- invalid


class Weird:
    """ Not a dimension. """


BAD = {
    "float": lambda: 1.5, "whole float": lambda: 2.0, "str": lambda: "a", "bytes": lambda: b"a", "empty str": lambda: "",
    "list": lambda: [1, 2], "empty list": lambda: [], "set": lambda: {1}, "frozenset": lambda: frozenset(),
    "bool": lambda: True, "false": lambda: False, "complex": lambda: 1j, "np.int64": lambda: np.int64(3),
    "np.int32": lambda: np.int32(0), "np.bool_": lambda: np.bool_(True), "np.float64": lambda: np.float64(1),
    "array": lambda: np.array([1, 2]), "0-d array": lambda: np.array(2), "range": lambda: range(3),
    "slice": lambda: slice(1, 2), "object": Weird, "function": lambda: (lambda: 1),
    "decimal": lambda: decimal.Decimal(2), "fraction": lambda: fractions.Fraction(2), "module": lambda: np,
    "date": lambda: datetime.date(2020, 1, 1), "bytearray": lambda: bytearray(b"a"),
}
FOREIGN = {
    "np": ["tf:float32", "tf:int32", "torch:float32", "torch:int64"],
    "tf": ["npdtype:float32", "nptype:float32", "nptype:int32", "torch:float32", "py:Weird", "py:object"],
    "torch": ["npdtype:float32", "nptype:float32", "nptype:int64", "tf:float32", "py:Weird", "py:str"],
}


def foreign(name):
    """ A type of another framework. """
    kind, name = name.split(":")
    if kind == "npdtype":
        return np.dtype(name)
    if kind == "nptype":
        return getattr(np, name)
    if kind == "py":
        return {"Weird": Weird, "object": object, "str": str}[name]
    return getattr(getattr(api, kind), name)


def make_invalid(d, fws=("np",)):
    """ A subscript with something wrong. """
    fw = d.pick(fws)
    kinds = ["bad", "bad", "dots", "markers", "marker and size", "late type"]
    if len(fws) > 1:
        kinds += ["foreign", "foreign"]
    kind = d.pick(kinds)
    pat = [d.pick([1, 2, 3, 0, -1, ["sym", "X"], "..."]) for _ in range(d.int(0, 3))]
    pat = tidy(pat)
    return dict(
        fw=fw, kind=kind, pat=pat, at=d.int(0, len(pat)), bad=d.pick(sorted(BAD)), dtype=d.bool(),
        foreign=d.pick(FOREIGN[fw]), tuple=d.bool(40), nested=d.pick([0, 0, 0, 1, 2, 3]), deep=d.bool(30), attrs=d.bool(20),
        alias=d.pick([None, None, None, "float", "shape", "attrs"]),
        markers=[d.bool() for _ in range(d.int(2, 3))], dots=d.int(2, 3),
    )


def decide_invalid(case):
    """ It must raise TypeError. """
    fw, kind, at = case["fw"], case["kind"], case["at"]
    cls = getattr(api, build.annotation_class(fw))
    name = cls.__name__
    if case["alias"]:
        cls = cls[{"float": float, "shape": (4, ...), "attrs": {"ndim": 1}}[case["alias"]]]
    before = (cls.dtype, cls.shape, cls.kwattrs)
    items = list(build.pattern(case["pat"]))
    first = [float] if case["dtype"] else []
    last = [{"ndim": 2}] if case["attrs"] else []
    valid = items or [()]
    if kind == "bad":
        items = items[:at] + [BAD[case["bad"]]()] + items[at:]
    elif kind == "dots":
        # No other ellipsis next to these, so that there is one reason.
        items = items[:at] + [...] * case["dots"] + items[at:]
    elif kind == "markers":
        items = [api.Scalar if m else () for m in case["markers"]]
    elif kind == "marker and size":
        items = items or [2]
        items = items[:at] + [api.Scalar if case["markers"][0] else ()] + items[at:]
    elif kind == "late type":
        items = items or [1]
        items = items[: max(at, 1)] + [int] + items[max(at, 1) :]
    else:
        first = [foreign(case["foreign"])]
    if kind == "bad" and case["nested"]:
        # In a tuple among the other sizes, as of a shape variable.
        inner = items[at : at + 2] if case["nested"] == 1 else items[max(0, at - 1) : at + 1]
        inner = (tuple(inner),) if case["deep"] else tuple(inner)
        items = [inner, 4] if case["nested"] == 3 else [3, inner]
        good = [tuple(e for e in inner if isinstance(e, int) and not isinstance(e, bool)) or 2, 4]
        valid = good if case["nested"] == 3 else [3, good[0]]
    elif case["tuple"] and kind in ("bad", "dots"):
        items = [tuple(items)]
    if kind == "foreign":
        items = items if case["tuple"] else items or [1]
    subscript = first + items + last
    item = subscript[0] if len(subscript) == 1 else tuple(subscript)
    res = call(cls.__class__.__getitem__, cls, item)
    if res.kind != "TypeError":
        raise Violation(f"{cls!r}[{item!r}] {res!r}, should raise TypeError ({kind}: {case['bad']})")
    if kind == "bad":
        again = first + valid + last
        res = call(cls.__class__.__getitem__, cls, again[0] if len(again) == 1 else tuple(again))
        if not res.ok:
            raise Violation(f"{cls!r}[{again!r}] {res!r}, should be fine")
    if before != (cls.dtype, cls.shape, cls.kwattrs) or not call(lambda: getattr(api, name)[3]).ok:
        raise Violation(f"{cls!r}[{item!r}] changed the class")
    return Note(len(subscript) > 1, kind, *([case["bad"]] if kind == "bad" else []))


ALL = ("np", "tf", "torch")
SUBS = [
    Sub("spellings", make_spelling, decide_spelling, 4000, 100000),
    Sub("invalid", make_invalid, decide_invalid, 6000, 100000),
    Sub("spellings of all", lambda d: make_spelling(d, ALL), decide_spelling, 3000, 80000, profile="both"),
    Sub("invalid of all", lambda d: make_invalid(d, ALL), decide_invalid, 5000, 100000, profile="both"),
]
