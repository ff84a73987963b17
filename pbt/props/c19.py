""" C19: Attribute constraints require every listed attribute to be present and equal. """
from fractions import Fraction
from typing import Dict, List, Optional, Tuple, Union

import numpy as np

from pbt import api, build, funcs, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.observe import verdict
from pbt.props.c05 import fill
from pbt.sandbox import call, show

SHARDS = {"core": 5, "both": 3}
QUICK = 6
RULE = (
    "A case of 'match' is an annotation with a dtype, a pattern and one to three attributes, each "
    "possibly absent, and an array with attributes of its own or the usual ones, which agree, or differ "
    "in one or more; bare, in a container, or beside another annotation in a Union. A case of 'symbols' is a call with symbols in shapes and "
    "attributes. Distinct cases count as non-trivial if there are several constraints, or several uses "
    "of a symbol for which the oracle has an answer."
)
NOTE = (
    "Reference: dtype and pattern as in C01 and C02, and Python's getattr and == on the attributes (all "
    "elements, and the shape, for those which are arrays). Symbolic: the three-valued oracle of C06 on "
    "the equations of shapes and attributes together; isinstance takes symbolic attributes to be any "
    "number. Attributes which depend on dims and shapes: see C07 and C08."
)

# Attributes an array is given, and constraints on them, as data; lists are tuples.
VALUES = [1, 2, 0, "a", "", None, True, False, 1.5, 2.0, -1, [], [1], [1, 2], {"k": 1}, {"np": 2}, {"arr": [1, 2]}, {"arr": [1]}, {"nan": 1}]
NAN = float("nan")
OWN = ["tag", "name", "unit", "_private", "shape_of", "dims", "kind", "kwattrs"]
USUAL = ["ndim", "itemsize", "size", "nbytes", "shape", "dtype", "base", "T", "strides"]
TYPES = ["float64", "int32", "uint8", "bool"]


def real(value):
    """ From data to a value. """
    if isinstance(value, list):
        return tuple(value)
    if isinstance(value, dict):
        if "np" in value:
            return np.int64(value["np"])
        if "arr" in value:
            return np.array(value["arr"])
        if "dtype" in value:
            return np.dtype(value["dtype"])
        if "nan" in value:
            return NAN
        return dict(value)
    return value


class Tagged(np.ndarray):
    """ An array which can have more attributes. """


def array(shape, dtype, attrs):
    """ An array with attributes. """
    res = np.zeros(tuple(shape), dtype).view(Tagged)
    for key, value in attrs.items():
        setattr(res, key, real(value))
    return res


def equal(one, two):
    """ Whether attributes are equal: as a whole. """
    kinds = (np.ndarray, np.generic)
    if isinstance(one, kinds) or isinstance(two, kinds):
        return np.shape(one) == np.shape(two) and bool(np.all(np.asarray(one) == np.asarray(two)))
    return bool(one == two)


def usual(d, name, shape, dtype):
    """ What a usual attribute could be, as data. """
    size = int(np.prod(shape))
    itemsize = np.dtype(dtype).itemsize
    wrong = d.bool(30)
    if name == "ndim":
        return len(shape) + wrong
    if name == "itemsize":
        return itemsize + wrong
    if name in ("size", "nbytes"):
        return size * (itemsize if name == "nbytes" else 1) + wrong
    if name == "shape":
        return list(shape) + [1] * wrong
    if name == "dtype":
        return {"dtype": d.pick(TYPES) if wrong else dtype}
    if name == "strides":
        return list(np.zeros(shape, dtype).strides) + [8] * wrong
    if name == "T":
        return d.pick([0, 1, [0, 0], [], None])
    return None


def make_match(d):
    """ An annotation with attributes, and an array. """
    dtype = d.pick(TYPES)
    pat = gen.plain_pattern(d, max_len=3, sizes=gen.small, dots=1) if d.bool(60) else None
    shape = gen.near_shape(d, pat, 80, 15)[:4] if pat is not None else d.some(lambda: d.int(0, 3), 0, 3)
    shape = [min(s, 4) for s in shape]
    own = {k: d.pick(VALUES) for k in d.shuffle(OWN)[: d.int(1, 3)]}
    attrs = {}
    for _ in range(d.int(1, 3)):
        if d.bool(55):
            key = d.pick(OWN) if d.bool(25) else d.pick(sorted(own))
            same = key in own and d.bool(75)
            attrs[key] = own[key] if same else d.pick(VALUES)
        else:
            key = d.pick(USUAL)
            attrs[key] = usual(d, key, shape, dtype)
    arg = None if d.bool(40) else "dt:" + (dtype if d.bool(80) else d.pick(TYPES))
    other = dict(attrs)
    for key in [k for k in attrs if d.bool()] or sorted(attrs)[:1]:
        other[key] = own[key] if key in own and d.bool() else d.pick(VALUES)
    return dict(
        pat=pat, shape=shape, dtype=dtype, arg=arg, own=own, attrs=attrs, view=d.bool(30), other=other, first=d.bool(),
        how=d.pick(["isinstance", "isinstance", "argument", "return", "list", "dict", "tuple", "optional", "union", "union", "alias"]),
    )


def decide_match(case):
    """ One value against one annotation. """
    value = array(case["shape"], case["dtype"], case["own"])
    if case["view"]:
        value = np.zeros(tuple(case["shape"]), case["dtype"])
    attrs = {k: real(v) for k, v in case["attrs"].items()}
    how = case["how"]
    if how == "alias":
        base = build.annotation("np", case["arg"], None)[attrs]
        ann = build.annotation("np", None, case["pat"], None, cls=base)
    else:
        ann = build.annotation("np", case["arg"], case["pat"], attrs)
    fits = build.dtype_matches("np", case["arg"], case["dtype"])
    fits = fits and (case["pat"] is None or ref.match(case["pat"], case["shape"]))
    absent = [k for k in attrs if not hasattr(value, k)]
    wrong = [k for k in attrs if k not in absent and not equal(getattr(value, k), attrs[k])]
    want = fits and not absent and not wrong
    if how == "union":
        rest = {k: real(v) for k, v in case["other"].items()}
        second = build.annotation("np", case["arg"], case["pat"], rest)
        want = want or fits and all(hasattr(value, k) and equal(getattr(value, k), v) for k, v in rest.items())
        ann = Union[ann, second] if case["first"] else Union[second, ann]
    if how == "list":
        got = verdict("argument", [value, value], List[ann])
    elif how == "dict":
        got = verdict("return", {"a": value}, Dict[str, ann])
    elif how == "tuple":
        got = verdict("argument", (3, value), Tuple[int, ann])
    elif how == "optional":
        got = verdict("argument", value, Optional[ann])
    elif how == "union":
        got = verdict("argument", value, ann)
    else:
        got = verdict("isinstance" if how == "alias" else how, value, ann)
    if got != want:
        raise Violation(
            f"array of {case['dtype']}, shape {case['shape']} with {case['own'] if not case['view'] else 'no attributes'} "
            f"against {show(ann)} ({how}): {got}; dtype and shape fit: {fits}, absent: {absent}, different: {wrong}"
        )
    label = "match" if want else "absent" if absent else "different" if wrong else "shape or dtype"
    return Note(len(attrs) > 1 or case["pat"] is not None, how, label)


# ------------------------------------------------------------------ frameworks


def make_framework(d):
    """ Tensors. """
    fw = d.pick(["tf", "torch"])
    pat = gen.plain_pattern(d, max_len=3, sizes=gen.small, dots=1) if d.bool(60) else None
    shape = gen.near_shape(d, pat, 85, 10)[:4] if pat is not None else d.some(lambda: d.int(0, 3), 0, 3)
    keys = {"tf": ["ndim", "dtype", "missing"], "torch": ["ndim", "dtype", "requires_grad", "missing", "device"]}[fw]
    attrs = {}
    for key in d.shuffle(keys)[: d.int(1, 3)]:
        if key != "missing" or d.bool(30):
            attrs[key] = d.bool(25)
    return dict(
        fw=fw, pat=pat, shape=[min(s, 4) for s in shape], attrs=attrs or {"ndim": False}, dtype=d.bool(40),
        how=d.pick(["isinstance", "argument", "return"]),
    )


def decide_framework(case):
    """ One tensor; ``attrs`` says which constraints are wrong. """
    fw = case["fw"]
    value = build.value(fw, "float32", case["shape"])
    module = api.tf if fw == "tf" else api.torch
    right = {"ndim": len(case["shape"]), "dtype": module.float32, "requires_grad": False, "missing": 1}
    other = {"ndim": len(case["shape"]) + 1, "dtype": module.int32, "requires_grad": True, "missing": 1}
    if fw == "torch":
        right["device"], other["device"] = api.torch.device("cpu"), api.torch.device("cuda")
    attrs = {k: (other if wrong else right)[k] for k, wrong in case["attrs"].items()}
    ann = build.annotation(fw, "dt:float32" if case["dtype"] else None, case["pat"], attrs)
    fits = case["pat"] is None or ref.match(case["pat"], case["shape"])
    want = fits and not any(case["attrs"].values()) and "missing" not in attrs
    got = verdict(case["how"], value, ann)
    if got != want:
        raise Violation(f"{show(value)} against {ann!r} ({case['how']}): {got}; shape fits: {fits}, attributes {attrs}")
    return Note(len(attrs) > 1, fw, "match" if want else "mismatch")


# --------------------------------------------------------------------- symbols


def make_symbols(d):
    """ A call with symbols in shapes and attributes. """
    names = gen.NAMES[: d.int(1, 2)]
    env = gen.assignment(d, names, 1, 5)
    places = []
    for _ in range(d.int(1, 3)):
        pat = [
            gen.expression(d, names, d.int(0, 1), linear=True) if d.bool(60) else d.pick([1, 2, -1, "..."])
            for _ in range(d.int(0, 3))
        ]
        seen = False
        for i, elem in enumerate(pat):
            if elem == "...":
                pat[i] = -1 if seen else "..."
                seen = True
        pat = None if d.bool(20) else pat
        attrs, own = {}, {}
        for key in d.shuffle(["tag", "unit", "name"])[: d.int(0 if pat else 1, 2)]:
            tree = gen.expression(d, names, d.int(0, 1), linear=True)
            if d.bool(20):
                # Attributes, unlike sizes, can be zero and less.
                tree = ["-", tree, int(ref.evaluate(tree, env)) + d.int(0, 2)]
            attrs[key] = tree if d.bool(75) else d.pick([1, "a", None])
            if d.bool(96):
                own[key] = int(ref.evaluate(tree, env)) if isinstance(attrs[key], list) else attrs[key]
                if isinstance(attrs[key], list) and d.bool(30):
                    own[key] = {"np": own[key]}
        shape = fill(d, pat, env) if pat is not None else d.some(lambda: d.int(1, 3), 0, 2)
        places.append(dict(pat=pat, attrs=attrs, own=own, shape=[min(s, 60) for s in shape]))
    for _ in range(d.pick([0, 0, 1, 1])):
        one = d.pick(places)
        if one["own"] and d.bool(60):
            one["own"][d.pick(sorted(one["own"]))] = d.pick([1, 2, 3, 4, 6, 0, -1, None, "b", [1], 1.5, 2.5, 4.5, True, False])
        else:
            one["shape"] = gen.mutate(d, one["shape"], 1)
    return dict(
        places=places, ret=d.bool(40) and len(places) > 1, hint=env, wrap=[d.pick(["arr", "arr", "list", "optional"]) for _ in places],
    )


def number(value):
    """ Whether an attribute can be the value of an expression. """
    return isinstance(value, (int, float, np.integer)) and not isinstance(value, bool)


def system(places, hint):
    """ Verdict for some places together. """
    equations = []
    for item in places:
        for key, want in item["attrs"].items():
            if key not in item["own"]:
                return "no"
            got = real(item["own"][key])
            if not isinstance(want, list):
                if got != want:
                    return "no"
            elif not number(got):
                return "no"
            else:
                equations.append((want, Fraction(got)))
        if item["pat"] is not None:
            found = list(ref.alignments(item["pat"], item["shape"]))
            if not found:
                return "no"
            equations += found[0]
    return ref.solvable(equations, hint)


def decide_symbols(case):
    """ A call, and isinstance for each of its values. """
    values, hints = [], []
    for item, wrap in zip(case["places"], case["wrap"]):
        if np.prod([float(s) for s in item["shape"]]) > 1e6:
            raise build.TooBig
        value = array(item["shape"], "float64", item["own"])
        attrs = {k: build.expr(v) if isinstance(v, list) else v for k, v in item["attrs"].items()}
        ann = build.annotation("np", None, item["pat"], attrs or None)
        values.append([value] if wrap == "list" else value)
        hints.append({"arr": ann, "list": List[ann], "optional": Optional[ann]}[wrap])
        # By itself: symbols of attributes may be any number.
        alone = system([dict(item, attrs={k: v for k, v in item["attrs"].items() if not isinstance(v, list)})], case["hint"])
        odd = any(
            isinstance(v, list) and not number(real(item["own"].get(k)))
            for k, v in item["attrs"].items()
        )
        if odd:
            alone = "no"
        got = isinstance(value, ann)
        if alone != "maybe" and got != (alone == "yes"):
            raise Violation(f"array of shape {item['shape']} with {item['own']} against {ann!r}: {got}")
    ran = []
    count = len(values) - case["ret"]
    func = api.typechecked(
        funcs.function(
            [funcs.param(f"p{i}", h) for i, h in enumerate(hints[:count])],
            hints[-1] if case["ret"] else None,
            lambda b: ran.append(b) or (values[-1] if case["ret"] else None),
        )
    )
    out = call(func, *values[:count])
    what = f"call with {[(show(h), p['shape'], p['own']) for h, p in zip(hints, case['places'])]}, last returned: {case['ret']}"
    if not out.ok and out.kind != "TypeError":
        raise Violation(f"{what} {out!r}")
    args, both = system(case["places"][:count], case["hint"]), system(case["places"], case["hint"])
    if args != "maybe" and bool(ran) != (args == "yes"):
        raise Violation(f"{what} {out!r}: the arguments agree: {args}, but the body ran {len(ran)} times")
    if both != "maybe" and out.ok != (both == "yes"):
        raise Violation(f"{what} {out!r}: the values agree: {both}")
    symbolic = any(isinstance(v, list) for p in case["places"] for v in p["attrs"].values())
    return Note(symbolic and both != "maybe", both)


SUBS = [
    Sub("match", make_match, decide_match, 6000, 150000, size=96),
    Sub("symbols", make_symbols, decide_symbols, 1800, 40000, size=128, batch=6),
    Sub("tensors", make_framework, decide_framework, 3000, 80000, profile="both"),
]
