""" C16: Equality and hashing of annotations are coherent and mean 'same annotation'. """
import copy
from typing import Dict, List, Optional, Tuple, Union, get_origin

import numpy as np

from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.sandbox import call
from pbt.variables import Names

SHARDS = {"core": 3, "both": 3}
QUICK = 4
RULE = (
    "A case is a pool of two to five annotations, most of them differing from an earlier one in at most "
    "one place or only in spelling, each written at once or in steps, and a history of hashing, comparing "
    "and printing them, also between the steps; distinct cases with an equal and an unequal pair count as "
    "non-trivial."
)
NOTE = (
    "Two annotations should be equal if and only if their canonical descriptions (class, dtype, list of "
    "dimensions, attributes) are; every pair is compared in both directions and through sets, dictionaries, "
    "List, Dict, Tuple and Union. Expressions which differ as written but not in value are not compared."
)
SYMS = ["X", "Y"]
ATTRS = {
    "ndim": [1, 2, ["sym", "X"], ["sym", "Y"]], "requires_grad": [False, True], "name": ["a", "b", None],
    "size": [8, 4], "T": ["x", [1, 2], [2, 1]],
}


def make_elem(d):
    """ A dimension. """
    how = d.int(0, 5)
    if how < 3:
        return d.int(0, 4)
    if how == 3:
        return -1
    if how == 4:
        return "..."
    return gen.expression(d, SYMS, d.int(0, 1), d.pick(["sym", "sym", "dim"]))


def tidy(pat):
    """ Without adjacent ellipses. """
    return [e for i, e in enumerate(pat) if not (e == "..." and i and pat[i - 1] == "...")]


def make_spec(d, frameworks):
    """ An annotation: framework, dtype, pattern, attributes. """
    fw = d.pick(frameworks)
    return dict(
        fw=fw, dtype=gen.dtype_arg(d, fw) if d.bool(60) else None,
        pat=None if d.bool(20) else tidy(d.some(lambda: make_elem(d), 0, 4)),
        attrs={k: d.pick(ATTRS[k]) for k in d.shuffle(ATTRS)[: d.int(1, 2)]} if d.bool(40) else None,
    )


def change(d, spec, frameworks):
    """ A copy with at most one difference. """
    spec = copy.deepcopy(spec)
    how = d.pick(["no", "no", "dim", "dtype", "attr", "shape", "class", "dim", "attr"])
    if how == "dim" and spec["pat"]:
        i = d.int(0, len(spec["pat"]) - 1)
        op = d.pick(["set", "drop", "swap", "inc"])
        if op == "set":
            spec["pat"][i] = make_elem(d)
        elif op == "drop":
            spec["pat"].pop(i)
        elif op == "inc" and isinstance(spec["pat"][i], int):
            spec["pat"][i] += 1
        else:
            j = d.int(0, len(spec["pat"]) - 1)
            spec["pat"][i], spec["pat"][j] = spec["pat"][j], spec["pat"][i]
        spec["pat"] = tidy(spec["pat"])
    elif how == "dtype":
        spec["dtype"] = None if spec["dtype"] and d.bool(30) else gen.dtype_arg(d, spec["fw"])
    elif how == "attr":
        attrs = spec["attrs"] or {}
        key = d.pick(sorted(ATTRS))
        if attrs.get(key, 0) != 0 and d.bool(40):
            del attrs[key]
        else:
            attrs[key] = d.pick(ATTRS[key])
        spec["attrs"] = attrs or None
    elif how == "shape":
        spec["pat"] = d.pick([None, [], ["..."], [-1], [0]])
    elif how == "class":
        fresh = d.pick(frameworks)
        if fresh != spec["fw"]:
            spec.update(fw=fresh, dtype=None)
    return spec


def make_route(d):
    """ How an annotation is written: in steps or not, and which other things happen on the way. """
    return dict(
        order=d.shuffle(["dtype", "pat", "attrs"]), once=d.bool(40), tuple=d.bool(30), scalar=d.bool(30),
        junk=d.pick([None, None, "dtype", "pat"]), hash=d.bool(50), flip=d.bool(40), respell=d.bool(50),
    )


def make(d, frameworks=("np",)):
    """ A pool of annotations and a history. """
    specs = [make_spec(d, frameworks)]
    for _ in range(d.int(1, 4)):
        specs.append(change(d, d.pick(specs), frameworks))
    routes = [make_route(d) for _ in specs]
    top = len(specs) - 1
    ops = d.some(lambda: [d.pick(["hash", "eq", "repr", "list", "isinstance"]), d.int(0, top), d.int(0, top)], 0, 5)
    return dict(specs=specs, routes=routes, ops=ops)


# Other ways to write a dtype.
RESPELL = {
    "np": {
        "py:int": "np:int64", "py:float": "dt:float64", "py:bool": "np:bool_", "py:complex": "np:complex128",
        "py:object": "dt:O", "dt:O": "py:object", "np:int64": "py:int", "dt:int64": "dt:longlong", "np:float64": "py:float",
        "dt:float64": "py:float", "dt:bool": "py:bool", "np:float32": "dt:float32", "dt:int32": "np:int32",
    },
    "tf": {
        "py:int": "dt:int32", "py:float": "dt:float32", "py:bytes": "py:str", "py:str": "dt:string",
        "dt:int32": "py:int", "dt:float32": "py:float", "py:bool": "dt:bool", "dt:complex128": "py:complex",
    },
    "torch": {
        "py:int": "dt:int32", "py:float": "dt:float32", "dt:float32": "py:float", "dt:uint8": "py:bytes",
        "dt:bool": "py:bool",
    },
}


def attr_value(value):
    """ A value of an attribute. """
    if isinstance(value, list):
        return build.expr(value) if value[0] == "sym" else tuple(value)
    return value


def write(spec, route, touch):
    """ The annotation, by a route. """
    fw = spec["fw"]
    cls = getattr(api, build.annotation_class(fw))
    dtype = spec["dtype"]
    if dtype and route["respell"]:
        dtype = RESPELL[fw].get(dtype, dtype)
    parts = {}
    if dtype:
        parts["dtype"] = [build.dtype_arg(fw, dtype)]
    pat = spec["pat"]
    if pat is not None:
        items = list(build.pattern(pat))
        if not items:
            parts["pat"] = [api.Scalar] if route["scalar"] else [()]
        elif route["tuple"]:
            parts["pat"] = [tuple(items)]
            if fw == "torch" and route["scalar"] and all(isinstance(i, int) and i >= 0 for i in items):
                parts["pat"] = [api.torch.Size(items)]
            if fw == "tf" and route["scalar"] and all(isinstance(i, int) and i >= 0 for i in items):
                parts["pat"] = [api.tf.TensorShape(items)]
        else:
            parts["pat"] = items
    if spec["attrs"]:
        keys = sorted(spec["attrs"], reverse=route["flip"])
        parts["attrs"] = [{k: attr_value(spec["attrs"][k]) for k in keys}]
    if not parts:
        return cls
    if route["once"]:
        return build.annotate(cls, *[x for k in ("dtype", "pat", "attrs") for x in parts.get(k, [])])
    if route["junk"] in parts:
        # Overridden later.
        cls = cls[bool] if route["junk"] == "dtype" else cls[7, ...]
        touch(cls)
    for key in route["order"]:
        if key in parts:
            cls = build.annotate(cls, *parts[key])
            touch(cls)
    return cls


def canon_dtype(fw, spec):
    """ What a dtype argument means. """
    if spec is None:
        return None
    kind, name = spec.split(":", 1)
    if fw == "np":
        if kind == "py" and name in build.PY_KINDS and name != "object":
            return "kind " + build.PY_KINDS[name]
        return np.dtype(build.PY_EXACT.get(name, name) if kind == "py" else name).str
    if kind == "py":
        name = (build.TF_PY if fw == "tf" else build.TORCH_PY)[name]
    return name


def canon(spec):
    """ What an annotation means. """
    return [spec["fw"], canon_dtype(spec["fw"], spec["dtype"]), spec["pat"], spec["attrs"] or None]


def apart(tree):
    """ The tree, with other names for its dimension variables. """
    if isinstance(tree, int):
        return tree
    if tree[0] in ("sym", "dim"):
        return [tree[0], tree[1] + ("'" if tree[0] == "dim" else "")]
    return [tree[0], apart(tree[1]), apart(tree[2])]


def alike(one, two):
    """ Whether two trees may be the same expression: equal, or equal in value. """
    if one == two:
        return True
    one, two = apart(one), apart(two)
    for env in ({"X": 3, "Y": 5, "X'": 17, "Y'": 19}, {"X": 7, "Y": 2, "X'": 4, "Y'": 23}, {"X": 11, "Y": 13, "X'": 2, "Y'": 6}):
        if ref.evaluate(one, env) != ref.evaluate(two, env):
            return False
    return None


def same(one, two):
    """ Whether two annotations are the same; None if that depends on how one writes expressions. """
    first, second = canon(one), canon(two)
    if first == second:
        return True
    if first[:2] != second[:2] or first[3] != second[3]:
        return False
    if first[2] is None or second[2] is None or len(first[2]) != len(second[2]):
        return False
    res = True
    for left, right in zip(first[2], second[2]):
        if left == right:
            continue
        if left == "..." or right == "...":
            return False
        verdict = alike(left, right)
        if verdict is False:
            return False
        if verdict is None:
            res = None
    return res


def compare(a, b, want, what):
    """ All observations of one pair. """
    facts = {
        "a == b": a == b, "b == a": b == a, "not a != b": not a != b, "a in [b]": a in [b],
        "a in {b}": a in {b}, "{b: 1}.get(a)": {b: 1}.get(a) == 1, "len({a, b}) == 1": len({a, b}) == 1,
        "List[a] == List[b]": List[a] == List[b],
        "Dict[str, a] == Dict[str, b]": Dict[str, a] == Dict[str, b],
        "Tuple[a, ...] == Tuple[b, ...]": Tuple[a, ...] == Tuple[b, ...],
        "Optional[a] == Optional[b]": Optional[a] == Optional[b],
        "Union[a, b] is no Union": get_origin(Union[a, b]) is not Union and Union[a, b] == a,
    }
    for name, value in facts.items():
        if value is not want:
            raise Violation(f"{what}: these are {'the same' if want else 'different'}, but not so by {name}")
    if want and hash(a) != hash(b):
        raise Violation(f"{what}: equal, but the hashes are {hash(a)} and {hash(b)}")
    if not want:
        union = Union[a, b]
        if set(union.__args__) != {a, b} or union.__args__[0] == union.__args__[1]:
            raise Violation(f"{what}: Union[a, b] has {union.__args__}")
        pair = {a: 1, b: 2}
        if pair[a] != 1 or pair[b] != 2:
            raise Violation(f"{what}: a dictionary confuses them")


def history(anns, ops):
    """ Hash, compare and print in any order. """
    for op, i, j in ops:
        if op == "hash":
            hash(anns[i])
        elif op == "eq":
            anns[i] == anns[j]  # pylint: disable=pointless-statement
        elif op == "repr":
            repr(anns[i])
        elif op == "list":
            List[anns[i]]  # pylint: disable=expression-not-assigned
        else:
            isinstance(3, anns[i])


def decide(case):
    """ All pairs of a pool. """
    anns = []
    for spec, route in zip(case["specs"], case["routes"]):
        anns.append(write(spec, route, hash if route["hash"] else id))
    history(anns, case["ops"])
    hashes = [hash(a) for a in anns]
    equal = unequal = 0
    for i, one in enumerate(case["specs"]):
        for j, two in enumerate(case["specs"][: i + 1]):
            want = same(one, two)
            if want is None:
                continue
            if i != j:
                equal += want
                unequal += not want
            compare(anns[i], anns[j], want, f"a = {anns[i]!r} ({case['routes'][i]}), b = {anns[j]!r}")
    if [hash(a) for a in anns] != hashes:
        raise Violation("hashes changed")
    for ann in anns:
        for other in (None, 3, int, "Array", (), object(), str(ann), np.zeros(3).dtype, List[int]):
            if ann == other or not ann != other:
                raise Violation(f"{ann!r} == {other!r}")
    return Note(equal and unequal, *(["equal"] if equal else []), *(["unequal"] if unequal else []))


# ------------------------------------------------------------------- variables


def make_variables(d):
    """ Annotations with concatenated or unpacked shapes. """

    def one():
        parts = []
        for _ in range(d.int(1, 4)):
            if d.bool(50) and not (parts and isinstance(parts[-1], list)):
                parts.append(d.some(lambda: d.int(1, 3), 1, 2))
            else:
                parts.append(d.pick(["S", "T"]))
        if not any(isinstance(p, str) for p in parts):
            parts.append("S")
        return parts

    pool = [one()]
    for _ in range(d.int(1, 3)):
        pool.append(list(d.pick(pool)) if d.bool(50) else one())
    return dict(pool=pool, form=d.pick(["concat", "list"]), dtypes=[d.bool(20) for _ in pool], hash=d.bool(50))


def decide_variables(case):
    """ All pairs. """
    names = Names()
    anns = []
    shapes = []
    for parts, dtype in zip(case["pool"], case["dtypes"]):
        if case["form"] == "concat":
            shape = None
            for part in parts:
                item = getattr(api.shapes, names(part)) if isinstance(part, str) else tuple(part)
                shape = item if shape is None else shape + item
            ann = api.Array[float, shape] if dtype else api.Array[shape]
            shapes.append(shape)
        else:
            items = []
            for part in parts:
                items += [getattr(api.shapes, names(part))] if isinstance(part, str) else part
            ann = api.Array[(float, *items)] if dtype else api.Array[tuple(items)]
        if case["hash"]:
            hash(ann)
        anns.append(ann)
    equal = 0
    for i, one in enumerate(anns):
        for j, two in enumerate(anns[:i]):
            want = [case["pool"][i], case["dtypes"][i]] == [case["pool"][j], case["dtypes"][j]]
            equal += want
            compare(one, two, want, f"a = {one!r}, b = {two!r}")
    # The shapes themselves.
    for i, one in enumerate(shapes):
        for j, two in enumerate(shapes[:i]):
            want = case["pool"][i] == case["pool"][j]
            facts = {
                name: call(func).value for name, func in {
                    "==": lambda: one == two, "in a set": lambda: one in {two}, "!=": lambda: not one != two,
                    "as a key": lambda: {two: 1}.get(one) == 1,
                }.items()
            }
            if any(fact is not want for fact in facts.values()) or want and hash(one) != hash(two):
                raise Violation(f"shapes {one!r} and {two!r} are {'the same' if want else 'different'}, but {facts}")
    return Note(equal, case["form"])


def make_all(d):
    return make(d, ("np", "tf", "torch"))


SUBS = [
    Sub("pools", make, decide, 4000, 100000, size=160, batch=6),
    Sub("variables", make_variables, decide_variables, 1500, 30000),
    Sub("frameworks", make_all, decide, 4000, 100000, profile="both", size=160, batch=6),
]
