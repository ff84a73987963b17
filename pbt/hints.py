"""
Type hints and values as plain data, and whether a value fits a hint.

Hints: ["arr", dtype, pattern, fw] (dtype and pattern may be None), ["leaf", name]
(an ordinary type), ["none"], ["bare", name], ["list" | "seq" | "set" | "vartuple", hint,
spelling], ["dict", key, value, spelling], ["tuple", [hints], spelling], ["union", [hints],
spelling], ["tdict", id, [[key, hint]], total, form], ["ntuple", id, [[field, hint]], level],
["ord", name] (see ordinary.py), ["call", number of arguments, spelling], ["ann", hint]
(Annotated with something of no meaning to asta). The form of a
TypedDict may be missing: [number of inherited keys, totality of those, qualifiers], a
qualifier being "", "R" (Required) or "N" (NotRequired). The level of a named tuple may be
missing: how many times the class of the hint was derived from the one with the fields.

Values: ["arr", dtype, shape, fw], ["harr", dtype, shape] (a hashable array), ["leaf", name],
["none"], ["list" | "tuple" | "set" | "deque" | "mylist" | "frozenset", [values]],
["dict", [[key, value]]], ["odict", ...], ["nt", id, [values]] (id followed by a slash
for every level), ["ord", name], ["fn", shape].
"""
import collections
import collections.abc
import json
import types
import typing
import zlib

import numpy as np

from pbt import api, build, gen, ordinary, ref
from pbt.ordinary import Unprintable

# ------------------------------------------------------------ ordinary types


class Base:
    """ A user's class. """

    def __repr__(self):
        return type(self).__name__ + "()"


class Derived(Base):
    """ A subclass. """


class Other:
    """ An unrelated class. """

    def __repr__(self):
        return "Other()"


class MyStr(str):
    """ A subclass of a builtin type. """


class MyInt(int):
    """ A subclass of a builtin type. """


class MyFloat(float):
    """ A subclass of a builtin type. """


LEAF_TYPES = {
    "int": int, "str": str, "float": float, "bool": bool, "complex": complex, "bytes": bytes,
    "Base": Base, "Derived": Derived, "Other": Other, "object": object, "Any": typing.Any,
    "list": list, "dict": dict, "set": set, "ndarray": np.ndarray, "type": type,
}


def a_function(x):
    """ A function. """
    return x


LEAF_VALUES = {
    "int": 3, "zero": 0, "str": "abc", "empty str": "", "float": 2.5, "bool": True, "complex": 2j,
    "bytes": b"abc", "Base": Base(), "Derived": Derived(), "Other": Other(), "MyStr": MyStr("my"),
    "MyInt": MyInt(4), "MyFloat": MyFloat(1.5), "class": Base, "function": a_function, "ellipsis": ...,
    "npfloat": np.float64(1.5), "npint": np.int32(3), "range": range(2), "empty range": range(0),
    "bytearray": bytearray(b"ab"), "Unprintable": Unprintable(),
}


class MyList(list):
    """ A subclass of list. """


class HashableArray(np.ndarray):
    """ An array which can be in a set. """

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __str__(self):
        return f"array_{id(self) % 9973}"

    def __format__(self, spec):
        return str(self)

    __repr__ = __str__


BARE = {
    "List": typing.List, "Dict": typing.Dict, "Set": typing.Set, "Sequence": typing.Sequence,
    "Tuple": typing.Tuple, "tuple": tuple, "Tuple[()]": typing.Tuple[()],
}


class Context:
    """ The classes made for a case. """

    def __init__(self):
        self.named = {}
        self.shapes = {}
        self.keep = []

    def hint(self, spec):
        """ The annotation. """
        kind = spec[0]
        if kind == "arr":
            return build.annotation(spec[3] if len(spec) > 3 else "np", spec[1], spec[2])
        if kind == "leaf":
            return LEAF_TYPES[spec[1]]
        if kind == "none":
            return type(None)
        if kind == "ord":
            return ordinary.HINTS[spec[1]][0]
        if kind == "call":
            base = collections.abc.Callable if spec[2] else typing.Callable
            return base[[int] * spec[1], typing.Any]
        if kind == "ann":
            return typing.Annotated[self.hint(spec[1]), "a note"]
        if kind == "bare":
            return BARE[spec[1]]
        if kind in ("list", "seq", "set", "vartuple"):
            inner = self.hint(spec[1])
            if kind == "vartuple":
                return (tuple if spec[2] else typing.Tuple)[inner, ...]
            table = {
                "list": (typing.List, list), "seq": (typing.Sequence, collections.abc.Sequence),
                "set": (typing.Set, set, typing.AbstractSet, collections.abc.Set),
            }[kind]
            return table[spec[2] % len(table)][inner]
        if kind == "dict":
            return (dict if spec[3] else typing.Dict)[self.hint(spec[1]), self.hint(spec[2])]
        if kind == "tuple":
            return (tuple if spec[2] else typing.Tuple)[tuple(self.hint(s) for s in spec[1])]
        if kind == "union":
            members = [self.hint(s) for s in spec[1]]
            if spec[2]:
                res = members[0]
                for member in members[1:]:
                    res = res | member
                return res
            return typing.Union[tuple(members)]
        if kind == "tdict":
            return self.typed_dict(spec)
        if kind == "ntuple":
            if spec[1] not in self.named:
                fields = [(k, self.hint(s)) for k, s in spec[2]]
                res = self.named[spec[1]] = self.named_tuple(spec[1], fields)
                for level in range(1, 3):
                    res = self.named[spec[1] + "/" * level] = type("NT" + spec[1], (res,), {})
            return self.named[spec[1] + "/" * (spec[3] if len(spec) > 3 else 0)]
        raise ValueError(kind)

    @staticmethod
    def named_tuple(name, fields):
        """ A NamedTuple; some inherit their fields and annotate (some of) them anew. """
        some = zlib.crc32(name.encode()) % 4
        if some not in (1, 2) or not fields:
            return typing.NamedTuple("NT" + name, fields)
        own = dict(fields[-some:])
        base = typing.NamedTuple("NB" + name, [(k, api.Array[97] if k in own else h) for k, h in fields])
        return type("NT" + name, (base,), {"__annotations__": own})

    def typed_dict(self, spec):
        """ A TypedDict, which may inherit some of its keys. """
        inherited, base_total, qualifiers = spec[4] if len(spec) > 4 else [0, True, []]
        fields = {}
        for i, (key, inner) in enumerate(spec[2]):
            fields[key] = self.hint(inner)
            if qualifiers and qualifiers[i]:
                fields[key] = {"R": typing.Required, "N": typing.NotRequired}[qualifiers[i]][fields[key]]
        if not inherited:
            return typing.TypedDict("TD" + spec[1], fields, total=spec[3])
        keys = list(fields)
        base = typing.TypedDict("TB" + spec[1], {k: fields[k] for k in keys[:inherited]}, total=base_total)
        own = {k: fields[k] for k in keys[inherited:]}
        return types.new_class(
            "TD" + spec[1], (base,), dict(total=spec[3]), lambda ns: ns.update(__annotations__=own)
        )

    def value(self, spec):
        """ The value (after the hint was built). """
        kind = spec[0]
        if kind == "arr":
            return build.value(spec[3] if len(spec) > 3 else "np", spec[1], spec[2])
        if kind == "harr":
            return build.array(spec[2], spec[1]).view(HashableArray)
        if kind == "leaf":
            return spec[1][1:] if spec[1].startswith("=") else LEAF_VALUES[spec[1]]
        if kind == "none":
            return None
        if kind == "ord":
            return ordinary.value(spec[1])
        if kind == "fn":
            res = ordinary.callable_value(spec[1])
            self.shapes[id(res)] = spec[1]
            self.keep.append(res)
            return res
        if kind in ("dict", "odict"):
            pairs = [(self.value(k), self.value(v)) for k, v in spec[1]]
            return dict(pairs) if kind == "dict" else collections.OrderedDict(pairs)
        if kind == "nt":
            values = [self.value(v) for v in spec[2]]
            cls = self.named.get(spec[1])
            return cls(*values) if cls and len(cls._fields) == len(values) else tuple(values)
        items = [self.value(v) for v in spec[1]]
        return {
            "list": list, "tuple": tuple, "set": set, "deque": collections.deque, "mylist": MyList,
            "frozenset": frozenset,
        }[kind](items)


# ------------------------------------------------------------------- oracle


class Options:
    """ What the configuration says. """

    def __init__(self, nonasta=False, everything=True):
        self.nonasta = nonasta
        self.everything = everything


class Unknown(Exception):
    """ The oracle has no opinion. """


def ordinary_fits(spec, value, ctx):
    """ Whether a value is an instance of an ordinary annotation. """
    if spec[0] == "ord":
        res = ordinary.HINTS[spec[1]][1](value)
    elif not callable(value):
        res = False
    else:
        shape = ctx.shapes.get(id(value))
        res = ordinary.takes(shape, spec[1]) if shape else None
    if res is None:
        raise Unknown
    return res


def leaf_fits(name, value):
    """ Whether a value is an instance of an ordinary type. """
    if name == "Any":
        return True
    return isinstance(value, LEAF_TYPES[name])


def fits(spec, value, ctx, opts):
    """ Whether a value (object) fits a hint, by definition. """
    kind = spec[0]
    if kind == "arr":
        return array_fits(spec, value)
    if kind == "leaf":
        return leaf_fits(spec[1], value) if opts.nonasta else True
    if kind in ("ord", "call"):
        return ordinary_fits(spec, value, ctx) if opts.nonasta else True
    if kind == "ann":
        return fits(spec[1], value, ctx, opts)
    if kind == "none":
        return value is None
    if kind == "bare":
        name = spec[1]
        if name == "Tuple[()]":
            return isinstance(value, tuple) and len(value) == 0
        return isinstance(value, {
            "List": list, "Dict": dict, "Set": collections.abc.Set, "Sequence": collections.abc.Sequence,
            "Tuple": tuple, "tuple": tuple,
        }[name])
    if kind in ("list", "seq"):
        if not isinstance(value, list if kind == "list" else collections.abc.Sequence):
            return False
        items = list(value)
        return all(fits(spec[1], v, ctx, opts) for v in (items if opts.everything else items[:1]))
    if kind == "set":
        return isinstance(value, collections.abc.Set) and all(fits(spec[1], v, ctx, opts) for v in value)
    if kind == "vartuple":
        return isinstance(value, tuple) and all(fits(spec[1], v, ctx, opts) for v in value)
    if kind == "tuple":
        return (
            isinstance(value, tuple) and len(value) == len(spec[1])
            and all(fits(s, v, ctx, opts) for s, v in zip(spec[1], value))
        )
    if kind == "dict":
        return isinstance(value, dict) and all(
            fits(spec[1], k, ctx, opts) and fits(spec[2], v, ctx, opts) for k, v in value.items()
        )
    if kind == "union":
        return any(fits(s, value, ctx, opts) for s in spec[1])
    if kind == "tdict":
        keys = [k for k, _ in spec[2]]
        if not isinstance(value, dict) or any(k not in keys for k in value):
            return False
        if any(k not in value for k in required_keys(spec)):
            return False
        return all(fits(s, value[k], ctx, opts) for k, s in spec[2] if k in value)
    if kind == "ntuple":
        cls = ctx.named[spec[1] + "/" * (spec[3] if len(spec) > 3 else 0)]
        return isinstance(value, cls) and all(
            fits(s, getattr(value, k), ctx, opts) for k, s in spec[2]
        )
    raise ValueError(kind)


def required_keys(spec):
    """ The keys which a TypedDict requires. """
    inherited, base_total, qualifiers = spec[4] if len(spec) > 4 else [0, True, []]
    res = []
    for i, (key, _) in enumerate(spec[2]):
        total = base_total if i < inherited else spec[3]
        if qualifiers and qualifiers[i]:
            total = qualifiers[i] == "R"
        if total:
            res.append(key)
    return res


def array_fits(spec, value):
    """ The definition of an array annotation. """
    fw = spec[3] if len(spec) > 3 else "np"
    if fw == "np":
        if not isinstance(value, np.ndarray):
            return False
        dtype, shape = value.dtype, value.shape
    else:
        if not type(value).__module__.startswith({"tf": "tensorflow", "torch": "pbt.faketorch"}[fw]):
            return False
        dtype = value.dtype.name if fw == "tf" else repr(value.dtype)[len("torch."):]
        shape = tuple(value.shape)
    if not build.dtype_matches(fw, spec[1], dtype):
        return False
    return spec[2] is None or ref.match(spec[2], list(shape))


# --------------------------------------------------------------- generators

DTYPES = ["py:float", "py:int", "dt:float32", "py:str", "np:uint8"]


def gen_array(d):
    """ An array hint. """
    dtype = d.pick(DTYPES) if d.bool() else None
    pattern = None if d.bool(12) else gen.plain_pattern(d, max_len=3, sizes=gen.small)
    return ["arr", dtype, pattern]


class HintGen:
    """ Generates hints; ``leaves``: ordinary types which may occur outside of Unions. """

    def __init__(self, d, leaves=("int", "str", "Any", "Base"), in_union=False, bare=True, ords=0):
        self.d = d
        self.ords = ords
        self.leaves = leaves
        self.in_union = in_union
        self.bare = bare
        self.count = 0

    def leaf(self, union=False):
        """ An array, mostly. """
        d = self.d
        if self.ords and (not union or self.in_union) and d.bool(self.ords):
            return self.ordinary()
        if (not union or self.in_union) and self.leaves and d.bool(18):
            return ["leaf", d.pick(self.leaves)]
        return gen_array(d)

    def ordinary(self):
        """ An ordinary annotation. """
        d = self.d
        if d.bool(12):
            return ["call", d.int(0, 3), d.int(0, 1)]
        return ["ord", d.pick([n for n in sorted(ordinary.HINTS) if n != "None"])]

    def hint(self, depth, union=False):
        """ A hint of limited depth. ``union``: as the member of one. """
        d = self.d
        if d.bool(4):
            return ["ann", self.hint(depth, union)]
        if depth == 0 or d.bool(15):
            return self.leaf(union)
        kind = d.pick([
            "list", "tuple", "dict", "opt", "union", "seq", "vartuple", "tdict", "ntuple", "set", "bare", "none",
        ])
        if kind in ("list", "seq", "vartuple"):
            return [kind, self.hint(depth - 1, union), d.int(0, 1)]
        if kind == "set":
            inner = self.leaf(union)
            return ["set", inner, d.int(0, 3)]
        if kind == "tuple":
            return [kind, [self.hint(depth - 1, union) for _ in range(d.int(1, 3))], d.int(0, 1)]
        if kind == "dict":
            key = ["leaf", "str"] if d.bool(70) else ["leaf", "Any"]
            if d.bool(15):
                key = ["tuple", [["leaf", "Any"], ["leaf", "Any"]], d.int(0, 1)]
            if d.bool(25):
                # Keys which are checked whatever the configuration.
                key = gen_array(d)
                if d.bool(40):
                    key = ["tuple", [key, ["leaf", "Any"]], d.int(0, 1)]
            inner = ["leaf", "Any"] if d.bool(12) and (not union or self.in_union) else self.hint(depth - 1, union)
            return [kind, key, inner, d.int(0, 1)]
        if kind == "opt":
            members = [self.hint(depth - 1, True), ["none"]]
            return ["union", members[:: d.pick([1, -1])], d.int(0, 1)]
        if kind == "union":
            members = [self.hint(depth - 1, True) for _ in range(d.int(2, 3))]
            return ["union", members, d.int(0, 1)]
        if kind == "bare":
            return ["bare", d.pick(sorted(BARE))] if self.bare else self.leaf(union)
        if kind == "none":
            return ["none"]
        self.count += 1
        ident = str(self.count)
        count = 0 if kind == "tdict" and d.bool(10) else d.int(1, 3)
        fields = [[f"f{i}", self.hint(depth - 1, union)] for i in range(count)]
        if kind == "tdict":
            res = [kind, ident, fields, d.bool()]
            if d.bool(50):
                qualifiers = [d.pick(["", "R", "N"]) for _ in fields] if d.bool(60) else []
                res.append([d.int(0, len(fields)), d.bool(), qualifiers])
            return res
        res = [kind, ident, fields]
        if d.bool(40):
            res.append(d.int(1, 2))
        return res


GOOD = {}


def gen_callable(d, count):
    """ The shape of a callable, likely one which takes ``count`` arguments. """
    optional = d.pick([0, 0, 1, 2])
    mandatory = max(0, count - d.int(0, optional)) if d.bool(75) else d.int(0, 4)
    return dict(
        mandatory=mandatory, optional=optional, varargs=d.bool(15), keywords=d.pick([0, 0, 0, 1]),
        varkw=d.bool(15), slash=d.bool(20), form=d.pick(ordinary.CALLABLE_FORMS),
    )


class ValueGen:
    """ Generates values for hints, with ``flaws`` deliberate mistakes still to make. """

    # How likely a mistake is at one place.
    rate = 25

    def __init__(self, d, flaws=0, opts=None):
        self.d = d
        self.flaws = flaws
        self.opts = opts or Options()

    def value(self, spec, depth=0):
        """ A value for a hint. """
        d = self.d
        if self.flaws and d.bool(self.rate if depth < 3 else 60):
            self.flaws -= 1
            return self.wrong(spec, depth)
        kind = spec[0]
        if kind == "ann":
            return self.value(spec[1], depth)
        if kind == "arr":
            return self.array(spec)
        if kind in ("ord", "call"):
            return self.ordinary(spec)
        if kind == "leaf":
            return self.leaf(spec[1])
        if kind == "none":
            return ["none"]
        if kind == "bare":
            inner = [["leaf", "int"]] * d.int(0, 2)
            return {
                "List": ["list", inner], "Dict": ["dict", []], "Set": ["set", inner[:1]],
                "Sequence": ["list", inner], "Tuple": ["tuple", inner], "tuple": ["tuple", inner],
                "Tuple[()]": ["tuple", []],
            }[spec[1]]
        if kind == "list":
            return [d.pick(["list", "list", "mylist"]), self.many(spec[1], depth)]
        if kind == "seq":
            return [d.pick(["list", "tuple", "deque", "mylist"]), self.many(spec[1], depth)]
        if kind == "vartuple":
            return ["tuple", self.many(spec[1], depth)]
        if kind == "set":
            return [d.pick(["set", "frozenset"]), [hashable(v) for v in self.many(spec[1], depth)]]
        if kind == "tuple":
            return ["tuple", [self.value(s, depth + 1) for s in spec[1]]]
        if kind == "dict":
            return [
                d.pick(["dict", "dict", "odict"]),
                [[self.key(spec[1], i), v] for i, v in enumerate(self.many(spec[2], depth))],
            ]
        if kind == "union":
            return self.value(d.pick(spec[1]), depth)
        if kind == "tdict":
            required = required_keys(spec)
            fields = [f for f in spec[2] if f[0] in required or d.bool(60)]
            return ["dict", [[["leaf", "=" + k], self.value(s, depth + 1)] for k, s in fields]]
        level = spec[3] if len(spec) > 3 else 0
        if self.flaws and level and d.bool(30):
            self.flaws -= 1
            level = d.int(0, level - 1)
        elif d.bool(30):
            level = d.int(level, 2)
        return ["nt", spec[1] + "/" * level, [self.value(s, depth + 1) for _, s in spec[2]]]

    def many(self, spec, depth):
        """ A few values for one hint. """
        return [self.value(spec, depth + 1) for _ in range(self.d.int(0, 3) if depth < 2 else self.d.int(0, 2))]

    def key(self, spec, index):
        """ A dictionary key. """
        d = self.d
        if '"arr"' in json.dumps(spec):
            if self.flaws and d.bool(40):
                self.flaws -= 1
                return printable(hashable(self.wrong(spec, 3)))
            return printable(hashable(self.value(spec, 3)))
        if spec[0] == "tuple":
            return ["tuple", [["leaf", "=" + str(index)], ["leaf", "int"]]]
        return ["leaf", f"=k{index}"]

    def array(self, spec):
        """ An array which fits. """
        d = self.d
        shape = (
            d.some(lambda: gen.small(d), 0, 3) if spec[2] is None else gen.fitting_shape(d, spec[2])
        )
        dtype = d.pick(["float64", "int64", "float32"])
        if spec[1] is not None:
            kind, name = spec[1].split(":")
            dtype = gen.PY_EXAMPLES[name] if kind == "py" else name
        return ["arr", dtype, shape]

    def ordinary(self, spec):
        """ A value for an ordinary annotation; anything if they are not checked. """
        d = self.d
        if spec[0] == "call":
            if d.bool(15):
                return ["ord", d.pick(ordinary.VALUE_NAMES)]
            return ["fn", gen_callable(d, spec[1])]
        if not self.opts.nonasta:
            return ["fn", gen_callable(d, 1)] if d.bool(5) else ["ord", d.pick(ordinary.VALUE_NAMES)]
        good = GOOD.get(spec[1])
        if good is None:
            pred = ordinary.HINTS[spec[1]][1]
            good = GOOD[spec[1]] = [n for n in ordinary.VALUE_NAMES if pred(ordinary.value(n))]
        return ["ord", d.pick(good or ordinary.VALUE_NAMES)]

    def leaf(self, name):
        """ An instance of an ordinary type; anything if they are not checked. """
        d = self.d
        if not self.opts.nonasta:
            return ["leaf", d.pick(sorted(LEAF_VALUES))] if d.bool(70) else ["arr", "float64", [2]]
        good = [n for n in sorted(LEAF_VALUES) if leaf_fits(name, LEAF_VALUES[n])]
        if name in ("list", "dict", "set"):
            return [name, []]
        if name == "ndarray":
            return ["arr", "float64", [2]]
        return ["leaf", d.pick(good)]

    def wrong(self, spec, depth):
        """ A value which is, most likely, a mistake. """
        d = self.d
        kind = spec[0]
        if kind == "ann":
            return self.wrong(spec[1], depth)
        if kind in ("ord", "call"):
            if kind == "call" and d.bool(70):
                return ["fn", gen_callable(d, d.int(0, 3))]
            return ["ord", d.pick(ordinary.VALUE_NAMES)]
        if kind == "arr" and d.bool(75):
            good = self.array(spec)
            if spec[1] is not None and d.bool(35):
                return ["arr", d.pick(["float64", "int64", "float32", "<U2", "complex128", "uint8"]), good[2]]
            return ["arr", good[1], gen.mutate(d, good[2])]
        if kind in ("tuple", "vartuple", "list", "seq", "ntuple") and d.bool(60):
            inner = self.inner(spec, depth)
            how = d.pick(["retype", "longer", "shorter"])
            if how == "longer":
                inner = inner + [["leaf", "int"]]
            elif how == "shorter":
                inner = inner[:-1]
            if how == "retype":
                return [d.pick(["list", "tuple", "deque", "set"]) , inner] if not inner else [
                    d.pick(["list", "tuple", "deque"]), inner]
            return [{"list": "list", "seq": "tuple"}.get(kind, "tuple"), inner]
        if kind in ("dict", "tdict") and d.bool(60):
            self.flaws += 0
            good = self.value(spec, depth)
            if good[0] in ("dict", "odict"):
                how = d.pick(["extra", "missing", "value", "items"])
                if how == "extra":
                    return [good[0], good[1] + [[["leaf", "=extra"], ["leaf", "int"]]]]
                if how == "missing":
                    gone = d.int(0, max(0, len(good[1]) - 1))
                    return [good[0], good[1][:gone] + good[1][gone + 1:]]
                if how == "items":
                    return ["list", [v for _, v in good[1]]]
                if good[1]:
                    i = d.int(0, len(good[1]) - 1)
                    good[1][i] = [good[1][i][0], ["leaf", "int"]]
                return good
        return d.pick([
            ["none"], ["leaf", "int"], ["leaf", "str"], ["list", []], ["tuple", []], ["dict", []],
            ["arr", "float64", [3]], ["list", [["arr", "float64", [2]]]], ["leaf", "Other"],
            ["tuple", [["arr", "float64", [2]]]], ["leaf", "range"], ["leaf", "class"], ["leaf", "npfloat"],
            ["leaf", "Unprintable"],
        ])

    def inner(self, spec, depth):
        """ The elements of a sequence which fits. """
        kind = spec[0]
        if kind == "tuple":
            return [self.value(s, depth + 1) for s in spec[1]]
        if kind == "ntuple":
            return [self.value(s, depth + 1) for _, s in spec[2]]
        return self.many(spec[1], depth)


def printable(spec):
    """ A value which has a text: keys are part of the names of what they map to. """
    return json.loads(json.dumps(spec).replace("Unprintable", "Base"))


def hashable(spec):
    """ A value which can be in a set. """
    if spec[0] == "arr":
        return ["harr", spec[1], spec[2]]
    if spec[0] in ("leaf", "none", "harr"):
        return spec if spec[-1] != "bytearray" else ["leaf", "bytes"]
    if spec[0] == "ord":
        try:
            hash(ordinary.value(spec[1]))
        except TypeError:
            return ["leaf", "int"]
        return spec
    if spec[0] == "fn":
        return spec
    if spec[0] in ("tuple", "nt", "frozenset"):
        return spec[:-1] + [[hashable(v) for v in spec[-1]]]
    return ["leaf", "int"]


def depth(spec):
    """ How deep a hint is. """
    kind = spec[0]
    if kind in ("arr", "leaf", "none", "bare", "ord", "call"):
        return 0
    if kind == "ann":
        return depth(spec[1])
    if kind in ("tuple", "union"):
        return 1 + max([depth(s) for s in spec[1]], default=0)
    if kind in ("tdict", "ntuple"):
        return 1 + max([depth(s) for _, s in spec[2]], default=0)
    if kind == "dict":
        return 1 + max(depth(spec[1]), depth(spec[2]))
    return 1 + depth(spec[1])


def has_array(spec):
    """ Whether an asta annotation occurs in a hint. """
    return '"arr"' in json.dumps(spec)
