""" C24: Checks are pure: verdicts do not depend on what was checked before. """
import collections
import copy
import gc
import itertools
import json
import random
import sys
import threading
from typing import Any, Dict, Iterable, Iterator, List, NotRequired, Optional, Required, Sequence, Tuple, TypedDict, Union

import numpy as np

from pbt import api, build, funcs, gen
from pbt.core import Note, Sub, Violation
from pbt.props.c16 import ATTRS, attr_value, tidy
from pbt.sandbox import call, fork, show
from pbt.variables import DIMS, Names, dim_expression

SHARDS = {"core": 3, "soft": 2, "fresh": 3}
QUICK = 1.5
RULE = (
    "A case is a pool of annotations (symbols, variables, attributes included), functions which use them, "
    "and arrays, and a history of up to 24 steps: isinstance, calls (some fail, some raise, some are illegal), "
    "assignments to variables, arrays changed in place or replaced, hashes, texts, subscripts. 'orders': the "
    "same checks in three orders, in processes which have not checked anything before; 'iterators': values "
    "which can be used up; 'brief': objects which are dropped after each check; 'missing': dictionaries which make up missing values; 'threads': checks at the same time. Cases with a repeated check, with other "
    "verdicts in between, count as non-trivial."
)
NOTE = (
    "No verdict is predicted: each must equal that of every other time the same annotation (or a copy "
    "written afresh) was checked against an equal value with the same variables. Values, annotations and "
    "random generators are compared with snapshots. Threads check unrelated values only."
)
SYMS = ["X", "Y"]
DTYPES = ["float64", "int64", "int32", "float32", "uint8", "bool"]
HINTS = {
    "bare": lambda a, b: a, "list": lambda a, b: List[a], "dict": lambda a, b: Dict[str, a],
    "optional": lambda a, b: Optional[a], "union": lambda a, b: Union[a, b], "many": lambda a, b: Tuple[a, ...],
    "pair": lambda a, b: Tuple[a, b], "seq": lambda a, b: Sequence[Union[a, b]],
}


class Boom(Exception):
    """ Raised by a body. """


def make_elem(d, dims):
    """ A dimension. """
    kind = d.pick(["n", "n", "sym", "-1", "...", "expr", "dim", "dimexpr"] if dims else ["n", "n", "sym", "-1", "...", "expr"])
    if kind == "n":
        return d.int(0, 3)
    if kind in ("-1", "..."):
        return -1 if kind == "-1" else "..."
    if kind == "sym":
        return ["sym", d.pick(SYMS)]
    if kind == "expr":
        return gen.expression(d, SYMS, 1)
    return ["dim", d.pick(DIMS)] if kind == "dim" else dim_expression(d, 1)


def make_annotation(d, dims=True):
    """ dtype, pattern, attributes. """
    return dict(
        dtype=d.pick(["py:float", "py:int", "np:int32", "dt:float32"]) if d.bool(35) else None,
        pat=tidy(d.some(lambda: make_elem(d, dims), 0, 3)) if d.bool(90) else None,
        attrs={k: d.pick(ATTRS[k]) for k in d.shuffle(["ndim", "size", "T"])[:1]} if d.bool(15) else None,
    )


def make_value(d):
    """ An array, mostly. """
    if d.bool(12):
        return [d.pick(["none", "int", "list", "str"])]
    return ["arr", d.pick(DTYPES), d.some(lambda: d.pick([1, 2, 3, 1, 2, 0, 4]), 0, 3)]


def make_pool(d, dims=True):
    """ Annotations, functions and values. """
    anns = [make_annotation(d, dims) for _ in range(d.int(1, 3))]
    top = len(anns) - 1
    functions = [
        dict(
            params=[[d.pick(sorted(HINTS)), d.int(0, top), d.int(0, top)] for _ in range(d.int(1, 2))],
            ret=d.int(0, top) if d.bool(40) else None,
        )
        for _ in range(d.int(0, 2))
    ]
    return dict(anns=anns, functions=functions, values=[make_value(d) for _ in range(d.int(2, 4))])


def make_check(d, pool):
    """ A check. """
    top = len(pool["values"]) - 1
    if pool["functions"] and d.bool(60):
        index = d.int(0, len(pool["functions"]) - 1)
        given = [[d.int(0, top), d.int(0, top)] for _ in pool["functions"][index]["params"]]
        return ["call", index, given, d.int(0, top), d.bool(8)]
    return ["is", d.int(0, len(pool["anns"]) - 1), d.int(0, top)]


def make(d):
    """ Cases of 'history'. """
    pool = make_pool(d)
    checks = [make_check(d, pool) for _ in range(d.int(2, 5))]
    ops = []
    arrays = [i for i, v in enumerate(pool["values"]) if v[0] == "arr"]
    for _ in range(d.int(6, 24)):
        kind = d.pick(["check"] * 8 + ["set", "reshape", "retype", "replace", "touch", "touch", "junk"])
        if kind == "check":
            ops.append(d.pick(checks))
        elif kind == "set":
            ops.append(["set", d.pick(DIMS), d.int(0, 4)])
        elif kind in ("reshape", "retype", "replace"):
            if arrays:
                ops.append([kind, d.pick(arrays), d.int(0, 5), make_value(d)])
        elif kind == "touch":
            ops.append(["touch", d.pick(["hash", "eq", "repr", "list", "sub", "dtype", "attrs", "union"]), d.int(0, len(pool["anns"]) - 1)])
        else:
            ops.append(["junk", d.pick(["arity", "dots", "subscript", "unset", "other"]), d.int(0, len(pool["values"]) - 1)])
    return dict(pool, ops=ops)


# ----------------------------------------------------------------- building


def new_value(spec):
    """ A value. """
    if spec[0] != "arr":
        return {"none": None, "int": 3, "list": [1], "str": "abc"}[spec[0]]
    size = int(np.prod(spec[2], dtype=int))
    return np.arange(size).reshape(spec[2]).astype(spec[1])


class World:
    """ The objects of a pool. """

    def __init__(self, pool):
        self.pool = pool
        self.names = Names()
        self.anns = [self.annotation(spec) for spec in pool["anns"]]
        self.values = [new_value(v) for v in pool["values"]]
        self.todo = (None, False)
        self.plain = [self.function(spec) for spec in pool["functions"]]
        self.functions = [api.typechecked(f) for f in self.plain]

    def annotation(self, spec):
        """ An annotation. """
        items = []
        if spec["dtype"]:
            items.append(build.np_dtype_arg(spec["dtype"]))
        if spec["pat"] is not None:
            items.extend(build.pattern(spec["pat"], self.names.rename) or [()])
        if spec["attrs"]:
            items.append({k: attr_value(v) for k, v in spec["attrs"].items()})
        return build.annotate(api.Array, *items) if items else api.Array

    def body(self, _):
        """ What the functions do. """
        result, error = self.todo
        if error:
            raise Boom
        return result

    def function(self, spec):
        """ A function. """
        params = [
            funcs.param(f"p{i}", HINTS[kind](self.anns[one], self.anns[two]))
            for i, (kind, one, two) in enumerate(spec["params"])
        ]
        ret = funcs.NONE if spec["ret"] is None else self.anns[spec["ret"]]
        return funcs.function(params, ret, self.body)

    def set(self, name, value):
        """ Assign a variable. """
        setattr(api.dims, self.names(name), value)

    def wrap(self, kind, one, two):
        """ An argument. """
        first, second = self.values[one], self.values[two]
        return {
            "list": [first, second], "dict": {"k": first}, "many": (first, second), "pair": (first, second),
            "seq": (first, second),
        }.get(kind, first)

    def check(self, op, soft=False):
        """ The verdict. """
        if op[0] == "is":
            out = call(isinstance, self.values[op[2]], self.anns[op[1]])
            return str(out.value) if out.ok else out.kind
        spec = self.pool["functions"][op[1]]
        args = [self.wrap(kind, *given) for (kind, _, _), given in zip(spec["params"], op[2])]
        self.todo = (self.values[op[3]], op[4])
        out = call(self.functions[op[1]], *args)
        return f"{out.kind} {bool(out.out.strip())}" if soft else out.kind


def used(op, pool):
    """ The values a check looks at. """
    if op[0] == "is":
        return [op[2]]
    return sorted({i for given in op[2] for i in given} | {op[3]})


def snapshot(value):
    """ The state of an array. """
    return (value.shape, value.strides, value.dtype.str, value.tobytes(), value.flags.writeable)


def describe(ann):
    """ The state of an annotation. """
    return (repr(ann), ann.shape, ann.dtype, copy.copy(ann.kwattrs), getattr(ann, "__args__", None), hash(ann))


# ---------------------------------------------------------------- histories


def run(case, soft=False):
    """ The history of a case. """
    world = World(case)
    specs = copy.deepcopy(case["values"])
    variables = {}
    verdicts, changed = {}, False
    anns = [describe(a) for a in world.anns]
    hints = [dict(f.__annotations__) for f in world.plain]
    states = random.getstate(), np.random.get_state()[1].tolist()
    log = []
    for op in case["ops"]:
        log.append(op)
        if op[0] in ("is", "call"):
            key = json.dumps([op, [specs[i] for i in used(op, case)], variables], sort_keys=True)
            arrays = [(v, snapshot(v)) for v in world.values if isinstance(v, np.ndarray)]
            got = world.check(op, soft)
            for value, state in arrays:
                if snapshot(value) != state:
                    raise Violation(f"{op} changed {state} to {show(value)}: after {log[:-1]} with {case['anns']}")
            if verdicts.get(key, got) != got:
                raise Violation(
                    f"{op} with {[specs[i] for i in used(op, case)]} and variables {variables} was {verdicts[key]}, "
                    f"is {got} after {log[:-1]}; annotations {world.anns}, functions {case['functions']}"
                )
            changed = changed or key in verdicts and log[-2] != op
            verdicts[key] = got
        elif op[0] == "set":
            world.set(op[1], op[2])
            variables = dict(variables, **{op[1]: op[2]})
        elif op[0] in ("reshape", "retype", "replace"):
            mutate(op, world, specs)
        elif op[0] == "touch":
            touch(op, world)
        else:
            junk(op, world)
    if (random.getstate(), np.random.get_state()[1].tolist()) != states:
        raise Violation(f"the state of a random generator changed in {log}; annotations {world.anns}")
    for ann, state in zip(world.anns, anns):
        if describe(ann) != state:
            raise Violation(f"the annotation {state} is {describe(ann)} after {log}")
    for func, state in zip(world.plain, hints):
        now = func.__annotations__
        if list(now) != list(state) or any(now[k] is not state[k] for k in state):
            raise Violation(f"the annotations {state} of a function are {now} after {log}")
    afresh(case, verdicts, soft)
    return Note(changed, *sorted({v for v in verdicts.values()}))


def mutate(op, world, specs):
    """ Change an array in place, or put another one in its place (most likely at the same address). """
    index = op[1]
    value = world.values[index]
    if op[0] == "replace":
        value = None
        world.values[index] = None
        specs[index] = op[3] if op[3][0] == "arr" else ["arr", "float64", [2]]
        world.values[index] = new_value(specs[index])
        return
    try:
        if op[0] == "reshape":
            shapes = [value.shape[::-1], (value.size,), (1,) + value.shape, value.shape + (1,), (value.size, 1), (1, value.size)]
            value.shape = shapes[op[2]]
        else:
            fresh = {8: ["int64", "float64"], 4: ["int32", "float32"], 1: ["bool", "uint8"]}[value.dtype.itemsize]
            value.dtype = fresh[op[2] % 2]
    except (AttributeError, ValueError):
        pass
    # The contents are not part of the specification: no verdict depends on them.
    specs[index] = ["arr", value.dtype.name, list(value.shape)]


def touch(op, world):
    """ Something which is no check. """
    ann = world.anns[op[2]]
    other = world.anns[0]
    call({
        "hash": lambda: hash(ann), "eq": lambda: ann == other, "repr": lambda: repr(ann), "list": lambda: List[ann],
        "sub": lambda: ann[3, ...], "dtype": lambda: ann[bool], "attrs": lambda: ann[{"ndim": 1}],
        "union": lambda: Union[ann, other, None],
    }[op[1]])


def junk(op, world):
    """ Something which goes wrong. """
    value = world.values[op[2]]
    if op[1] == "arity":
        for func in world.functions:
            call(func, value, value, value, value)
    elif op[1] == "dots":
        call(lambda: isinstance(value, api.Array[..., ...]))
    elif op[1] == "subscript":
        call(lambda: api.Array["x", 1.5])
    elif op[1] == "unset":
        ann = api.Array[getattr(api.dims, world.names("Unset")), ...]
        call(api.typechecked(funcs.function([funcs.param("x", ann)], ann, lambda b: value)), value)
    else:
        sym = api.symbols.X
        other = api.typechecked(funcs.function(
            [funcs.param("x", api.Array[sym]), funcs.param("y", api.Array[sym + 1])], None, lambda b: None))
        call(other, build.array([5]), build.array([6]))
        call(other, build.array([5]), build.array([5]))


def afresh(case, verdicts, soft):
    """ The same checks with new objects. """
    for key, want in itertools.islice(reversed(verdicts.items()), 6):
        op, specs, variables = json.loads(key)
        pool = dict(case, values=copy.deepcopy(case["values"]))
        for index, spec in zip(used(op, case), specs):
            pool["values"][index] = spec
        world = World(pool)
        for name, value in variables.items():
            world.set(name, value)
        got = world.check(op, soft)
        if got != want:
            raise Violation(
                f"{op} with {specs} and variables {variables} was {want} in the history {case['ops']}, but is {got} "
                f"with new objects; annotations {world.anns}, functions {case['functions']}"
            )


def decide(case):
    """ Errors are raised. """
    return run(case)


def decide_soft(case):
    """ Errors are printed. """
    return run(case, True)


# ------------------------------------------------------------------- orders


def make_orders(d):
    """ Cases of 'orders'. """
    pool = make_pool(d)
    checks = [make_check(d, pool) for _ in range(d.int(3, 9))]
    sets = [["set", name, d.int(0, 4)] for name in DIMS if d.bool(70)]
    return dict(pool, sets=sets, checks=checks, order=d.shuffle(range(len(checks))), again=d.bool(30))


def in_order(case, order):
    """ The verdicts, by check. """
    world = World(case)
    for _, name, value in case["sets"]:
        world.set(name, value)
    res = {}
    for index in order:
        got = world.check(case["checks"][index])
        if res.setdefault(str(index), got) != got:
            return dict(twice=[index, res[str(index)], got])
    return res


def decide_orders(case):
    """ Each order in a process of its own. """
    straight = list(range(len(case["checks"])))
    orders = [straight, straight[::-1], case["order"], [straight[-1]]]
    if case["again"]:
        orders[2] = case["order"] + case["order"]
    results = []
    for order in orders:
        child = fork(in_order, case, order)
        if "error" in child:
            text = f"order {order}: {child['error']} {child['trace'][-600:]}"
            if child["asta"]:
                raise Violation(f"unforeseen {text}")
            raise RuntimeError(text)
        results.append(child["value"])
        if "twice" in child["value"]:
            raise Violation(f"in the order {order}, a check had two verdicts: {child['value']['twice']}: {case}")
    for order, result in zip(orders, results):
        for index, got in result.items():
            if results[0][index] != got:
                raise Violation(
                    f"check {case['checks'][int(index)]} is {results[0][index]} in the order {straight}, but {got} in "
                    f"the order {order}: annotations {case['anns']}, functions {case['functions']}, values "
                    f"{case['values']}, variables {case['sets']}"
                )
    return Note(len(set(results[0].values())) > 1, *sorted(set(results[0].values())))


# ---------------------------------------------------------------- iterators


class Counted:
    """ Can be iterated over once. """

    def __init__(self, items):
        self.items = list(items)
        self.used = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.used += 1
        if self.used > len(self.items):
            raise StopIteration
        return self.items[self.used - 1]


def make_iterators(d):
    """ Cases of 'iterators'. """
    return dict(
        ann=dict(make_annotation(d, False), attrs=None), hint=d.pick(["Any", "Iterator", "Iterable", "object", "List", "Tuple", "Dict", "bare", "Sequence", "Optional"]),
        kind=d.pick(["generator", "counted", "iter", "map"]), shapes=d.some(lambda: d.some(lambda: d.int(0, 3), 0, 2), 0, 3),
        place=d.pick(["arg", "ret", "args"]),
    )


def decide_iterators(case):
    """ Whatever the verdict, nothing was taken out of an iterator. """
    world = World(dict(anns=[case["ann"]], values=[], functions=[]))
    ann = world.anns[0]
    items = [build.array(s) for s in case["shapes"]]
    value = {
        "generator": lambda: (x for x in items), "counted": lambda: Counted(items), "iter": lambda: iter(items),
        "map": lambda: map(lambda x: x, items),
    }[case["kind"]]()
    hint = {
        "Any": Any, "Iterator": Iterator[ann], "Iterable": Iterable[ann], "object": object, "List": List[ann],
        "Tuple": Tuple[ann, ...], "Dict": Dict[str, ann], "bare": ann, "Sequence": Sequence[ann], "Optional": Optional[List[ann]],
    }[case["hint"]]
    if case["place"] == "ret":
        out = call(api.typechecked(funcs.function([], hint, lambda b: value)))
    else:
        kind = funcs.VAR if case["place"] == "args" else funcs.ANY
        out = call(api.typechecked(funcs.function([funcs.param("x", hint, kind)], None, lambda b: None)), value)
    left = list(value)
    if len(left) != len(items) or any(a is not b for a, b in zip(left, items)):
        raise Violation(f"checking a {case['kind']} against {hint!r} ({out!r}) used it up: {len(left)} of {len(items)} left")
    return Note(items, case["hint"], out.kind)


# ------------------------------------------------------------------ threads


def make_threads(d):
    """ Cases of 'threads'. """
    pools = []
    for _ in range(d.int(2, 4)):
        pool = make_pool(d, False)
        for spec in pool["anns"]:
            spec["attrs"] = None
            # Only systems which need no algebra.
            spec["pat"] = spec["pat"] and [e if not isinstance(e, list) else ["sym", "X"] for e in spec["pat"]]
        pools.append(dict(pool, checks=[make_check(d, pool) for _ in range(d.int(2, 4))]))
    return dict(pools=pools)


def decide_threads(case):
    """ Several threads get the verdicts one gets. """
    worlds = [World(p) for p in case["pools"]]
    wants = [[w.check(op) for op in p["checks"]] for w, p in zip(worlds, case["pools"])]
    worlds = [World(p) for p in case["pools"]]
    gots = [[] for _ in worlds]
    barrier = threading.Barrier(len(worlds))

    def work(world, pool, got):
        barrier.wait()
        for _ in range(3):
            got.append([plain_check(world, op) for op in pool["checks"]])

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=args) for args in zip(worlds, case["pools"], gots)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(old)
    for want, got, pool in zip(wants, gots, case["pools"]):
        if len(got) != 3 or any(g != want for g in got):
            raise Violation(f"verdicts {want} became {got} with other threads: {pool}")
    return Note(len({v for w in wants for v in w}) > 1, f"{len(worlds)} threads")


def plain_check(world, op):
    """ As World.check, without capturing what is printed (which is not a thing of one thread). """
    try:
        if op[0] == "is":
            return str(isinstance(world.values[op[2]], world.anns[op[1]]))
        spec = world.pool["functions"][op[1]]
        args = [world.wrap(kind, *given) for (kind, _, _), given in zip(spec["params"], op[2])]
        world.todo = (world.values[op[3]], op[4])
        world.functions[op[1]](*args)
        return "ok"
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__


# -------------------------------------------------------------- short lives


def make_brief(d):
    """ Cases of 'brief': similar annotations. """
    pats = [tidy(d.some(lambda: make_elem(d, False), 0, 3)) for _ in range(d.int(1, 3))]
    anns = []
    for _ in range(d.int(2, 5)):
        spec = make_annotation(d, False)
        spec["pat"] = d.pick(pats) if d.bool(85) else None
        spec["dtype"] = spec["dtype"] or d.pick(["py:float", "np:int32", "py:str", "py:bytes", None])
        anns.append(spec)
    values = [
        ["arr", d.pick(["float64", "int32", "float32", "<U3", "S2"]), d.some(lambda: d.pick([1, 2, 3]), 0, 3)]
        for _ in range(d.int(1, 3))
    ]
    checks = [
        [d.pick(["is", "bare", "list", "union", "many"]), d.int(0, len(anns) - 1), d.int(0, len(values) - 1)]
        for _ in range(d.int(4, 12))
    ]
    return dict(anns=anns, functions=[], values=values, checks=checks)


def one_brief(case, check):
    """ A check with objects of its own, and these objects. """
    how, which, value = check
    world = World(dict(anns=[case["anns"][which]], functions=[], values=[case["values"][value]]))
    hint, given = world.anns[0], world.values[0]
    if how == "is":
        out = call(isinstance, given, hint)
        return (out.value if out.ok else out.kind), world
    func = api.typechecked(funcs.function([funcs.param("x", HINTS[how](hint, None))], None, lambda _: None))
    out = call(func, {"list": [given], "many": (given, given)}.get(how, given))
    return out.kind, (world, func)


def decide_brief(case):
    """ Objects are dropped after each check, so that the next ones are likely to be where they were. """
    kept = [one_brief(case, check) for check in case["checks"]]
    want = [verdict for verdict, _ in kept]
    del kept
    gc.collect(1)
    for check, expected in zip(case["checks"], want):
        got, objects = one_brief(case, check)
        del objects
        gc.collect(1)
        if got != expected:
            raise Violation(
                f"{check} with {case['anns'][check[1]]} and {case['values'][check[2]]} is {got}, but was {expected} "
                f"while other annotations lived; all: {case}"
            )
    return Note(len(set(want)) > 1, *sorted({str(w) for w in want}))


# ----------------------------------- dictionaries which answer for missing keys


class Answering(dict):
    """ Has a value for any key, which it keeps. """

    def __init__(self, content, value):
        super().__init__(content)
        self.value = value

    def __missing__(self, key):
        self[key] = self.value
        return self.value


def make_missing(d):
    """ A typed dictionary, and keys which are present. """
    fields = {k: dict(size=d.int(1, 3), state=d.pick(["required", "not", "plain"])) for k in ["a", "b", "c"][: d.int(1, 3)]}
    return dict(
        fields=fields, total=d.bool(), kind=d.pick(["defaultdict", "answering", "dict"]), answer=d.int(1, 3),
        keys={k: d.int(1, 3) if d.bool(20) else f["size"] for k, f in fields.items() if d.bool(65)},
        place=d.pick(["arg", "ret", "args", "list"]), inside=d.bool(30), plain=d.bool(20),
    )


def decide_missing(case):
    """ Keys which are missing are missing, and stay so. """
    marks = {"required": lambda h: Required[h], "not": lambda h: NotRequired[h], "plain": lambda h: h}
    fields = {k: marks[f["state"]](api.Array[f["size"]]) for k, f in case["fields"].items()}
    typed = TypedDict("Typed", fields, total=case["total"])
    hint = Dict[str, api.Array[case["answer"]]] if case["plain"] else typed
    content = {k: np.zeros(n) for k, n in case["keys"].items()}
    answer = np.zeros(case["answer"])
    value = {
        "defaultdict": lambda: collections.defaultdict(lambda: answer, content), "dict": lambda: dict(content),
        "answering": lambda: Answering(content, answer),
    }[case["kind"]]()
    if case["plain"]:
        want = all(n == case["answer"] for n in case["keys"].values())
    else:
        needed = {k for k, f in case["fields"].items() if f["state"] == "required" or (f["state"] == "plain" and case["total"])}
        want = needed <= set(content) and all(case["fields"][k]["size"] == n for k, n in case["keys"].items())
    place = case["place"]
    hint, given = (Optional[hint], value) if case["inside"] else (hint, value)
    if place == "list":
        hint, given = List[hint], [value]
    if place == "ret":
        func, args = funcs.function([], hint, lambda b: given), []
    else:
        func, args = funcs.function([funcs.param("x", hint, funcs.VAR if place == "args" else funcs.ANY)], None, lambda b: None), [given]
    for turn in range(2):
        out = call(api.typechecked(func), *args)
        if out.kind != ("ok" if want else "TypeError"):
            raise Violation(f"{value!r} against {hint!r} ({case['fields']}), call {turn}: {out!r}; it fits: {want}")
        if list(value) != list(content) or any(value[k] is not v for k, v in content.items()):
            raise Violation(f"checking {content!r} against {hint!r} ({case['fields']}) turned it into {value!r}")
    return Note(case["kind"] != "dict", case["kind"], "fits" if want else "does not fit")


SUBS = [
    Sub("missing", make_missing, decide_missing, 600, 10000, size=64),
    Sub("history", make, decide, 1500, 40000, size=200, batch=4),
    Sub("history soft", make, decide_soft, 1000, 25000, profile="soft", size=200, batch=4),
    Sub("orders", make_orders, decide_orders, 450, 12000, profile="fresh", size=128, batch=4),
    Sub("iterators", make_iterators, decide_iterators, 1500, 20000, size=32),
    Sub("brief", make_brief, decide_brief, 800, 15000, size=128),
    Sub("threads", make_threads, decide_threads, 400, 8000, size=160, batch=4),
]
