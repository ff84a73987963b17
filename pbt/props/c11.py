""" C11: Every annotated parameter is checked against its own argument, however passed. """
import dataclasses
import inspect

from pbt import api, build, funcs, gen
from pbt.core import Note, Sub, Violation
from pbt.funcs import ANY, KW, POS, VAR, VARKW
from pbt.hints import HashableArray
from pbt.sandbox import call

SHARDS = {"core": 5}
QUICK = 6
RULE = (
    "A case is a signature of up to seven parameters of all five kinds, with and without defaults, each "
    "annotated with an array of its own size, for a function, method, class or static method, decorated "
    "itself or through its class, and a call: values in positional, keyword, extra and omitted places, "
    "some of the wrong size, some calls illegal; distinct cases with two parameters or more, or with "
    "*args or **kwargs, count as non-trivial."
)
NOTE = (
    "Python is the oracle of binding: the undecorated twin is called with the same arguments, and each "
    "value it receives is compared with the size of that parameter's annotation."
)
NAMES = ["a", "b", "c", "x", "args", "kwargs", "name", "annotation", "value", "equations"]


# Keys for **kwargs.
KEYS = ["k1", "k2", "self", "cls", "func", "return", "_k", "__k__", "k-3", "decorated", "args"]


def make(d, legal=90):
    """ A signature and a call. """
    names = d.shuffle(NAMES)
    params = []

    def add(kind, default):
        params.append(dict(name=names[len(params)], kind=kind, size=len(params) + 1, default=default))

    late = False
    for kind, most in ((POS, 2), (ANY, 3)):
        for _ in range(d.int(0, most)):
            late = late or d.bool(25)
            add(kind, d.pick(["good", "good", "bad", "none"]) if late else None)
    if d.bool(30):
        add(VAR, None)
    for _ in range(d.pick([0, 0, 1, 2])):
        add(KW, d.pick(["good", "good", "bad"]) if d.bool(30) else None)
    if d.bool(25):
        add(VARKW, None)
    args, kwargs = [], []
    by_name = False
    for item in params:
        size = item["size"]
        if item["kind"] == VAR:
            if not by_name:
                args += [size] * d.int(0, 3)
        elif item["kind"] == VARKW:
            # Positional-only names can be used again. (Not those of omitted ones:
            # inspect.Signature.bind rejects such calls, a known finding.)
            taken = {p["name"] for p in params}
            free = [p["name"] for p in params if p["kind"] == POS][: len(args)] + [k for k in KEYS if k not in taken]
            for key in d.shuffle(free)[: d.int(0, 3)]:
                kwargs.append([key, size])
        else:
            omit = item["default"] is not None and d.bool(50)
            if item["kind"] == KW:
                if not omit:
                    kwargs.append([item["name"], size])
            elif item["kind"] == POS:
                if omit or by_name:
                    by_name = True
                else:
                    args.append(size)
            else:
                by_name = by_name or omit or d.bool(35)
                if not by_name:
                    args.append(size)
                elif not omit:
                    kwargs.append([item["name"], size])
    for _ in range(d.pick([0, 0, 0, 1, 1, 2])):
        i = d.int(0, max(0, len(args) + len(kwargs) - 1))
        size = d.int(0, 8)
        if i < len(args):
            args[i] = size
        elif kwargs:
            kwargs[i - len(args)][1] = size
    if not d.bool(legal):
        how = d.pick(["extra", "drop", "dropkw", "unknown", "twice", "swap"])
        if how == "extra":
            args.append(1)
        elif how == "drop":
            args = args[:-1]
        elif how == "dropkw":
            kwargs = kwargs[1:]
        elif how == "unknown":
            kwargs.append(["unknown", 1])
        elif how == "twice" and params and (args or params[0]["kind"] != POS):
            kwargs.append([params[0]["name"], params[0]["size"]])
        else:
            args = args[::-1]
    spare = [p["name"] for p in params if p["kind"] == POS][len(args) :]
    kwargs = [pair for pair in kwargs if pair[0] not in spare]
    seen, unique = set(), []
    for key, size in kwargs:
        if key not in seen:
            seen.add(key)
            unique.append([key, size])
    form = d.pick(["function", "function", "method", "classmethod", "staticmethod"])
    return dict(
        params=params, args=args, kwargs=d.shuffle(unique), form=form, local=d.bool(30),
        where=d.pick(["self", "class", "both"]) if form != "function" else "self",
        ret=d.pick([None, "good", "good", "bad"]),
    )


def value(size):
    """ The value which stands for a size; 0 for something else. """
    return build.array([size]) if size else "not an array"


def construct(case, body, decorated=True):
    """ The callable of a case. """
    params = []
    for item in case["params"]:
        default = {
            None: funcs.NONE, "good": value(item["size"]), "bad": value(item["size"] + 1), "none": None,
        }[item["default"]] if item["default"] else funcs.NONE
        params.append(funcs.param(item["name"], api.Array[item["size"]], item["kind"], default))
    ret = api.Array[20] if case["ret"] else funcs.NONE
    where = case["where"] if decorated else ""
    return funcs.member(
        case["form"], params, ret, body,
        decorator=api.typechecked if where in ("self", "both") else None,
        whole=api.typechecked if where in ("class", "both") else None, local=case["local"],
    )


def decide(case):
    received = []
    result = build.array([20 if case["ret"] != "bad" else 21])

    def body(bound):
        received.append(bound)
        return result

    args = [value(s) for s in case["args"]]
    kwargs = {k: value(s) for k, s in case["kwargs"]}
    twin = call(construct(case, body, False), *args, **kwargs)
    legal = twin.ok
    expected = received[0] if legal else None
    received.clear()
    func = construct(case, body)
    annotated = bool(case["params"]) or case["ret"] is not None
    out = call(func, *args, **kwargs)
    what = (
        f"{case['form']} {[(p['kind'], p['name'], p['size'], p['default']) for p in case['params']]} called with "
        f"{case['args']}, {dict(case['kwargs'])}"
    )
    if not legal:
        if not isinstance(out.exc, TypeError) or received:
            raise Violation(f"{what}: {out!r}, but Python rejects the call: {twin.exc}")
        return Note(len(case["params"]) > 1, "illegal", case["form"])
    wrong = []
    for item in case["params"]:
        got = expected[item["name"]]
        values = list(got) if item["kind"] == VAR else list(got.values()) if item["kind"] == VARKW else [got]
        for one in values:
            if not hasattr(one, "shape") or one.shape != (item["size"],):
                wrong.append(item["name"])
    passes = not wrong and case["ret"] != "bad"
    if not annotated and case["where"] == "class":
        passes = True
    if out.kind != ("ok" if passes else "TypeError"):
        raise Violation(f"{what}: {out!r}; wrong arguments: {wrong}, result {case['ret']}")
    if len(received) != (0 if wrong else 1):
        raise Violation(f"{what}: the body ran {len(received)} times; wrong arguments: {wrong}")
    if received:
        for name, got in expected.items():
            mine = received[0][name]
            same = mine is got
            if isinstance(got, tuple):
                same = isinstance(mine, tuple) and len(mine) == len(got) and all(a is b for a, b in zip(mine, got))
            elif isinstance(got, dict):
                same = isinstance(mine, dict) and list(mine) == list(got) and all(mine[k] is got[k] for k in got)
            elif item_default(case, name):
                same = mine is got or type(mine) is type(got)
            if not same:
                raise Violation(f"{what}: parameter {name} is {mine!r} in the body, Python passes {got!r}")
    return Note(
        len(case["params"]) > 1 or any(p["kind"] in (VAR, VARKW) for p in case["params"]),
        "passes" if passes else "fails", case["form"], *sorted({p["kind"] for p in case["params"]}),
    )


def item_default(case, name):
    """ Whether a parameter has a default (twins have their own objects for these). """
    return any(p["name"] == name and p["default"] for p in case["params"])


# ------------------------------------------------------ missing annotations


def make_missing(d):
    case = make(d, 100)
    case["missing"] = d.int(0, max(0, len(case["params"]) - 1))
    return case


def decide_missing(case):
    """ A parameter without an annotation makes every call raise TypeError. """
    if not case["params"]:
        return Note(False, "no parameters")
    ran = []
    params = []
    for index, item in enumerate(case["params"]):
        ann = api.Array if index != case["missing"] else funcs.NONE
        default = build.array([1]) if item["default"] else funcs.NONE
        params.append(funcs.param(item["name"], ann, item["kind"], default))
    whole = case["where"] == "class"
    if whole and len(params) == 1:
        return Note(False, "not annotated at all")
    func = funcs.member(
        case["form"], params, funcs.NONE, lambda _: ran.append(1),
        decorator=None if whole else api.typechecked, whole=api.typechecked if whole else None,
    )
    args = [build.array([s or 1]) for s in case["args"]]
    kwargs = {k: build.array([s or 1]) for k, s in case["kwargs"]}
    out = call(func, *args, **kwargs)
    if not isinstance(out.exc, TypeError) or ran:
        raise Violation(
            f"{case['form']} with parameters {[p['name'] for p in params]}, of which number {case['missing']} "
            f"has no annotation: the call {out!r}"
        )
    return Note(True, case["form"])


# ----------------------------------------------------------- whole classes


def make_class(d):
    members = []
    for index in range(d.int(1, 5)):
        members.append(dict(
            name=d.pick(["m", "n", "__call__", "__init__", "_p", "__add__"]) + ("" if index == 0 else ""),
            form=d.pick(["method", "method", "classmethod", "staticmethod"]),
            annotated=d.bool(80), size=index + 1,
        ))
    unique = {}
    for item in members:
        if item["name"].startswith("__"):
            item["form"] = "method"
        unique.setdefault(item["name"], item)
    calls = [dict(member=d.byte(), delta=d.pick([0, 0, 1]), child=d.bool(30)) for _ in range(d.int(1, 4))]
    base = d.pick([None, None, "plain", "checked"])
    return dict(members=list(unique.values()), calls=calls, base=base)


def decide_class(case):
    """ All annotated members of a decorated class are checked, others left alone. """
    ran = []
    space = {"_ran": ran, "_whole": api.typechecked, "Array": api.Array, "__name__": "generated"}
    lines = []
    if case["base"]:
        # Each member overrides one of a base class.
        lines += ["@_whole"] * (case["base"] == "checked") + ["class Base:", "    field = 2"]
        for item in case["members"]:
            lines += ["    @classmethod"] * (item["form"] == "classmethod")
            lines += ["    @staticmethod"] * (item["form"] == "staticmethod")
            lines += [f"    def {item['name']}(*args: int):", "        _ran.append('base')"]
    lines += ["@_whole", f"class Gen{'(Base)' if case['base'] else ''}:", "    field = 3"]
    for item in case["members"]:
        first = {"method": "self, ", "classmethod": "cls, ", "staticmethod": ""}[item["form"]]
        if item["form"] != "method":
            lines.append(f"    @{item['form']}")
        hint = f": Array[{item['size']}]" if item["annotated"] else ""
        lines += [
            f"    def {item['name']}({first}x{hint}):", f"        _ran.append({item['name']!r})",
            "        return None" if item["name"] == "__init__" else "        return x",
        ]
    lines += ["class Child(Gen):", "    pass"]
    exec("\n".join(lines) + "\n", space)  # pylint: disable=exec-used
    by_name = {m["name"]: m for m in case["members"]}
    init = by_name.get("__init__")
    for step in case["calls"]:
        item = case["members"][step["member"] % len(case["members"])]
        cls = space["Child" if step["child"] else "Gen"]
        arg = build.array([item["size"] + step["delta"]])
        ran.clear()
        if item["name"] == "__init__":
            out = call(cls, arg)
        else:
            obj = cls(build.array([init["size"]])) if init else cls()
            ran.clear()
            target = obj if item["form"] == "method" else d_pick(step, obj, cls)
            if item["name"] == "__call__":
                out = call(obj, arg)
            elif item["name"] == "__add__":
                out = call(lambda: obj + arg)
            else:
                out = call(getattr(target, item["name"]), arg)
        want = not item["annotated"] or step["delta"] == 0
        if out.kind != ("ok" if want else "TypeError") or len(ran) != (1 if want else 0):
            raise Violation(
                f"{item} of a decorated class, called with size {item['size'] + step['delta']}: {out!r}, body ran "
                f"{len(ran)} times"
            )
        if want and item["name"] != "__init__" and out.value is not arg:
            raise Violation(f"{item} of a decorated class returned another object: {out!r}")
    if space["Gen"].field != 3 or not inspect.isclass(space["Gen"]):
        raise Violation("the decorated class is not the class any more")
    return Note(len(case["members"]) > 1, f"{len(case['members'])} members", f"base {case['base']}")


def d_pick(step, obj, cls):
    """ Class and static methods are called on the class or on an instance. """
    return obj if step["member"] % 2 else cls


# -------------------------------------------------------------- dataclasses


def make_data(d):
    """ A dataclass, perhaps derived from another one, and ways to make instances of it. """
    fields, late = [], False
    for index in range(d.int(1, 5)):
        keyword = d.bool(20)
        default = d.pick(["good", "good", "bad"]) if (late and not keyword) or d.bool(20) else None
        late = late or (default is not None and not keyword)
        fields.append(dict(name=d.pick(["a", "b", "x"]) + str(index), size=index + 1, default=default, keyword=keyword))
    calls = []
    for _ in range(d.int(1, 3)):
        sizes = {}
        for item in fields:
            if item["default"] is None or d.bool(60):
                sizes[item["name"]] = item["size"] + d.pick([0] * 9 + [1])
        calls.append(dict(sizes=sizes, by_name=d.int(0, len(fields)), child=d.bool(20)))
    return dict(
        fields=fields, inherited=d.int(0, len(fields)) if d.bool(40) else 0, calls=calls,
        options=[o for o in ("frozen", "order", "slots", "unsafe_hash") if d.bool(25)],
        method=d.bool(50), base_checked=d.bool(30), nested=d.bool(20),
    )


def decide_data(case):
    """ The methods which a dataclass gets are checked like the others, and the fields are what was passed. """
    space = {"_whole": api.typechecked, "Array": api.Array, "dataclass": dataclasses.dataclass,
             "field": dataclasses.field, "__name__": "generated"}

    def lines(name, base, fields, checked):
        """ A class. """
        options = ", ".join(f"{o}=True" for o in case["options"])
        res = (["@_whole"] if checked else []) + [f"@dataclass({options})", f"class {name}{base}:"]
        for item in fields:
            args = ["kw_only=True"] if item["keyword"] else []
            if item["default"]:
                space["_def" + item["name"]] = value(item["size"] + (item["default"] == "bad")).view(HashableArray)
                args.append(f"default=_def{item['name']}")
            res.append(f"    {item['name']}: Array[{item['size']}]" + (f" = field({', '.join(args)})" if args else ""))
        return res + ["    def more(self, y: Array[9]) -> Array[1]:", "        return y[:1]"] * case["method"] + ["    pass"]

    count = case["inherited"]
    text = lines("Base", "", case["fields"][:count], case["base_checked"]) if count else []
    text += lines("Gen", "(Base)" if count else "", case["fields"][count:], True)
    text += ["class Child(Gen):", "    pass"]
    if case["nested"]:
        text = ["class Outer:"] + ["    " + line for line in text] + ["Gen, Child = Outer.Gen, Outer.Child"]
    exec("\n".join(text) + "\n", space)  # pylint: disable=exec-used
    order = [f for f in case["fields"] if not f["keyword"]] + [f for f in case["fields"] if f["keyword"]]
    passed = failed = 0
    for step in case["calls"]:
        values = {name: value(size) for name, size in step["sizes"].items()}
        args, kwargs, by_name = [], {}, False
        for index, item in enumerate(order):
            by_name = by_name or item["keyword"] or index >= step["by_name"] or item["name"] not in values
            if by_name and item["name"] in values:
                kwargs[item["name"]] = values[item["name"]]
            elif not by_name:
                args.append(values[item["name"]])
        out = call(space["Child" if step["child"] else "Gen"], *args, **kwargs)
        sizes = {f["name"]: step["sizes"].get(f["name"], f["size"] + (f["default"] == "bad")) for f in order}
        good = all(sizes[f["name"]] == f["size"] for f in order)
        what = f"the dataclass {text} called with {args}, {kwargs}"
        if out.kind != ("ok" if good else "TypeError"):
            raise Violation(f"{what}: {out!r}")
        passed, failed = passed + good, failed + (not good)
        if not good:
            continue
        for item in order:
            if getattr(out.value, item["name"]) is not values.get(item["name"], space.get("_def" + item["name"])):
                raise Violation(f"{what}: the field {item['name']} is {getattr(out.value, item['name'])!r}")
        if case["method"]:
            for size in (9, 8):
                again = call(out.value.more, value(size))
                if again.kind != ("ok" if size == 9 else "TypeError"):
                    raise Violation(f"{what}: its method called with size {size}: {again!r}")
    return Note(len(case["fields"]) > 1, f"{min(passed, 1)} pass, {min(failed, 1)} fail", *case["options"])


SUBS = [
    Sub("dataclass", make_data, decide_data, 800, 15000),
    Sub("bind", make, decide, 5000, 120000, size=96),
    Sub("illegal", lambda d: make(d, 30), decide, 1500, 30000, size=96),
    Sub("missing", make_missing, decide_missing, 800, 10000, size=96),
    Sub("class", make_class, decide_class, 1500, 20000),
]
