""" C23: Diagnostics name the argument, what was expected and what was given. """
import collections.abc
import inspect
import json
import re

import numpy as np

from pbt import api, build, funcs, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.funcs import ANY, KW, VAR, VARKW
from pbt.hints import Context, HintGen, Options, Unknown, ValueGen, array_fits, fits, required_keys
from pbt.props import c16
from pbt.sandbox import call, show
from pbt.variables import DIMS, Model, Names, annotation_items, assignment_op, shape_for

SHARDS = {"core": 3, "both": 3, "loud": 2, "softloud": 2, "nonasta": 2}
QUICK = 3
RULE = (
    "'text': two annotations, alike in most places, and what they print; 'raise', 'report': a function of "
    "up to three parameters (also *args and **kwargs) with nested hints and values with up to two mistakes; "
    "'variables': an annotation whose variables are set after it was written; 'systems': symbols which "
    "contradict each other across parameters. Distinct cases where something fails, or a nested element "
    "is reported, count as non-trivial."
)
NOTE = (
    "The walk through hint and value which decides what fits also gives the path, the annotation and the "
    "value of each report; a message should contain the quoted path, the text of the annotation, and (after "
    "it) dtype and sizes, or the type, of the value. Wording is not compared."
)


# ------------------------------------------------------------------ the text


def dtype_token(fw, dtype):
    """ How the dtype of a value is written. """
    if fw != "np":
        return dtype
    return np.dtype(dtype).name


def arg_token(fw, arg):
    """ How a dtype argument is written. """
    kind, name = arg.split(":", 1)
    if fw == "np":
        if kind == "py" and name in build.PY_KINDS:
            name = {"str": "U", "bytes": "S", "object": "O", "datetime": "M8", "timedelta": "m8"}[name]
        return dtype_token(fw, build.PY_EXACT.get(name, name) if kind == "py" else name)
    if kind == "py":
        name = (build.TF_PY if fw == "tf" else build.TORCH_PY)[name]
    return name


def has_word(text, word):
    """ Whether a name occurs as a whole word. """
    return re.search(rf"(?<![A-Za-z0-9_]){re.escape(word)}(?![A-Za-z0-9_])", text) is not None


def has_sizes(text, tokens):
    """ Whether a tuple of these tokens occurs. """
    inner = r"\s*,\s*".join(re.escape(t) for t in tokens)
    return re.search(r"[(\[]\s*" + inner + r"\s*,?\s*[)\]]", text) is not None


def tokens_of(pat, rename=None):
    """ How the elements of a pattern are written. """
    return ["..." if e == "..." else str(build.elem(e, rename)) for e in pat]


def check_text(spec, ann):
    """ The text shows class, dtype, shape and attributes. """
    text = repr(ann)
    if not isinstance(text, str) or str(ann) != text or f"{ann}" != text:
        raise Violation(f"repr, str and f-string of {text} differ")
    rest = text
    if not has_word(text, build.annotation_class(spec["fw"])):
        raise Violation(f"{spec}: {text} does not show the class")
    if spec["dtype"] and not has_word(text, arg_token(spec["fw"], spec["dtype"])):
        raise Violation(f"{spec}: {text} does not show the dtype {arg_token(spec['fw'], spec['dtype'])}")
    if spec["pat"] is not None:
        tokens = tokens_of(spec["pat"])
        if not has_sizes(rest, tokens):
            raise Violation(f"{spec}: {text} does not show the shape {tokens}")
    for key, value in (spec["attrs"] or {}).items():
        if not has_word(text, key) or str(c16.attr_value(value)) not in text:
            raise Violation(f"{spec}: {text} does not show the attribute {key}")


def shown(spec):
    """ What the text should tell apart. """
    dtype = spec["dtype"] and arg_token(spec["fw"], spec["dtype"])
    pat = spec["pat"] and tokens_of(spec["pat"])
    attrs = {k: repr(c16.attr_value(v)) for k, v in (spec["attrs"] or {}).items()}
    return [spec["fw"], dtype, pat, attrs]


def decide_text(case):
    """ Each text is complete, and different annotations have different ones. """
    anns = []
    for spec, route in zip(case["specs"], case["routes"]):
        ann = c16.write(spec, route, repr)
        check_text(spec, ann)
        anns.append(ann)
    pairs = 0
    for i, one in enumerate(case["specs"]):
        for j in range(i):
            two = case["specs"][j]
            if shown(one) != shown(two):
                pairs += 1
                if repr(anns[i]) == repr(anns[j]):
                    raise Violation(f"{one} and {two} have the same text {anns[i]!r}")
    return Note(pairs, *(["different"] if pairs else []))


# ------------------------------------------------------------------- events


def about(value):
    """ The words which describe a value: what is acceptable as its "actual type". """
    kind = (
        "np" if isinstance(value, np.ndarray) else "tf" if type(value).__module__.startswith("tensorflow")
        else "torch" if type(value).__module__.startswith("pbt.faketorch") and hasattr(value, "shape") else None
    )
    if kind is None:
        return dict(words=[type(value).__name__], sizes=None)
    if kind == "np":
        dtype = dtype_token("np", value.dtype)
    else:
        dtype = value.dtype.name if kind == "tf" else repr(value.dtype)[len("torch."):]
    return dict(
        words=[dtype, {"np": "numpy", "tf": "tf", "torch": "torch"}[kind], build.annotation_class(kind)],
        sizes=[str(int(n)) for n in value.shape],
    )


class Event:
    """ A report which should be made. """

    def __init__(self, ok, path, expected=None, value=None, lengths=None, keys=None, vague=False, order=None):
        self.ok = ok
        self.path = path
        self.expected = expected
        self.about = about(value) if expected else dict(words=[type(value).__name__], sizes=None)
        # Of a tuple: the actual and the expected one. Of a callable: the expected and the actual one.
        self.lengths = lengths
        self.keys = keys
        self.order = order
        if vague or isinstance(value, type):
            self.about["words"] = []

    def key(self):
        """ What makes reports different. """
        return json.dumps([self.ok, self.path, self.expected, self.about, self.lengths])

    def __repr__(self):
        about_it = self.keys or self.lengths or self.about
        return f"{'PASSED' if self.ok else 'FAILED'} {self.path} {self.expected or ''} {about_it}"

    def in_text(self, text):
        """ Whether a text makes this report. """
        where = text.find(f"'{self.path}'")
        if where < 0:
            return False
        if self.expected is None:
            rest = text[where + len(self.path) + 2:]
            if self.order:
                places = [rest.find(w) for w in self.order]
                return min(places) >= 0 and places == sorted(places)
            if self.keys is not None:
                expected, actual = self.keys
                cut = rest.lower().rfind("actual")
                if cut < 0:
                    return all(repr(k) in rest for k in expected + actual)
                return all(
                    (repr(k) in part) is (k in keys) for part, keys in ((rest[:cut], expected), (rest[cut:], actual))
                    for k in expected + actual
                )
            if self.lengths is None:
                return all(has_word(rest, w) for w in self.about["words"])
            numbers = [int(n) for n in re.findall("[0-9]+", rest)]
            return numbers[:1] + numbers[-1:] == self.lengths
        start = text.find(self.expected, where)
        if start < 0:
            return False
        rest = text[start + len(self.expected):]
        if not all(has_word(rest, w) for w in self.about["words"]):
            return False
        return self.about["sizes"] is None or has_sizes(rest, self.about["sizes"])


def arity(spec, value):
    """ The expected and actual number of arguments of a callable which cannot take the expected one. """
    if not callable(value):
        return None
    kinds = (inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD)
    named = [p for p in inspect.signature(value).parameters.values() if p.kind in kinds]
    mandatory = sum(p.default is inspect.Parameter.empty for p in named)
    return [spec[1], mandatory if mandatory > spec[1] else len(named)]


def walk(spec, value, path, ctx, res, opts=Options()):
    """ The reports made on checking a value against a hint. """
    kind = spec[0]
    if kind == "arr":
        ann = ctx.hint(spec)
        res.append(Event(array_fits(spec, value), path, repr(ann), value))
    elif kind == "ann":
        walk(spec[1], value, path, ctx, res, opts)
    elif kind in ("leaf", "ord", "call"):
        if not fits(spec, value, ctx, opts):
            protocol = spec == ["ord", "Closes"] and type(value).__name__ not in "Closes"
            counts = arity(spec, value) if kind == "call" else None
            order = [type(value).__name__, "Closes"] if protocol else None
            res.append(Event(False, path, lengths=counts, vague=True, order=order))
    elif kind == "union":
        if not fits(spec, value, ctx, opts):
            res.append(Event(False, path, value=value))
    elif kind in ("none", "bare"):
        if not fits(spec, value, ctx, opts):
            res.append(Event(False, path, value=value))
    elif kind in ("list", "seq", "vartuple"):
        wanted = {"list": list, "seq": collections.abc.Sequence, "vartuple": tuple}[kind]
        if not isinstance(value, wanted):
            res.append(Event(False, path, value=value))
        else:
            for i, item in enumerate(value):
                walk(spec[1], item, f"{path}[{i}]", ctx, res, opts)
    elif kind == "set":
        if not isinstance(value, collections.abc.Set):
            res.append(Event(False, path, value=value))
        else:
            for item in value:
                walk(spec[1], item, f"{path}.<set_element>", ctx, res, opts)
    elif kind == "tuple":
        if not isinstance(value, tuple):
            res.append(Event(False, path, value=value))
        elif len(value) != len(spec[1]):
            res.append(Event(False, path, lengths=[len(value), len(spec[1])]))
        else:
            for i, (inner, item) in enumerate(zip(spec[1], value)):
                walk(inner, item, f"{path}[{i}]", ctx, res, opts)
    elif kind == "dict":
        if not isinstance(value, dict):
            res.append(Event(False, path, value=value))
        else:
            for key, item in value.items():
                walk(spec[1], key, f"{path}.<key>", ctx, res, opts)
                walk(spec[2], item, f"{path}[{key}]", ctx, res, opts)
    elif kind == "tdict":
        keys = [k for k, _ in spec[2]]
        if not isinstance(value, dict):
            res.append(Event(False, path, value=value))
            return
        if set(value) - set(keys) or set(required_keys(spec)) - set(value):
            res.append(Event(False, path, keys=[keys, list(value)]))
        for key, inner in spec[2]:
            if key in value:
                walk(inner, value[key], f"{path}[{key}]", ctx, res, opts)
    else:
        cls = ctx.named[spec[1] + "/" * (spec[3] if len(spec) > 3 else 0)]
        if not isinstance(value, cls):
            res.append(Event(False, path, value=value))
        else:
            for field, inner in spec[2]:
                walk(inner, getattr(value, field), f"{path}.{field}", ctx, res, opts)


# -------------------------------------------------------------------- calls


def reframe(d, spec, frameworks):
    """ A hint, or value, with other classes of arrays in it. """
    kind = spec[0]
    if kind == "arr":
        fw = d.pick(frameworks)
        return ["arr", gen.dtype_arg(d, fw) if d.bool() else None, spec[2], fw]
    if kind in ("leaf", "none", "bare", "set"):
        return spec
    if kind == "ann":
        return [kind, reframe(d, spec[1], frameworks)]
    if kind in ("tuple", "union"):
        return [kind, [reframe(d, s, frameworks) for s in spec[1]], spec[2]]
    if kind in ("tdict", "ntuple"):
        return spec[:2] + [[[k, reframe(d, s, frameworks)] for k, s in spec[2]]] + spec[3:]
    if kind == "dict":
        return [kind, spec[1], reframe(d, spec[2], frameworks), spec[3]]
    return [kind, reframe(d, spec[1], frameworks), spec[2]]


class Values(ValueGen):
    """ Values of any framework. """

    frameworks = ("np",)

    def array(self, spec):
        """ One which fits. """
        if len(spec) < 4 or spec[3] == "np":
            return super().array(spec)
        d, fw = self.d, spec[3]
        shape = d.some(lambda: gen.small(d), 0, 3) if spec[2] is None else gen.fitting_shape(d, spec[2])
        dtype = gen.value_dtype(d, fw, spec[1])
        if not build.dtype_matches(fw, spec[1], dtype):
            names = build.TF_DTYPES if fw == "tf" else build.TORCH_DTYPES
            dtype = next(n for n in names if build.dtype_matches(fw, spec[1], n))
        return ["arr", dtype, shape, fw]

    def wrong(self, spec, depth):
        """ A mistake. """
        if spec[0] == "arr" and len(spec) > 3 and self.d.bool(75):
            good = self.array(spec)
            fw = good[3] if len(good) > 3 else "np"
            how = self.d.pick(["shape", "dtype", "framework"])
            if how == "shape":
                return ["arr", good[1], gen.mutate(self.d, good[2]), fw]
            if how == "framework":
                fw = self.d.pick(self.frameworks)
            return ["arr", gen.value_dtype(self.d, fw), good[2], fw]
        return super().wrong(["none"] if spec[0] == "arr" else spec, depth)


def without_unions(spec):
    """ The first members of Unions in their place. """
    if isinstance(spec, list) and spec and spec[0] == "union":
        return without_unions(spec[1][0])
    return [without_unions(s) for s in spec] if isinstance(spec, list) else spec


class Hints(HintGen):
    """ Hints with several classes of arrays. """

    def __init__(self, d, frameworks, unions, ords=0):
        super().__init__(d, leaves=("int", "str", "Any"), in_union=bool(ords), ords=ords)
        self.frameworks = frameworks
        self.unions = unions

    def hint(self, depth, union=False):
        """ A hint. """
        res = super().hint(depth, union)
        return res if self.unions else without_unions(res)


PLACES = ["x", "y", "args", "kwargs", "name", "value"]


def make_call(frameworks, unions, opts=Options()):
    """ Cases of 'raise' and 'report'. """

    def make(d):
        generator = Hints(d, frameworks, unions, d.pick([30, 60]) if opts.nonasta else 0)
        names = d.shuffle(PLACES)
        kinds = [ANY] * d.int(0, 2)
        kinds += [VAR] if d.bool(20) else []
        kinds += [KW] if d.bool(20) else []
        kinds += [VARKW] if d.bool(20) else []
        flawed = d.int(0, len(kinds))
        flaws = d.pick([0, 2, 2, 3])
        params = []
        make_values = type("V", (Values,), {"frameworks": frameworks, "rate": 50})
        for index, kind in enumerate(kinds):
            hint = generator.hint(d.pick([0, 1, 1, 2]))
            if len(frameworks) > 1:
                hint = reframe(d, hint, frameworks)
            values = make_values(d, flaws if index == flawed else 0, opts)
            count = d.int(0, 2) if kind in (VAR, VARKW) else 1
            params.append(dict(name=names[index], kind=kind, hint=hint, values=[values.value(hint) for _ in range(count)]))
        ret = generator.hint(d.pick([0, 1]))
        if len(frameworks) > 1:
            ret = reframe(d, ret, frameworks)
        result = make_values(d, flaws if flawed == len(kinds) else 0, opts).value(ret)
        return dict(params=params, ret=ret, result=result, func=d.pick(["func", "a_name"]),
            owner=d.pick(["", "", "Owner.", "Owner.Inner.", "outer.<locals>."]), module=d.pick(["generated", "some.place"]),
            calls=d.some(lambda: d.bool(60), 0, 2) if d.bool(40) else [])

    return make


def helper(size: int):
    """ Another function with a check of its own, which passes or fails. """

    def helping(h):
        return h

    helping.__annotations__ = {"h": api.Array[2]}
    helping.__module__ = "elsewhere"
    helping.__qualname__ = "helping"
    call(api.typechecked(helping), build.array([size]))


def perform(case, opts=Options(), helped=False):
    """
    Make the call. Returns the outcome and the reports on arguments and result.
    ``helped``: the body may call other checked functions.
    """
    ctx = Context()
    params, args, kwargs = [], [], {}
    arguments, returned = [], []
    for item in case["params"]:
        params.append(funcs.param(item["name"], ctx.hint(item["hint"]), item["kind"]))
        values = [ctx.value(v) for v in item["values"]]
        name = item["name"]
        if item["kind"] == VARKW:
            given = {f"k{i}": v for i, v in enumerate(values)}
            kwargs.update(given)
            walk(["dict", ["leaf", "str"], item["hint"], 0], given, name, ctx, arguments, opts)
        elif item["kind"] == VAR:
            args += values
            walk(["vartuple", item["hint"], 0], tuple(values), name, ctx, arguments, opts)
        else:
            if item["kind"] == KW:
                kwargs[name] = values[0]
            else:
                args += values
            walk(item["hint"], values[0], name, ctx, arguments, opts)
    ret = ctx.hint(case["ret"])
    result = ctx.value(case["result"])
    walk(case["ret"], result, "return", ctx, returned, opts)

    def body(bound):
        for good in case["calls"] if helped else []:
            helper(2 if good else 3)
        return result

    plain = funcs.function(params, ret, body, name=case["func"], module=case["module"])
    plain.__qualname__ = case["owner"] + case["func"]
    out = call(api.typechecked(plain), *args, **kwargs)
    what = f"hints {[p['ann'] for p in params]} -> {ret!r}, values {show(args)} {show(kwargs)} -> {show(result)}"
    return out, arguments, returned, what


def plain_name(case):
    """ How the function is called in the output. """
    return case["owner"] + case["func"]


def decide_raise(case, opts=Options()):
    """ The message of the TypeError is one of the reports of failures. """
    out, arguments, returned, what = perform(case, opts, helped=True)
    failed = [e for e in arguments if not e.ok] or [e for e in returned if not e.ok]
    if not failed:
        if not out.ok:
            raise Violation(f"{what}: everything fits, but the call {out!r}")
        return Note(False, "fits")
    if out.kind != "TypeError":
        raise Violation(f"{what}: {failed} expected, but the call {out!r}")
    if not any(e.in_text(str(out.exc)) for e in failed):
        raise Violation(f"{what}: one of {failed} expected, but the message is {str(out.exc)!r}")
    if case["module"] not in out.out or plain_name(case) not in out.out:
        raise Violation(f"{what}: the output does not name the function: {out.out!r}")
    if "elsewhere" in out.out:
        raise Violation(f"{what}: the output names another function: {out.out!r}")
    nested = any(re.search(r"[.\[]", e.path) for e in failed)
    return Note(True, "nested" if nested else "return" if failed[0].path == "return" else "argument")


def decide_ordinary(case):
    """ The same, when ordinary annotations are checked too. """
    try:
        return decide_raise(case, Options(nonasta=True))
    except Unknown:
        return Note(False, "no opinion")


def decide_report(case):
    """ What is printed: all reports, when errors are printed too. """
    out, arguments, returned, what = perform(case)
    events = arguments + returned
    if not out.ok:
        raise Violation(f"{what}: {out!r}")
    compare(out.out, events, what)
    if events and (case["module"] not in out.out or plain_name(case) not in out.out):
        raise Violation(f"{what}: the output does not name the function: {out.out!r}")
    nested = any(re.search(r"[.\[]", e.path) for e in events)
    return Note(nested or not all(e.ok for e in events), *(["nested"] if nested else []), *(["fails"] if not all(e.ok for e in events) else []))


def compare(text, events, what):
    """ Each report is printed as often as it is made. """
    lines = text.splitlines()
    passed = [x for x in lines if "PASSED" in x]
    failed = [x for x in lines if "FAILED" in x]
    for pool, ok in ((passed, True), (failed, False)):
        wanted = [e for e in events if e.ok is ok]
        counts = {}
        for event in wanted:
            counts.setdefault(event.key(), [event, 0])[1] += 1
        for event, count in counts.values():
            found = sum(event.in_text(x) for x in pool)
            if found < count:
                raise Violation(f"{what}: {event!r} should be printed {count} times, but is {found} times: {text!r}")
        exact = [e for e in wanted if e.expected]
        if ok and len(pool) != len(exact) or not ok and len(pool) < len(wanted):
            raise Violation(f"{what}: {len(wanted)} reports expected ({wanted}), but the output is {text!r}")
        for line in pool:
            if not any(e.in_text(line) for e in wanted):
                raise Violation(f"{what}: {line!r} was printed, but the reports should be {wanted}")


def decide_loud(case):
    """ raise-errors=yes and print-passes=yes: the reports up to the first failure. """
    out, arguments, returned, what = perform(case)
    events = arguments + returned
    bad = [e for e in arguments if not e.ok] or [e for e in returned if not e.ok]
    if out.ok:
        if bad:
            raise Violation(f"{what}: {bad} expected, but the call {out!r}")
        compare(out.out, events, what)
    else:
        if not any(e.in_text(str(out.exc)) for e in bad):
            raise Violation(f"{what}: one of {bad} expected, but the message is {str(out.exc)!r}")
        for line in out.out.splitlines():
            if "PASSED" in line and not any(e.ok and e.in_text(line) for e in events):
                raise Violation(f"{what}: {line!r} was printed, but the reports should be {events}")
    return Note(events, out.kind)


# ---------------------------------------------------------------- variables


def make_variables(d):
    """ An annotation, then assignments to its variables, then a check. """
    before = d.some(lambda: assignment_op(d), 0, 2)
    items = annotation_items(d)
    after = [assignment_op(d, [n]) for n in DIMS + ["S", "T"]] + d.some(lambda: assignment_op(d), 0, 2)
    model = Model()
    for op in before:
        model.set(op)
    read = model.read(items)
    for op in after:
        model.set(op)
    pattern = model.pattern(read)
    return dict(
        before=before, items=items, after=after, dtype=d.bool(40), value=d.pick(["array", "array", "array", "other"]),
        shape=shape_for(d, pattern), vdtype=d.pick(["float64", "float64", "int8"]), place=d.pick(["x", "list", "return"]),
    )


def decide_variables(case):
    """ Reports show the values of the variables. """
    names, model = Names(), Model()
    for op in case["before"]:
        names.set(op)
        model.set(op)
    read = model.read(case["items"])
    dtype = "py:float" if case["dtype"] else None
    ann = names.annotation("np", case["items"], dtype)
    for name in model.unset(read):
        if not has_word(repr(ann), names(name)):
            raise Violation(f"{ann!r} does not show the variable {names(name)}")
    for op in case["after"]:
        names.set(op)
        model.set(op)
    pattern = model.pattern(read)
    doubled = pattern is None or any(a == b == "..." for a, b in zip(pattern, pattern[1:]))
    value = build.array(case["shape"], case["vdtype"]) if case["value"] == "array" else 2.5
    place = case["place"]
    hint = list[ann] if place == "list" else ann
    given = [value] if place == "list" else value
    if place == "return":
        out = call(api.typechecked(funcs.function([], ann, lambda bound: value)))
    else:
        out = call(api.typechecked(funcs.function([funcs.param("x", hint)], None, lambda bound: None)), given)
    if doubled:
        return Note(False, "unclear")
    text = repr(build.array_annotation(dtype, pattern))
    ok = isinstance(value, np.ndarray) and ref.match(pattern, case["shape"]) and (not dtype or case["vdtype"] == "float64")
    event = Event(ok, {"x": "x", "list": "x[0]", "return": "return"}[place], text, value)
    what = f"{ann!r}, now {text}, against {show(value)}"
    if out.ok is not ok:
        raise Violation(f"{what}: {event!r} expected, but the call {out!r}")
    lines = [x for x in out.out.splitlines() if "PASSED" in x] if ok else [str(out.exc)]
    if len(lines) != 1 or not event.in_text(lines[0]):
        raise Violation(f"{what}: {event!r} expected, but the reports are {lines}")
    return Note(True, "passes" if ok else "fails")


# ------------------------------------------------------------------ systems


def make_systems(d):
    """ Parameters with symbols; two of them contradict each other. """
    env = {n: d.int(1, 9) for n in gen.NAMES}
    params = [[[n, env[n]] for n in d.some(lambda: d.pick(gen.NAMES), 1, 3)] for _ in range(d.int(2, 4))]
    # Each parameter is consistent in itself.
    bad = d.int(1, len(params) - 1)
    name = params[0][0][0]
    other = env[name] + d.int(1, 3)
    params[bad] = [[n, other if n == name else size] for n, size in params[bad]] + ([] if any(n == name for n, _ in params[bad]) else [[name, other]])
    return dict(params=params, name=name, ret=d.bool(30))


def decide_systems(case):
    """ The message names the symbol. """
    anns = [build.annotate(api.Array, *[getattr(api.symbols, n) for n, _ in p]) for p in case["params"]]
    values = [build.array([size for _, size in p]) for p in case["params"]]
    if case["ret"]:
        out = call(api.typechecked(funcs.function(
            [funcs.param(f"p{i}", a) for i, a in enumerate(anns[:-1])], anns[-1], lambda bound: values[-1])), *values[:-1])
    else:
        out = call(api.typechecked(funcs.function(
            [funcs.param(f"p{i}", a) for i, a in enumerate(anns)], None, lambda bound: None)), *values)
    what = f"{anns} with {[v.shape for v in values]}"
    if out.kind != "TypeError" or not has_word(str(out.exc), case["name"]):
        raise Violation(f"{what}: a TypeError about {case['name']} expected, but the call {out!r}")
    return Note(True, "return" if case["ret"] else "arguments")


def make_text(frameworks):
    """ Cases of 'text'. """
    return lambda d: c16.make(d, frameworks)


SUBS = [
    Sub("text", make_text(["np"]), decide_text, 3000, 60000, size=96),
    Sub("text both", make_text(["np", "tf", "torch"]), decide_text, 2500, 60000, profile="both", size=96),
    Sub("raise", make_call(["np"], True), decide_raise, 4000, 80000, size=128, batch=6),
    Sub("raise both", make_call(["np", "tf", "torch"], True), decide_raise, 3000, 60000, profile="both", size=144, batch=6),
    Sub("ordinary", make_call(["np"], True, Options(nonasta=True)), decide_ordinary, 2500, 60000, profile="nonasta", size=128, batch=6),
    Sub("report", make_call(["np"], False), decide_report, 4000, 80000, profile="softloud", size=128, batch=6),
    Sub("loud", make_call(["np"], False), decide_loud, 2500, 60000, profile="loud", size=128, batch=6),
    Sub("variables", make_variables, decide_variables, 2000, 40000, profile="loud"),
    Sub("systems", make_systems, decide_systems, 600, 8000),
]
