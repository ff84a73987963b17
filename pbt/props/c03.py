""" C03: TFTensor matches exactly the tensors its dtype and shape describe. """
from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.sandbox import call

SHARDS = {"tf": 6}
QUICK = 3
RULE = (
    "A case is a TFTensor annotation (dtype argument or none, shape pattern or none or a "
    "TensorShape) and a TensorFlow tensor or another value; distinct cases with both a dtype and a "
    "pattern, or with an ellipsis or wildcard, count as non-trivial."
)
NOTE = (
    "Agreement with the reference matcher and the documented type table, on eager tensors of real "
    "TensorFlow and on symbolic ones, also within tf.function; variables, sparse and ragged tensors must not "
    "match. Whether a size which is not known fits is no opinion of the oracle."
)
FW = "tf"
OTHERS = [
    "numpy", "list", "none", "float", "shape", "dtype", "variable shape", "variable", "sparse", "ragged",
    "spec", "tensor array",
]
# Types which only annotations have here: no tensor generated has them.
RARE = ["np:string", "np:variant", "np:resource", "np:qint8", "np:quint8", "np:qint32", "np:half", "np:double"]
ALIAS = {"half": "float16", "double": "float64"}
_OTHER = {}


def plain_arg(arg):
    """ The argument, under the name a tensor would have. """
    if arg is None or not arg.startswith("np:"):
        return arg
    name = ALIAS.get(arg[3:], arg[3:])
    return "np:" + (name if name in build.TF_DTYPES else "string")


def make_match(d):
    arg = gen.dtype_arg(d, FW) if not d.bool(20) else None
    if d.bool(10):
        arg = d.pick(RARE)
    pattern = None if d.bool(15) else gen.plain_pattern(d, max_len=5)
    shape = (
        d.some(lambda: gen.size(d), 0, 3) if pattern is None else gen.near_shape(d, pattern, 60, 30)
    )
    return dict(arg=arg, pat=pattern, dtype=gen.value_dtype(d, FW, plain_arg(arg)), shape=shape)


def decide_match(case):
    ann = build.annotation(FW, case["arg"], case["pat"])
    value = build.value(FW, case["dtype"], case["shape"])
    got = isinstance(value, ann)
    arg = case["arg"]
    if arg is not None and arg[3:] in ALIAS:
        arg = "np:" + ALIAS[arg[3:]]
    same = build.dtype_matches(FW, arg, case["dtype"])
    fits = case["pat"] is None or ref.match(case["pat"], case["shape"])
    if got != (same and fits):
        raise Violation(
            f"isinstance(tensor of dtype {case['dtype']} and shape {tuple(case['shape'])}, {ann!r}) "
            f"is {got}: dtype matches: {same}, shape matches: {fits}"
        )
    pattern = case["pat"] or []
    return Note(
        (case["arg"] and case["pat"] is not None) or "..." in pattern or -1 in pattern,
        f"dtype {'same' if same else 'differs'}", f"shape {'fits' if fits else 'differs'}",
    )


def make_long(d):
    arg = None if d.bool(50) else gen.dtype_arg(d, FW)
    return dict(gen.long_case(d), arg=arg, dtype=gen.value_dtype(d, FW, arg))


def make_own(d):
    """ Annotations written with the shape or dtype object of a tensor. """
    shape = d.some(lambda: gen.size(d), 0, 4)
    other = shape if d.bool() else gen.mutate(d, shape)
    return dict(
        shape=shape, other=other, dtype=gen.value_dtype(d, FW), odtype=gen.value_dtype(d, FW),
        form=d.pick(["shape", "dtype,shape", "dtype,*shape", "list", "dtype"]), same=d.bool(60),
    )


def decide_own(case):
    tensor = build.value(FW, case["dtype"], case["shape"])
    odtype = case["dtype"] if case["same"] else case["odtype"]
    other = build.value(FW, odtype, case["other"])
    cls = getattr(api, build.annotation_class(FW))
    form = case["form"]
    want = True
    if form == "shape":
        ann = cls[tensor.shape]
        want = case["shape"] == case["other"]
    elif form == "dtype,shape":
        ann = cls[tensor.dtype, tensor.shape]
        want = case["shape"] == case["other"] and odtype == case["dtype"]
    elif form == "dtype,*shape":
        ann = cls[(tensor.dtype,) + tuple(tensor.shape)] if case["shape"] else cls[tensor.dtype, ()]
        want = case["shape"] == case["other"] and odtype == case["dtype"]
    elif form == "list":
        ann = cls[tuple(list(tensor.shape))] if case["shape"] else cls[()]
        want = case["shape"] == case["other"]
    else:
        ann = cls[tensor.dtype]
        want = odtype == case["dtype"]
    got = isinstance(other, ann)
    if got != want:
        raise Violation(
            f"{ann!r} written from a tensor of shape {case['shape']} and dtype {case['dtype']} "
            f"({form}): isinstance(tensor of shape {case['other']}, dtype {odtype}) is {got}"
        )
    return Note(True, form, "match" if want else "mismatch")


def make_other(d):
    return dict(make_match(d), kind=d.pick(OTHERS))


def other(kind, dtype, shape):
    """ A value which is not a tensor, though it may have a dtype and a shape. """
    tf, np = api.tf, build.np
    key = (kind, dtype, tuple(shape))
    if key in _OTHER:
        return _OTHER[key]
    tensor = build.value(FW, dtype, shape)
    value = {
        "numpy": lambda: build.array(shape), "list": lambda: [1.0], "none": lambda: None,
        "float": lambda: 2.0, "shape": lambda: tuple(shape), "dtype": lambda: np.dtype("float32"),
        "variable shape": lambda: tensor.shape, "variable": lambda: tf.Variable(tensor),
        "sparse": lambda: tf.sparse.SparseTensor(
            np.zeros((0, len(shape)), "int64"), tf.zeros((0,), tensor.dtype), list(shape)
        ),
        "ragged": lambda: tf.RaggedTensor.from_tensor(tensor) if len(shape) > 1 else tensor.shape,
        "spec": lambda: tf.TensorSpec(tensor.shape, tensor.dtype),
        "tensor array": lambda: tf.TensorArray(tensor.dtype, size=1, element_shape=tensor.shape),
    }[kind]()
    if len(_OTHER) > 2000:
        _OTHER.clear()
    _OTHER[key] = value
    return value


def decide_other(case):
    ann = build.annotation(FW, case["arg"], case["pat"])
    value = other(case["kind"], case["dtype"], case["shape"])
    if isinstance(value, ann) is not False:
        raise Violation(f"isinstance({value!r}, {ann!r}) is not False")
    if isinstance(build.value(FW, case["dtype"], case["shape"]), api.Array):
        raise Violation(f"a tensor of shape {case['shape']} is an instance of Array")
    return Note(True, case["kind"])


# ------------------------------------------------------- tensors in a graph


def make_symbolic(d):
    case = make_match(d)
    known = [size if d.bool(70) else None for size in case["shape"]] if d.bool(40) else case["shape"]
    return dict(case, known=None if d.bool(15) else known, how=d.pick(["isinstance", "isinstance", "argument", "return"]))


def observe(how, value, ann):
    """ Whether a value passes a check; TypeError means that it does not. """
    if how == "isinstance":
        return isinstance(value, ann)

    def func(*args):
        return value

    func.__annotations__ = {"args": ann} if how == "argument" else {"args": int, "return": ann}
    out = call(api.typechecked(func), *([value] if how == "argument" else []))
    if out.kind not in ("ok", "TypeError"):
        raise Violation(f"checking {value!r} against {ann!r} ({how}) {out!r}")
    return out.ok


def decide_symbolic(case):
    """ What is known of the shape decides, if it does. """
    ann = build.annotation(FW, case["arg"], case["pat"])
    value = build.symbolic(case["dtype"], case["known"])
    got = observe(case["how"], value, ann)
    arg, known, pattern = case["arg"], case["known"], case["pat"]
    if arg is not None and arg[3:] in ALIAS:
        arg = "np:" + ALIAS[arg[3:]]
    if not build.dtype_matches(FW, arg, case["dtype"]):
        want = False
    elif pattern is None:
        want = True
    elif known is None:
        want = None
    elif None not in known:
        want = ref.match(pattern, known)
    else:
        # There is an opinion only if the sizes which are known cannot fit.
        want = None
        if "..." not in pattern and len(pattern) != len(known):
            want = False
        elif "..." not in pattern and any(s is not None and not ref.match([e], [s]) for e, s in zip(pattern, known)):
            want = False
    if want is not None and got is not want:
        raise Violation(f"{case['how']}: symbolic tensor of dtype {case['dtype']}, shape {known} against {ann!r}: {got}")
    return Note(True, "unknown rank" if known is None else "unknown sizes" if None in known else "known", f"verdict {want}")


def make_traced(d):
    places = []
    for _ in range(d.int(1, 3)):
        pattern = gen.plain_pattern(d, max_len=3, sizes=gen.small)
        places.append(dict(pat=pattern, shape=gen.near_shape(d, pattern, 85, 10)))
    return dict(places=places, convert=d.bool(15), echo=d.bool(30), form=d.pick(["outside", "inside"]))


def decide_traced(case):
    """ Functions which TensorFlow traces are checked as ever. """
    tf = api.tf
    *params, last = case["places"]
    values = [build.value(FW, "float32", p["shape"]) for p in params]
    result = build.value(FW, "float32", last["shape"])
    seen = []

    def func(*args):
        seen.append(len(args))
        return tf.identity(result)

    def func1(a):
        return func(a)

    def func2(a, b):
        return func(a, b)

    inner = {0: func, 1: func1, 2: func2}[len(params)]
    names = ["a", "b"] if params else ["args"]
    inner.__annotations__ = {n: build.annotation(FW, None, p["pat"]) for n, p in zip(names, params)}
    if not params:
        inner = lambda: func()  # noqa: E731  # pylint: disable=unnecessary-lambda
    inner.__annotations__["return"] = build.annotation(FW, None, last["pat"])
    checked = api.typechecked(inner)
    if case["form"] == "inside":
        checked_inner = checked
        checked = lambda *args: checked_inner(*args)  # noqa: E731  # pylint: disable=unnecessary-lambda
    out = call(tf.function(checked, autograph=case["convert"]), *values)
    good_args = all(ref.match(p["pat"], p["shape"]) for p in params)
    good = good_args and ref.match(last["pat"], last["shape"])
    if out.kind != ("ok" if good else "TypeError"):
        raise Violation(f"traced, {case['places']}: {out!r}; should {'pass' if good else 'raise TypeError'}")
    if good_args and not seen or seen and not good_args:
        raise Violation(f"traced, {case['places']}: the body was entered {len(seen)} times")
    return Note(bool(params), "passes" if good else "fails", "autograph" if case["convert"] else "plain")


SUBS = [
    Sub("match", make_match, decide_match, 16000, 200000, profile="tf"),
    Sub("long", make_long, decide_match, 1600, 20000, profile="tf", size=160, batch=4),
    Sub("symbolic", make_symbolic, decide_symbolic, 3000, 40000, profile="tf"),
    Sub("traced", make_traced, decide_traced, 240, 4000, profile="tf", batch=4),
    Sub("own", make_own, decide_own, 4000, 50000, profile="tf"),
    Sub("other", make_other, decide_other, 2000, 10000, profile="tf"),
]
