""" C04: Tensor matches exactly the torch tensors its dtype and shape describe. """
from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.sandbox import call

SHARDS = {"torch": 4, "both": 1}
QUICK = 6
RULE = (
    "A case is a Tensor annotation (dtype argument or none, shape pattern or none or a torch.Size) "
    "and a tensor of the stand-in torch or another value; distinct cases with both a dtype and a "
    "pattern, or with an ellipsis or wildcard, count as non-trivial."
)
NOTE = (
    "Agreement with the reference matcher and the documented type table. torch is not installed, so "
    "a stand-in module supplies Tensor, Size (a tuple subclass) and dtype objects; what only the "
    "real torch does is not covered."
)
FW = "torch"


def make_match(d):
    arg = gen.dtype_arg(d, FW) if not d.bool(20) else None
    pattern = None if d.bool(15) else gen.plain_pattern(d, max_len=5)
    shape = (
        d.some(lambda: gen.size(d), 0, 3) if pattern is None else gen.near_shape(d, pattern, 60, 30)
    )
    return dict(
        arg=arg, pat=pattern, dtype=gen.value_dtype(d, FW, arg), shape=shape,
        how=d.pick(["isinstance", "isinstance", "argument", "return"]),
    )


def observe(how, value, ann):
    """ Whether a value passes a check; TypeError means that it does not. """
    if how == "isinstance":
        return isinstance(value, ann)
    if how == "argument":

        @api.typechecked
        def func(x: ann) -> int:
            return 1

        out = call(func, value)
    else:

        @api.typechecked
        def func() -> ann:
            return value

        out = call(func)
    if out.ok:
        return True
    if isinstance(out.exc, TypeError):
        return False
    raise Violation(f"checking {value!r} against {ann!r} ({how}) {out!r}")


def decide_match(case):
    ann = build.annotation(FW, case["arg"], case["pat"])
    value = build.value(FW, case["dtype"], case["shape"])
    got = observe(case["how"], value, ann)
    same = build.dtype_matches(FW, case["arg"], case["dtype"])
    fits = case["pat"] is None or ref.match(case["pat"], case["shape"])
    if got != (same and fits):
        raise Violation(
            f"{case['how']}: tensor of dtype {case['dtype']} and shape {tuple(case['shape'])} "
            f"against {ann!r} is {got}: dtype matches: {same}, shape matches: {fits}"
        )
    pattern = case["pat"] or []
    return Note(
        (case["arg"] and case["pat"] is not None) or "..." in pattern or -1 in pattern,
        f"dtype {'same' if same else 'differs'}", f"shape {'fits' if fits else 'differs'}",
        case["how"],
    )


def make_long(d):
    return dict(gen.long_case(d), arg=None, dtype="float32", how=d.pick(["isinstance", "argument"]))


def make_own(d):
    shape = d.some(lambda: gen.size(d), 0, 4)
    other = shape if d.bool() else gen.mutate(d, shape)
    return dict(
        shape=shape, other=other, dtype=gen.value_dtype(d, FW), odtype=gen.value_dtype(d, FW),
        form=d.pick(["shape", "dtype,shape", "dtype,*shape", "size()", "dtype"]), same=d.bool(60),
        how=d.pick(["isinstance", "isinstance", "argument", "return"]),
    )


def decide_own(case):
    tensor = build.value(FW, case["dtype"], case["shape"])
    odtype = case["dtype"] if case["same"] else case["odtype"]
    other = build.value(FW, odtype, case["other"])
    cls = api.Tensor
    form = case["form"]
    same_shape, same_dtype = case["shape"] == case["other"], odtype == case["dtype"]
    if form == "shape":
        ann, want = cls[tensor.shape], same_shape
    elif form == "dtype,shape":
        ann, want = cls[tensor.dtype, tensor.shape], same_shape and same_dtype
    elif form == "dtype,*shape":
        dims = tuple(tensor.shape) or ((),)
        ann, want = cls[(tensor.dtype,) + dims], same_shape and same_dtype
    elif form == "size()":
        ann, want = cls[tensor.size()], same_shape
    else:
        ann, want = cls[tensor.dtype], same_dtype
    got = observe(case["how"], other, ann)
    if got != want:
        raise Violation(
            f"{ann!r} written from a tensor of shape {case['shape']} and dtype {case['dtype']} "
            f"({form}): tensor of shape {case['other']}, dtype {odtype} gives {got}"
        )
    return Note(True, form, "match" if want else "mismatch")


def make_other(d):
    return dict(make_match(d), kind=d.pick(["numpy", "list", "none", "float", "size", "dtype"]))


def decide_other(case):
    ann = build.annotation(FW, case["arg"], case["pat"])
    value = {
        "numpy": build.array(case["shape"], "float32"), "list": [1.0], "none": None, "float": 2.0,
        "size": api.torch.Size(case["shape"]), "dtype": api.torch.float32,
    }[case["kind"]]
    if observe(case["how"], value, ann):
        raise Violation(f"{value!r} passes {ann!r} ({case['how']})")
    tensor = build.value(FW, case["dtype"], case["shape"])
    if isinstance(tensor, api.Array):
        raise Violation("a torch tensor is an instance of Array")
    return Note(True, case["kind"])


def decide_both(case):
    """ With TensorFlow present as well. """
    tensor = build.value(FW, case["dtype"], case["shape"])
    tftensor = build.value("tf", "float32", case["shape"])
    ann = build.annotation(FW, case["arg"], case["pat"])
    tfann = build.annotation("tf", None, case["pat"])
    same = build.dtype_matches(FW, case["arg"], case["dtype"])
    fits = case["pat"] is None or ref.match(case["pat"], case["shape"])
    got = (
        observe(case["how"], tensor, ann), observe(case["how"], tftensor, ann),
        observe(case["how"], tensor, tfann), observe(case["how"], tftensor, tfann),
    )
    want = (same and fits, False, False, fits)
    if got != want:
        raise Violation(
            f"torch/tf values of shape {case['shape']} against {ann!r} and {tfann!r}: {got}, not {want}"
        )
    return Note(True, "match" if want[0] else "mismatch")


SUBS = [
    Sub("match", make_match, decide_match, 12000, 200000, profile="torch"),
    Sub("long", make_long, decide_match, 1500, 20000, profile="torch", size=160, batch=4),
    Sub("own", make_own, decide_own, 4000, 50000, profile="torch"),
    Sub("other", make_other, decide_other, 2000, 10000, profile="torch"),
    Sub("both", make_match, decide_both, 1000, 10000, profile="both"),
]
