""" C20: A missing framework disables only its own annotation class. """
import os
import shutil
import sys
import tempfile
from typing import Dict, List, Optional, Tuple, Union

from pbt import api, build, gen, ref
from pbt.core import REPO, Note, Sub, Violation
from pbt.observe import verdict
from pbt.sandbox import call, fork

SHARDS = {"core": 1, "tf": 2, "torch": 1, "both": 1, "forktf": 3}
QUICK = 2
RULE = (
    "'cross': an annotation of one framework against a value of any (verdict against the reference); "
    "'missing': a use of the class of an absent framework, then of a present one; 'subsets': a list of "
    "operations (subscripts, checks, calls, Scalar, reprs) run in processes which have no, one or both "
    "other frameworks. Distinct cases count as non-trivial: cross if the frameworks differ or a pattern "
    "and dtype are given, subsets if three operations or more could be compared."
)
NOTE = (
    "Oracle: the reference matcher of C01-C04; ImportError for the missing class; and, between the "
    "subsets of frameworks, equality of the transcripts (verdicts, exceptions with their messages, what "
    "is printed). torch is a stand-in (see C04); TensorFlow is the real one, hidden from the import "
    "where it is to be absent."
)
FRAMEWORKS = ["np", "tf", "torch"]
HOWS = ["isinstance", "argument", "return", "list", "optional", "union", "tuple", "dict"]


def have():
    """ The frameworks present in this process. """
    return ["np"] + [
        short for short, long in (("tf", "tensorflow"), ("torch", "torch")) if sys.modules.get(long)
    ]


def check(how, value, ann):
    """ A verdict; containers are passed as arguments. """
    if how == "list":
        return verdict("argument", [value], List[ann])
    if how == "tuple":
        return verdict("argument", (value, value), Tuple[ann, ...])
    if how == "dict":
        return verdict("argument", {"k": value}, Dict[str, ann])
    if how == "optional":
        return verdict("argument", value, Optional[ann])
    if how == "union":
        return verdict("argument", value, Union[ann, api.Array[1, 7, 1, 7, 1, 7, 1]])
    return verdict(how, value, ann)


def make_verdict(d, frameworks=FRAMEWORKS):
    """ An annotation of one framework and a value of one. """
    fw = d.pick(frameworks)
    vfw = fw if d.bool(50) else d.pick(frameworks)
    arg = None if d.bool(35) else gen.dtype_arg(d, fw)
    pat = None if d.bool(25) else gen.plain_pattern(d, max_len=4, sizes=gen.small)
    shape = d.some(lambda: gen.small(d), 0, 3) if pat is None else gen.near_shape(d, pat, 70, 20)
    if vfw == fw:
        dtype = gen.value_dtype(d, fw, arg)
    else:
        # As like as possible: the same name, if there is one.
        name = arg.split(":")[1] if arg else "float32"
        names = build.TF_DTYPES if vfw == "tf" else build.TORCH_DTYPES if vfw == "torch" else gen.NP_NATIVE
        dtype = name if name in names else {"float": "float32", "int": "int32"}.get(name, "float32")
    return dict(
        op="verdict", fw=fw, vfw=vfw, arg=arg, pat=pat, shape=shape[:6], dtype=dtype,
        how=d.pick(["isinstance"] * 3 + HOWS),
    )


def expected(case):
    """ The reference verdict. """
    return (
        case["fw"] == case["vfw"]
        and build.dtype_matches(case["fw"], case["arg"], case["dtype"])
        and (case["pat"] is None or ref.match(case["pat"], case["shape"]))
    )


def decide_cross(case):
    """ One verdict against the reference. """
    ann = build.annotation(case["fw"], case["arg"], case["pat"])
    value = build.value(case["vfw"], case["dtype"], case["shape"])
    want, got = expected(case), check(case["how"], value, ann)
    if got != want:
        raise Violation(
            f"a {case['vfw']} value of dtype {case['dtype']} and shape {case['shape']} against {ann!r} "
            f"({case['how']}): {got}, not {want}"
        )
    return Note(
        case["fw"] != case["vfw"] or (case["arg"] and case["pat"]),
        "same framework" if case["fw"] == case["vfw"] else "different frameworks", f"{want}",
    )


# ------------------------------------------------------------------- missing


PLAIN = ["none", "int", "str", "list", "empty", "class", "self", "true", "object"]


def plain_value(name, cls):
    """ A value which is not an array. """
    return {
        "none": None, "int": 3, "str": "ab", "list": [1.5], "empty": (), "class": dict, "self": cls, "true": True,
        "object": object(),
    }[name]


def make_missing(missing):
    """ Uses of missing classes. """

    def make(d):
        fw = d.pick(missing)
        present = [f for f in FRAMEWORKS if f not in missing]
        return dict(
            fw=fw, then=make_verdict(d, present), first=d.bool(),
            plain=d.pick(PLAIN) if d.bool(35) else None,
            use=d.pick(["subscript", "isinstance", "argument", "list", "tuple", "kwarg"]),
            items=d.some(lambda: d.pick([1, 3, -1, "...", [], "float", "int", "np", None, "shape", "attrs"]), 1, 3),
            value=make_verdict(d, present), optional=d.bool(),
        )

    return make


def item(spec):
    """ Part of a subscript. """
    return {
        "...": ..., "float": float, "int": int, "np": build.np.dtype("int32"), "shape": (2, 3),
        "attrs": {"ndim": 2},
    }.get(spec, spec) if isinstance(spec, str) else () if spec == [] else spec


def decide_missing(case):
    """ ImportError, before and after which the other classes work. """
    cls = getattr(api, build.annotation_class(case["fw"]))
    val = case["value"]
    value = build.value(val["vfw"], val["dtype"], val["shape"])
    if case.get("plain"):
        value = plain_value(case["plain"], cls)
    if case["first"]:
        decide_cross(case["then"])
    use, name = case["use"], build.annotation_class(case["fw"])
    if use == "subscript":
        items = tuple(item(i) for i in case["items"])
        out = call(lambda: cls[items[0] if len(items) == 1 else items])
        what = f"{name}[{items}]"
    elif use == "isinstance":
        out = call(isinstance, value, cls)
        what = f"isinstance(..., {name})"
    else:

        def used():
            # Writing the annotation down is a use already, which may raise.
            hint, arg = {
                "list": lambda: (List[cls], [value]), "tuple": lambda: (Tuple[int, cls], (1, value)),
                "argument": lambda: (cls, value), "kwarg": lambda: (cls, value),
            }[use]()

            @api.typechecked
            def func(x: hint) -> None:
                return None

            return func(x=arg) if use == "kwarg" else func(arg)

        out = call(used)
        what = f"checking an argument against {name} ({use})"
    if not isinstance(out.exc, ImportError):
        raise Violation(f"{what}, without the framework, {out!r}")
    decide_cross(case["then"])
    return Note(True, case["fw"], use)


# ------------------------------------------------------------------- subsets


def make_op(d):
    """ One operation. """
    kind = d.pick(["verdict", "verdict", "verdict", "scalar", "raw", "call", "repr"])
    if kind in ("verdict", "repr"):
        return dict(make_verdict(d), op=kind)
    if kind == "scalar":
        res = make_verdict(d)
        res.update(op="scalar", shape=res["shape"] if d.bool() else [], other=d.pick([None, 1, "s", 2.5, True, []]) if d.bool(30) else "value")
        return res
    if kind == "raw":
        return dict(
            op="raw", fw=d.pick(FRAMEWORKS), items=d.some(lambda: d.pick(RAW), 1, 3),
        )
    # A call whose arguments of different frameworks share symbols.
    sides = [
        dict(fw=d.pick(FRAMEWORKS), pat=[["sym", d.pick(["X", "Y"])] if d.bool(70) else d.int(1, 3) for _ in range(d.int(1, 2))])
        for _ in range(2)
    ]
    for side in sides:
        side["shape"] = [d.int(1, 2) if d.bool(60) else 2 for _ in side["pat"]]
    return dict(op="call", sides=sides)


RAW = [
    2, -1, "...", [], "scalar", "py:float", "py:int", "py:str", "py:bytes", "np:float32", "tf:float32",
    "torch:float32", "bad:1.5", "bad:str", "bad:list", "tuple", "none", "np-shape", "tf-shape", "torch-shape",
    "attrs", "pyclass",
]


def raw_item(spec):
    """ Part of a subscript; some belong to one framework only. """
    if isinstance(spec, int):
        return spec
    if spec == []:
        return ()
    if spec.startswith("py:"):
        return build.PYTYPES[spec[3:]]
    if spec.startswith("tf:"):
        return getattr(api.tf, spec[3:])
    if spec.startswith("torch:"):
        return getattr(api.torch, spec[6:])
    return {
        "...": lambda: ..., "scalar": lambda: api.Scalar, "np:float32": lambda: build.np.float32,
        "bad:1.5": lambda: 1.5, "bad:str": lambda: "x", "bad:list": lambda: [1], "tuple": lambda: (2, -1),
        "none": lambda: None, "np-shape": lambda: build.array([2, 3]).shape,
        "tf-shape": lambda: api.tf.zeros((2, 3)).shape, "torch-shape": lambda: api.torch.zeros(2, 3).shape,
        "attrs": lambda: {"ndim": 2}, "pyclass": lambda: dict,
    }[spec]()


def needs(case):
    """ The frameworks an operation needs. """
    kind = case["op"]
    if kind == "raw":
        return {case["fw"]} | {s.split(":")[0].split("-")[0] for s in case["items"] if isinstance(s, str)} & {"tf", "torch"}
    if kind == "call":
        return {s["fw"] for s in case["sides"]}
    if kind == "scalar":
        return {case["vfw"]} if case["other"] == "value" else {"np"}
    if kind == "repr":
        return {case["fw"]}
    return {case["fw"], case["vfw"]}


def perform(case):
    """ The transcript of an operation, as text. """
    kind = case["op"]
    if kind == "verdict":
        out = call(lambda: check(
            case["how"], build.value(case["vfw"], case["dtype"], case["shape"]),
            build.annotation(case["fw"], case["arg"], case["pat"]),
        ))
        if out.kind == "TooBig":
            raise out.exc
        return [out.kind, out.value, out.out]
    if kind == "repr":
        out = call(lambda: repr(build.annotation(case["fw"], case["arg"], case["pat"])))
        return [out.kind, out.value, out.out]
    if kind == "scalar":
        value = case["other"]
        if value == "value":
            value = build.value(case["vfw"], case["dtype"], case["shape"])
        out = call(isinstance, value, api.Scalar)
        return [out.kind, out.value, out.out]
    if kind == "raw":
        cls = getattr(api, build.annotation_class(case["fw"]))
        items = tuple(raw_item(s) for s in case["items"])
        out = call(lambda: repr(cls[items[0] if len(items) == 1 else items]))
        return [out.kind, out.value, ""]
    hints = [build.annotation(s["fw"], None, s["pat"]) for s in case["sides"]]

    @api.typechecked
    def func(x: hints[0], y: hints[1]) -> int:
        return 1

    out = call(func, *[build.value(s["fw"], "float32", s["shape"]) for s in case["sides"]])
    # Equations are printed in no particular order when a system fails.
    return [out.kind, out.value, out.out if out.ok else out.out.count("PASSED")]


def child(case, subset, scratch):
    """ Import asta with some of the frameworks, and run the operations. """
    os.chdir(scratch)
    os.environ["HOME"] = scratch
    if "tf" not in subset:
        for name in [n for n in sys.modules if n.split(".")[0] == "tensorflow"]:
            del sys.modules[name]
        sys.modules["tensorflow"] = None
    if "torch" in subset:
        from pbt import faketorch

        faketorch.install()
    import asta

    if not os.path.realpath(asta.__file__).startswith(os.path.realpath(REPO)):
        raise RuntimeError(asta.__file__)
    from pbt.core import Violation as Broken

    res = []
    for op in case["ops"]:
        if not needs(op) <= set(subset):
            res.append(None)
            continue
        try:
            res.append(perform(op))
        except build.TooBig:
            res.append("too big")
        except Broken as exc:
            res.append(["violation", str(exc), ""])
    for fw in FRAMEWORKS:
        name = build.annotation_class(fw)
        if fw not in subset:
            for what in (lambda: getattr(asta, name)[3], lambda: isinstance(1, getattr(asta, name))):
                out = call(what)
                if not isinstance(out.exc, ImportError):
                    res.append(f"{name} without its framework: {out!r}")
    return res


SUBSETS = [["np", "tf", "torch"], ["np"], ["np", "tf"], ["np", "torch"]]


def make_subsets(d):
    """ Operations. """
    return dict(ops=d.some(lambda: make_op(d), 3, 14))


def decide_subsets(case):
    """ The transcripts agree. """
    transcripts = []
    for subset in SUBSETS:
        scratch = tempfile.mkdtemp(prefix="pbt-c20-")
        try:
            res = fork(child, case, subset, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if "error" in res:
            if res["asta"]:
                raise Violation(f"with {subset} only: {res['error']}")
            raise RuntimeError(res["trace"])
        transcripts.append([res["out"].strip()] + res["value"])
    compared = 0
    for subset, got in zip(SUBSETS, transcripts):
        if len(got) > len(case["ops"]) + 1:
            raise Violation(f"with {subset} only: {got[-1]}")
        for op, one, two in zip([dict(op="import")] + case["ops"], got, transcripts[0]):
            if one is None:
                continue
            compared += subset is not SUBSETS[0]
            if one != two:
                raise Violation(f"{op}: with {subset} only: {one}; with every framework: {two}")
            if op["op"] == "verdict" and one != "too big" and (one[0] != "ok" or one[1] != expected(op)):
                raise Violation(f"{op}: with {subset}: {one}, not {expected(op)}")
    return Note(compared > 3, *{op["op"] for op in case["ops"]})


SUBS = [
    Sub("cross", lambda d: make_verdict(d, ["np"]), decide_cross, 1000, 20000),
    Sub("cross tf", lambda d: make_verdict(d, ["np", "tf"]), decide_cross, 3000, 60000, profile="tf"),
    Sub("cross torch", lambda d: make_verdict(d, ["np", "torch"]), decide_cross, 4000, 60000, profile="torch"),
    Sub("cross both", make_verdict, decide_cross, 3000, 60000, profile="both"),
    Sub("missing", make_missing(["tf", "torch"]), decide_missing, 1000, 20000),
    Sub("missing torch", make_missing(["torch"]), decide_missing, 600, 15000, profile="tf"),
    Sub("missing tf", make_missing(["tf"]), decide_missing, 1000, 20000, profile="torch"),
    Sub("subsets", make_subsets, decide_subsets, 90, 3000, profile="forktf", batch=2, size=400),
]
