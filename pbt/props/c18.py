""" C18: Aliases accumulate constraints without affecting the alias. """
from pbt import api, build, gen, ref
from pbt.core import Note, Sub, Violation
from pbt.observe import verdict
from pbt.props.c16 import tidy

SHARDS = {"core": 4, "both": 3}
QUICK = 4
RULE = (
    "A case is a tree of up to seven annotations, each got from the class or an earlier one by a subscript "
    "which gives a dtype, a shape, attributes or several of these, in between hashing, comparing and "
    "checking, and values near what some of them ask for. Distinct cases in which an annotation has two "
    "descendants, or an ancestor two steps up, count as non-trivial."
)
NOTE = (
    "Each must equal the annotation written at once with the last dtype, shape and attributes on its path, "
    "and give the verdicts of the reference (dtype, pattern, attributes), when made and again when the "
    "whole tree is there. Attributes given again on a path include those given before."
)
ATTRS = {
    "np": {"ndim": [0, 1, 2, 3], "itemsize": [8, 4, 1], "missing": [1]},
    "tf": {"ndim": [0, 1, 2, 3], "missing": [1]},
    "torch": {"ndim": [0, 1, 2, 3], "requires_grad": [False, True], "missing": [1]},
}


def make(d, fws=("np",)):
    """ A tree and values. """
    fw = d.pick(fws)
    nodes = []
    state = [dict(dtype=None, pat=None, attrs=None)]
    for _ in range(d.int(2, 7)):
        parent = d.int(0, len(state) - 1) if d.bool(60) else len(state) - 1
        now = dict(state[parent])
        gives = d.pick([["dtype"], ["pat"], ["attrs"], ["dtype", "pat"], ["pat", "attrs"], ["dtype", "attrs"],
                        ["dtype", "pat", "attrs"], ["pat"], ["dtype"]])
        step = dict(parent=parent, scalar=d.bool(30), tuple=d.bool(30), touch=d.pick(["none", "hash", "repr", "check", "list"]))
        for give in gives:
            if give == "dtype":
                step["dtype"] = gen.dtype_arg(d, fw)
            elif give == "pat":
                symbolic = d.bool(15)
                step["pat"] = tidy(
                    [["sym", d.pick(["X", "Y"])] if symbolic and d.bool() else d.pick([1, 2, 3, 0, -1, "..."])
                     for _ in range(d.int(0, 3))]
                )
            else:
                keys = d.shuffle(ATTRS[fw])[: d.pick([1, 1, 2])]
                # Given again, they include those given before: whether the others remain is left open.
                keys += [k for k in now["attrs"] or {} if k not in keys]
                step["attrs"] = {k: d.pick(ATTRS[fw][k]) for k in keys if k != "missing" or k in (now["attrs"] or {}) or d.bool(30)} or {"ndim": 1}
        now.update({k: step[k] for k in ("dtype", "pat", "attrs") if k in step})
        nodes.append(step)
        state.append(now)
    values = []
    for _ in range(d.int(1, 3)):
        want = d.pick(state[1:])
        plain = [e for e in want["pat"] or [] if not isinstance(e, list)]
        shape = gen.near_shape(d, plain, 70, 20)[:5] if want["pat"] is not None else d.some(lambda: gen.small(d), 0, 3)
        values.append([gen.value_dtype(d, fw, want["dtype"]), [min(s, 20) for s in shape]])
    return dict(fw=fw, nodes=nodes, values=values, how=d.pick(["isinstance"] * 3 + ["argument", "return"]))


def has(value, attrs):
    """ Whether a value has the attributes. """
    return all(hasattr(value, k) and getattr(value, k) == v for k, v in (attrs or {}).items())


def decide(case):
    """ Build the tree; look at each annotation at once and in the end. """
    fw = case["fw"]
    cls = getattr(api, build.annotation_class(fw))
    values = [(dtype, shape, build.value(fw, dtype, shape)) for dtype, shape in case["values"]]
    anns, states, paths = [cls], [dict(dtype=None, pat=None, attrs=None)], [cls.__name__]

    def check(index, when):
        ann, state = anns[index], states[index]
        once = build.annotation(fw, state["dtype"], state["pat"], state["attrs"])
        if ann != once or once != ann or hash(ann) != hash(once):
            raise Violation(f"{paths[index]} is {ann!r} {when}, not {once!r}")
        symbolic = state["pat"] and any(isinstance(e, list) for e in state["pat"])
        for dtype, shape, value in values:
            got = verdict(case["how"], value, ann)
            if symbolic:
                want = verdict(case["how"], value, once)
            else:
                want = (
                    build.dtype_matches(fw, state["dtype"], dtype)
                    and (state["pat"] is None or ref.match(state["pat"], shape)) and has(value, state["attrs"])
                )
            if got != want:
                raise Violation(
                    f"{dtype} of shape {shape} against {paths[index]} ({ann!r}) {when}: {got} ({case['how']}), "
                    f"should be {want}"
                )

    for step in case["nodes"]:
        parent = step["parent"]
        items, shown = [], []
        if "dtype" in step:
            items.append(build.dtype_arg(fw, step["dtype"]))
        if "pat" in step:
            dims = list(build.pattern(step["pat"]))
            if not dims:
                dims = [api.Scalar if step["scalar"] else ()]
            elif step["tuple"]:
                dims = [tuple(dims)]
            items += dims
        if "attrs" in step:
            items.append(dict(step["attrs"]))
        shown = repr(items)
        anns.append(build.annotate(anns[parent], *items))
        paths.append(paths[parent] + shown)
        now = dict(states[parent])
        now.update({k: step[k] for k in ("dtype", "pat", "attrs") if k in step})
        states.append(now)
        if step["touch"] == "hash":
            hash(anns[-1])
        elif step["touch"] == "repr":
            repr(anns[-1])
        elif step["touch"] == "list":
            [anns[-1]].index(anns[-1])
        elif step["touch"] == "check":
            check(len(anns) - 1, "when made")
    for index in range(len(anns)):
        check(index, "in the end")
    parents = [s["parent"] for s in case["nodes"]]
    deep = any(p and parents[p - 1] for p in parents)
    return Note(deep or len(set(parents)) < len(parents), case["how"], f"{len(parents)} steps")


SUBS = [
    Sub("numpy", make, decide, 4000, 100000, size=128, batch=6),
    Sub("all", lambda d: make(d, ("np", "tf", "torch")), decide, 4000, 100000, profile="both", size=128, batch=6),
]
