"""
Histories over ``asta.dims`` and ``asta.shapes``: a model of the variables, and
annotations which use them.

Items of an annotation: a pattern element (int, -1, "..." or an expression tree
over ["dim", name] and ["sym", name]), or ["shape", name, form], form "bare" or
"unpack". An annotation reads its variables when it is written: those already
set are plain values from then on, the others stay variable.
"""
import itertools

from pbt import api, build, gen, ref

DIMS = ["A", "B"]
SHAPES = ["S", "T"]
_COUNTER = itertools.count()
# Ways to begin the name of a variable.
STYLES = ["v{}", "_v{}", "__v{}", "E{}_", "\u00f1{}", "shape{}_", "v{}__name__"]


class Model:
    """ What the variables of a history are. """

    def __init__(self):
        self.dims = {}
        self.shapes = {}

    def set(self, op):
        """ An assignment. """
        if op["op"] == "dim":
            self.dims[op["name"]] = op["value"]
        else:
            self.shapes[op["name"]] = list(op["value"])

    def read(self, items):
        """ The items of an annotation written now. """
        res = []
        for item in items:
            if is_shape(item):
                value = self.shapes.get(item[1])
                res += [item] if value is None else value
            else:
                res.append(ref.put(item, self.dims) if isinstance(item, list) else item)
        return res

    def unset(self, items):
        """ Variables of an annotation which have no value yet. """
        res = set()
        for item in items:
            if is_shape(item):
                res |= {item[1]} - set(self.shapes)
            elif isinstance(item, list):
                # One which has been cancelled out (as in 0 * X) is not used any more.
                res |= {name for name in dim_names(item) - set(self.dims) if depends(item, name)}
        return res

    def pattern(self, items):
        """
        The pattern an annotation stands for now, None if unclear: an
        expression other than a variable by itself is negative or fractional.
        """
        res = []
        for item in self.read(items):
            if isinstance(item, list) and not is_shape(item) and not ref.names(item):
                value = ref.evaluate(item, {})
                if value.denominator != 1 or value < 0:
                    return None
                item = int(value)
            res.append(item)
        return res


def style(d):
    """ A choice of names for a case. """
    return d.int(0, len(STYLES) - 1) if d.bool(40) else 0


def is_shape(item):
    """ Whether an item is a shape variable. """
    return isinstance(item, list) and item[0] == "shape"


def dim_names(tree):
    """ Dimension variables of an expression. """
    if isinstance(tree, (int, float)) or tree[0] == "sym":
        return set()
    if tree[0] == "dim":
        return {tree[1]}
    return dim_names(tree[1]) | dim_names(tree[2])


def depends(tree, name):
    """ Whether the value of an expression depends on a name. """
    others = sorted(ref.names(tree) - {name})
    for offset in range(4):
        env = {other: 7 + 4 * i + 9 * offset for i, other in enumerate(others)}
        if len({ref.evaluate(tree, {**env, name: size}) for size in (5, 11, 24, 60)}) > 1:
            return True
    return False


class Names:
    """ Fresh variable names for a case: the variables are global and never forgotten. """

    def __init__(self, style=0):
        self.prefix = STYLES[style].format(next(_COUNTER))

    def __call__(self, name):
        return self.prefix + name

    def set(self, op):
        """ Make an assignment. """
        if op["op"] == "dim":
            setattr(api.dims, self(op["name"]), op["value"])
        else:
            setattr(api.shapes, self(op["name"]), tuple(op["value"]))

    def items(self, items):
        """ The items of a subscript, as a tuple. """
        res = []
        for item in items:
            if is_shape(item):
                value = getattr(api.shapes, self(item[1]))
                # An empty tuple next to other sizes is not a legal subscript.
                if item[2] == "unpack" or value == ():
                    res += [*value]
                else:
                    res.append(value)
            else:
                res.append(build.elem(item, self.rename))
        return tuple(res)

    def rename(self, name):
        """ Dimension variables are renamed, symbols keep their names (or, in lower case, share those). """
        return self(name.upper()) if name.upper() in DIMS else name

    def annotation(self, fw, items, dtype=None):
        """ Array[dtype, *items]. """
        cls = getattr(api, build.annotation_class(fw))
        subscript = self.items(items) or ((),)
        if dtype is not None:
            subscript = (build.dtype_arg(fw, dtype),) + subscript
        return build.annotate(cls, *subscript)


def dim_expression(d, depth=2, names=None):
    """ An expression over dimension variables (only operations ints and variables share). """
    name = ["dim", d.pick(names or DIMS)]
    op = d.pick(["leaf", "leaf", "+", "*", "-", "n*", "//", "**", "+e", "*e"]) if depth else "leaf"
    if op == "leaf":
        return name
    if op in ("+", "*", "-", "//"):
        return [op, dim_expression(d, depth - 1, names), d.int(1, 3) if op != "//" else d.int(2, 3)]
    if op == "n*":
        return ["*", d.int(1, 3), dim_expression(d, depth - 1, names)]
    if op == "**":
        return ["**", name, 2]
    return [op[0], name, dim_expression(d, depth - 1, names)]


def assignment_op(d, names=None):
    """ An assignment to a variable. """
    name = d.pick(names or DIMS + SHAPES)
    if name in DIMS:
        return dict(op="dim", name=name, value=d.pick([1, 2, 3, 4, 0, 7, -1]))
    return dict(
        op="shape", name=name,
        value=d.some(lambda: d.pick([1, 2, 3, 4, 1, 2, 0, -1]), 0, 3),
    )


def annotation_items(d, max_len=3):
    """ Items which use variables. """
    res = []
    for _ in range(d.int(1, max_len)):
        kind = d.pick(["d", "s", "d", "s", "e", "n", "w", "."])
        if kind == "." and "..." in res:
            kind = "d"
        if kind == "d":
            res.append(["dim", d.pick(DIMS)])
        elif kind == "e":
            res.append(dim_expression(d))
        elif kind == "s":
            res.append(["shape", d.pick(SHAPES), d.pick(["bare", "unpack"])])
        else:
            res.append({"n": d.int(1, 3), "w": -1, ".": "..."}[kind])
    return res


def shape_for(d, pattern):
    """ A shape near a plain pattern. """
    return gen.near_shape(d, pattern or [], 65, 30)
