""" Generators: from bytes (drawn by Hypothesis) to cases of plain JSON data. """
import numpy as np


class D:
    """ Decodes choices from bytes; zeros, the simplest choices, once they run out. """

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def byte(self):
        """ The next byte. """
        if self.pos >= len(self.data):
            return 0
        value = self.data[self.pos]
        self.pos += 1
        return value

    def int(self, low, high):
        """ An integer in [low, high]. """
        span = high - low + 1
        if span <= 1:
            return low
        value = self.byte()
        if span > 64:
            value = value << 8 | self.byte()
        if span > 16384:
            value = value << 16 | self.byte() << 8 | self.byte()
        return low + value % span

    def pick(self, options):
        """ One of the options; the first is the simplest. """
        return options[self.int(0, len(options) - 1)]

    def bool(self, percent=50):
        """ True with the given probability (False is simplest). """
        return self.byte() % 100 >= 100 - percent

    def some(self, func, low, high):
        """ A list of low..high results of ``func``. """
        return [func() for _ in range(self.int(low, high))]

    def shuffle(self, items):
        """ A permutation. """
        items = list(items)
        for i in range(len(items) - 1, 0, -1):
            j = i - self.int(0, i)
            items[i], items[j] = items[j], items[i]
        return items


MAX_RANK = 10
SPECIAL = [0, 1, 2, 5, 7, 10, 64, 255, 1000, 4096]
HUGE = [257, 32768, 65537, 2 ** 24 + 1, 2 ** 31, 2 ** 33 + 1, 2 ** 53]


def small(d):
    """ A size from a tiny alphabet. """
    return d.int(1, 3)


def size(d):
    """ Any size. """
    how = d.int(0, 3)
    if how < 2:
        return d.int(1, 3)
    return d.int(0, 6) if how == 2 else d.pick(HUGE if d.bool(8) else SPECIAL)


def positive(d, sizes=size):
    """ A positive size. """
    return sizes(d) or 1


def plain_pattern(d, max_len=6, sizes=None, wild=True, dots=2):
    """ A pattern of ints, -1 and "..."; no two adjacent ellipses. """
    sizes = sizes or d.pick([small, size])
    kinds = ["n", "n", "n"] + (["w"] if wild else []) + ["."] * dots
    res = []
    for _ in range(d.int(0, max_len)):
        kind = d.pick(kinds)
        if kind == "." and res and res[-1] == "...":
            kind = "n"
        res.append("..." if kind == "." else -1 if kind == "w" else sizes(d))
    return res


def fitting_shape(d, pattern, sizes=small, limit=MAX_RANK):
    """ A shape which fits a plain pattern. """
    pool = [e for e in pattern if isinstance(e, int) and e > 0]
    res = []
    for elem in pattern:
        if elem == "...":
            for _ in range(d.int(0, 3)):
                # Reuse the literals of the pattern, so that cuts are ambiguous.
                res.append(d.pick(pool) if pool and d.bool() else positive(d, sizes))
        elif elem == -1:
            res.append(positive(d, sizes))
        else:
            res.append(elem)
    return res[:limit]


def mutate(d, shape, count=None, limit=MAX_RANK):
    """ A shape with a few sizes changed, dropped, added, swapped or zeroed. """
    res = list(shape)
    for _ in range(d.int(1, 2) if count is None else count):
        op = d.pick(["set", "set", "inc", "drop", "insert", "swap", "zero"]) if res else "insert"
        if op == "insert":
            res.insert(d.int(0, len(res)), size(d))
            continue
        i = d.int(0, len(res) - 1)
        if op == "set":
            res[i] = size(d)
        elif op == "zero":
            res[i] = 0
        elif op == "drop":
            res.pop(i)
        elif op == "swap":
            j = d.int(0, len(res) - 1)
            res[i], res[j] = res[j], res[i]
        else:
            res[i] += 1
    return res[:limit]


def near_shape(d, pattern, fit=40, near=40):
    """ A shape which fits, nearly fits, or has nothing to do with a plain pattern. """
    how = d.int(0, 99)
    if how < fit:
        return fitting_shape(d, pattern)
    if how < fit + near:
        return mutate(d, fitting_shape(d, pattern))
    return d.some(lambda: size(d), 0, 6)


def long_case(d, limit=32):
    """ A long pattern and a shape of high rank. """
    if d.bool(6):
        # Very many ways to cut up the shape, none or few of which match.
        count = d.int(6, 12)
        pattern = [e for _ in range(count) for e in ("...", d.pick([1, 1, 1, -1]))] + ["..."] * d.int(0, 1)
        shape = [1] * d.int(count, limit)
        if d.bool(70):
            i = d.int(0, len(pattern) - 1) if d.bool(30) else len(pattern) - 1
            if pattern[i] != "...":
                pattern[i] = 2
        if d.bool(40):
            shape[d.int(0, len(shape) - 1)] = d.pick([0, 2])
        return {"pat": pattern, "shape": shape}
    sizes = d.pick([small, lambda d: d.int(1, 2)])
    if d.bool(25):
        # A short pattern of which an ellipsis stands for very many sizes.
        pattern = plain_pattern(d, max_len=4, sizes=sizes, dots=2)
        if "..." not in pattern:
            pattern.insert(d.int(0, len(pattern)), "...")
        where = d.pick([i for i, e in enumerate(pattern) if e == "..."])
        run = [d.int(1, 3) for _ in range(d.int(6, limit - 6))]
        shape = fitting_shape(d, pattern[:where], sizes) + run + fitting_shape(d, pattern[where + 1:], sizes)
        return {"pat": pattern, "shape": shape[:limit] if d.bool(60) else mutate(d, shape, 1, limit)}
    low = d.int(8, limit)
    pattern = [e for e in plain_pattern(d, max_len=limit, sizes=sizes, dots=d.int(0, 1)) if e == "..." or d.bool(97)]
    while len(pattern) < low:
        pattern.append(-1 if d.bool(30) else sizes(d))
    pattern = [e for i, e in enumerate(pattern) if not (e == "..." and i and pattern[i - 1] == "...")]
    shape = fitting_shape(d, pattern, sizes, limit)
    how = d.int(0, 3)
    if how == 1:
        shape = mutate(d, shape, 1, limit)
    elif how == 2 and shape:
        # The difference is far from the start.
        i = len(shape) - 1 - d.int(0, min(3, len(shape) - 1))
        shape[i] = shape[i] + 1 if d.bool() else 0
    return {"pat": pattern, "shape": shape}


def pattern_and_shape(d, **kwargs):
    """ {"pat", "shape"}. """
    pattern = plain_pattern(d, **kwargs)
    return {"pat": pattern, "shape": near_shape(d, pattern)}


NAMES = ["X", "Y", "Z"]


def expression(d, names, depth=2, kind="sym", linear=False):
    """ An expression tree over ``names`` with positive integer values for positive integers. """
    name = [kind, d.pick(names)]
    if depth == 0:
        return name
    ops = ["leaf", "leaf", "+n", "*n", "n*", "n+", "+e", "/2"]
    if not linear:
        ops += ["**", "**", "*e", "(+)**"]
    op = d.pick(ops)
    if op == "leaf":
        return name
    num = d.int(1, 4)
    if op in ("+n", "*n"):
        return [op[0], expression(d, names, depth - 1, kind, linear), num]
    if op in ("n+", "n*"):
        return [op[1], num, expression(d, names, depth - 1, kind, linear)]
    if op == "/2":
        return ["/", ["*", 2 * num, name], 2]
    if op == "+e":
        return ["+", name, expression(d, names, depth - 1, kind, linear)]
    if op == "*e":
        return ["*", name, [kind, d.pick(names)]]
    if op == "**":
        return ["**", name, d.int(2, 3)]
    return ["**", ["+", name, [kind, d.pick(names)]], 2]


def rounding(d, names):
    """ An expression which rounds, as the sizes of strided and padded outputs do. """
    name = ["sym", d.pick(names)]
    other = ["sym", d.pick(names)]
    num = d.int(2, 4)
    how = d.pick(["//", "//", "up", "%", "conv", "sum", "left", "max", "min", "max1"])
    if how == "up":
        return ["//", ["+", name, num - 1], num]
    if how == "conv":
        return ["+", ["//", ["-", ["+", name, 2 * d.int(0, 1)], d.int(1, 3)], num], 1]
    if how == "sum":
        return ["//", ["+", name, other], num]
    if how == "left":
        return ["-", name, ["//", name, num]]
    if how in ("max", "min"):
        return [how, name, other]
    if how == "max1":
        return ["max", ["-", name, num], 1]
    return [how, name, num]


def assignment(d, names, low=1, high=7):
    """ Sizes for names. """
    return {n: d.int(low, high) for n in names}


NP_NATIVE = [
    "float64", "bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
    "float16", "float32", "complex64", "complex128",
]
# Other dtypes arrays can have, for "dt:" arguments and for values.
NP_OTHER = [
    ">i2", ">i4", ">i8", ">u4", ">f4", ">f8", ">c8", ">c16", "<U1", "<U5", ">U5", "S1", "S4",
    "O", "<M8[s]", "<M8[D]", "<M8[ns]", ">M8[s]", "<m8[s]", "<m8[ms]", "longdouble", "clongdouble",
    "longlong", "M8", "m8",
]
PY_TYPES = ["float", "int", "bool", "complex", "str", "bytes", "object", "datetime", "timedelta"]


def np_dtype_arg(d):
    """ A dtype argument of Array: "py:...", "np:..." or "dt:...". """
    how = d.int(0, 2)
    if how == 0:
        return "py:" + d.pick(PY_TYPES)
    if how == 1:
        return "np:" + d.pick([t for t in NP_NATIVE if t != "bool"] + ["bool_"])
    return "dt:" + d.pick(NP_NATIVE + NP_OTHER)


def np_dtype(d):
    """ A dtype of an array. """
    return d.pick(NP_NATIVE + NP_OTHER)


# dtypes which are easily confused, for near misses.
NEAR = {
    "int64": ["int32", "uint64", ">i8", "float64", "longlong", "<m8[s]"],
    "int32": ["int64", "uint32", ">i4", "float32"],
    "float64": ["float32", ">f8", "longdouble", "complex128", "int64"],
    "float32": ["float64", ">f4", "float16", "int32"],
    "complex128": ["complex64", "float64", ">c16", "clongdouble"],
    "bool": ["uint8", "int8", "int64"],
}
PY_EXAMPLES = {
    "str": "<U3", "bytes": "S3", "object": "O", "datetime": "<M8[us]", "timedelta": "<m8[us]",
    "int": "int64", "float": "float64", "bool": "bool", "complex": "complex128",
}


def near_dtype(d, arg):
    """ A dtype of an array which is, or is like, the requested one. """
    if arg is None or d.int(0, 3) == 3:
        return np_dtype(d)
    kind, name = arg.split(":", 1)
    exact = PY_EXAMPLES[name] if kind == "py" else {"bool_": "bool"}.get(name, name)
    if not d.bool():
        return exact
    same_kind = [t for t in NP_NATIVE + NP_OTHER if np.dtype(t).kind == np.dtype(exact).kind]
    return d.pick(NEAR.get(exact, []) + same_kind)


def dtype_arg(d, framework):
    """ A dtype argument for a framework. """
    if framework == "np":
        return np_dtype_arg(d)
    from pbt import build

    names, pys = (
        (build.TF_DTYPES, build.TF_PY) if framework == "tf" else (build.TORCH_DTYPES, build.TORCH_PY)
    )
    if d.bool(40):
        return "py:" + d.pick(sorted(pys, reverse=True))
    return "dt:" + d.pick(names)


def value_dtype(d, framework, arg=None):
    """ A dtype of a value, often the one asked for. """
    if framework == "np":
        return near_dtype(d, arg)
    from pbt import build

    names, pys = (
        (build.TF_DTYPES, build.TF_PY) if framework == "tf" else (build.TORCH_DTYPES, build.TORCH_PY)
    )
    if arg is not None and not d.bool(40):
        kind, name = arg.split(":", 1)
        return pys[name] if kind == "py" else name
    return d.pick(names)
