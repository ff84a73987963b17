""" From plain JSON data to annotations and values. """
import datetime

import numpy as np
import sympy

from pbt import api


def expr(tree, rename=None):
    """ Build an expression from a tree, as a user would write it. """
    if isinstance(tree, (int, float)):
        return tree
    if tree[0] in ("sym", "dim"):
        name = rename(tree[1]) if rename else tree[1]
        return getattr(api.symbols if tree[0] == "sym" else api.dims, name)
    left, right = expr(tree[1], rename), expr(tree[2], rename)
    if tree[0] == "+":
        return left + right
    if tree[0] == "-":
        return left - right
    if tree[0] == "*":
        return left * right
    if tree[0] == "/":
        return left / right
    if tree[0] == "//":
        return left // right
    if tree[0] == "%":
        return left % right
    if tree[0] in ("max", "min"):
        return (sympy.Max if tree[0] == "max" else sympy.Min)(left, right)
    return left ** right


def elem(item, rename=None):
    """ A pattern element. """
    if item == "...":
        return ...
    if isinstance(item, list):
        return expr(item, rename)
    return item


def pattern(items, rename=None):
    """ A pattern as a tuple of dimensions. """
    return tuple(elem(i, rename) for i in items)


PYTYPES = {
    "int": int, "float": float, "bool": bool, "complex": complex, "str": str, "bytes": bytes,
    "object": object, "datetime": datetime.datetime, "timedelta": datetime.timedelta,
}


def np_dtype_arg(spec):
    """ dtype argument of Array: "py:int", "np:int64" (scalar type) or "dt:<f4" (np.dtype). """
    kind, name = spec.split(":", 1)
    if kind == "py":
        return PYTYPES[name]
    if kind == "np":
        return getattr(np, name)
    return np.dtype(name)


# What the Python types mean: a dtype, or a kind of dtypes of any length/unit.
PY_EXACT = {"int": "int64", "float": "float64", "bool": "bool", "complex": "complex128"}
PY_KINDS = {"str": "U", "bytes": "S", "object": "O", "datetime": "M", "timedelta": "m"}


def np_dtype_matches(spec, dtype):
    """ Whether an array dtype (np.dtype) is what the argument asks for. """
    if spec is None:
        return True
    kind, name = spec.split(":", 1)
    if kind == "py" and name in PY_KINDS:
        return dtype.kind == PY_KINDS[name]
    want = np.dtype(PY_EXACT[name]) if kind == "py" else np.dtype(name)
    return same_dtype(want, dtype)


def same_dtype(a, b):
    """ Same kind, width, byte order and unit. """
    return a.newbyteorder("=").str == b.newbyteorder("=").str and a.isnative == b.isnative


class TooBig(Exception):
    """ numpy has no arrays of this size. """


def array(shape, dtype="float64"):
    """ A cheap array of any shape (strided, no memory for the elements). """
    size = 1
    for dim in shape:
        size *= dim or 1
    if size > 2 ** 58 or len(shape) > 32:
        raise TooBig
    return np.broadcast_to(np.zeros((), np.dtype(dtype)), tuple(shape))


def real_array(shape, dtype="float64"):
    """ An ordinary array. """
    return np.zeros(tuple(shape), np.dtype(dtype))


def annotate(cls, *items):
    """ ``cls[items]`` the way a subscript is written. """
    if len(items) == 1:
        return cls[items[0]]
    return cls[tuple(items)]


def array_annotation(dtype, pat, attrs=None, rename=None, cls=None):
    """ Array[dtype, *pattern, attrs]; pat None for no shape, [] for 0-d. """
    cls = cls or api.Array
    items = []
    if dtype is not None:
        items.append(np_dtype_arg(dtype))
    if pat is not None:
        items.extend([()] if not pat else list(pattern(pat, rename)))
    if attrs is not None:
        items.append(attrs)
    if not items:
        return cls
    return annotate(cls, *items)


# ----------------------------------------------------------------- frameworks

TF_DTYPES = [
    "float32", "float64", "float16", "bfloat16", "int8", "int16", "int32", "int64", "uint8",
    "uint16", "uint32", "uint64", "bool", "complex64", "complex128", "string",
]
TF_PY = {
    "int": "int32", "float": "float32", "complex": "complex128", "bool": "bool",
    "bytes": "string", "str": "string",
}
TORCH_DTYPES = [
    "float32", "float64", "float16", "bfloat16", "int8", "int16", "int32", "int64", "uint8",
    "bool", "complex64", "complex128",
]
TORCH_PY = {"int": "int32", "float": "float32", "bool": "bool", "bytes": "uint8"}

_TF_CACHE = {}


def dtype_arg(framework, spec):
    """ The dtype argument of a subscript. """
    if framework == "np":
        return np_dtype_arg(spec)
    kind, name = spec.split(":", 1)
    if kind == "py":
        return PYTYPES[name]
    return getattr(api.tf if framework == "tf" else api.torch, name)


def dtype_matches(framework, spec, dtype):
    """ Whether a value with the named dtype has the dtype the argument asks for. """
    if spec is None:
        return True
    if framework == "np":
        return np_dtype_matches(spec, np.dtype(dtype))
    kind, name = spec.split(":", 1)
    if kind == "py":
        name = (TF_PY if framework == "tf" else TORCH_PY)[name]
    return name == dtype


def value(framework, dtype, shape):
    """ An array or tensor. """
    if framework == "np":
        return array(shape, dtype)
    if framework == "torch":
        return api.torch.Tensor(shape, getattr(api.torch, dtype))
    size = 1
    for dim in shape:
        size *= dim or 1
    if size > 100000:
        raise TooBig
    key = (dtype, tuple(shape))
    if key not in _TF_CACHE:
        if len(_TF_CACHE) > 5000:
            _TF_CACHE.clear()
        _TF_CACHE[key] = api.tf.zeros(tuple(shape), getattr(api.tf, dtype))
    return _TF_CACHE[key]


def symbolic(dtype, known):
    """ A TensorFlow tensor without a value; sizes may be unknown (None), or the whole shape. """
    size = 1
    for dim in known or []:
        size *= dim or 1
    if size > 2 ** 50:
        raise TooBig
    key = ("graph", dtype, None if known is None else tuple(known))
    if key not in _TF_CACHE:
        if len(_TF_CACHE) > 5000:
            _TF_CACHE.clear()
        with api.tf.Graph().as_default():
            _TF_CACHE[key] = api.tf.compat.v1.placeholder(getattr(api.tf, dtype), known)
    return _TF_CACHE[key]


def annotation_class(framework):
    """ Array, TFTensor or Tensor. """
    return {"np": "Array", "tf": "TFTensor", "torch": "Tensor"}[framework]


def annotation(framework, dtype=None, pat=None, attrs=None, rename=None, cls=None):
    """ The annotation, written with the items listed: Array[dtype, 1, 2, {...}]. """
    cls = cls or getattr(api, annotation_class(framework))
    items = []
    if dtype is not None:
        items.append(dtype_arg(framework, dtype))
    if pat is not None:
        items.extend([()] if not pat else list(pattern(pat, rename)))
    if attrs is not None:
        items.append(attrs)
    return annotate(cls, *items) if items else cls
