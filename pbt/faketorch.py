"""
A stand-in for the parts of torch which asta uses: ``Tensor`` (with ``shape``,
``dtype`` and a few attributes), ``Size`` (a tuple subclass) and dtype objects.
torch itself is not installed here.
"""
import sys
import types

DTYPES = [
    "float16", "float32", "float64", "bfloat16", "uint8", "int8", "int16", "int32", "int64",
    "bool", "complex64", "complex128",
]


class Size(tuple):
    """ As torch.Size. """

    def __repr__(self):
        return f"torch.Size({list(self)})"

    def __add__(self, other):
        return Size(tuple(self) + tuple(other))

    def __getitem__(self, item):
        res = tuple.__getitem__(self, item)
        return Size(res) if isinstance(item, slice) else res

    def numel(self):
        """ Number of elements. """
        res = 1
        for size in self:
            res *= size
        return res


class dtype:  # pylint: disable=invalid-name
    """ As torch.dtype: one object per type. """

    def __init__(self, name):
        self._name = name

    def __repr__(self):
        return f"torch.{self._name}"


class device:  # pylint: disable=invalid-name
    """ As torch.device. """

    def __init__(self, type_):
        self.type = type_

    def __eq__(self, other):
        return isinstance(other, device) and self.type == other.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return f"device(type='{self.type}')"


class Tensor:
    """ A tensor without contents. """

    def __init__(self, shape, dtype_, requires_grad=False, device_="cpu"):
        self.shape = Size(shape)
        self.dtype = dtype_
        self.requires_grad = requires_grad
        self.device = device(device_)
        self.ndim = len(self.shape)

    def size(self, dim=None):
        """ As torch. """
        return self.shape if dim is None else self.shape[dim]

    def dim(self):
        """ As torch. """
        return len(self.shape)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of a 0-d tensor")
        return self.shape[0]

    def __repr__(self):
        return f"tensor(shape={tuple(self.shape)}, dtype={self.dtype})"


def install():
    """ Put the stand-in in place of torch. """
    module = types.ModuleType("torch")
    module.Size = Size
    module.dtype = dtype
    module.device = device
    module.Tensor = Tensor
    for name in DTYPES:
        setattr(module, name, dtype(name))
    module.double = module.float64
    module.half = module.float16
    module.long = module.int64
    module.int = module.int32
    module.float = module.float32
    module.zeros = lambda *shape, dtype=module.float32: Tensor(
        shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape, dtype
    )
    module.ones = module.zeros
    sys.modules["torch"] = module
