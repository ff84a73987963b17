"""
Ordinary (non-asta) annotations and values, by name, and which are instances of which.

``HINTS[name]`` is (annotation, predicate); a predicate returns True, False or None (no opinion).
``VALUES[name]`` makes a value. Callables are made from their shape: see ``callable_value``.
"""
import abc
import collections
import collections.abc
import contextlib
import datetime
import decimal
import enum
import functools
import io
import numbers
import os
import pathlib
import re
import tempfile
import types
import typing

import numpy as np


class Base:
    """ A user's class. """

    def method(self, one):
        """ One argument when bound. """


class Derived(Base):
    """ A subclass. """


class Deeper(Derived):
    """ A subclass of a subclass. """


class Other:
    """ An unrelated class. """


class Mixed(Other, Base):
    """ Two bases. """


class WithMeta(type):
    """ A metaclass. """


class Color(enum.Enum):
    """ An enumeration. """

    RED = 1
    BLUE = "b"


class Level(enum.IntEnum):
    """ An enumeration of ints. """

    LOW = 1


class MyInt(int):
    """ A subclass of a builtin type. """


class MyFloat(float):
    """ A subclass of a builtin type. """


class MyComplex(complex):
    """ A subclass of a builtin type. """


class MyStr(str):
    """ A subclass of a builtin type. """


class MyDict(dict):
    """ A subclass of a builtin type. """


class MyTuple(tuple):
    """ A subclass of a builtin type. """


class Calling:
    """ Instances can be called with two arguments. """

    def __call__(self, one, two):
        pass


@typing.runtime_checkable
class Closes(typing.Protocol):
    """ A protocol. """

    def close(self):
        """ Anything. """


class Closing:
    """ Has the method of the protocol. """

    def close(self):
        """ Anything. """


@typing.runtime_checkable
class Titled(typing.Protocol):
    """ A protocol with an attribute. """

    title: str


class Book:
    """ Instances have the attribute of the protocol, the class has not. """

    def __init__(self):
        self.title = "asta"


class Chapter:
    """ The class has it. """

    title = "one"


class Shape(abc.ABC):
    """ An abstract class. """


class Square:
    """ Counts as a subclass. """


Shape.register(Square)


class Even(type):
    """ Its classes decide what their instances are. """

    def __instancecheck__(cls, inst):
        return isinstance(inst, int) and inst % 2 == 0


class EvenNumber(metaclass=Even):
    """ Even numbers. """


T = typing.TypeVar("T")


@typing.runtime_checkable
class Holds(typing.Protocol[T]):
    """ A generic protocol. """

    def held(self) -> T:
        """ Anything. """


class Holder:
    """ Has the method. """

    def held(self):
        """ Anything. """


class Box(typing.Generic[T]):
    """ A generic class. """


class Unprintable:
    """ Its text is none of asta's business: it has none. """

    def __repr__(self):
        import sys

        if (os.sep + "asta" + os.sep) in sys._getframe(1).f_code.co_filename:
            raise ValueError("no text")
        return "Unprintable()"


def instance(*classes, never=()):
    """ A predicate. """
    return lambda v: isinstance(v, classes)


def exactly(*options):
    """ The predicate of a Literal; no opinion on values equal to but of another type than an option. """

    def predicate(value):
        if isinstance(value, np.ndarray):
            return False
        if any(type(value) is type(o) and value == o for o in options):
            return True
        return None if any(value == o for o in options) else False

    return predicate


def subclass(*classes):
    """ The predicate of a Type. """
    return lambda v: isinstance(v, type) and issubclass(v, classes)


def bytes_like(value):
    """ bytearray counts as bytes for some purposes; no opinion. """
    return None if isinstance(value, bytearray) else isinstance(value, bytes)


def shallow(*classes):
    """ Containers whose elements are not looked at: no opinion on the inside. """
    return lambda v: None if isinstance(v, classes) else False


HINTS = {
    "int": (int, instance(int)),
    "str": (str, instance(str)),
    "float": (float, instance(float)),
    "bool": (bool, instance(bool)),
    "complex": (complex, instance(complex)),
    "bytes": (bytes, bytes_like),
    "bytearray": (bytearray, instance(bytearray)),
    "object": (object, instance(object)),
    "Any": (typing.Any, lambda v: True),
    "None": (None, lambda v: v is None),
    "list": (list, instance(list)),
    "dict": (dict, instance(dict)),
    "set": (set, instance(set)),
    "range": (range, instance(range)),
    "slice": (slice, instance(slice)),
    "date": (datetime.date, instance(datetime.date)),
    "Decimal": (decimal.Decimal, instance(decimal.Decimal)),
    "MyInt": (MyInt, instance(MyInt)),
    "MyFloat": (MyFloat, instance(MyFloat)),
    "MyStr": (MyStr, instance(MyStr)),
    "Base": (Base, instance(Base)),
    "Derived": (Derived, instance(Derived)),
    "Other": (Other, instance(Other)),
    "Calling": (Calling, instance(Calling)),
    "Color": (Color, instance(Color)),
    "Exception": (Exception, instance(Exception)),
    "Closes": (Closes, lambda v: hasattr(type(v), "close")),
    "Box": (Box, instance(Box)),
    "Box[int]": (Box[int], instance(Box)),
    "ndarray": (np.ndarray, instance(np.ndarray)),
    "generic": (np.generic, instance(np.generic)),
    "type": (type, instance(type)),
    "Type": (typing.Type, instance(type)),
    "Type[Base]": (typing.Type[Base], subclass(Base)),
    "type[Derived]": (type[Derived], subclass(Derived)),
    "Type[int]": (typing.Type[int], subclass(int)),
    "Type[Any]": (typing.Type[typing.Any], instance(type)),
    "Type[Union]": (typing.Type[typing.Union[Derived, Other]], subclass(Derived, Other)),
    "Type[abc.Container]": (typing.Type[collections.abc.Container], subclass(collections.abc.Container)),
    "type[Number]": (type[numbers.Number], subclass(numbers.Number)),
    "type[Exception]": (type[Exception], subclass(Exception)),
    "Literal[1]": (typing.Literal[1], exactly(1)),
    "Literal['a','b']": (typing.Literal["a", "b"], exactly("a", "b")),
    "Literal[b'a', None]": (typing.Literal[b"a", None], exactly(b"a", None)),
    "Literal[RED]": (typing.Literal[Color.RED], exactly(Color.RED)),
    "Literal[True]": (typing.Literal[True], exactly(True)),
    "Literal['a', 3]": (typing.Literal["a", 3], exactly("a", 3)),
    "IO": (typing.IO, instance(io.IOBase)),
    "IO[str]": (typing.IO[str], lambda v: None if isinstance(v, io.IOBase) else False),
    "TextIO": (typing.TextIO, instance(io.TextIOBase)),
    "BinaryIO": (typing.BinaryIO, instance(io.RawIOBase, io.BufferedIOBase)),
    "Callable": (typing.Callable, callable),
    "abc.Callable": (collections.abc.Callable, callable),
    "Callable[..., int]": (typing.Callable[..., int], callable),
    "Mapping": (typing.Mapping[str, int], shallow(collections.abc.Mapping)),
    "Iterable": (typing.Iterable[int], shallow(collections.abc.Iterable)),
    "FrozenSet": (typing.FrozenSet[int], shallow(frozenset)),
    "Deque": (typing.Deque[int], shallow(collections.deque)),
    "Titled": (Titled, lambda v: None if isinstance(v, type) else hasattr(v, "title")),
    "Holds": (Holds, lambda v: None if isinstance(v, type) else hasattr(v, "held")),
    "Holds[int]": (Holds[int], lambda v: None if isinstance(v, type) else hasattr(v, "held")),
    "Shape": (Shape, instance(Shape)),
    "EvenNumber": (EvenNumber, lambda v: isinstance(v, int) and v % 2 == 0),
    "SupportsInt": (typing.SupportsInt, lambda v: None if isinstance(v, type) else hasattr(v, "__int__")),
    "SupportsAbs": (typing.SupportsAbs[int], lambda v: None if isinstance(v, type) else hasattr(v, "__abs__")),
    "Number": (numbers.Number, instance(numbers.Number)),
    "Integral": (numbers.Integral, instance(numbers.Integral)),
    "Counter": (typing.Counter[str], shallow(collections.Counter)),
    "OrderedDict": (typing.OrderedDict[str, int], shallow(collections.OrderedDict)),
    "Pattern": (re.Pattern, instance(re.Pattern)),
    "Pattern[str]": (typing.Pattern[str], shallow(re.Pattern)),
    "ContextManager": (typing.ContextManager[int], shallow(contextlib.AbstractContextManager)),
    "Iterator": (typing.Iterator[int], shallow(collections.abc.Iterator)),
    "Generator": (typing.Generator[int, None, None], shallow(collections.abc.Generator)),
    "FunctionType": (types.FunctionType, instance(types.FunctionType)),
    "ModuleType": (types.ModuleType, instance(types.ModuleType)),
    "Path": (pathlib.PurePath, instance(pathlib.PurePath)),
    "Sized": (collections.abc.Sized, instance(collections.abc.Sized)),
    "Hashable": (collections.abc.Hashable, instance(collections.abc.Hashable)),
}


def a_function(one):
    """ One parameter. """


def a_generator():
    """ A generator function. """
    yield 1


FILES = {}


def file(mode):
    """ An open file. """
    if mode not in FILES:
        FILES[mode] = open(os.devnull, mode)  # pylint: disable=consider-using-with
    return FILES[mode]


VALUES = {
    "int": 3, "zero": 0, "one": 1, "big": 10 ** 30, "str": "abc", "a": "a", "empty str": "", "float": 2.5,
    "whole float": 3.0, "nan": float("nan"), "True": True, "False": False, "complex": 2j, "bytes": b"a",
    "bytearray": bytearray(b"a"), "memoryview": memoryview(b"a"), "None": None, "ellipsis": ...,
    "NotImplemented": NotImplemented, "list": [1, "x"], "empty list": [], "dict": {"k": 1}, "empty dict": {},
    "set": {1}, "frozenset": frozenset([1]), "tuple": (1, 2), "empty tuple": (), "range": range(2),
    "slice": slice(1), "deque": collections.deque([1]), "OrderedDict": collections.OrderedDict(k=1),
    "MyDict": MyDict(k=1), "MyTuple": MyTuple((1,)), "date": datetime.date(2020, 1, 1),
    "datetime": datetime.datetime(2020, 1, 1), "Decimal": decimal.Decimal(12), "MyInt": MyInt(1),
    "MyFloat": MyFloat(1.5), "MyComplex": MyComplex(1), "MyStr": MyStr("a"), "Base": Base(),
    "Derived": Derived(), "Deeper": Deeper(), "Other": Other(), "Mixed": Mixed(), "Calling": Calling(),
    "RED": Color.RED, "BLUE": Color.BLUE, "LOW": Level.LOW, "Exception": ValueError("x"), "Closing": Closing(),
    "Box": Box(), "Box[int]": Box[int](), "npfloat": np.float64(1.5), "npfloat32": np.float32(1.5),
    "npint": np.int64(1), "npbool": np.bool_(True), "npstr": np.str_("a"), "nparray": np.array([1, 2]),
    "np0d": np.array(1), "np one": np.array([1]), "np str": np.array(["a"]), "np empty": np.zeros(0),
    "int class": int, "bool class": bool, "str class": str, "Base class": Base, "Derived class": Derived,
    "Deeper class": Deeper, "Other class": Other, "Mixed class": Mixed, "type": type, "ValueError": ValueError,
    "BaseException": BaseException, "metaclass": WithMeta, "list[int]": list[int], "List[int]": typing.List[int],
    "StringIO": io.StringIO(), "BytesIO": io.BytesIO(), "module": io, "property": property(lambda s: 1),
    "Unprintable": Unprintable(), "generator": (x for x in ()), "iterator": iter([]), "Book": Book(), "Chapter": Chapter(),
    "Square": Square(), "Holder": Holder(), "Counter": collections.Counter("ab"), "pattern": re.compile("a"),
    "nullcontext": contextlib.nullcontext(), "function": a_function, "path": pathlib.PurePath("a"),
    "two": 2, "len": len, "print": print,
}
LAZY = {"text file": "r", "binary file": "rb", "written file": "wb", "updated file": "r+b"}
VALUE_NAMES = sorted(VALUES) + sorted(LAZY) + ["raw file"]


def value(name):
    """ A value by name. """
    if name in LAZY:
        return file(LAZY[name])
    if name == "raw file":
        if "raw" not in FILES:
            FILES["raw"] = open(os.devnull, "rb", buffering=0)
        return FILES["raw"]
    return VALUES[name]


# ----------------------------------------------------------------- callables


def callable_value(shape):
    """
    A callable: {"mandatory", "optional", "varargs", "keywords" (kw-only with defaults), "varkw",
    "form"}, counting the parameters a caller sees.
    """
    names = [f"a{i}" for i in range(shape["mandatory"])]
    parts = list(names) + [f"b{i}=0" for i in range(shape["optional"])]
    if shape.get("slash") and parts:
        parts.append("/")
    if shape["varargs"]:
        parts.append("*args")
    elif shape["keywords"]:
        parts.append("*")
    parts += [f"k{i}=0" for i in range(shape["keywords"])]
    if shape["varkw"]:
        parts.append("**kw")
    form = shape["form"]
    space = {}
    if form == "lambda":
        return eval("lambda " + ", ".join(parts) + ": None", space)
    if form in ("function", "wrapped", "partial"):
        if form == "partial":
            parts = ["fixed"] + parts
        exec(f"def func({', '.join(parts)}):\n    pass\n", space)
        if form == "partial":
            return functools.partial(space["func"], 1)
        if form == "wrapped":

            @functools.wraps(space["func"])
            def wrapper(*args, **kwargs):
                pass

            return wrapper
        return space["func"]
    name = {"class": "__init__", "instance": "__call__"}.get(form, "meth")
    first = "cls" if form == "classmethod" else "self"
    deco = {"classmethod": "    @classmethod\n", "staticmethod": "    @staticmethod\n"}.get(form, "")
    if form != "staticmethod":
        parts = [first] + parts
    exec(f"class C:\n{deco}    def {name}({', '.join(parts)}):\n        pass\n", space)
    cls = space["C"]
    if form == "class":
        return cls
    if form == "instance":
        return cls()
    if form in ("classmethod", "staticmethod"):
        return cls.meth
    return object.__new__(cls).meth


CALLABLE_FORMS = [
    "function", "lambda", "method", "classmethod", "staticmethod", "instance", "class", "partial", "wrapped",
]


def takes(shape, count):
    """ Whether a callable can be called with ``count`` positional arguments. """
    return shape["mandatory"] <= count and (
        shape["varargs"] or count <= shape["mandatory"] + shape["optional"]
    )
