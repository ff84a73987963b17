"""
Lazy access to the code under test, so that property modules can be imported
before the worker has prepared the environment: ``api.Array``, ``api.dims``...
"""
import importlib

_NAMES = ("Array", "Tensor", "TFTensor", "Scalar", "typechecked", "dims", "shapes", "symbols")


def __getattr__(name):
    if name in ("dims", "shapes", "symbols"):
        # As users do: ``from asta import dims``.
        return getattr(__import__("asta", fromlist=[name]), name)
    if name in _NAMES:
        return getattr(importlib.import_module("asta"), name)
    if name == "tf":
        return importlib.import_module("tensorflow")
    if name == "torch":
        return importlib.import_module("torch")
    raise AttributeError(name)
