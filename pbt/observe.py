""" Ways of asking the code under test for a verdict. """
from pbt import api
from pbt.core import Violation
from pbt.sandbox import call, show


def failed_check(out):
    """ Whether a call ended because a check failed. """
    return isinstance(out.exc, TypeError)


def passes(out, what):
    """ The verdict of a call; anything but success or TypeError is a violation. """
    if out.ok:
        return True
    if isinstance(out.exc, TypeError):
        return False
    raise Violation(f"{what} {out!r}")


def verdict(how, value, ann):
    """ Whether a value passes a check: "isinstance", "argument" or "return". """
    if how == "isinstance":
        return isinstance(value, ann)
    if how == "argument":

        @api.typechecked
        def func(x: ann) -> None:
            return None

        out = call(func, value)
    else:

        @api.typechecked
        def func() -> ann:
            return value

        out = call(func)
    return passes(out, f"checking {show(value)} against {ann!r} ({how})")
