""" Helpers for observing calls: outcomes, captured output, forked children. """
import contextlib
import io
import json
import os
import sys
import traceback


@contextlib.contextmanager
def silence():
    """ Send what the code under test prints to nowhere. """
    with open(os.devnull, "w") as null:
        with contextlib.redirect_stdout(null):
            yield


def show(value):
    """ A short text for a value of any kind (numpy cannot print some arrays). """
    try:
        if getattr(value, "ndim", 0) > 6:
            raise OverflowError("takes too long")
        return repr(value)[:200]
    except Exception:  # pylint: disable=broad-except
        return f"<{type(value).__name__}, dtype {getattr(value, 'dtype', None)}, shape {getattr(value, 'shape', None)}>"


class Outcome:
    """ How a call ended. """

    def __init__(self, value=None, exc=None, out=""):
        self.value = value
        self.exc = exc
        self.out = out

    @property
    def ok(self):
        """ Whether it returned. """
        return self.exc is None

    @property
    def kind(self):
        """ "ok" or the name of the exception type. """
        return "ok" if self.exc is None else type(self.exc).__name__

    def __repr__(self):
        if self.exc is None:
            return f"returned {show(self.value)}"
        return f"raised {type(self.exc).__name__}: {str(self.exc)[:200]}"


def call(func, /, *args, **kwargs):
    """ Call, catching exceptions and what is printed. """
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            return Outcome(value=func(*args, **kwargs), out=buf)._done()
        except Exception as exc:  # pylint: disable=broad-except
            return Outcome(exc=exc, out=buf)._done()


def _done(self):
    self.out = self.out.getvalue()
    return self


Outcome._done = _done


def fork(func, *args):
    """
    Run ``func(*args)`` in a forked child and return its JSON-plain result.
    The child's standard output is captured and returned too.
    """
    read, write = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            from pbt.core import CASE_CPU_S, watch

            watch(CASE_CPU_S)
            os.close(read)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    value = func(*args)
                payload = dict(value=value, out=buf.getvalue())
            except BaseException as exc:  # pylint: disable=broad-except
                from pbt.core import from_asta

                payload = dict(
                    error=f"{type(exc).__name__}: {exc}", asta=from_asta(exc),
                    trace="".join(traceback.format_exception(exc))[-2000:],
                    out=buf.getvalue(),
                )
            with os.fdopen(write, "w") as handle:
                json.dump(payload, handle)
            code = 0
        finally:
            os._exit(code)
    os.close(write)
    with os.fdopen(read) as handle:
        text = handle.read()
    os.waitpid(pid, 0)
    return json.loads(text)
