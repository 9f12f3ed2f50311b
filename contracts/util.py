"""Views and ghost helpers shared by the contracts (executed by the verifier and natively)."""
from expression import Error, Nothing, Ok, Some


def vo(o):
    """mathematical view of an option"""
    if o.tag == "some":
        return ("some", o.some)
    if o.tag == "none":
        return ("none",)
    return ("broken", o.tag)


def vr(r):
    """mathematical view of a result"""
    if r.tag == "ok":
        return ("ok", r.ok)
    if r.tag == "error":
        return ("error", r.error)
    return ("broken", r.tag)


def outcome(f, *a):
    """result of f, or the class of the exception it raised (of the documented kinds)"""
    try:
        return ("ret", f(*a))
    except (KeyError, ValueError, IndexError, TypeError) as e:
        return ("exc", type(e).__name__)


# ---------------------------------------------------------------- a minimal event loop
from pv.lang import Any, emit, fresh  # noqa: E402


class Suspend:
    """an awaitable of the environment: suspends once with a value, resumes with whatever the loop sends"""

    def __init__(self, v):
        self.v = v

    def __await__(self):
        return (yield self.v)


def drive(coro):
    """resumes the coroutine with arbitrary values until it finishes"""
    v = None
    while True:
        try:
            x = coro.send(v)
        except StopIteration as e:
            return e.value
        emit("suspended", x)
        v = fresh(Any)
