"""i386 backend: every intermediate instruction computes its meaning (see checks/backend.py)."""
from . import backend


def check(cx):
    backend.check_arch(cx, "i386")
