"""x86_64 backend: every intermediate instruction computes its meaning (see checks/backend.py)."""
from . import backend


def check(cx):
    backend.check_arch(cx, "x86_64")
