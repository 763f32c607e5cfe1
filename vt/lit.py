"""Terms as Python literals, and back: for specification tables kept in files."""
import ast, re
from .bv import T


def enc(x):
    if isinstance(x, T):
        return ("T", x.w, x.c, [(enc(a), k) for a, k in x.t])
    if isinstance(x, tuple):
        return tuple(enc(y) for y in x)
    return x


def dec(x):
    if isinstance(x, tuple) and x and x[0] == "T" and len(x) == 4 and isinstance(x[3], list):
        return T(x[1], x[2], [(dec(a), k) for a, k in x[3]])
    if isinstance(x, tuple):
        return tuple(dec(y) for y in x)
    return x


def rename(x, f):
    """rename the variables and counters of a term or atom"""
    if isinstance(x, T):
        return T(x.w, x.c, [(rename(a, f), k) for a, k in x.t])
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "v":
            return ("v", f(x[1]), x[2])
        if len(x) == 2 and x[0] == "iv":
            return ("iv", f(x[1]) if isinstance(x[1], str) else x[1])
        return tuple(rename(y, f) for y in x)
    return x
