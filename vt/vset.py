"""Which values of a few unknowns satisfy the facts of a path: value-set evaluation of vt.bv terms."""
from . import bv


class Unknown(Exception):
    pass


def mask(x, w):
    return x & ((1 << w) - 1)


def sgn(x, w):
    x = mask(x, w)
    return x - (1 << w) if x >> (w - 1) else x


memo = None          # values of the terms met under one assignment (by identity), where a caller sets it


def term(t, env):
    """value of t (unsigned, modulo 2^w) under env: atom name -> integer"""
    if memo is not None:
        e = memo.get(id(t))
        if e is None:
            e = memo[id(t)] = (term1(t, env), t)
        return e[0]
    return term1(t, env)


def term1(t, env):
    r = t.c
    for a, k in t.t:
        r += k * atom(a, env, t.w)
    return mask(r, t.w)


def atom(a, env, w):
    k = a[0]
    if k == "v":
        if a[1] in env:
            return env[a[1]]
        raise Unknown(a[1])
    if k == "ex":
        x = term(a[2], env)
        return sgn(x, a[2].w) if a[1] else x
    if k == "tr":
        return atom(a[2], env, w)
    if k == "iv":
        if a[1] in env:
            return env[a[1]]
        raise Unknown(repr(a[1]))
    if k == "b":
        if a[1] == "zero":
            return int(term(a[2], env) == 0)
        x, y = term(a[2], env), term(a[3], env)
        if a[1] == "slt":
            return int(sgn(x, a[2].w) < sgn(y, a[3].w))
        if a[1] == "ult":
            return int(x < y)
        raise Unknown(a[1])
    if k == "op":
        n, W = a[1], a[2]
        xs = [term(x, env) for x in a[3:]]
        ws = [x.w for x in a[3:]]
        if n in ("and", "or", "xor"):
            r = xs[0]
            for x in xs[1:]:
                r = r & x if n == "and" else r | x if n == "or" else r ^ x
            return r
        if n == "mul":
            return mask(xs[0] * xs[1], W)
        if n == "shl":
            return mask(xs[0] << xs[1], W) if xs[1] < W else 0
        if n == "shr":
            return xs[0] >> xs[1] if xs[1] < W else 0
        if n == "sar":
            return mask(sgn(xs[0], ws[0]) >> min(xs[1], W - 1), W)
        if n in ("udiv", "urem") and xs[1]:
            return xs[0] // xs[1] if n == "udiv" else xs[0] % xs[1]
        if n in ("sdiv", "srem") and xs[1]:
            p, q = sgn(xs[0], W), sgn(xs[1], W)
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return mask(d if n == "sdiv" else p - q * d, W)
    raise Unknown(bv.rep(a) if hasattr(bv, "rep") else repr(a))


def holds(st, env):
    """False if the facts of the path exclude the assignment; facts about other unknowns are passed over"""
    for a, v in st.facts.items():
        try:
            if a[0] == "t":
                x = term(a[1], env)
            elif a[0] in ("b", "op"):
                x = mask(atom(a, env, 1), 1)
            else:
                continue
        except Unknown:
            continue
        if bool(x) != bool(v):
            return False
    return True


def opaque(st, names):
    """does a fact of the path involve other unknowns than names?"""
    env = {n: 1 for n in names}
    for a, v in st.facts.items():
        try:
            if a[0] == "t":
                term(a[1], env)
            elif a[0] in ("b", "op"):
                atom(a, env, 1)
            else:
                return True
        except Unknown:
            return True
    return False
