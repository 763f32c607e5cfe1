"""Bit-vector terms in linear normal form.

A term of width w is  const + sum(coef * atom)  modulo 2^w.  Atoms:
  ('v', name, w)        unknown w-bit value (appears at width w only)
  ('tr', w, atom)       the low w bits of a wider atom
  ('iv', x)             ideal integer x (Lin atom of vt.absint): any width
  ('ex', signed, T)     ideal integer: zero/sign extended value of T
  ('b', name, args...)  ideal integer 0/1: a truth value (eq, ult, slt, ...)
  ('op', name, w, args) operation without linear form
  ('ld', nbytes, addr, writes)  memory load
Two terms with the same normal form are equal for every value of their atoms."""
from .absint import Lin, NEG, POS


class Ctx:
    """interval facts about the ideal integers (from a vt.absint.Path)"""
    def __init__(self, path=None, ranges=None):
        self.path = path
        self.ranges = ranges or {}

    def iv(self, x):
        if x in self.ranges:
            return self.ranges[x]
        if self.path is not None:
            return self.path.range(Lin(((x, 1),), 0))
        return (NEG, POS)

    def lin(self, e):
        if self.path is not None:
            return self.path.range(e)
        return None


class T:
    __slots__ = ("w", "c", "t", "h", "r")

    def __init__(self, w, c, t=()):
        self.w = w
        m = (1 << w) - 1
        h = 1 << (w - 1)
        c &= m
        if c & h:
            c -= 1 << w
        self.c = c
        d = []
        for a, k in t:
            k &= m
            if k & h:
                k -= 1 << w
            if k:
                d.append((a, k))
        if len(d) > 1:
            d.sort(key=lambda x: repr(x[0]))
        self.t = tuple(d)
        self.r = None
        self.h = hash((w, self.c, self.t))

    def __eq__(self, o):
        return isinstance(o, T) and self.h == o.h and self.w == o.w and self.c == o.c and self.t == o.t

    def __hash__(self):
        return self.h

    def __repr__(self):
        if self.r is not None:
            return self.r
        if not self.t:
            return "%d:%d" % (self.c, self.w)
        s = "+".join(("%s" if k == 1 else "%d*%%s" % k) % rep(a) for a, k in self.t)
        if self.c:
            s += "%+d" % self.c
        self.r = "(%s):%d" % (s, self.w)
        return self.r

    def isconst(self):
        return not self.t


def rep(a):
    if a[0] == "v":
        return a[1]
    if a[0] == "tr":
        return "%s[%d]" % (rep(a[2]), a[1])
    if a[0] == "iv":
        return "{%s}" % (a[1],)
    if a[0] == "ex":
        return "%s%s" % ("S" if a[1] else "U", a[2])
    if a[0] == "ld":
        return "M%d[%r%s]" % (a[1], a[2], "" if not a[3] else " after %d writes" % len(a[3]))
    return "%s(%s)" % (a[1], ", ".join(repr(x) for x in a[2:]))


def const(w, c):
    return T(w, c)


def var(name, w):
    return T(w, 0, ((("v", name, w), 1),))


def ideal(x, w):
    return T(w, 0, ((("iv", x), 1),))


def boolean(w, name, *args):
    return T(w, 0, ((("b", name) + args, 1),))


def modnorm(a):
    """mod(x,m): inner mod(y,m') with m | m' may be replaced by y"""
    from .absint import add as ladd, mul as lmul
    x, m = a[1], a[2]
    while isinstance(x, Lin):
        for b, k in x.t:
            if isinstance(b, tuple) and b[0] == "mod" and b[2] % m == 0:
                x = ladd(ladd(x, Lin(((b, -k),), 0)), lmul(b[1], k))
                break
        else:
            break
    return x % m if isinstance(x, int) else ("mod", x, m)


def from_int(e, w, cx=None):
    """int | Lin -> T"""
    if isinstance(e, int):
        return T(w, e)
    d = {}
    c = e.c
    work = list(e.t)
    while work:
        a, k = work.pop()
        if isinstance(a, tuple) and a[0] == "fdiv" and k % a[2] == 0:
            q = k // a[2]
            x = a[1]
            if isinstance(x, int):
                c += k * (x // a[2])
                continue
            c += q * x.c
            work += [(b, q * j) for b, j in x.t]
            work.append((("mod", x, a[2]), -q))
            continue
        if isinstance(a, tuple) and a[0] == "mod":
            a = modnorm(a)
            if isinstance(a, int):
                c += k * a
                continue
        if isinstance(a, tuple) and a[0] == "mod" and a[2] % (1 << w) == 0 and not isinstance(a[1], int):
            # congruent modulo 2^w
            c += k * a[1].c
            work += [(b, k * j) for b, j in a[1].t]
            continue
        if isinstance(a, tuple) and a[0] == "mod" and (1 << w) % a[2] == 0 and a[2] & (a[2] - 1) == 0 and not isinstance(a[1], int):
            n = a[2].bit_length() - 1
            inner = from_int(a[1], n, cx)
            at = ("ex", False, inner)
            d[at] = d.get(at, 0) + k
            continue
        at = ("iv", a)
        d[at] = d.get(at, 0) + k
    return T(w, c, d.items())


def add(a, b):
    assert a.w == b.w, (a, b)
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return T(a.w, a.c + b.c, d.items())


def mulc(a, k):
    return T(a.w, a.c * k, [(x, j * k) for x, j in a.t])


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, neg(b))


def bnot(a):
    return T(a.w, -a.c - 1, [(x, -k) for x, k in a.t])


def atom_range(a, cx):
    k = a[0]
    if k == "b":
        return (0, 1)
    if k == "ex":
        n = a[2].w
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if a[1] else (0, (1 << n) - 1)
        return lo, hi
    if k == "iv":
        return cx.iv(a[1]) if cx else (NEG, POS)
    return None


def irange(t, cx):
    """interval of t's polynomial over the ideal integers, None if some atom is not ideal"""
    if t.t and all(a[0] == "iv" for a, _ in t.t) and cx is not None and cx.path is not None and \
            not any(a[1] in cx.ranges for a, _ in t.t):
        return cx.path.range(Lin(tuple(sorted(((a[1], k) for a, k in t.t), key=lambda x: repr(x[0]))), t.c))
    lo = hi = t.c
    for a, k in t.t:
        r = atom_range(a, cx)
        if r is None:
            return None
        l, h = r
        if k > 0:
            lo += k * l
            hi += k * h
        else:
            lo += k * h
            hi += k * l
    return lo, hi


def ext(t, W, signed, cx):
    if W == t.w:
        return t
    if not t.t:
        c = t.c if signed else t.c & ((1 << t.w) - 1)
        return T(W, c)
    r = irange(t, cx)
    if r is not None:
        lo, hi = r
        base = -(1 << (t.w - 1)) if signed else 0
        m = 1 << t.w
        k = (lo - base) // m
        if (hi - base) // m == k:
            return T(W, t.c - k * m, t.t)
    if len(t.t) == 1 and not t.c and t.t[0][1] == 1 and t.t[0][0][0] == "tr" and cx is not None:
        a = t.t[0][0][2]
        r = getattr(cx, "ranges", {}).get(a)
        if r is not None and a[0] == "v" and a[2:] == (W,):          # a number known to fit the narrow type
            h = 1 << (t.w - 1)
            if (-h <= r[0] and r[1] < h) if signed else (0 <= r[0] and r[1] < 2 * h):
                return T(W, 0, ((a, 1),))
    return T(W, 0, ((("ex", signed, t), 1),))


def trunc(t, w):
    if w == t.w:
        return t
    assert w < t.w
    d = {}
    c = t.c

    def put(a, k):
        d[a] = d.get(a, 0) + k
    for a, k in t.t:
        if a[0] in ("iv", "b"):
            put(a, k)
        elif a[0] == "ex":
            n = a[2].w
            if n < w:
                put(a, k)
            else:
                x = trunc(a[2], w)
                c += k * x.c
                for b, j in x.t:
                    put(b, k * j)
        else:
            x = trunc_atom(a, w, t.w)
            c += k * x.c
            for b, j in x.t:
                put(b, k * j)
    r = T(w, c, d.items())
    # an 'iv' mod/fdiv atom may simplify at the smaller width
    if any(a[0] == "iv" and isinstance(a[1], tuple) for a, _ in r.t):
        e = Lin(tuple((a[1], k) for a, k in r.t if a[0] == "iv"), r.c)
        x = from_int(e, w)
        dd = dict(x.t)
        for a, k in r.t:
            if a[0] != "iv":
                dd[a] = dd.get(a, 0) + k
        r = T(w, x.c, dd.items())
    return r


def trunc_atom(a, w, W):
    if a[0] == "ld" and w % 8 == 0:           # little-endian: the low bytes are at the same address
        return T(w, 0, ((("ld", w // 8) + a[2:], 1),))
    if a[0] == "tr":
        return T(w, 0, ((("tr", w, a[2]), 1),))
    if a[0] == "op" and a[1] in ("and", "or", "xor"):
        return bitop(a[1], [trunc(x, w) for x in a[3:]], w)
    if a[0] == "op" and a[1] == "mul":
        return mul(trunc(a[3], w), trunc(a[4], w))
    if a[0] == "op" and a[1] == "shl":
        pass
    if a[0] == "op" and a[1] == "insh" and w <= 8:
        return trunc(a[3], w)
    if a[0] == "op" and a[1] == "ins":        # low part replaced
        if w <= a[4].w:
            return trunc(a[4], w)
    return T(w, 0, ((("tr", w, a), 1),))


def op(name, w, *args):
    return T(w, 0, ((("op", name, w) + args, 1),))


def bitop(name, args, w, cx=None):
    flat = []
    for a in args:
        if len(a.t) == 1 and a.t[0][1] == 1 and a.c == 0 and a.t[0][0][0] == "op" and a.t[0][0][1] == name:
            flat += list(a.t[0][0][3:])
        else:
            flat.append(a)
    m = (1 << w) - 1
    c = m if name == "and" else 0
    rest = []
    for a in flat:
        if not a.t:
            if name == "and":
                c &= a.c & m
            elif name == "or":
                c |= a.c & m
            else:
                c ^= a.c & m
        elif name == "xor":
            if a in rest:
                rest.remove(a)
            else:
                rest.append(a)
        elif a not in rest:
            rest.append(a)
    if name == "and" and c == 0:
        return T(w, 0)
    if name == "or" and c == m:
        return T(w, m)
    if not rest:
        return T(w, c)
    if name == "xor" and c == m:
        return bnot(bitop(name, rest, w)) if len(rest) > 1 else bnot(rest[0])
    if name == "and" and c != m and (c & (c + 1)) == 0:
        x = rest[0] if len(rest) == 1 else bitop(name, rest, w)
        n = c.bit_length()
        if n in (1, 8, 16, 32):
            return ext(trunc(x, n), w, False, cx)
    rest.sort(key=repr)
    if (name == "and" and c != m) or (name != "and" and c):
        rest.append(T(w, c))
    if len(rest) == 1:
        return rest[0]
    return op(name, w, *rest)


def mul(a, b):
    if not a.t:
        return mulc(b, a.c)
    if not b.t:
        return mulc(a, b.c)
    if repr(b) < repr(a):
        a, b = b, a
    return op("mul", a.w, a, b)


def shift(name, a, cnt, w):
    """cnt: T of some width whose value is the shift amount (already < w or meaningful)"""
    if not cnt.t:
        n = cnt.c
        if n == 0:
            return a
        if name == "shl":
            return mulc(a, 1 << n) if n < w else T(w, 0)
        if n >= w and name == "shr":
            return T(w, 0)
        if not a.t:
            return T(w, ((a.c & ((1 << w) - 1)) >> n) if name == "shr" else a.c >> min(n, w - 1))
    return op(name, w, a, cnt)


def is_zero(a, w=64):
    """0/1 term: a == 0, normalised up to sign"""
    if not a.t:
        return T(w, 1 if a.c == 0 else 0)
    # a boolean atom alone
    n = neg(a)
    if repr(n) < repr(a):
        a = n
    return boolean(w, "zero", a)


def iszero(a, w, cx):
    if not a.t:
        return T(w, 1 if a.c == 0 else 0)
    r = irange(a, cx)
    if r is not None and (r[0] > 0 and r[1] < (1 << a.w) or r[1] < 0 and r[0] > -(1 << a.w)):
        return T(w, 0)
    # single 0/1 atom
    if len(a.t) == 1 and a.c == 0 and a.t[0][0][0] == "b":
        return T(w, 1, ((a.t[0][0], -1),))
    # zero test of an extension is the zero test of the extended value
    if len(a.t) == 1 and a.c == 0 and a.t[0][1] in (1, -1) and a.t[0][0][0] == "ex":
        return iszero(a.t[0][0][2], w, cx)
    return is_zero(a, w)


def less(a, b, signed, w, cx):
    if a == b:
        return T(w, 0)
    if not a.t and not b.t:
        m = (1 << a.w) - 1
        x, y = (a.c, b.c) if signed else (a.c & m, b.c & m)
        return T(w, 1 if x < y else 0)
    if not signed and not b.t and b.c == 0:
        return T(w, 0)
    return boolean(w, "slt" if signed else "ult", a, b)


# ---------------------------------------------------------------- evaluation of terms (witness search)
class Val:
    """a valuation of atoms, used to exhibit a witness that two different normal
    forms denote different values"""
    def __init__(self, seed, cx=None):
        import random
        self.r = random.Random(seed)
        self.seed = seed
        self.env = {}
        self.cx = cx
        self.kind = seed % 4

    def atom(self, key, w):
        if key not in self.env:
            if self.kind == 0:
                x = self.r.getrandbits(w)
            elif self.kind == 1:
                x = self.r.choice([0, 1, -1, 1 << (w - 1), (1 << (w - 1)) - 1, 0x7f, 0x80, 0xff, 0xffff8000])
            else:
                x = self.r.getrandbits(self.r.randint(1, w))
                if self.r.random() < .4:
                    x = -x
            self.env[key] = x & ((1 << w) - 1)
        return self.env[key]

    def iv(self, x):
        key = ("iv", x)
        if key not in self.env:
            if isinstance(x, tuple) and x[0] == "mod":
                v = self.lin(x[1]) % x[2]
            elif isinstance(x, tuple) and x[0] == "fdiv":
                v = self.lin(x[1]) // x[2]
            else:
                lo, hi = self.cx.iv(x) if self.cx else (NEG, POS)
                lo = max(lo, -(1 << 63))
                hi = min(hi, (1 << 63) - 1)
                k = self.r.random()
                if k < .25:
                    v = lo
                elif k < .5:
                    v = hi
                elif k < .75:
                    v = self.r.randint(lo, hi)
                else:
                    v = max(lo, min(hi, self.r.randint(-300, 300)))
            self.env[key] = v
        return self.env[key]

    def lin(self, e):
        if isinstance(e, int):
            return e
        return e.c + sum(k * self.iv(a) for a, k in e.t)

    def ev(self, t):
        v = t.c
        for a, k in t.t:
            v += k * self.at(a)
        return v & ((1 << t.w) - 1)

    def sev(self, t):
        v = self.ev(t)
        return v - (1 << t.w) if v >> (t.w - 1) else v

    def at(self, a):
        k = a[0]
        if k == "v":
            return self.atom(a, a[2])
        if k == "tr":
            return self.at(a[2]) & ((1 << a[1]) - 1)
        if k == "iv":
            return self.iv(a[1])
        if k == "ex":
            return self.sev(a[2]) if a[1] else self.ev(a[2])
        if k == "b":
            n = a[1]
            if n == "zero":
                return int(self.ev(a[2]) == 0)
            if n == "slt":
                return int(self.sev(a[2]) < self.sev(a[3]))
            if n == "ult":
                return int(self.ev(a[2]) < self.ev(a[3]))
            return self.atom(("b", n) + tuple(self.ev(x) if isinstance(x, T) else x for x in a[2:]), 1)
        if k == "op":
            n, w = a[1], a[2]
            m = (1 << w) - 1
            args = a[3:]
            if n in ("and", "or", "xor"):
                r = self.ev(args[0])
                for x in args[1:]:
                    y = self.ev(x)
                    r = r & y if n == "and" else r | y if n == "or" else r ^ y
                return r
            if n == "mul":
                return self.ev(args[0]) * self.ev(args[1]) & m
            if n in ("shl", "shr", "sar"):
                c = self.ev(args[1])
                c = min(c, w + 1)
                if n == "shl":
                    return self.ev(args[0]) << c & m
                if n == "shr":
                    return self.ev(args[0]) >> c
                return self.sev(args[0]) >> c & m
            if n == "ins":
                lo = self.ev(args[1])
                return self.ev(args[0]) & ~((1 << args[1].w) - 1) | lo
            if n == "insh":
                return self.ev(args[0]) & ~0xff00 | self.ev(args[1]) << 8
            key = ("op", n, w) + tuple(self.ev(x) if isinstance(x, T) else repr(x) for x in args)
            return self.atom(key, w)
        if k == "ld":
            addr = self.ev(a[2])
            return self.load(addr, a[1], a[3], a[2].w)
        raise AssertionError(a)

    def load(self, addr, n, writes, w):
        out = []
        m = (1 << w) - 1
        ws = [(self.ev(x), sz, self.ev(v)) for x, sz, v in writes]
        for i in range(n):
            p = (addr + i) & m
            for x, sz, v in reversed(ws):
                o = (p - x) & m
                if o < sz:
                    out.append(v >> (8 * o) & 255)
                    break
            else:
                out.append(self.atom(("byte", p), 8))
        return sum(b << (8 * i) for i, b in enumerate(out))


def differ(pairs, cx, n=400):
    """pairs of terms expected equal.  Returns None if every pair has one normal
    form; else a witness (valuation, index, x, y), or 'unknown' if none is found."""
    bad = [(i, a, b) for i, (a, b) in enumerate(pairs) if a != b]
    if not bad:
        return None
    for s in range(n):
        v = Val(s, cx)
        for i, a, b in bad:
            try:
                x, y = v.ev(a), v.ev(b)
            except RecursionError:
                continue
            if x != y:
                return (v, i, x, y)
    return "unknown"
