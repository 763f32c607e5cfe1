"""Symbolic integers with interval facts, symbolic strings, and path enumeration.

These are the abstract values of the Scheme abstract interpreter (vt.scheme): a
symbolic integer stands for every integer of its interval; a comparison that the
interval does not decide splits the analysis into both cases, each with the
refined interval.  No value is ever sampled."""

NEG = -(1 << 200)
POS = 1 << 200


class AnalysisError(Exception):
    """the analysis met a construct it has no abstract semantics for"""


class SchemeError(Exception):
    """(error ...) reached in the analysed program"""

    def __init__(self, args):
        Exception.__init__(self, "scheme error: %s" % (args,))
        self.sargs = args


class Lin:
    """sum(coef*atom)+const over ideal integers; atoms are strings or tuples"""
    __slots__ = ("t", "c")

    def __init__(self, t, c=0):
        self.t = t      # tuple of (atom, coef) sorted
        self.c = c

    @staticmethod
    def var(name):
        return Lin(((name, 1),), 0)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def __repr__(self):
        s = "+".join("%s%s" % ("" if k == 1 else "%d*" % k, a if isinstance(a, str) else repr(a)) for a, k in self.t)
        return s + ("%+d" % self.c if self.c else "")


def mk(d, c):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: repr(x[0])))
    if not t:
        return c
    return Lin(t, c)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        return Lin(b.t, b.c + a)
    if isinstance(b, int):
        return Lin(a.t, a.c + b)
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return mk(d, a.c + b.c)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return mk({x: k * b for x, k in a.t}, a.c * b)
    return Lin(((("mul", a, b), 1),), 0)


def neg(a):
    return mul(a, -1)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or isinstance(x, Lin)


class SStr:
    """string with symbolic parts: tuple of str | ('num', intexpr, base) | ('sym', name)"""
    __slots__ = ("p",)

    def __init__(self, parts):
        out = []
        for x in parts:
            if isinstance(x, SStr):
                xs = x.p
            else:
                xs = (x,)
            for y in xs:
                if y == "":
                    continue
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                else:
                    out.append(y)
        self.p = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return '"' + "".join(x if isinstance(x, str) else "{%s}" % (x[1],) for x in self.p) + '"'


def sstr(parts):
    s = SStr(parts)
    if not s.p:
        return ""
    if len(s.p) == 1 and isinstance(s.p[0], str):
        return s.p[0]
    return s


class Infeasible(Exception):
    pass


class Path:
    def __init__(self, given, ranges):
        self.given = given
        self.pos = 0
        self.taken = []
        self.ranges = dict(ranges)
        self.facts = {}
        self.bools = {}
        self.notes = []

    # -- choices
    def choose(self, note=None):
        if self.pos < len(self.given):
            r = self.given[self.pos]
        else:
            r = True
        self.pos += 1
        self.taken.append(r)
        self.notes.append((note, r))
        return r

    def boolean(self, key):
        if key in self.bools:
            return self.bools[key]
        r = self.choose(key)
        self.bools[key] = r
        return r

    # -- intervals
    def arange(self, atom):
        if isinstance(atom, str):
            return self.ranges.get(atom, (NEG, POS))
        k = atom[0]
        if k == "mod":
            return (0, atom[2] - 1)
        if k in ("fdiv", "quo"):
            lo, hi = self.range(atom[1])
            m = atom[2]
            if k == "fdiv":
                return (lo // m, hi // m)
            return (-(-lo // m) if lo < 0 else lo // m, -(-hi // m) if hi < 0 else hi // m)
        return (NEG, POS)

    def range(self, e):
        if isinstance(e, int):
            return (e, e)
        lo = hi = e.c
        for a, k in e.t:
            l, h = self.arange(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        for a, k in e.t:
            if isinstance(a, tuple) and a[0] == "mod":
                # k*mod(x,m) = k*x - k*m*fdiv(x,m)
                x, m = a[1], a[2]
                alt = add(add(e, Lin(((a, -k),), 0)), add(mul(x, k), mul(self.fdiv(x, m), -k * m)))
                if isinstance(alt, int):
                    l, h = alt, alt
                elif len(alt.t) < len(e.t):
                    l, h = self.range(alt)
                else:
                    continue
                lo, hi = max(lo, l), min(hi, h)
        key, s, g = self.key(e)
        if key in self.facts:
            fl, fh = self.facts[key]
            fl *= g
            fh *= g
            if s < 0:
                fl, fh = -fh, -fl
            lo = max(lo, fl + e.c)
            hi = min(hi, fh + e.c)
        return (lo, hi)

    @staticmethod
    def key(e):
        from math import gcd
        g = 0
        for _, k in e.t:
            g = gcd(g, abs(k))
        s = 1 if e.t[0][1] > 0 else -1
        return tuple((a, k * s // g) for a, k in e.t), s, g

    def assume_range(self, e, lo, hi):
        """e in [lo,hi]"""
        if isinstance(e, int):
            if not lo <= e <= hi:
                raise Infeasible()
            return
        key, s, g = self.key(e)
        l, h = lo - e.c, hi - e.c
        if s < 0:
            l, h = -h, -l
        l = -((-l) // g)
        h = h // g
        ol, oh = self.facts.get(key, (NEG, POS))
        l, h = max(l, ol), min(h, oh)
        if l > h:
            raise Infeasible()
        self.facts[key] = (l, h)
        if len(key) == 1 and key[0][1] == 1 and isinstance(key[0][0], str):
            v = key[0][0]
            rl, rh = self.ranges.get(v, (NEG, POS))
            rl, rh = max(rl, l), min(rh, h)
            if rl > rh:
                raise Infeasible()
            self.ranges[v] = (rl, rh)

    def lt(self, a, b):
        """decide a < b, splitting if needed"""
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b
        d = add(a, neg(b))
        lo, hi = self.range(d)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        if self.choose(("lt", repr(a), repr(b))):
            self.assume_range(d, NEG, -1)
            return True
        self.assume_range(d, 0, POS)
        return False

    def eq(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        d = add(a, neg(b))
        if isinstance(d, int):
            return d == 0
        lo, hi = self.range(d)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        if ("ne", d) in self.bools:
            return False
        if self.choose(("eq", repr(a), repr(b))):
            self.assume_range(d, 0, 0)
            return True
        # not equal: refine at the edges if possible
        if lo == 0:
            self.assume_range(d, 1, POS)
        elif hi == 0:
            self.assume_range(d, NEG, -1)
        self.bools[("ne", d)] = True
        return False

    # -- integer operations
    def mod(self, a, m):
        if isinstance(a, int) and isinstance(m, int):
            return a % m
        if not isinstance(m, int) or m <= 0:
            raise AnalysisError("modulo by symbolic")
        lo, hi = self.range(a)
        if 0 <= lo and hi < m:
            return a
        return Lin(((("mod", a, m), 1),), 0)

    def fdiv(self, a, m):
        if isinstance(a, int) and isinstance(m, int):
            return a // m
        if not isinstance(m, int) or m <= 0:
            raise AnalysisError("division by symbolic")
        # exact: (x - x mod m) / m
        if isinstance(a, Lin):
            if all(k % m == 0 for _, k in a.t):
                return mk({x: k // m for x, k in a.t}, a.c // m)
            mods = [(x, k) for x, k in a.t if isinstance(x, tuple) and x[0] == "mod" and x[2] == m and k == -1]
            for x, k in mods:
                if add(x[1], Lin(((x, -1),), 0)) == a:
                    return self.fdiv(x[1], m)
        lo, hi = self.range(a)
        if lo // m == hi // m:
            return lo // m
        return Lin(((("fdiv", a, m), 1),), 0)

    def quo(self, a, m):
        if isinstance(a, int) and isinstance(m, int):
            q = abs(a) // abs(m)
            return q if (a < 0) == (m < 0) else -q
        if isinstance(m, int) and m < 0:
            return neg(self.quo(a, -m))
        if self.lt(a, 0):
            return neg(self.fdiv(neg(a), m))
        return self.fdiv(a, m)

    def abs(self, a):
        if isinstance(a, (int, float)):
            return abs(a)
        if self.lt(a, 0):
            return neg(a)
        return a


def enumerate_paths(fn, ranges=None, limit=4096):
    """run fn(path) for every feasible combination of undecided choices.
    Yields (path, result_or_None, exception_or_None)."""
    stack = [[]]
    out = []
    while stack:
        given = stack.pop()
        p = Path(given, ranges or {})
        res = exc = None
        try:
            res = fn(p)
        except Infeasible:
            exc = "infeasible"
        except SchemeError as e:
            exc = e
        for i in range(len(p.taken) - 1, len(given) - 1, -1):
            stack.append(p.taken[:i] + [False])
        if exc != "infeasible":
            out.append((p, res, exc))
        if len(out) > limit:
            raise AnalysisError("more than %d paths" % limit)
    return out
