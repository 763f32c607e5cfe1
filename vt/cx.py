"""Abstract interpreter for the LLVM IR of vt.ll.

Values are bit-vector terms in normal form (vt.bv); each path carries the facts
its branches established (comparisons, difference bounds).  A loop is entered
once, in a state where everything it changes is unknown except what is
inductive: a phi that moves by a constant step per iteration is init + step*k
with one shared iteration counter k >= 0.  No path is handed to a solver."""
from . import bv
from .bv import T

INF = 1 << 70


class Limit(Exception):
    """analysis budget exceeded: no verdict"""


def C(w, c):
    return T(w, c)


def truth(t):
    """True/False for a constant i1, else None"""
    if not t.t:
        return bool(t.c & 1)
    return None


def boolT(b):
    """i1 term of a wide 0/1 term"""
    return bv.trunc(b, 1) if b.w > 1 else b


def widen_bool(t, W):
    if not t.t:
        return T(W, t.c & 1)
    if len(t.t) == 1 and t.t[0][0][0] == "b":
        a = t.t[0][0]
        return T(W, 1, ((a, -1),)) if t.c & 1 else T(W, 0, ((a, 1),))
    return T(W, 0, ((("ex", False, t), 1),))


class Event:
    __slots__ = ("kind", "name", "args", "line", "fn", "val", "extra", "file")

    def __init__(self, kind, name, args, inst=None, fn=None, val=None, extra=None):
        self.kind, self.name, self.args, self.val, self.extra = kind, name, args, val, extra
        self.line = inst.line if inst is not None else 0
        self.file = inst.file if inst is not None else None
        self.fn = fn

    def __repr__(self):
        return "%s %s(%s)@%s" % (self.kind, self.name, ", ".join(map(repr, self.args)), self.line)


class State:
    __slots__ = ("mem", "facts", "diffs", "udiffs", "ranges", "events", "epoch", "n", "x")

    def __init__(self):
        self.mem = {}      # base -> {offT: (nbytes, T)}
        self.facts = {}
        self.diffs = []    # (T, lo): T >= lo as an ideal integer
        self.udiffs = []
        self.ranges = {}   # atom -> (lo, hi)
        self.events = []
        self.epoch = {}    # base -> counter; None -> stores through opaque pointers
        self.n = [0]
        self.x = {}

    def clone(self):
        s = State()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.facts = dict(self.facts)
        s.diffs = list(self.diffs)
        s.udiffs = list(self.udiffs)
        s.ranges = dict(self.ranges)
        s.events = list(self.events)
        s.epoch = dict(self.epoch)
        s.n = self.n
        s.x = dict(self.x)
        return s

    def iv(self, x):          # bv.Ctx interface
        return self.ranges.get(("iv", x), (-INF, INF))
    path = None

    # ------------------------------------------------------------ facts
    def atom_bounds(self, a):
        r = self.ranges.get(a)
        if r:
            return r
        b = bv.atom_range(a, None) if a[0] != "iv" else (-INF, INF)
        if a[0] == "op":
            h = self.umax_atom(a)
            return (0, h) if h < 1 << (a[2] - 1) else (-INF, INF)
        if a[0] == "ex":
            h = self.umax(a[2])
            if h < 1 << (a[2].w - (1 if a[1] else 0)):
                return 0, h
        if b is None:
            return (-INF, INF)
        return b

    def umax(self, t):
        """the greatest unsigned value of t that its form allows"""
        m = (1 << t.w) - 1
        if not t.t:
            return t.c & m
        if t.c or len(t.t) > 1 or t.t[0][1] != 1:
            return m
        a = t.t[0][0]
        if a[0] == "op":
            return self.umax_atom(a)
        if a[0] == "ex" and not a[1]:
            return self.umax(a[2])
        return m

    def umax_atom(self, a):
        m = (1 << a[2]) - 1
        if len(a) != 5 or not all(isinstance(x, T) for x in a[3:]):
            return m
        x, y = a[3:]
        if a[1] == "and":
            return min(self.umax(x), self.umax(y))
        if y.t or not 0 < y.c & m:
            return m
        k = y.c & m
        h = self.umax(x)
        if a[1] in ("sdiv", "srem") and (h >> (a[2] - 1) or k >> (a[2] - 1)):
            return m
        if a[1] in ("udiv", "sdiv"):
            return h // k
        if a[1] in ("urem", "srem"):
            return min(h, k - 1)
        if a[1] == "shr":
            return h >> k
        return m

    def ibounds(self, t):
        lo = hi = t.c
        for a, k in t.t:
            l, h = self.atom_bounds(a)
            if k < 0:
                l, h = h, l
            lo += k * l
            hi += k * h
        return max(lo, -INF), min(hi, INF)

    def bounds(self, t, depth=1):
        """bounds of the ideal signed value of t (no wrap-around is assumed for signed arithmetic)"""
        if not t.t:
            return t.c, t.c
        lo, hi = self.ibounds(t)
        for d, l in self.diffs:
            if d.w != t.w:
                continue
            for sgn in (1, -1):
                r = bv.sub(t, d) if sgn == 1 else bv.add(t, d)
                if len(r.t) >= len(t.t) + (1 if depth else 0) and len(r.t) > 0 and len(r.t) > len(t.t):
                    continue
                if r.t and not depth:
                    continue
                rl, rh = (r.c, r.c) if not r.t else (self.bounds(r, 0) if len(r.t) <= len(t.t) else (-INF, INF))
                if sgn == 1:
                    if rl > -INF:
                        lo = max(lo, l + rl)      # t = d + r
                else:
                    if rh < INF:
                        hi = min(hi, rh - l)      # t = r - d
        return lo, hi

    def decide_atom(self, a):
        if a in self.facts:
            return self.facts[a]
        n = a[1]
        if n == "zero":
            x = a[2]
            lo, hi = self.bounds(x)
            if lo > 0 or hi < 0:
                return 0
            if lo == 0 == hi:
                return 1
            # v - c with known disequalities is in facts; difference of distinct named bases
            b = self.distinct(x)
            if b:
                return 0
        elif n == "slt":
            lo, hi = self.bounds(bv.sub(a[3], a[2]))
            if lo >= 1:
                return 1
            if hi <= 0:
                return 0
        elif n == "ult":
            x, y = a[2], a[3]
            lx, hx = self.bounds(x)
            ly, hy = self.bounds(y)
            if lx >= 0 and ly >= 0:
                lo, hi = self.bounds(bv.sub(y, x))
                if lo >= 1:
                    return 1
                if hi <= 0:
                    return 0
            d = bv.sub(y, x)
            for f, l in self.udiffs:
                if f.w != d.w:
                    continue
                r = bv.sub(d, f)
                if not r.t and l + r.c >= 1 and r.c <= 0:
                    return 1
                r = bv.add(d, f)
                if not r.t and r.c - l <= 0 and r.c >= 0:
                    return 0
        return None

    def distinct(self, x):
        """x = p - q (+c) with p, q distinct objects (small offsets)"""
        if len(x.t) == 2 and sorted(k for _, k in x.t) == [-1, 1]:
            names = [a[1] if a[0] == "v" else "" for a, _ in x.t]
            if all(n[:1] in "@&^" and n for n in names):
                return True
        if len(x.t) == 1 and abs(x.t[0][1]) == 1 and x.t[0][0][0] == "v" and x.t[0][0][1][:1] in ("@", "&", "^"):
            return True      # address of an object is not a small constant
        return None

    def decide(self, t):
        v = truth(t)
        if v is not None:
            return v
        if len(t.t) == 1:
            a = t.t[0][0]
            if a[0] == "b":
                r = self.decide_atom(a)
                if r is None:
                    return None
                return bool(r) != bool(t.c & 1)
            if a[0] == "op" and a[1] in ("and", "or", "xor"):
                vs = [self.decide(x) for x in a[3:]]
                if a[1] == "and":
                    r = False if False in vs else None if None in vs else True
                elif a[1] == "or":
                    r = True if True in vs else None if None in vs else False
                else:
                    r = None if None in vs else (sum(vs) & 1 == 1)
                if r is None:
                    return None
                return r != bool(t.c & 1)
        else:
            if ("t", t) in self.facts:
                return bool(self.facts["t", t])
            n = T(t.w, t.c + 1, t.t)
            if ("t", n) in self.facts:
                return not self.facts["t", n]
            p = t.c & 1
            for a, _ in t.t:
                r = self.decide(T(1, 0, ((a, 1),)))
                if r is None:
                    return None
                p ^= int(r)
            return bool(p)
        return None

    def assume(self, t, val):
        """record that the i1 term t has the truth value val; False if contradictory"""
        if truth(t) is not None:
            return truth(t) == val
        if len(t.t) == 1:
            a = t.t[0][0]
            v = val != bool(t.c & 1)
            if a[0] == "b":
                old = self.decide_atom(a)
                if old is not None:
                    return bool(old) == v
                self.facts[a] = int(v)
                n = a[1]
                if n == "zero":
                    x = a[2]
                    if len(x.t) == 1 and x.t[0][0][0] == "b":
                        # a condition in the guise of a number
                        bs = [b for b in (0, 1) if ((x.c + x.t[0][1] * b) % (1 << x.w) == 0) == v]
                        if not bs:
                            return False
                        if len(bs) == 1 and not self.assume(T(1, 0, ((x.t[0][0], 1),)), bool(bs[0])):
                            return False
                    if v:
                        self.diffs.append((x, 0))
                        self.diffs.append((bv.neg(x), 0))
                        self.single(x)
                        # equality through an extension
                        if len(x.t) == 1 and x.t[0][0][0] == "ex":
                            pass
                    else:
                        lo, hi = self.bounds(x)
                        if lo == 0:
                            self.diffs.append((x, 1))
                            self.single(x)
                        elif hi == 0:
                            self.diffs.append((bv.neg(x), 1))
                            self.single(x)
                elif n == "slt":
                    if v:
                        d = (bv.sub(a[3], a[2]), 1)
                    else:
                        d = (bv.sub(a[2], a[3]), 0)
                    self.diffs.append(d)
                    self.single(d[0])
                    if a[2].w < 64:
                        x, y = self.whole(a[2]), self.whole(a[3])
                        self.diffs.append((bv.sub(y, x), 1) if v else (bv.sub(x, y), 0))
                elif n == "ult":
                    x, y = a[2], a[3]
                    if v:
                        d = (bv.sub(y, x), 1)
                    else:
                        d = (bv.sub(x, y), 0)
                    self.udiffs.append(d)
                    ly, hy = self.bounds(y)
                    lx, hx = self.bounds(x)
                    if v and ly >= 0:
                        self.diffs.append((x, 0))
                        self.diffs.append(d)
                        self.single(x)
                        self.single(d[0])
                    elif not v and lx >= 0:
                        self.diffs.append((y, 0))
                        self.diffs.append(d)
                        self.single(y)
                        self.single(d[0])
                return True
            if a[0] == "op" and a[1] == "and" and v or a[0] == "op" and a[1] == "or" and not v:
                return all([self.assume(x, v) for x in a[3:]])
            self.facts[a] = int(v)
            return True
        self.facts[("t", t)] = int(val)
        return True

    def whole(self, t):
        """the signed value of t as a 64-bit term"""
        if len(t.t) == 1 and t.t[0][1] == 1 and not t.c and t.t[0][0][0] == "tr":
            a = t.t[0][0][2]
            r = self.ranges.get(a)
            if r and -(1 << (t.w - 1)) <= r[0] and r[1] < 1 << (t.w - 1):
                return T(64, 0, ((a, 1),))
        return bv.ext(t, 64, True, self)

    def single(self, d):
        """refine the stored range of an atom when a new bound concerns one atom alone"""
        if len(d.t) != 1 or abs(d.t[0][1]) != 1:
            return
        a, k = d.t[0]
        lo, hi = self.atom_bounds(a)
        for t, l in self.diffs:
            if t.w == d.w and len(t.t) == 1 and t.t[0][0] == a and abs(t.t[0][1]) == 1:
                if t.t[0][1] == 1:
                    lo = max(lo, l - t.c)
                else:
                    hi = min(hi, t.c - l)
        if (lo, hi) != (-INF, INF):
            self.ranges[a] = (lo, hi)


class Out:
    """outcome of a function evaluation"""
    __slots__ = ("kind", "state", "val", "info")

    def __init__(self, kind, state, val=None, info=None):
        self.kind, self.state, self.val, self.info = kind, state, val, info

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.val if self.val is not None else self.info)


class Engine:
    def __init__(self, M, models=None, opaque=(), inline_depth=12, max_paths=4000, max_steps=400000, unroll=None, inline=None):
        self.M = M
        self.W = M.ptr * 8
        self.models = dict(models or {})
        self.opaque = set(opaque)
        self.inline = inline            # None: every defined function; else predicate
        self.depth = inline_depth
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.steps = 0
        self.unroll = unroll or (lambda f, h: 0)
        self.ptratoms = set()
        self.struct_noalias = True
        self.loops = {}
        self._mod = {}
        self.on_load = None
        self.on_store = None
        self.on_branch = None
        self.on_deref = None
        self.exits = {"exit": "exit", "_exit": "exit", "abort": "exit", "__assert_fail": "assert"}
        self.fresh_n = 0
        self.fixed = {}          # global -> constant content (never changes after start-up)
        self.init_hook = None    # content of memory not written on this path

    # ------------------------------------------------------------ values
    def tw(self, ty):
        ty = self.M.resolve(ty)
        if ty == "ptr":
            return self.W
        if isinstance(ty, tuple) and ty[0] == "i":
            return ty[1]
        if ty == "float":
            return 32
        if ty == "double":
            return 64
        if ty == "x86_fp80":
            return 80
        if ty == "fp128":
            return 128
        if isinstance(ty, tuple) and ty[0] in ("struct", "arr", "vec"):
            return 8 * self.M.size(ty)
        raise Limit("type %r" % (ty,))

    def fresh(self, name, ty):
        w = ty if isinstance(ty, int) else self.tw(ty)
        t = bv.var(name, w)
        if ty == "ptr":
            self.ptratoms.add(name)
        return t

    def gaddr(self, name):
        n = "@" + name
        self.ptratoms.add(n)
        return bv.var(n, self.W)

    def const(self, v, ty):
        k = v[0]
        w = self.tw(ty)
        if k == "int":
            return T(w, v[1])
        if k == "null" or k == "zero":
            return T(w, 0)
        if k == "undef":
            self.fresh_n += 1
            return bv.var("undef#%d" % self.fresh_n, w)
        if k == "float":
            return bv.var("float:" + v[1], w)
        if k == "g":
            return self.gaddr(v[1])
        if k == "ce":
            op = v[1]
            if op == "getelementptr":
                bt, l = v[2], v[3]
                base = self.const(l[0][1], "ptr")
                return self.gep(None, bt, base, [(t, self.const(x, t)) for t, x in l[1:]])
            if op in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                x = self.const(v[3], v[2])
                w2 = self.tw(v[4])
                if x.w == w2:
                    return x
                return bv.trunc(x, w2) if w2 < x.w else bv.ext(x, w2, op == "sext", None)
            x, y = self.const(v[3], v[2]), self.const(v[4], v[2])
            if op == "add":
                return bv.add(x, y)
            if op == "sub":
                return bv.sub(x, y)
            if op == "mul":
                return bv.mul(x, y)
            if op == "icmp":
                return self.icmp(State(), v[5], x, y)
            return bv.op(op, w, x, y)
        raise Limit("constant %r" % (v,))

    def gep(self, st, bt, base, idx):
        t = base
        ty = bt
        for n, (it, ix) in enumerate(idx):
            if n == 0:
                sz = self.M.size(ty)
                t = bv.add(t, bv.mulc(self.index(st, ix), sz))
            else:
                ty = self.M.resolve(ty)
                if ty[0] == "struct":
                    o, ty = self.M.field(ty, ix.c)
                    t = bv.add(t, T(self.W, o))
                else:
                    ty = ty[2]
                    t = bv.add(t, bv.mulc(self.index(st, ix), self.M.size(ty)))
        return t

    def index(self, st, ix):
        if ix.w == self.W:
            return ix
        if ix.w < self.W:
            return bv.ext(ix, self.W, True, st)
        return bv.trunc(ix, self.W)

    # ------------------------------------------------------------ memory
    def split(self, addr):
        """address -> (base atom name | None, offset term)"""
        c = [a for a, k in addr.t if k == 1 and a[0] == "v" and a[1][:1] in ("@", "&", "^")]
        if len(c) != 1:
            c2 = [a for a, k in addr.t if k == 1 and a[0] == "v" and a[1] in self.ptratoms]
            if len(c) == 0 and len(c2) == 1:
                c = c2
            elif len(c) == 0 and len(addr.t) == 1 and addr.t[0][1] == 1:
                c = [addr.t[0][0]]
            else:
                return None, addr
        a = c[0]
        base = a[1] if a[0] == "v" else bv.rep(a)
        return base, bv.sub(addr, T(self.W, 0, ((a, 1),)))

    def named(self, base):
        return base is not None and base[0] in "@&^"

    def load(self, st, addr, nbytes, ty=None):
        base, off = self.split(addr)
        if base in self.fixed and not off.t and off.c == 0:
            v = self.fixed[base]
            if v.w == nbytes * 8:
                return v
        reg = st.mem.get(base)
        if reg is not None:
            e = reg.get(off)
            if e is not None:
                n, v = e
                if n == nbytes:
                    return v
                if n > nbytes:
                    return bv.trunc(v, nbytes * 8)
            if not off.t:
                for o, (n, v) in reg.items():
                    if not o.t and o.c < off.c and off.c + nbytes <= o.c + n and not v.t:
                        return T(nbytes * 8, (v.c >> 8 * (off.c - o.c)))
        if base is not None and base[0] == "@" and not off.t:
            g = self.M.globals.get(base[1:])
            if g is not None and g[2]:
                v = self.ginit(g[0], g[1], off.c, nbytes)
                if v is not None:
                    return v
        if self.init_hook is not None:
            v = self.init_hook(self, st, base, off, nbytes, ty)
            if v is not None:
                return v
        ep = st.epoch.get(base, 0) + (0 if self.named(base) else self.disturbed(st, base, off, nbytes))
        nm = "[%s%s]" % (base if base is not None else "", ("+%d" % off.c if off.c or base is None else "") if not off.t else "+%r" % off)
        if base is None:
            nm = "[%r]" % off
        ep += self.ownhits(st, base, off, nbytes)
        if ep:
            nm += "'%d" % ep
        if nbytes != self.M.ptr:
            nm += ".%d" % nbytes
        v = bv.var(nm, nbytes * 8)
        if ty == "ptr":
            self.ptratoms.add(nm)
        st.mem.setdefault(base, {})[off] = (nbytes, v)
        return v

    def ginit(self, ty, val, off, n):
        """constant at byte offset off of an initialiser"""
        ty = self.M.resolve(ty)
        if val is None:
            return None
        if val[0] in ("zero",):
            return T(n * 8, 0)
        if val[0] == "null":
            return T(n * 8, 0) if off == 0 else None
        if val[0] == "str":
            b = val[1]
            if 0 <= off and off + n <= len(b):
                return T(n * 8, int.from_bytes(b[off:off + n], "little"))
            return None
        if isinstance(ty, tuple) and ty[0] == "arr":
            s = self.M.size(ty[2])
            i = off // s
            if val[0] == "agg" and 0 <= i < len(val[1]):
                return self.ginit(ty[2], val[1][i][1], off - i * s, n)
            return None
        if isinstance(ty, tuple) and ty[0] == "struct":
            for i, ft in enumerate(ty[1]):
                o, _ = self.M.field(ty, i)
                if o <= off < o + self.M.size(ft):
                    return self.ginit(ft, val[1][i][1], off - o, n)
            return None
        if off == 0 and self.M.size(ty) == n:
            return self.const(val, ty)
        return None

    def store(self, st, addr, nbytes, val):
        base, off = self.split(addr)
        if self.store_hook is not None:
            self.store_hook(st, base, off, nbytes, val)
        if base is None:
            # unknown target: every opaque region may change
            self.havoc(st, None)
        reg = st.mem.setdefault(base, {})
        if off.t:
            for o in [o for o in reg if o != off and not self.apart(st, o, reg[o][0], off, nbytes)]:
                del reg[o]
            st.epoch["own"] = st.epoch.get("own", ()) + ((base, off, nbytes),)
        else:
            for o in [o for o in reg if o != off and (o.t and not self.apart(st, o, reg[o][0], off, nbytes)
                                                      or not o.t and o.c < off.c + nbytes and off.c < o.c + reg[o][0])]:
                del reg[o]
                st.epoch[base] = st.epoch.get(base, 0) + 1
        reg[off] = (nbytes, val)
        if not self.named(base):
            st.epoch[None] = st.epoch.get(None, ()) + ((base, None if off.t and not self.field_of(off) else (off.c, nbytes), False),)
            # other opaque bases may be the same object
            for b in list(st.mem):
                if b == base or self.named(b) and not (b[0] == "^" and self.heap_alias):
                    continue
                if b is not None and base is not None and self.separate(st, base, b):
                    continue
                r = st.mem[b]
                for o in list(r):
                    if self.hits(None if off.t and not self.field_of(off) else (off.c, nbytes), o, r[o][0]):
                        del r[o]
    heap_alias = False
    peel = 0                 # iterations taken one by one before a loop is summarised
    store_hook = None

    def separate(self, st, a, b):
        return False

    def apart(self, st, o1, n1, o2, n2):
        d = bv.sub(o2, o1)
        lo, hi = st.bounds(d)
        return lo >= n1 or hi <= -n2

    def havoc(self, st, base):
        """forget a region (None: every opaque region)"""
        if base is None:
            for b in [b for b in st.mem if not self.named(b)]:
                del st.mem[b]
            st.epoch[None] = st.epoch.get(None, ()) + ((None, None, True),)
        else:
            st.mem.pop(base, None)
            st.epoch[base] = st.epoch.get(base, 0) + 1

    # ------------------------------------------------------------ static mod summaries
    def modsum(self, fname, seen=None):
        """(globals possibly written, writes through pointers?) transitively"""
        if fname in self._mod:
            return self._mod[fname]
        # gather closure
        if not hasattr(self, "_direct"):
            self._direct = {}
            for n, f in self.M.funcs.items():
                gs, op, calls = set(), False, set()
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.op == "store":
                            p = i.a[1]
                            while p[0] == "ce":
                                p = p[3][0][1] if p[1] == "getelementptr" else p[3]
                            if p[0] == "g":
                                gs.add(p[1])
                            else:
                                op = True
                        elif i.op == "call":
                            c = i.a[0]
                            if c[0] == "g":
                                calls.add(c[1])
                            elif c[0] != "asm":
                                op = True
                                calls.add("*")
                self._direct[n] = (gs, op, calls)
        work, seen = [fname], set()
        gs, op = set(), False
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == "*":
                # an indirect call may reach any address-taken function
                for n in self.M.funcs:
                    work.append(n)
                continue
            d = self._direct.get(x)
            if d is None:
                continue
            gs |= d[0]
            op = op or d[1]
            work += d[2]
        self._mod[fname] = (gs, op)
        return gs, op

    def havoc_call(self, st, fname, args):
        gs, op = self.modsum(fname)
        for g in gs:
            self.havoc(st, "@" + g)
        if op:
            self.havoc(st, None)
        # objects whose address is passed
        for a in args:
            for at, k in a.t:
                if at[0] == "v" and at[1][:1] in ("&", "^"):
                    self.havoc(st, at[1])

    # ------------------------------------------------------------ loops
    def loopinfo(self, f):
        if f.name in self.loops:
            return self.loops[f.name]
        succ = {b: succs(f.blocks[b][-1]) if f.blocks[b] else [] for b in f.order}
        pred = {b: [] for b in f.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # reachable order
        order, seen = [], set()

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(f.order[0])
        order.reverse()
        dom = {b: None for b in order}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        heads = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = heads.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += pred[x]
        self.loops[f.name] = heads
        return heads

    # ------------------------------------------------------------ execution
    def run(self, fname, args, st, depth=0):
        """list of Out"""
        f = self.M.funcs[fname]
        env = {}
        for (ty, n), a in zip(f.params, args):
            env[n] = a
        if f.vararg:
            env["..."] = list(args[len(f.params):])
        fid = "%s#%d" % (fname, self.tick(st))
        return self.whole(f, env, st, depth, fid)

    def whole(self, f, env, st, depth, fid):
        outs, ex = self.explore(f, env, st, f.order[0], None, depth, fid, None, None)
        return outs

    def tick(self, st):
        st.n[0] += 1
        return st.n[0]

    def explore(self, f, env, st, block, prev, depth, fid, region, header):
        """all paths from block until they leave region or come back to header:
        (outcomes ending inside, [(env, state, block, prev)] leaving)"""
        outs, exits = [], []
        heads = self.loopinfo(f)
        work = [(env, st, block, prev, {}, True)]
        while work:
            env, st, block, prev, cnt, enter = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Limit("too many steps in %s" % f.name)
                if not enter and region is not None and (block == header or block not in region):
                    exits.append((env, st, block, prev))
                    break
                if block in heads and not (enter and block == header):
                    inside = prev in heads[block]
                    n = self.unroll(f, block)
                    if n or self.peel:
                        cnt = dict(cnt)
                        cnt[block] = cnt.get(block, 0) + 1 if inside else 0
                        if n and cnt[block] > n:
                            raise Limit("loop of %s exceeds %d iterations" % (f.name, n))
                    if not n and (not self.peel or cnt[block] >= self.peel):
                        o, ex = self.loop(f, env, st, block, prev, depth, fid)
                        outs += o
                        for en, s, b, p in ex:
                            work.append((en, s, b, p, cnt, False))
                        break
                enter = False
                b = f.blocks[block]
                vals = []
                k = 0
                while k < len(b) and b[k].op == "phi":
                    i = b[k]
                    if env.get(("phi", i.res)) is not None:
                        vals.append((i.res, env[("phi", i.res)]))
                    else:
                        for v, p in i.a:
                            if p == prev:
                                vals.append((i.res, self.val(env, v, i.ty)))
                                break
                        else:
                            raise Limit("phi without edge %s in %s" % (prev, f.name))
                    k += 1
                if vals:
                    env = dict(env)
                    for r, v in vals:
                        env[r] = v
                        env.pop(("phi", r), None)
                nxt = self.straight(f, b, k, env, st, depth, fid, block, work, outs, cnt)
                if nxt is None:
                    break
                env, st, nb = nxt
                prev, block = block, nb
            if len(outs) > self.max_paths or len(work) > self.max_paths:
                raise Limit("more than %d paths in %s" % (self.max_paths, f.name))
        return outs, exits

    def loop(self, f, env, st, h, prev, depth, fid):
        """summarise the loop headed by h, entered from prev"""
        body = self.loopinfo(f)[h]
        phis = [i for i in f.blocks[h] if i.op == "phi"]
        ln = self.tick(st)
        init = {}
        for i in phis:
            for v, p in i.a:
                if p == prev:
                    init[i.res] = self.val(env, v, i.ty)
        # pass 1: everything unknown
        def unknown():
            s1 = st.clone()
            for b in list(s1.mem):
                self.havoc(s1, b)
            self.havoc(s1, None)
            for g in self.M.globals:
                if "@" + g not in st.mem and not self.M.globals[g][2]:
                    s1.epoch["@" + g] = s1.epoch.get("@" + g, 0) + 1
            return s1
        e1 = dict(env)
        sym = {}
        for i in phis:
            x = self.fresh("phi:%s:%s:%d" % (f.name, i.res, ln), i.ty)
            e1[("phi", i.res)] = x
            sym[i.res] = x
        saved = self.on_load, self.on_store, self.on_branch, self.on_deref, self.quiet
        self.on_load = self.on_store = self.on_branch = self.on_deref = None
        self.quiet = True
        wr = self.writes
        self.writes = []
        try:
            _, ex = self.explore(f, e1, unknown(), h, prev, depth, fid, body, h)
            written = self.writes
            # scalars in memory that the loop may advance by a constant
            cand = {}
            for base, off, n in written:
                if self.named(base) and off is not None and not off.t:
                    cand.setdefault((base, off.c), set()).add(n)
            for base, off, n in written:
                for k in list(cand):
                    if base == k[0] and (off is None or off.t):
                        cand.pop(k, None)
            cand = {k: list(v)[0] for k, v in cand.items() if len(v) == 1}
            msym = {}
            if cand:
                s1 = unknown()
                for (base, o), n in cand.items():
                    x = self.fresh("mem:%s+%d:%s:%d" % (base, o, f.name, ln), n * 8)
                    if n == self.M.ptr:
                        self.ptratoms.add(x.t[0][0][1])
                    msym[base, o] = x
                    s1.mem.setdefault(base, {})[T(self.W, o)] = (n, x)
                _, ex = self.explore(f, e1, s1, h, prev, depth, fid, body, h)
        finally:
            self.on_load, self.on_store, self.on_branch, self.on_deref, self.quiet = saved
            self.writes = wr
        coll = [(en, s, p) for en, s, b, p in ex if b == h]
        if self.writes is not None:
            self.writes += written
        kname = "k:%s:%s:%d" % (f.name, h, ln)

        def start(written):
            s2 = st.clone()
            s2.ranges[("iv", kname)] = (0, self.counted(f, phis, sym, init, coll))
            self.havoc_written(s2, written)
            e2 = dict(env)
            for (base, o), x in msym.items():
                n = x.w // 8
                steps = set()
                for _, s, _ in coll:
                    e = s.mem.get(base, {}).get(T(self.W, o))
                    steps.add(bv.sub(e[1], x) if e is not None and e[0] == n else None)
                ini = self.load(st.clone(), bv.add(bv.var(base, self.W), T(self.W, o)), n, "ptr" if n == self.M.ptr else None)
                v = self.summary(steps, x, ini, kname, "mem:%s+%d:%s:%d" % (base, o, f.name, ln), s2, n == self.M.ptr)
                if v is not None:
                    s2.mem.setdefault(base, {})[T(self.W, o)] = (n, v)
            for i in phis:
                steps = set()
                for en, _, p in coll:
                    for v, q in i.a:
                        if q == p:
                            steps.add(bv.sub(self.val(en, v, i.ty), sym[i.res]))
                x = self.summary(steps, sym[i.res], init[i.res], kname, "phi:%s:%s:%d" % (f.name, i.res, ln), s2, i.ty == "ptr")
                if x is None:
                    x = self.fresh("phi:%s:%s:%d'" % (f.name, i.res, ln), i.ty)
                    if i.ty == "ptr":
                        # a walk along one field: where it started, the field, the iteration counter
                        nm = sym[i.res].t[0][0][1]
                        nx = {self.val(en, v, i.ty) for en, s, p in coll for v, q in i.a if q == p}
                        if len(nx) == 1:
                            t = nx.pop()
                            a = t.t[0][0] if len(t.t) == 1 and not t.c and t.t[0][1] == 1 else None
                            if a and a[0] == "v" and a[1].startswith("[" + nm + "+"):
                                o = a[1][len(nm) + 2:].split("]")[0]
                                if o.isdigit():
                                    s2.x = dict(s2.x, walks=dict(s2.x.get("walks", {}), **{x.t[0][0][1]: (init[i.res], int(o), kname)}))
                e2[("phi", i.res)] = x
            countdown(s2, e2)
            return s2, e2

        def countdown(s2, e2):
            """a quantity that falls by one per iteration, is not negative at first and is tested for zero in every iteration never falls below zero"""
            known = {x for v in env.values() if isinstance(v, T) for x, _ in v.t}
            for i in phis:
                steps = {bv.sub(self.val(en, v, i.ty), sym[i.res]) for en, s, p in coll for v, q in i.a if q == p}
                if i.ty == "ptr" or len(steps) != 1:
                    continue
                d = steps.pop()
                if d.t or signedc(d) not in (1, -1):
                    continue
                x, at = sym[i.res], sym[i.res].t[0][0]
                tests = None
                for en, s, p in coll:
                    t = set()
                    for a, val in s.facts.items():
                        if val == 0 and a[0] == "b" and a[1] == "zero" and isinstance(a[2], T) and a[2].w == x.w:
                            k = [c for y, c in a[2].t if y == at]
                            if k and abs(k[0]) == 1:
                                # the quantity: falls by one per iteration
                                t.add(a[2] if k[0] == -signedc(d) else bv.neg(a[2]))
                    tests = t if tests is None else tests & t
                z = self.icmp(st, "eq", x, T(x.w, 0))
                if coll and all(s.decide(z) is False for en, s, p in coll):
                    tests = set(tests or ()) | {bv.mulc(x, -signedc(d))}
                for q in sorted(tests or (), key=repr):
                    k = dict(q.t)[at]
                    rest = bv.sub(q, bv.mulc(x, k))
                    if any(y not in known for y, _ in rest.t):
                        continue
                    if st.bounds(bv.add(rest, bv.mulc(init[i.res], k)))[0] >= 0:
                        s2.diffs.append((bv.add(rest, bv.mulc(e2[("phi", i.res)], k)), 0))
        s2, e2 = start(written)
        if not self.quiet and any(not self.named(base) or off is not None and off.t for base, off, n in written if base != "*"):
            # the stores again, now in terms of the iteration counter
            saved = self.on_load, self.on_store, self.on_branch, self.on_deref, self.quiet
            self.on_load = self.on_store = self.on_branch = self.on_deref = None
            self.quiet = True
            wr = self.writes
            self.writes = []
            try:
                self.explore(f, e2, s2.clone(), h, prev, depth, fid, body, h)
                written = self.writes
            finally:
                self.on_load, self.on_store, self.on_branch, self.on_deref, self.quiet = saved
                self.writes = wr
            s2, e2 = start(written)
        s0 = s2.clone()
        outs, ex = self.explore(f, e2, s2, h, prev, depth, fid, body, h)
        exits = []
        for en, s, b, p in ex:
            if b == h:
                nx = {}
                for i in phis:
                    for v, q in i.a:
                        if q == p:
                            nx[i.res] = (e2[("phi", i.res)], self.val(en, v, i.ty))
                outs.append(Out("loop", s, info=(f.name, h, nx, kname, s0)))
            else:
                exits.append((en, s, b, p))
        return outs, exits
    quiet = False
    writes = None

    def counted(self, f, phis, sym, init, coll):
        """most iterations: a narrow counter from a constant by one, below something in every iteration that comes back"""
        top = INF
        for i in phis:
            x = sym[i.res]
            if i.ty == "ptr" or x.w >= 64 or init[i.res].t:
                continue
            for en, s, p in coll:
                v = [self.val(en, v, i.ty) for v, q in i.a if q == p]
                if len(v) != 1 or bv.sub(v[0], x) != T(x.w, 1):
                    break
                if not any(val == 1 and a[0] == "b" and a[1] == "slt" and a[2] == x for a, val in s.facts.items() if len(a) > 2):
                    break
            else:
                if coll:
                    top = min(top, (1 << (x.w - 1)) - 1 - signedc(init[i.res]))
        return top

    def summary(self, steps, sym, ini, kname, nm, st, isptr):
        """inductive description of a quantity given its changes per iteration"""
        if not steps or all(d is not None and not d.t and d.c == 0 for d in steps):
            return ini
        if None in steps:
            return None
        if all(not d.t for d in steps):
            l = [d.c for d in steps]
            if len(l) == 1:
                return bv.add(ini, bv.mulc(bv.ideal(kname, ini.w), l[0]))
            if all(c >= 0 for c in l) or all(c <= 0 for c in l):
                st.ranges[("iv", nm)] = (0, INF)
                return bv.add(ini, bv.mulc(bv.ideal(nm, ini.w), 1 if max(l) > 0 else -1))
        if isptr and ini.t and all(self.based(d) for d in steps):
            return bv.add(ini, bv.ideal("off:" + nm, ini.w))     # the same object at an unknown offset
        return None

    def based(self, d):
        """the step is an integer expression not mentioning other pointers"""
        return not any(a[0] == "v" and (a[1] in self.ptratoms or a[1][:1] in "@&^") for a, k in d.t)

    cell = None         # size of the cells opaque memory consists of

    def field_of(self, off):
        """the offset addresses one fixed field of some cell of an array of cells"""
        return self.cell and all(k % self.cell == 0 for _, k in off.t)

    def hits(self, w, off, n):
        """may a store described by w = (constant offset, size) | None reach off..off+n?"""
        if w is None or off is None:
            return True
        if not off.t and not self.cell:
            return off.c < w[0] + w[1] and w[0] < off.c + n
        if not self.cell:
            return True
        if off.t and not self.field_of(off):
            return True
        a, b = off.c % self.cell, w[0] % self.cell
        if not off.t and not (off.c < w[0] + w[1] and w[0] < off.c + n) and off.c // self.cell == w[0] // self.cell:
            return False
        return a < b + w[1] and b < a + n

    def disturbed(self, st, base, off, n):
        """number of stores through other pointers that may have changed base+off"""
        return sum(1 for bs, w, own in st.epoch.get(None, ())
                   if (bs is None or base is None or (own if bs == base else not self.separate(st, bs, base))) and self.hits(w, off, n))

    def ownhits(self, st, base, off, n):
        return sum(1 for b, o, m in st.epoch.get("own", ()) if b == base and not self.apart(st, o, m, off, n))

    def havoc_written(self, st, written):
        opq = set()
        own = {}
        for base, off, n in written:
            if base == "*":                      # call with unknown effect on globals/opaque
                continue
            if self.named(base):
                r = st.mem.get(base)
                if off is None:
                    self.havoc(st, base)
                elif off.t:
                    for o in [o for o in r or () if not self.apart(st, o, r[o][0], off, n)]:
                        del r[o]
                    st.epoch[base] = st.epoch.get(base, 0) + 1
                else:
                    if r:
                        for o in [o for o in r if o.t or o.c < off.c + n and off.c < o.c + r[o][0]]:
                            del r[o]
                    st.epoch[base] = st.epoch.get(base, 0) + 1
            else:
                opq.add((base, None if off is None or off.t and not self.field_of(off) else (off.c, n)))
                own.setdefault(base, []).append((off, n))
        if opq:
            for b in [b for b in st.mem if not self.named(b)]:
                r = st.mem[b]
                for o in list(r):
                    if any((wb is None or b is None or wb != b and not self.separate(st, wb, b)) and self.hits(w, o, r[o][0]) for wb, w in opq) or \
                            any(x is None or not self.apart(st, o, r[o][0], x, n) for x, n in own.get(b, ())):
                        del r[o]
            st.epoch[None] = st.epoch.get(None, ()) + tuple((wb, w, True) for wb, w in sorted(opq, key=repr))

    def note_write(self, base, off, n):
        if self.writes is not None:
            self.writes.append((base, off, n))

    def val(self, env, v, ty):
        if v[0] == "l":
            try:
                return env[v[1]]
            except KeyError:
                raise Limit("undefined %%%s" % v[1])
        return self.const(v, ty)

    def icmp(self, st, pred, a, b):
        """i1 term"""
        if pred in ("eq", "ne"):
            r = bv.iszero(bv.sub(a, b), 64, st)
            if pred == "ne":
                r = T(64, 1 - r.c, [(x, -k) for x, k in r.t])
        else:
            sg = pred[0] == "s"
            p = pred[1:]
            if p == "lt":
                r = bv.less(a, b, sg, 64, st)
            elif p == "gt":
                r = bv.less(b, a, sg, 64, st)
            else:
                r = bv.less(b, a, sg, 64, st) if p == "le" else bv.less(a, b, sg, 64, st)
                r = T(64, 1 - r.c, [(x, -k) for x, k in r.t])
        return bv.trunc(r, 1)

    def straight(self, f, b, k, env, st, depth, fid, block, work, outs, cnt):
        """execute a block from instruction k; returns (env, st, next block) or None"""
        env = dict(env)
        while k < len(b):
            i = b[k]
            op = i.op
            self.steps += 1
            if op == "load":
                a = self.val(env, i.a[0], "ptr")
                n = self.M.size(i.ty)
                if self.on_deref:
                    self.on_deref(self, st, f, i, a, n, False)
                v = self.load(st, a, n, i.ty)
                if i.ty == ("i", 1):
                    v = bv.trunc(v, 1)
                if self.on_load:
                    self.on_load(self, st, f, i, a, n, v)
                env[i.res] = v
            elif op == "store":
                a = self.val(env, i.a[1], "ptr")
                v = self.val(env, i.a[0], i.ty)
                n = self.M.size(i.ty)
                if v.w % 8:
                    v = widen_bool(v, 8)
                if self.on_deref:
                    self.on_deref(self, st, f, i, a, n, True)
                if self.on_store:
                    self.on_store(self, st, f, i, a, n, v)
                base, off = self.split(a)
                self.note_write(base, off, n)
                self.store(st, a, n, v)
            elif op == "alloca":
                nm = "&%s:%s" % (fid, i.res)
                self.ptratoms.add(nm)
                env[i.res] = bv.var(nm, self.W)
                st.x[("size", nm)] = bv.mulc(self.index(st, self.val(env, i.a[0], ("i", self.W))), self.M.size(i.ty))
            elif op == "getelementptr":
                base = self.val(env, i.a[0], "ptr")
                env[i.res] = self.gep(st, i.ty, base, [(t, self.val(env, v, t)) for t, v in i.a[1]])
            elif op == "icmp":
                env[i.res] = self.icmp(st, i.a[0], self.val(env, i.a[1], i.ty), self.val(env, i.a[2], i.ty))
            elif op in BIN:
                x, y = self.val(env, i.a[0], i.ty), self.val(env, i.a[1], i.ty)
                env[i.res] = self.binop(st, op, x, y, i)
            elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
                v = self.val(env, i.a[1], i.a[0])
                w = self.tw(i.ty)
                if v.w == 1 and w > 1:
                    r = widen_bool(v, w)
                    if op == "sext":
                        r = bv.neg(r)
                elif w > v.w:
                    r = bv.ext(v, w, op == "sext", st)
                elif w < v.w:
                    r = bv.trunc(v, w)
                else:
                    r = v
                if op == "inttoptr" and len(r.t) == 1 and r.t[0][1] == 1 and r.t[0][0][0] == "v":
                    self.ptratoms.add(r.t[0][0][1])
                env[i.res] = r
            elif op in ("fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext"):
                v = self.val(env, i.a[1], i.a[0])
                env[i.res] = bv.op(op, self.tw(i.ty), v)
            elif op == "fneg":
                env[i.res] = bv.op(op, self.tw(i.ty), self.val(env, i.a[0], i.ty))
            elif op == "fcmp":
                x, y = self.val(env, i.a[1], i.ty), self.val(env, i.a[2], i.ty)
                env[i.res] = bv.trunc(bv.boolean(8, "f" + i.a[0], x, y), 1)
            elif op == "select":
                c = self.val(env, i.a[0], ("i", 1))
                d = st.decide(c)
                x, y = self.val(env, i.a[1], i.ty), self.val(env, i.a[2], i.ty)
                if d is None:
                    # fork
                    s2 = st.clone()
                    e2 = dict(env)
                    if s2.assume(c, False):
                        e2[i.res] = y
                        r = self.straight(f, b, k + 1, e2, s2, depth, fid, block, work, outs, cnt)
                        if r is not None:
                            work.append((r[0], r[1], r[2], block, cnt, False))
                    st.assume(c, True)
                    env[i.res] = x
                else:
                    env[i.res] = x if d else y
            elif op == "freeze":
                env[i.res] = self.val(env, i.a[0], i.ty)
            elif op == "extractvalue":
                t, v, idx = i.a
                x = self.val(env, v, t)
                env[i.res] = bv.op("extract%s" % (idx,), self.tw(i.ty), x)
            elif op == "insertvalue":
                env[i.res] = self.fresh("agg:%s:%d" % (i.res, self.tick(st)), self.tw(i.ty))
            elif op == "va_arg":
                env[i.res] = self.fresh("va:%d" % self.tick(st), i.ty)
            elif op == "call":
                r = self.call(f, i, env, st, depth, fid)
                if not r:
                    return None
                cont = []
                for o in r:
                    if o.kind == "ret":
                        cont.append(o)
                    elif o.kind != "dead":
                        outs.append(o)
                if not cont:
                    return None
                for o in cont[1:]:
                    e2 = dict(env)
                    if i.res is not None:
                        e2[i.res] = o.val
                    x = self.straight(f, b, k + 1, e2, o.state, depth, fid, block, work, outs, cnt)
                    if x is not None:
                        work.append((x[0], x[1], x[2], block, cnt, False))
                st = cont[0].state
                if i.res is not None:
                    env[i.res] = cont[0].val
            elif op == "br":
                if len(i.a) == 1:
                    return env, st, i.a[0]
                c = self.val(env, i.a[0], ("i", 1))
                if self.on_branch:
                    self.on_branch(self, st, f, i, c)
                d = st.decide(c)
                if d is not None:
                    return env, st, i.a[1] if d else i.a[2]
                s2 = st.clone()
                ok1 = st.assume(c, True)
                ok2 = s2.assume(c, False)
                if ok1 and ok2:
                    work.append((env, s2, i.a[2], block, cnt, False))
                    return env, st, i.a[1]
                if ok1:
                    return env, st, i.a[1]
                if ok2:
                    return env, s2, i.a[2]
                return None
            elif op == "switch":
                v = self.val(env, i.a[0], i.ty)
                if self.on_branch:
                    self.on_branch(self, st, f, i, v)
                cur = st
                for cv, lb in i.a[2]:
                    c = self.icmp(cur, "eq", v, T(v.w, cv))
                    d = cur.decide(c)
                    if d is True:
                        return env, cur, lb
                    if d is False:
                        continue
                    s2 = cur.clone()
                    if s2.assume(c, True):
                        work.append((env, s2, lb, block, cnt, False))
                    cur.assume(c, False)
                return env, cur, i.a[1]
            elif op == "ret":
                v = self.val(env, i.a[0], i.ty) if i.a else None
                outs.append(Out("ret", st, v, info=i))
                return None
            elif op == "unreachable":
                outs.append(Out("unreachable", st, info=i))
                return None
            else:
                raise Limit("instruction " + op)
            k += 1
        return None

    def binop(self, st, op, x, y, i):
        w = x.w
        if op == "add":
            return bv.add(x, y)
        if op == "sub":
            return bv.sub(x, y)
        if op == "mul":
            return bv.mul(x, y)
        if op in ("and", "or", "xor"):
            return bv.bitop(op, [x, y], w, st)
        if op in ("shl", "lshr", "ashr"):
            return bv.shift({"shl": "shl", "lshr": "shr", "ashr": "sar"}[op], x, y, w)
        if op in ("sdiv", "udiv", "srem", "urem") and not x.t and not y.t and y.c:
            m = (1 << w) - 1
            a, b = (x.c, y.c) if op[0] == "s" else (x.c & m, y.c & m)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return T(w, q if op.endswith("div") else a - q * b)
        if op == "sdiv" and not y.t and y.c > 0 and x.c % y.c == 0 and all(k % y.c == 0 for _, k in x.t):
            return T(w, x.c // y.c, [(a, k // y.c) for a, k in x.t])      # exact (pointer difference)
        return bv.op(op, w, x, y)

    # ------------------------------------------------------------ calls
    def call(self, f, i, env, st, depth, fid):
        callee, args = i.a
        av = []
        for t, v in args:
            if t == "metadata":
                continue
            av.append(self.val(env, v, t))
        if callee[0] == "asm":
            m = self.models.get("asm")
            if m:
                return m(self, st, f, i, av, callee)
            st.events.append(Event("asm", callee[1], av, i, f.name, extra=callee))
            return [Out("ret", st, self.ret(st, i, "asm"))]
        name = None
        if callee[0] == "g":
            name = callee[1]
        elif callee[0] == "l":
            t = env[callee[1]]
            if len(t.t) == 1 and t.c == 0 and t.t[0][0][0] == "v" and t.t[0][0][1][0] == "@" and t.t[0][1] == 1:
                name = t.t[0][0][1][1:]
            else:
                m = self.models.get("*")
                if m:
                    r = m(self, st, f, i, [t] + av)
                    if r is not None:
                        return r
                st.events.append(Event("icall", repr(t), [t] + av, i, f.name))
                self.note_write(None, None, 0)
                self.havoc_all(st)
                return [Out("ret", st, self.ret(st, i, "icall"))]
        else:
            raise Limit("call %r" % (callee,))
        return self.call_named(f, i, name, av, env, st, depth, fid)

    def havoc_all(self, st):
        for b in list(st.mem):
            if b is None or b[0] != "&":
                self.havoc(st, b)
        self.havoc(st, None)
        for g, x in self.M.globals.items():
            if not x[2]:
                st.epoch["@" + g] = st.epoch.get("@" + g, 0) + 1
                self.note_write("@" + g, None, 0)

    def ret(self, st, i, name):
        if i.ty == "void":
            return None
        return self.fresh("%s#%d" % (name, self.tick(st)), i.ty)

    def call_named(self, f, i, name, av, env, st, depth, fid):
        if name.startswith("llvm."):
            return self.intrinsic(f, i, name, av, env, st)
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, f, i, av)
            if r is not None:
                return r
        if name in self.exits:
            st.events.append(Event("call", name, av, i, f.name))
            return [Out(self.exits[name], st, info=(name, av, i))]
        g = self.M.funcs.get(name)
        if g is not None and name not in self.opaque and depth < self.depth and (self.inline is None or self.inline(name)) and \
                not self.recursive(fid, name):
            st.events.append(Event("enter", name, av, i, f.name))
            fr = self.M.funcs[name]
            env2 = {}
            for (ty, n), a in zip(fr.params, av):
                w = self.tw(ty)
                if a.w != w:
                    a = bv.trunc(a, w) if a.w > w else bv.ext(a, w, True, st)
                env2[n] = a
            for ty, n in fr.params[len(av):]:
                env2[n] = self.fresh("missing#%d" % self.tick(st), ty)
            if fr.vararg:
                env2["..."] = list(av[len(fr.params):])
            outs = self.whole(fr, env2, st, depth + 1, fid + "/%s#%d" % (name, self.tick(st)))
            for o in outs:
                if o.kind == "ret" and i.ty != "void" and o.val is not None and o.val.w != self.tw(i.ty):
                    w = self.tw(i.ty)
                    o.val = bv.trunc(o.val, w) if o.val.w > w else bv.ext(o.val, w, True, o.state)
            return outs
        v = self.ret(st, i, name)
        st.events.append(Event("call", name, av, i, f.name, v))
        if g is not None:
            gs, op = self.modsum(name)
            for x in gs:
                self.note_write("@" + x, None, 0)
            if op:
                self.note_write(None, None, 0)
        for a in av:
            for at, k in a.t:
                if at[0] == "v" and at[1][:1] in ("&", "^"):
                    self.note_write(at[1], None, 0)
        self.havoc_call(st, name, av)
        return [Out("ret", st, v)]

    def recursive(self, fid, name):
        return any(p.split("#")[0] == name for p in fid.split("/"))

    def intrinsic(self, f, i, name, av, env, st):
        v = None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            st.events.append(Event("memcpy", name, av, i, f.name))
            base, off = self.split(av[0])
            self.note_write(base, None, 0)
            if av[2].isconst() and av[2].c <= 256:
                n = av[2].c
                o = 0
                vals = []
                while o < n:
                    s = self.M.ptr if n - o >= self.M.ptr else 1
                    vals.append((o, s, self.load(st, bv.add(av[1], T(self.W, o)), s)))
                    o += s
                for o, s, x in vals:
                    self.store(st, bv.add(av[0], T(self.W, o)), s, x)
            else:
                self.havoc(st, base)
            return [Out("ret", st, None)]
        if name.startswith("llvm.memset"):
            st.events.append(Event("memset", name, av, i, f.name))
            base, off = self.split(av[0])
            self.note_write(base, None, 0)
            self.havoc(st, base)
            return [Out("ret", st, None)]
        if name.startswith("llvm.va_start"):
            base, off = self.split(av[0])
            self.note_write(base, None, 0)
            self.havoc(st, base)
            return [Out("ret", st, None)]
        if name in ("llvm.stacksave.p0", "llvm.stacksave"):
            return [Out("ret", st, self.fresh("stacksave", "ptr"))]
        if i.ty != "void":
            if name.startswith("llvm.abs"):
                pass
            v = bv.op(name, self.tw(i.ty), *av) if av else self.fresh("%s#%d" % (name, self.tick(st)), i.ty)
        return [Out("ret", st, v)]


def signedc(t):
    c = t.c & ((1 << t.w) - 1)
    return c - (1 << t.w) if c >> (t.w - 1) else c


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul",
       "fdiv", "frem"}


def succs(i):
    if i.op == "br":
        return list(i.a[-2:]) if len(i.a) == 3 else [i.a[0]]
    if i.op == "switch":
        return [i.a[1]] + [b for _, b in i.a[2]]
    return []
