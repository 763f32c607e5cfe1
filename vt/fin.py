"""Collecting interpreter over a finite domain.

Every value is a constant, a pointer to a known place (object, offset), "some
large positive number", or unknown.  A function is explored from an abstract
call to a fixpoint: the set of (program point, live values, memory) it reaches is
computed exhaustively, unknown conditions go both ways, numbers that leave a
small window are widened.  Memory accesses through known pointers are reported to
the client, which knows the objects' extents."""
from . import bv, report

LIM = 80


class Limit(Exception):
    pass


class Sym:
    """pointer value"""
    __slots__ = ()


UNSET = ("u",)


def const(w, v):
    return ("c", w, v & ((1 << w) - 1))


def m_(w):
    return (1 << w) - 1


def sval(v):
    c, w = v[2], v[1]
    return c - (1 << w) if c >> (w - 1) else c


class Access:
    __slots__ = ("fn", "line", "file", "kind", "region", "off", "size")


class Fin:
    def __init__(self, M, access=None, models=None, opaque=(), limit=400000, depth=10, contents=None, shared=(), lim=LIM, blind=(), zeros=()):
        self.zeros = set(zeros)    # objects of which only the null bytes are followed
        self.blind = set(blind)    # objects whose contents are not followed
        self.lim = lim
        self.windows = {}
        self.aligned = {}          # object -> alignment of its start
        self.M = M
        self.W = M.ptr * 8
        self.access = access or (lambda *a: None)
        self.models = dict(models or {})
        self.opaque = set(opaque)
        self.limit = limit
        self.depth = depth
        self.contents = contents or {}     # (region, off, n) -> value
        self.steps = 0
        self.memo = {}
        self.active = []
        self._live = {}
        self.shared = set(shared)

    # ------------------------------------------------------------ values
    def width(self, ty):
        ty = self.M.resolve(ty)
        if ty == "ptr":
            return self.W
        if isinstance(ty, tuple) and ty[0] == "i":
            return ty[1]
        return None

    def value(self, env, ty, v):
        k = v[0]
        if k == "l":
            return env.get(v[1])
        w = self.width(ty)
        if k == "int":
            return const(w, v[1])
        if k in ("null", "zero"):
            return const(w, 0) if w else None
        if k == "g":
            return ("p", "@" + v[1], 0)
        if k == "ce":
            if v[1] == "getelementptr":
                return self.gep(v[2], self.value(env, "ptr", v[3][0][1]), [(t, self.value(env, t, x)) for t, x in v[3][1:]])
            if v[1] in ("bitcast", "ptrtoint", "inttoptr"):
                return self.value(env, v[2], v[3])
        return None

    def gep(self, ty, base, idx):
        if base is None:
            return None
        off = 0
        t = ty
        for n, (it, x) in enumerate(idx):
            if n == 0:
                sz = self.M.size(t)
            else:
                t = self.M.resolve(t)
                if t[0] == "struct":
                    o, t = self.M.field(t, x[2])
                    off = off + o if off is not None else None
                    continue
                t = t[2]
                sz = self.M.size(t)
            if x is None or x[0] != "c":
                off = None
            elif off is not None:
                off += sval(x) * sz
        return self.shift(base, off)

    def shift(self, base, off):
        if base[0] == "p":
            if off is None or base[2] is None:
                return ("p", base[1], None)
            o = base[2] + off
            return ("p", base[1], o if -LIM <= o <= self.window(base[1]) else None)
        if base[0] == "c" and off is not None:
            return const(base[1], base[2] + off)
        return None

    def window(self, region):
        if region in self.windows:
            return self.windows[region]
        return 8192 if region[:1] in "@&" else 400

    def clip(self, w, s):
        """a computed number"""
        if self.lim is None:
            return const(w, s)
        if w < 32 and s > self.lim:      # may come to wrap
            return None
        if s > self.lim and s >> (w - 1) == 0:
            return ("big", w)
        if s < (-self.lim if self.lim == LIM else -1):
            return None
        return const(w, s)

    # a token ("t", w, name, ext) is an unknown byte: raw (ext ""), zero ("z") or sign ("s") extended, negative after sign extension ("n")
    def tokcmp(self, p, a, b):
        if a[0] == b[0] == "t":
            if a == b and p in ("eq", "ne"):
                return p == "eq"
            return None
        t, o = (a, b) if a[0] == "t" else (b, a)
        if o[0] != "c" or t[3] == "":
            return None
        lo, hi = {"z": (0, 255), "s": (-128, 127), "n": (-128, -1)}[t[3]]
        x = sval(o)
        if p in ("eq", "ne"):
            return (p == "ne") if not lo <= x <= hi else None
        if p[0] == "u" and (lo < 0 or x < 0):
            return None
        if a[0] != "t":
            p = p[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[p[1:]]
        k = p[1:]
        if k == "lt":
            return True if hi < x else False if lo >= x else None
        if k == "le":
            return True if hi <= x else False if lo > x else None
        if k == "gt":
            return True if lo > x else False if hi <= x else None
        return True if lo >= x else False if hi < x else None

    def arith(self, op, w, a, b, lit):
        if a is not None and b is not None and "t" in (a[0], b[0]):
            t, o = (a, b) if a[0] == "t" else (b, a)
            if o[0] == "c":
                if op == "and" and o[2] == 255 and w > 8:
                    return t[:3] + ("z",)
                if op == "add" and o[2] == 256 and t[3] == "n":
                    return t[:3] + ("z",)
                if op in ("add", "sub", "or", "xor") and o[2] == 0 and (op != "sub" or o is b):
                    return t
            return None
        if a is None or b is None:
            if op == "and" and (a and a[0] == "c" and a[2] == 0 or b and b[0] == "c" and b[2] == 0):
                return const(w, 0)
            if op == "mul" and (a and a[0] == "c" and a[2] == 0 or b and b[0] == "c" and b[2] == 0):
                return const(w, 0)
            return None
        if a[0] == "p" or b[0] == "p":
            if op == "sub" and a[0] == "p" and b[0] == "p" and a[1] == b[1] and None not in (a[2], b[2]):
                return const(w, a[2] - b[2])
            if op == "add" and a[0] == "p" and b[0] == "c":
                return self.shift(a, sval(b))
            if op == "add" and b[0] == "p" and a[0] == "c":
                return self.shift(b, sval(a))
            if op == "sub" and a[0] == "p" and b[0] == "c":
                return self.shift(a, -sval(b))
            if op in ("and", "urem") and a[0] != b[0] and "c" in (a[0], b[0]) and (op == "and" or a[0] == "p"):
                q, c = (a, b) if a[0] == "p" else (b, a)
                al = self.aligned.get(q[1])
                if al and q[2] is not None:
                    if op == "and" and (-c[2] & m_(w)) and -c[2] & m_(w) <= al and al % (-c[2] & m_(w)) == 0:
                        return self.shift(q, (q[2] & c[2] & m_(w)) - q[2] if q[2] >= 0 else -(q[2] % (-c[2] & m_(w))))
                    if op == "and" and c[2] < al:
                        return const(w, q[2] & c[2])
                    if op == "urem" and c[2] and al % c[2] == 0:
                        return const(w, q[2] % c[2])
            return None
        if a[0] == "big" or b[0] == "big":
            if op == "add" and w >= 32 and all(x[0] == "big" or sval(x) >= 0 for x in (a, b)):
                return ("big", w)
            return None
        x, y = a[2], b[2]
        m = (1 << w) - 1
        sx, sy = sval(a), sval(b)
        if op == "add":
            return self.clip(w, sx + sy)
        if op == "sub":
            return self.clip(w, sx - sy)
        if op == "mul":
            return self.clip(w, sx * sy)
        if op == "and":
            return const(w, x & y)
        if op == "or":
            return const(w, x | y)
        if op == "xor":
            return const(w, x ^ y)
        if op == "shl":
            return const(w, x << y) if y < w else None
        if op == "lshr":
            return const(w, x >> y) if y < w else None
        if op == "ashr":
            return const(w, sx >> y) if y < w else None
        if y == 0:
            return None
        if op == "udiv":
            return const(w, x // y)
        if op == "urem":
            return const(w, x % y)
        if op == "sdiv":
            q = abs(sx) // abs(sy)
            return const(w, q if (sx < 0) == (sy < 0) else -q)
        if op == "srem":
            q = abs(sx) % abs(sy)
            return const(w, -q if sx < 0 else q)
        return None

    def cmp(self, pred, a, b):
        r = self.cmp_(pred, a, b)
        return None if r is None else const(1, int(r))

    def cmp_(self, p, a, b):
        if a is None or b is None:
            return None
        if "t" in (a[0], b[0]):
            return self.tokcmp(p, a, b)
        if a[0] == "c" and b[0] == "c":
            x, y = (sval(a), sval(b)) if p[0] == "s" else (a[2], b[2])
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p if len(p) == 2 else p[1:]]
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1]:
                if a[2] is None or b[2] is None:
                    return None
                return self.cmp_(p, const(64, a[2] + (1 << 40)), const(64, b[2] + (1 << 40)))
            return {"eq": False, "ne": True}.get(p)
        if "p" in (a[0], b[0]):
            o = b if a[0] == "p" else a
            if o[0] == "c" and o[2] == 0:
                if p in ("eq", "ne"):
                    return p == "ne"
                if p in ("ugt", "ult"):
                    return (a[0] == "p") == (p == "ugt")
            return None
        # one is big
        if a[0] == "big" and b[0] == "big":
            return None
        x, y, o = (1, 0, b) if a[0] == "big" else (0, 1, a)
        s = sval(o)
        if p in ("eq", "ne"):
            return (p == "ne") if s <= self.lim else None
        if p[0] == "s":
            if s > self.lim:
                return None
        else:
            if o[2] > self.lim and s >= 0:
                return None
            if s < 0:
                x, y = y, x
        if p[1:] in ("lt", "le"):
            return x < y
        return x > y

    # ------------------------------------------------------------ memory: dict (region, off, n) -> value
    def load(self, mem, p, n, ty):
        if p is None or p[0] != "p" or p[2] is None:
            return None
        k = (p[1], p[2], n)
        if k in mem:
            return mem[k]
        if any(r == p[1] and o < p[2] + n and p[2] < o + m for r, o, m in mem):
            return None
        if k in self.contents:
            return self.contents[k]
        if p[1][0] == "@":
            g = self.M.globals.get(p[1][1:])
            if g is not None and g[2] and g[1] is not None and g[1][0] == "str" and n == 1 and 0 <= p[2] < len(g[1][1]):
                return const(8, g[1][1][p[2]])
        return None

    def store(self, mem, p, n, v, esc):
        if p is not None and p[0] == "p" and p[1] in self.blind:
            return
        if p is not None and p[0] == "p" and p[1] in self.zeros and not (v is not None and v[0] == "c" and v[2] == 0):
            v = None
        if p is None or p[0] != "p":
            # through an unknown pointer: anything whose address is known elsewhere
            for k in [k for k in mem if k[0] in esc or k[0][0] == "@"]:
                mem[k] = None
            return
        if p[2] is None:
            for k in [k for k in mem if k[0] == p[1]]:
                mem[k] = None
            return
        for k in [k for k in mem if k[0] == p[1] and k[1] < p[2] + n and p[2] < k[1] + k[2]]:
            del mem[k]
        mem[(p[1], p[2], n)] = v

    # ------------------------------------------------------------ liveness
    def live(self, f):
        """block -> names live at its start (after the phis)"""
        if f.name in self._live:
            return self._live[f.name]
        use, deff, succ, phiuse = {}, {}, {}, {}

        def names(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "l" and isinstance(x[1], str):
                    yield x[1]
                    return
                for y in x:
                    yield from names(y)
            elif isinstance(x, list):
                for y in x:
                    yield from names(y)
        for b in f.order:
            u, d = set(), set()
            for i in f.blocks[b]:
                if i.op == "phi":
                    for v, src in i.a:
                        phiuse.setdefault((src, b), set()).update(names(v))
                else:
                    for n in names(i.a):
                        if n not in d:
                            u.add(n)
                if i.res is not None:
                    d.add(i.res)
            t = f.blocks[b][-1]
            succ[b] = list(t.a[-2:]) if t.op == "br" and len(t.a) == 3 else [t.a[0]] if t.op == "br" else [t.a[1]] + [x for _, x in t.a[2]] if t.op == "switch" else []
            use[b], deff[b] = u, d
        inn = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set()
                for s in succ[b]:
                    out |= inn[s] | phiuse.get((b, s), set())
                n = use[b] | (out - deff[b])
                if n != inn[b]:
                    inn[b] = n
                    ch = True
        # phi results are live in their own block
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == "phi":
                    inn[b].add(i.res)
        self._live[f.name] = inn
        return inn

    # ------------------------------------------------------------ functions
    def call(self, fname, args, mem=(), esc=frozenset()):
        """-> set of (value, mem, esc); mem as a sorted tuple of items"""
        f = self.M.funcs[fname]
        key = (fname, tuple(args), mem, esc)
        if key in self.memo:
            return self.memo[key]
        if len(self.active) >= self.depth or key in self.active:
            return None
        self.active.append(key)
        res = set()
        seen = set()
        live = self.live(f)
        env0 = {n: a for (t, n), a in zip(f.params, args)}
        frame = "&%s:" % fname
        if any(k[0] == fname for k in self.active[:-1]):
            frame = "&%s'%d:" % (fname, sum(k[0] == fname for k in self.active))
        work = [(f.order[0], None, env0, mem, esc)]
        while work:
            b, prev, env, m, es = work.pop()
            phis = {}
            for i in f.blocks[b]:
                if i.op != "phi":
                    break
                for v, src in i.a:
                    if src == prev:
                        phis[i.res] = self.value(env, i.ty, v)
            env = {n: v for n, v in list(env.items()) + list(phis.items()) if n in live[b] and v is not None}
            k = (b, tuple(sorted(env.items())), m, es)
            if k in seen:
                continue
            seen.add(k)
            self.steps += 1
            if self.steps > self.limit:
                raise Limit("%s: %d abstract states" % (fname, self.steps))
            self.block(f, frame, b, env, m, es, work, res)
        self.active.pop()
        res = {(v, self.drop(mm, frame), es) for v, mm, es in res}
        if not self.active or True:
            self.memo[key] = res
        return res

    def drop(self, mem, frame):
        return tuple(x for x in mem if not x[0][0].startswith(frame))

    def block(self, f, frame, b, env, m, es, work, res):
        states = [(dict(env), dict(m), set(es))]
        ins = f.blocks[b]
        j = 0
        while j < len(ins) and ins[j].op == "phi":
            j += 1
        stack = [(j, dict(env), dict(m), frozenset(es))]
        while stack:
            j, env, mem, es = stack.pop()
            dead = False
            while j < len(ins):
                i = ins[j]
                op = i.op
                if op == "load":
                    p = self.isset(f, i, "reads through a pointer", self.value(env, "ptr", i.a[0]))
                    n = self.M.size(i.ty)
                    self.touch(f, i, "read", p, n)
                    env[i.res] = self.load(mem, p, n, i.ty)
                elif op == "store":
                    v, p = self.value(env, i.ty, i.a[0]), self.isset(f, i, "writes through a pointer", self.value(env, "ptr", i.a[1]))
                    if v == UNSET and not (p is not None and p[0] == "p" and p[1][0] == "&"):
                        v = self.isset(f, i, "stores a value", v)
                    n = self.M.size(i.ty)
                    self.touch(f, i, "write", p, n)
                    if v is not None and v[0] == "p" and v[1][0] == "&" and not (p is not None and p[0] == "p" and p[1][0] == "&" and p[1] not in es):
                        es = es | {v[1]}
                    self.store(mem, p, n, v, es)
                elif op == "alloca":
                    env[i.res] = ("p", frame + i.res, 0)
                    self.fresh(mem, frame + i.res, i)
                elif op == "getelementptr":
                    env[i.res] = self.gep(i.ty, self.value(env, "ptr", i.a[0]), [(t, self.value(env, t, x)) for t, x in i.a[1]])
                elif op == "icmp":
                    env[i.res] = self.cmp(i.a[0], self.value(env, i.ty, i.a[1]), self.value(env, i.ty, i.a[2]))
                elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                    env[i.res] = self.arith(op, self.width(i.ty), self.value(env, i.ty, i.a[0]), self.value(env, i.ty, i.a[1]), i)
                elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
                    v, w = self.value(env, i.a[0], i.a[1]), self.width(i.ty)
                    if v is not None and w is not None:
                        if v[0] == "c":
                            v = const(w, sval(v) if op == "sext" else v[2])
                        elif v[0] == "t":
                            v = ("t", w, v[2], "" if w == 8 else v[3] or op[0] if op != "trunc" else v[3]) if w >= 8 else None
                        elif v[0] == "big":
                            v = ("big", w) if op in ("zext", "sext") else None
                        elif v[0] == "p" and w != self.W:
                            v = None
                    env[i.res] = v if w is not None or v == UNSET else None
                elif op == "select":
                    c = self.isset(f, i, "decides by a value", self.value(env, ("i", 1), i.a[0]))
                    if c is None:
                        e2, m2 = dict(env), dict(mem)
                        e2[i.res] = self.value(env, i.ty, i.a[2])
                        stack.append((j + 1, e2, m2, es))
                        env[i.res] = self.value(env, i.ty, i.a[1])
                    else:
                        env[i.res] = self.value(env, i.ty, i.a[1] if c[2] else i.a[2])
                elif op == "freeze":
                    env[i.res] = self.value(env, i.ty, i.a[0])
                elif op == "call":
                    outs = self.docall(f, i, env, mem, es)
                    if not outs:
                        dead = True
                        break
                    for v, m2, e2 in outs[1:]:
                        en = dict(env)
                        if i.res is not None:
                            en[i.res] = v
                        stack.append((j + 1, en, dict(m2), e2))
                    v, m2, es = outs[0]
                    mem = dict(m2)
                    if i.res is not None:
                        env[i.res] = v
                elif op == "br":
                    m = tuple(sorted(mem.items(), key=repr))
                    if len(i.a) == 1:
                        work.append((i.a[0], b, env, m, es))
                    else:
                        c = self.isset(f, i, "decides by a value", self.value(env, ("i", 1), i.a[0]))
                        for t, tgt in ((1, i.a[1]), (0, i.a[2])):
                            if c is None or c[2] == t:
                                work.append((tgt, b, self.refine(f, b, env, i.a[0], t) if c is None else env, m, es))
                    break
                elif op == "switch":
                    m = tuple(sorted(mem.items(), key=repr))
                    v = self.isset(f, i, "decides by a value", self.value(env, i.ty, i.a[0]))
                    if v is not None and v[0] == "c":
                        w = v[1]
                        t = [tg for c, tg in i.a[2] if c & ((1 << w) - 1) == v[2]]
                        work.append((t[0] if t else i.a[1], b, env, m, es))
                    else:
                        for c, tg in i.a[2]:
                            e2 = dict(env)
                            if i.a[0][0] == "l" and v is None:
                                e2[i.a[0][1]] = const(self.width(i.ty), c)
                            work.append((tg, b, e2, m, es))
                        work.append((i.a[1], b, env, m, es))
                    break
                elif op == "ret":
                    v = self.isset(f, i, "returns a value", self.value(env, i.ty, i.a[0])) if i.a else None
                    res.add((v, tuple(sorted(mem.items(), key=repr)), es))
                    break
                elif op == "unreachable":
                    break
                elif i.res is not None:
                    env[i.res] = None
                j += 1

    def refine(self, f, b, env, c, t):
        if c[0] != "l":
            return env
        env = dict(env)
        env[c[1]] = const(1, t)
        for i in f.blocks[b]:
            if i.res == c[1] and i.op == "icmp" and i.a[1][0] == "l" and i.a[2] == ("int", 0) and i.a[0] in ("slt", "sge"):
                v = env.get(i.a[1][1])
                if v is not None and v[0] == "t" and v[3] == "s":
                    env[i.a[1][1]] = v[:3] + (("n" if (i.a[0] == "slt") == bool(t) else "z"),)
            if i.res == c[1] and i.op == "icmp" and i.a[0] in ("eq", "ne") and (i.a[0] == "eq") == bool(t):  # not for tokens: they keep their name
                for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
                    if x[0] == "l" and env.get(x[1]) is None:
                        v = self.value(env, i.ty, y)
                        if v is not None:
                            env[x[1]] = v
        return env

    def isset(self, f, i, what, v):
        return v

    def fresh(self, mem, region, i):
        pass

    def touch(self, f, i, kind, p, n):
        if p is not None and p[0] == "p":
            self.access(f, i, kind, p[1], p[2], n)

    def docall(self, f, i, env, mem, es):
        callee, args = i.a
        av = [self.isset(f, i, "passes a value", self.value(env, t, v)) for t, v in args]
        name = callee[1] if callee[0] == "g" else None
        if name in ("exit", "_exit", "abort", "__assert_fail"):
            return []
        if name and name.startswith("llvm."):
            if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                n = av[2][2] if av[2] is not None and av[2][0] == "c" else None
                self.touch(f, i, "write", av[0], n)
                if "set" not in name:
                    self.touch(f, i, "read", av[1], n)
                m2 = dict(mem)
                self.store(m2, av[0] if n is not None or av[0] is None or av[0][0] != "p" else ("p", av[0][1], None), n or 0, None, es)
                return [(None, m2, es)]
            return [(None, mem, es)]
        if name in self.models:
            r = self.models[name](self, f, i, av, mem, es)
            if r is not None:
                return r
        if name in self.M.funcs and self.M.funcs[name].blocks and name not in self.opaque and not self.M.funcs[name].vararg:
            F = self.M.funcs[name]
            av2 = av[:len(F.params)] + [None] * (len(F.params) - len(av))
            av2 = [self.fit(v, t) for v, (t, n) in zip(av2, F.params)]
            r = self.call(name, av2, tuple(sorted(mem.items(), key=repr)), es)
            if r is not None:
                return [(v, dict(m), e) for v, m, e in sorted(r, key=repr)]
        # unknown effect on everything it can reach
        m2 = dict(mem)
        e2 = es | {v[1] for v in av if v is not None and v[0] == "p" and v[1][0] == "&"}
        reach = set(e2) | {v[1] for v in av if v is not None and v[0] == "p"}
        for k in list(m2):
            if k[0] in reach or k[0][0] == "@" and k[0] not in self.shared:
                m2[k] = None
        return [(None, m2, frozenset(e2))]

    def fit(self, v, t):
        w = self.width(t)
        if v is not None and v[0] in ("c", "big") and v[1] != w:
            return const(w, v[2]) if v[0] == "c" and w else None
        return v
