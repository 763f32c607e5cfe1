"""G14: the primitives on lists, strings, vectors, structures and hash tables compute what they are named after."""
import itertools
import sys
from vt import bv, cx, mesc, prim, report, vset
from vt.bv import T


class Fork(Exception):
    def __init__(self, t):
        self.t = t


class Bad(Exception):
    pass


class Obj:
    """an operand that exists before the call"""
    n = 0

    def __init__(self, kind, *a):
        Obj.n += 1
        self.kind, self.a, self.base = kind, list(a), "&o%d" % Obj.n

    def __repr__(self):
        if self.kind == "pair":
            r, x = [], self
            while isinstance(x, Obj) and x.kind == "pair":
                r.append(repr(x.a[0]))
                x = x.a[1]
            return "(%s%s)" % (" ".join(r), "" if isinstance(x, Obj) and x.kind == "special" and x.a[0] == "cell_nil" else " . %r" % x)
        if self.kind == "special":
            return {"cell_nil": "()", "cell_f": "#f", "cell_t": "#t"}.get(self.a[0], self.a[0])
        if self.kind == "num":
            return "#%r" % (self.a[0] if self.a[0].t else self.a[0].c)
        if self.kind in ("str", "sym", "kw"):
            return "%s%d" % (self.kind, len(self.a[0]))
        if self.kind == "vec":
            return "#(%s)" % " ".join(map(repr, self.a[0]))
        return self.kind


NIL, F, TRUE, UNSPEC = (Obj("special", g) for g in ("cell_nil", "cell_f", "cell_t", "cell_unspecified"))
TAG = {"pair": "TPAIR", "num": "TNUMBER", "chr": "TCHAR", "str": "TSTRING", "sym": "TSYMBOL", "kw": "TKEYWORD", "vec": "TVECTOR", "struct": "TSTRUCT", "clos": "TCLOSURE", "port": "TPORT", "ref": "TREF"}
BIG = 4096                    # cells of the heap before the object area


def atoms(t):
    """the unknowns of a term, with their widths"""
    r = set()

    def walk(x, w):
        if isinstance(x, T):
            for a, k in x.t:
                walk(a, x.w)
        elif isinstance(x, tuple):
            if x and x[0] == "v":
                r.add((x[1], w))
            else:
                for y in x:
                    if isinstance(y, (T, tuple)):
                        walk(y, w)
    walk(t, t.w)
    return r


def pair(a, d):
    return Obj("pair", a, d)


def lst(items, tail=NIL):
    for x in reversed(items):
        tail = pair(x, tail)
    return tail


class Checker:
    long = endless = False

    def __init__(self, out, arch):
        self.out, self.arch = out, arch
        self.p = p = prim.Prims(arch)
        self.m = m = p.m
        self.W, self.P = m.W, m.P
        self.failed = set()
        models = {"memcpy": self.memcpy, "memcmp": self.memcmp, "strlen": self.strlen, "assert_max_string": prim.stop, "abort": prim.stop, "exit": prim.stop, "__assert_fail": prim.stop,
                  "cstring_to_symbol": self.symbol}
        for s in prim.SILENT:
            models[s] = prim.silent
        for s in ("cast_charp_to_long", "cast_voidp_to_long", "cast_scmp_to_long", "cast_voidp_to_charp", "cast_long_to_charp", "cast_charp_to_scmp", "cast_scmp_to_charp"):
            models[s] = prim.ident
        self.E = E = m.engine(models=models, inline_depth=40)
        E.recursive = lambda fid, name: False
        E.peel = 12
        self.bytes_at = self.offset("cell_bytes")

    # ------------------------------------------------------------ the C library's (L14), on blocks of known size
    def size(self, f, i, n, what):
        if not n.isconst() or n.c > 4096:
            if not n.isconst() and all(a.startswith("[&") for a, w in atoms(n)):
                raise Bad("%s (line %s) of a size read from memory that nothing has written" % (what, i.line))
            raise cx.Limit("%s (line %s): %s of %r bytes" % (f.name, i.line, what, n))
        return n.c

    def memcpy(self, E, st, f, i, av):
        n = self.size(f, i, av[2], "memcpy")
        bs = [E.load(st, bv.add(av[1], T(self.W, k)), 1) for k in range(n)]
        for k, b in enumerate(bs):
            E.store(st, bv.add(av[0], T(self.W, k)), 1, b)
        return [cx.Out("ret", st, av[0])]

    def memcmp(self, E, st, f, i, av):
        n = self.size(f, i, av[2], "memcmp")
        r, cur = [], st
        w = E.tw(i.ty)
        for k in range(n):
            a, b = (E.load(cur, bv.add(x, T(self.W, k)), 1) for x in av[:2])
            c = E.icmp(cur, "eq", a, b)
            d = cur.decide(c)
            if d is True:
                continue
            s = cur if d is False else cur.clone()
            if s.assume(c, False):
                v = E.ret(s, i, "order")
                s.assume(E.icmp(s, "eq", v, T(w, 0)), False)
                r.append(cx.Out("ret", s, v))
            if d is False:
                return r
            if not cur.assume(c, True):
                return r
        return r + [cx.Out("ret", cur, T(w, 0))]

    def symbol(self, E, st, f, i, av):
        n = "&symbol%d" % E.tick(st)
        st.mem[n] = {T(self.W, self.m.O[0]): (self.P, T(self.W, self.m.tags["TSYMBOL"]))}
        return [cx.Out("ret", st, bv.var(n, self.W))]

    def strlen(self, E, st, f, i, av):
        s = mesc.cstring(self.m.M, av[0])
        if s is None:
            raise cx.Limit("%s (line %s): strlen of %r" % (f.name, i.line, av[0]))
        return [cx.Out("ret", st, T(E.tw(i.ty), len(s)))]

    def offset(self, f):
        x = bv.var("&q", self.W)
        if f not in self.m.M.funcs:
            raise report.Broken(f + " not found")
        o = [o for o in self.E.run(f, [x], cx.State()) if o.kind == "ret"]
        d = bv.sub(o[0].val, x) if len(o) == 1 else None
        if d is None or not d.isconst():
            raise report.Broken(f + " is not at a fixed place")
        return d.c

    # ------------------------------------------------------------ objects in memory
    def fresh(self):
        W, P = self.W, self.P
        st = cx.State()
        for g, t in (("g_free", bv.add(bv.var("&heap", W), T(W, BIG * self.m.CELL))), ("g_cells", bv.var("&heap", W)), ("ARENA_SIZE", T(W, 100000)), ("MAX_STRING", None), ("g_buf", bv.var("&buf", W))):
            if g not in self.m.M.globals:
                raise report.Broken(g + " is not a variable")
            n = self.m.M.size(self.m.M.globals[g][0])
            st.mem["@" + g] = {T(W, 0): (n, t if t is not None else T(n * 8, 524288))}
        return st

    def put(self, st, o):
        """the address of o, laid out in memory"""
        m, W, P = self.m, self.W, self.P
        if o.kind == "special":
            if o.a[0] not in m.special:
                raise report.Broken(o.a[0] + " not found")
            return bv.var("^" + o.a[0], W)
        if o.kind == "at":                               # an object that an earlier call made
            return o.a[0]
        x = bv.var(o.base, W)
        if o.base in st.mem:
            return x
        w = [T(W, m.tags[TAG[o.kind]]), T(W, 0), T(W, 0)]
        st.mem[o.base] = {}
        if o.kind in ("pair", "clos"):
            w[1:] = [self.put(st, y) for y in o.a]
        elif o.kind in ("num", "chr"):
            w[2] = o.a[0]
        elif o.kind in ("str", "sym", "kw"):
            bs = o.a[0]
            b = o.base + "b"
            st.mem[b] = {T(W, m.O[0]): (P, T(W, m.tags["TBYTES"])), T(W, m.O[1]): (P, T(W, len(bs) + 1))}
            for k, y in enumerate(list(bs) + [T(8, 0)]):
                st.mem[b][T(W, self.bytes_at + k)] = (1, y)
            w[1:] = [T(W, len(bs)), bv.var(b, W)]
        elif o.kind in ("vec", "struct"):
            v = o.base + "v"
            st.mem[v] = {}
            for k, y in enumerate(o.a[0]):
                e = [T(W, m.tags["TREF"]), self.put(st, y), T(W, 0)]
                if y.kind in ("num", "chr"):
                    e = [T(W, m.tags[TAG[y.kind]]), T(W, 0), y.a[0]]
                for j in range(3):
                    st.mem[v][T(W, k * m.CELL + m.O[j])] = (P, e[j])
            w[1:] = [T(W, len(o.a[0])), bv.var(v, W)]
        st.mem[o.base] = {T(W, m.O[j]): (P, w[j]) for j in range(3)}
        return x

    # ------------------------------------------------------------ comparing
    def word(self, st, x, j, off=0):
        return self.E.load(st, bv.add(x, T(self.W, self.m.O[j] + off)), self.P)

    def truth(self, st, c):
        d = st.decide(c)
        if d is None:
            raise Fork(c)
        return d

    def eq(self, st, a, b):
        return self.truth(st, self.E.icmp(st, "eq", a, b))

    def same(self, st, a, b, what):
        if a != b and not self.alike(st, a, b) and not self.eq(st, a, b):
            raise Bad("%s is %s, not %s" % (what, self.show(a), self.show(b)))

    def show(self, t):
        if t.t:
            return repr(t)
        v = t.c & ((1 << t.w) - 1)
        return str(v - (1 << t.w) if v >> (t.w - 1) else v)

    def alike(self, st, a, b):
        """the same for every value of the byte they depend on that takes this path"""
        names = atoms(a) | atoms(b)
        if len(names) != 1 or a.w != b.w or list(names)[0][1] != 8:
            return False
        n = list(names)[0][0]
        try:
            return all(vset.term(a, {n: v}) == vset.term(b, {n: v}) for v in range(256))
        except vset.Unknown:
            return False

    def tag(self, st, x, kind, what):
        t = self.word(st, x, 0)
        n = self.m.tags[TAG[kind]]
        if not (t.isconst() and t.c == n):
            raise Bad("%s has the type %s, not %s" % (what, self.m.typename(t.c) if t.isconst() else repr(t), TAG[kind]))

    def match(self, st, x, want, what="the result"):
        """x is what is wanted: an Obj itself, or a description of an object"""
        W = self.W
        if isinstance(want, Obj):
            w = self.put(st, want) if want.kind in ("special", "at") or want.base in st.mem else None
            if w is None or x != w:
                raise Bad("%s is %s, not %s" % (what, self.name(st, x), want))
            return
        k = want[0]
        if k == "val":                                    # the object, or a copy of a number or character
            o = want[1]
            if o.kind in ("num", "chr"):
                if x == self.put(st, o):
                    return
                if len(x.t) == 1 and x.t[0][0][0] == "v" and x.t[0][0][1].startswith("&o") and x.t[0][0][1][-1] == "v":
                    raise Bad("%s is a cell inside the %s, not a copy of it" % (what, self.names[x.t[0][0][1][:-1]].kind if x.t[0][0][1][:-1] in self.names else "operand"))
                return self.match(st, x, (o.kind, o.a[0]), what)
            return self.match(st, x, o, what)
        if k in ("new", "pair"):
            self.tag(st, x, "pair", what)
            if k == "new" and not self.isnew(x):
                raise Bad("%s is %s, not a new pair" % (what, self.name(st, x)))
            self.match(st, self.word(st, x, 1), want[1], "the car of " + what)
            return self.match(st, self.word(st, x, 2), want[2], "the cdr of " + what)
        if k in ("num", "chr"):
            self.tag(st, x, k, what)
            return self.same(st, self.word(st, x, 2), want[1], "the value of " + what)
        if k in ("str", "kw", "sym"):
            self.tag(st, x, k, what)
            self.same(st, self.word(st, x, 1), T(W, len(want[1])), "the length of " + what)
            b = self.word(st, x, 2)
            for j, y in enumerate(list(want[1]) + [T(8, 0)]):
                self.same(st, self.E.load(st, bv.add(b, T(W, self.bytes_at + j)), 1), y, "byte %d of %s" % (j, what))
            return
        if k in ("vec", "struct"):
            self.tag(st, x, k, what)
            self.same(st, self.word(st, x, 1), T(W, len(want[1])), "the length of " + what)
            v = self.word(st, x, 2)
            for j, y in enumerate(want[1]):
                self.entry(st, bv.add(v, T(W, j * self.m.CELL)), y, "element %d of %s" % (j, what))
            return
        if k == "values":
            t = self.word(st, x, 0)
            if not (t.isconst() and t.c == self.m.tags["TVALUES"]):
                raise Bad("%s is not a values object" % what)
            return self.match(st, self.word(st, x, 2), want[1], "the list in " + what)
        if k == "any":
            return
        raise report.Broken("no such description: %r" % (want,))

    def entry(self, st, e, want, what):
        t = self.word(st, e, 0)
        if t.isconst() and t.c == self.m.tags["TREF"]:
            return self.match(st, self.word(st, e, 1), ("val", want), what)
        if not isinstance(want, Obj) or want.kind not in ("num", "chr"):
            raise Bad("%s is not %s" % (what, want))
        self.match(st, e, (want.kind, want.a[0]), what)

    def isnew(self, x):
        return len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0][:2] == ("v", "&heap")

    def name(self, st, x):
        if len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0][0] == "v":
            n = x.t[0][0][1]
            if n in self.names and not x.c:
                return repr(self.names[n])
            if n[0] == "^":
                return repr(Obj("special", n[1:]))
            if n == "&heap":
                t = self.word(st, x, 0)
                return "a new %s" % (self.m.typename(t.c)[1:].lower() if t.isconst() else "object")
        return self.show(x)

    # ------------------------------------------------------------ one case
    def collect(self, o, d):
        if isinstance(o, Obj) and o.base not in d:
            d[o.base] = o
            for a in o.a:
                for y in (a if isinstance(a, (list, tuple)) else (a,)):
                    self.collect(y, d)

    def case(self, name, ops, want, mutates=(), st=None, fails=False, after=None):
        """the built-in on these operands gives what is wanted: a description, or a function (state) of one"""
        if (name,) in self.failed or self.long and self.endless:
            return None
        p, m = self.p, self.m
        if name not in p.reg:
            raise report.Broken("there is no built-in %s" % name)
        ar, fn, line = p.reg[name]
        self.names = {}
        st = st.clone() if st is not None else self.fresh()
        for o in ops:
            self.collect(o, self.names)
        args = [self.put(st, o) for o in ops]
        if ar == -1:
            args = [p.list(st, args, pre="&args%d_" % Obj.n)]
        before = {b: dict(r) for b, r in st.mem.items() if b and b[0] == "&" and b not in ("&heap", "&buf")}
        what = "".join(" %r" % o for o in ops)
        what = "(%s%s)" % (name, what if len(what) < 100 else what[:60] + " ...")
        self.out.count("cases")
        self.E.steps = 0
        try:
            outs = self.E.run(fn, args, st)
        except cx.Limit as e:
            if self.long and self.E.steps > self.E.max_steps:        # ten times what the longest takes
                Checker.endless = True                                   # one is enough: they take long to decide
                return self.bad(name, what, "does not come to an end", fn)
            if self.long:
                return None
            raise report.Broken("%s (%s): %s" % (what, self.arch, e))
        except Bad as e:
            return self.bad(name, what, str(e), fn)
        if self.long:
            self.out.count("cases of 260 elements")
        rets = []
        for o in outs:
            work = [o.state]
            while work:
                s = work.pop()
                try:
                    if o.kind != "ret":
                        if fails:
                            continue
                        raise Bad("stops (%s%s)" % (o.kind, ": %s" % (o.info,) if o.info else ""))
                    w = want(s) if callable(want) else want
                    if fails and w is None:
                        raise Bad("is accepted")
                    self.match(s, o.val, w)
                    if after is not None:
                        after(s)
                    for b, r in before.items():
                        if b in mutates:
                            continue
                        for off, (n, v) in r.items():
                            e = s.mem.get(b, {}).get(off)
                            if e is None or e != (n, v) and not (e[0] == n and s.decide(self.E.icmp(s, "eq", e[1], v))):
                                raise Bad("changes its operand (%s)" % self.names.get(b.rstrip("bv"), b))
                    rets.append((s, o.val))
                    self.out.count("paths")
                except Fork as e:
                    for v in (True, False):
                        t = s.clone()
                        if t.assume(e.t, v):
                            work.append(t)
                except Bad as e:
                    return self.bad(name, what, str(e), fn)
        if not outs or not fails and not rets:
            raise report.Broken("%s (%s): no outcome" % (what, self.arch))
        return rets

    def bad(self, name, what, msg, fn):
        self.failed.add((name,))
        f = self.m.M.funcs[fn]
        self.out.violation("%s" % name, "%s: %s (%s): %s: %s" % (f.file, fn, self.arch, what, msg))
        return None


def check(out):
    out.cov["explanation"] = (
        "Each built-in on pairs, lists, strings, symbols, keywords, vectors, structures and hash tables is evaluated abstractly, together with everything it calls down to the allocator, on operands of every small shape whose numbers, characters and bytes are unknown. "
        "On every path the object returned, read back from the abstract memory, must be the one the Scheme definition gives under the equalities that path has decided (new pairs where new pairs are due, the same object where identity is due), "
        "and no operand may have changed that the built-in is not named after changing.")
    for arch in ("x86_64", "x86"):
        c = Checker(out, arch)
        for part in (long_operands, pairs, equality, lookup, strings, vectors, any_length, structures, tables, environment, symbols, modules, builtins):
            part(c)
    out.need("cases of 260 elements", 24)
    out.need("cases", 1200)
    out.need("paths", 1200)


def unknown(c, kind, name):
    return Obj(kind, bv.var(name, c.W) if kind == "num" or c.W == 32 else bv.ext(bv.var(name, 32), c.W, True, None))     # a character is an int


def string(c, name, n, kind="str"):
    return Obj(kind, [bv.var("%s%d" % (name, k), 8) for k in range(n)])


def things(c, pre=""):
    """one object of each type, of unknown contents"""
    return [unknown(c, "num", pre + "n"), unknown(c, "chr", pre + "c"), string(c, pre + "s", 2), string(c, pre + "y", 1, "sym"), string(c, pre + "k", 1, "kw"), pair(unknown(c, "num", pre + "a"), NIL),
            Obj("vec", [unknown(c, "num", pre + "v")]), Obj("struct", [string(c, pre + "t", 1, "sym"), UNSPEC]), NIL, F, TRUE, UNSPEC]


def new(items, tail):
    for x in reversed(items):
        tail = ("new", x, tail)
    return tail


def pairs(c):
    ts = things(c)
    for a in ts:
        for b in (ts[0], ts[3], pair(ts[1], NIL), NIL):
            c.case("cons", [a, b], ("new", a, b))
            p = pair(a, b)
            for n in ("car", "core:car"):
                c.case(n, [p], a)
            for n in ("cdr", "core:cdr"):
                c.case(n, [p], b)
            c.case("set-car!", [p, ts[2]], UNSPEC, mutates=(p.base,), after=lambda s: (c.match(s, c.word(s, bv.var(p.base, c.W), 1), ts[2], "the car then"), c.match(s, c.word(s, bv.var(p.base, c.W), 2), b, "the cdr then")))
            c.case("set-cdr!", [p, ts[2]], UNSPEC, mutates=(p.base,), after=lambda s: (c.match(s, c.word(s, bv.var(p.base, c.W), 2), ts[2], "the cdr then"), c.match(s, c.word(s, bv.var(p.base, c.W), 1), a, "the car then")))
            c.case("acons", [a, b, p], ("new", ("new", a, b), p))
        c.case("null?", [a], TRUE if a is NIL else F)
        c.case("pair?", [a], TRUE if a.kind == "pair" else F)
        if a.kind != "special":
            c.case("core:type", [a], ("num", T(c.W, c.m.tags[TAG[a.kind]])))
    for n in range(5):
        # every element of another type
        items = [ts[k % 8] for k in range(n)]
        l = lst(items)
        c.case("length", [l], ("num", T(c.W, n)))
        c.case("list", items, lambda s: desc(items))
        c.case("values", items, lambda s: ("values", desc(items)))
        x = l
        for k in range(n - 1):
            x = x.a[1]
        c.case("last-pair", [l], x)
        for tail in (NIL, ts[0], lst([ts[1], ts[2]])):
            c.case("append2", [l, tail], new(items, tail) if n else tail)
            c.case("append-reverse", [l, tail], new(items[::-1], tail))
            l2 = lst(items)
            cells, x = [], l2
            while x.kind == "pair":
                cells.append(x.base)
                x = x.a[1]
            c.case("core:reverse!", [l2, tail], desc(items[::-1], tail), mutates=tuple(cells))
    for tail in (ts[0], ts[3], TRUE):
        c.case("length", [lst([ts[1]], tail)], ("num", T(c.W, -1)))
        c.case("length", [tail], ("num", T(c.W, -1)))
    c.case("char->integer", [ts[1]], ("num", ts[1].a[0]))
    c.case("integer->char", [Obj("num", bv.ext(bv.var("i", 32), c.W, True, None) if c.W > 32 else bv.var("i", 32))], ("chr", bv.ext(bv.var("i", 32), c.W, True, None) if c.W > 32 else bv.var("i", 32)))


def long_operands(c):
    """more elements than a narrow counter holds"""
    W, L = c.W, 260
    sys.setrecursionlimit(20000)
    peel, c.E.peel, depth, c.E.depth = c.E.peel, 10 ** 6, c.E.depth, 2 * L + 40
    c.long = True
    num = lambda k: Obj("num", T(W, k))
    items = [num(k) for k in range(L)]
    l = lst(items)
    cells, x = [], l
    while x.kind == "pair":
        cells.append(x)
        x = x.a[1]
    bs = [T(8, 1 + k % 127) for k in range(L)]
    text = lambda kind="str", b=bs: Obj(kind, list(b))
    chars = [Obj("chr", bv.ext(b, W, False, None)) for b in bs]
    v = Obj("vec", items)
    c.case("length", [l], ("num", T(W, L)))
    c.case("last-pair", [l], cells[-1])
    c.case("memq", [cells[-1].a[0], l], cells[-1])
    c.case("append2", [l, NIL], new(items, NIL))
    c.case("append-reverse", [l, NIL], new(items[::-1], NIL))
    c.case("list->vector", [l], ("vec", items))
    c.case("vector->list", [v], new([("val", e) for e in items], NIL))
    c.case("vector-length", [v], ("num", T(W, L)))
    c.case("vector-ref", [v, num(L - 1)], ("val", items[-1]))
    c.case("make-vector", [num(L)], ("vec", [UNSPEC] * L))
    c.case("make-vector", [num(L), items[0]], ("vec", [items[0]] * L))
    typ = string(c, "ty", 2, "sym")
    c.case("make-struct", [typ, l, UNSPEC], ("struct", [typ, UNSPEC] + items))
    c.case("equal2?", [v, Obj("vec", items[:-1] + [num(L)])], F)
    c.case("equal2?", [v, Obj("vec", [num(k) for k in range(L)])], TRUE)
    c.case("equal2?", [l, lst([num(k) for k in range(L)])], TRUE)
    c.case("string-length", [text()], ("num", T(W, L)))
    c.case("string-ref", [text(), num(L - 1)], ("chr", chars[-1].a[0]))
    c.case("string->list", [text()], new([("chr", x.a[0]) for x in chars], NIL))
    c.case("list->string", [lst(chars)], ("str", bs))
    c.case("symbol->string", [text("sym")], ("str", bs))
    c.case("string-append", [text(), text()], ("str", bs + bs))
    c.case("string=?", [text(), text()], TRUE)
    c.case("string=?", [text(), text(b=bs[:-1])], F)
    c.case("string=?", [text(), text(b=bs[:L - 256])], F)
    c.case("string=?", [text(), text(b=bs[:-1] + [T(8, 200)])], F)
    c.E.peel, c.E.depth, c.long = peel, depth, False


def desc(items, tail=NIL):
    for x in reversed(items):
        tail = ("pair", x, tail)
    return tail


# ---------------------------------------------------------------- equality
def bytes_equal(c, s, a, b):
    return len(a) == len(b) and all(c.eq(s, x, y) for x, y in zip(a, b))


def is_eq(c, s, a, b):
    if a is b:
        return True
    if a.kind == b.kind and a.kind in ("num", "chr"):
        return c.eq(s, a.a[0], b.a[0])
    if a.kind == b.kind == "kw":
        return bytes_equal(c, s, a.a[0], b.a[0])
    return False


def is_equal(c, s, a, b):
    if is_eq(c, s, a, b):
        return True
    if a.kind != b.kind:
        return False
    if a.kind == "pair":
        return is_equal(c, s, a.a[0], b.a[0]) and is_equal(c, s, a.a[1], b.a[1])
    if a.kind == "str":
        return bytes_equal(c, s, a.a[0], b.a[0])
    if a.kind == "vec":
        return len(a.a[0]) == len(b.a[0]) and all(is_equal(c, s, x, y) for x, y in zip(a.a[0], b.a[0]))
    return False


def boolean(f):
    return lambda s: TRUE if f(s) else F


def equality(c):
    one, two = things(c, "l"), things(c, "r")
    one += [string(c, "l0", 0), string(c, "l1", 1), string(c, "lk", 2, "kw"), Obj("vec", [])]
    two += [string(c, "r0", 0), string(c, "r1", 1), string(c, "rk", 2, "kw"), Obj("vec", [])]
    for a in one:
        for b in two + [a]:
            c.case("eq?", [a, b], boolean(lambda s: is_eq(c, s, a, b)))
            c.case("equal2?", [a, b], boolean(lambda s: is_equal(c, s, a, b)))
    num = lambda n: unknown(c, "num", n)
    ls = lambda p: [lst([num(p + "a"), num(p + "b")]), lst([num(p + "a"), num(p + "b"), num(p + "c")]), lst([num(p + "a")], num(p + "d")), lst([lst([num(p + "a")]), num(p + "b")]),
                    lst([string(c, p + "s", 1), string(c, p + "y", 1, "sym")]), Obj("vec", [num(p + "a"), string(c, p + "s", 1)]), Obj("vec", [lst([num(p + "a")]), unknown(c, "chr", p + "c")]),
                    Obj("vec", [Obj("vec", [num(p + "a")]), num(p + "b"), num(p + "c")])]
    for a in ls("l"):
        for b in ls("r"):
            c.case("equal2?", [a, b], boolean(lambda s: is_equal(c, s, a, b)))
    shared = string(c, "y", 1, "sym")
    c.case("equal2?", [lst([shared, num("la")]), lst([shared, num("ra")])], boolean(lambda s: c.eq(s, bv.var("la", c.W), bv.var("ra", c.W))))


def lookup(c):
    keys = things(c, "x")
    for x in keys:
        others = [o for o in things(c, "e") if o.kind == x.kind and o.kind != "special"] + ([x] if x.kind == "special" else [])
        els = [x, (things(c, "f")[0] if x.kind != "num" else things(c, "f")[3])] + others[:1]
        for n in range(4):
            for es in itertools.product(els, repeat=n):
                if n == 3 and len(set(map(id, es))) == 1:
                    continue
                l = lst(list(es))
                tails = [l]
                while tails[-1].kind == "pair":
                    tails.append(tails[-1].a[1])
                first = lambda s, test: next((k for k in range(n) if test(c, s, x, es[k])), None)

                def memq(s):
                    k = first(s, is_eq)
                    return F if k is None else tails[k]
                c.case("memq", [x, l], memq)
                ents = [pair(e, unknown(c, "num", "w%d" % k)) for k, e in enumerate(es)]
                al = lst(ents)

                def assq(s):
                    k = first(s, is_eq)
                    return F if k is None else ents[k]

                def assoc(s):
                    k = first(s, is_equal)
                    return F if k is None else ents[k]
                c.case("assq", [x, al], assq)
                c.case("assoc", [x, al], assoc)
                rev = [pair(unknown(c, "num", "w%d" % k), e) for k, e in enumerate(es)]
                k = next((k for k in range(n) if es[k] is x), None)
                c.case("xassq", [x, lst(rev)], F if k is None else rev[k])


def strings(c):
    W = c.W
    for n in range(4):
        s = string(c, "s", n)
        bs = s.a[0]
        chars = [("chr", bv.ext(b, W, False, None)) for b in bs]
        for k in ("str", "sym", "kw"):
            c.case("string->list", [string(c, "s", n, k)], new(chars, NIL))
        c.case("string-length", [s], ("num", T(W, n)))
        for k in range(n):
            c.case("string-ref", [s, Obj("num", T(W, k))], chars[k])
        c.case("symbol->string", [string(c, "s", n, "sym")], ("str", bs))
        c.case("symbol->keyword", [string(c, "s", n, "sym")], ("kw", bs))
        c.case("keyword->string", [string(c, "s", n, "kw")], ("str", bs))
        c.case("list->string", [lst([Obj("chr", bv.ext(b, W, False, None)) for b in bs])], ("str", bs))
        for n2 in range(3):
            t = string(c, "t", n2)
            c.case("string=?", [s, t], boolean(lambda st: bytes_equal(c, st, s.a[0], t.a[0])))
            c.case("string-append", [s, t], ("str", bs + t.a[0]))
            u = string(c, "u", 1)
            c.case("string-append", [s, t, u], ("str", bs + t.a[0] + u.a[0]))
        c.case("string=?", [s, s], TRUE)
        c.case("string-append", [s], ("str", bs))
    c.case("string-append", [], ("str", []))


def slots(c):
    ts = things(c, "e")
    return [[], [ts[0]], [ts[3]], [ts[1], ts[0]], [ts[5], ts[2], ts[0]], [ts[0], ts[8], ts[1], ts[4]]]


def vectors(c):
    W = c.W
    num = lambda k: Obj("num", T(W, k))
    fill = things(c, "x")
    for es in slots(c):
        n = len(es)
        v = Obj("vec", es)
        c.case("vector-length", [v], ("num", T(W, n)))
        c.case("list->vector", [lst(es)], ("vec", es))
        c.case("vector->list", [v], new([("val", e) for e in es], NIL))
        for k in range(n):
            c.case("vector-ref", [v, num(k)], ("val", es[k]))
            for x in fill:
                def after(s, k=k, x=x):
                    a = bv.var(v.base, W)
                    c.match(s, a, ("vec", es[:k] + [x] + es[k + 1:]), "the vector then")
                c.case("vector-set!", [v, num(k), x], UNSPEC, mutates=(v.base + "v",), after=after)
    for n in range(4):
        c.case("make-vector", [num(n)], ("vec", [UNSPEC] * n))
        for x in fill:
            c.case("make-vector", [num(n), x], ("vec", [x] * n))


def any_length(c):
    """make-vector of an unknown number: only the length"""
    W = c.W
    k = bv.var("k", W)
    x = Obj("num", T(W, 7))
    for ops in ([Obj("num", k)], [Obj("num", k), x]):
        p = c.p
        ar, fn, line = p.reg["make-vector"]
        st = c.fresh()
        args = [p.list(st, [c.put(st, o) for o in ops], pre="&args%d_" % Obj.n)] if ar == -1 else [c.put(st, o) for o in ops]
        peel, c.E.peel, c.E.steps = c.E.peel, 0, 0
        try:
            outs = c.E.run(fn, args, st)
        except cx.Limit:
            continue
        finally:
            c.E.peel = peel
        for o in outs:
            if o.kind != "ret":
                continue
            n = c.word(o.state, o.val, 1)
            if o.state.decide(c.E.icmp(o.state, "eq", n, k)) is not True:
                c.bad("make-vector", "(make-vector k%s)" % " x"[:2 * (len(ops) - 1)], "the length of the result is %r, not k" % n, fn)
            c.out.count("lengths of k")


def structures(c):
    W = c.W
    num = lambda k: Obj("num", T(W, k))
    typ, prt = string(c, "ty", 2, "sym"), string(c, "pr", 1, "sym")
    fill = things(c, "x")
    for es in slots(c):
        c.case("make-struct", [typ, lst(es), prt], ("struct", [typ, prt] + es))
        c.case("make-struct", [typ, lst(es), UNSPEC], ("struct", [typ, UNSPEC] + es))
        all_ = [typ, prt] + es
        v = Obj("struct", all_)
        c.case("struct-length", [v], ("num", T(W, len(all_))))
        for k in range(len(all_)):
            c.case("struct-ref", [v, num(k)], ("val", all_[k]))
            for x in fill[::3]:
                def after(s, k=k, x=x):
                    c.match(s, bv.var(v.base, W), ("struct", all_[:k] + [x] + all_[k + 1:]), "the structure then")
                c.case("struct-set!", [v, num(k), x], UNSPEC, mutates=(v.base + "v",), after=after)


def named(text, kind="sym"):
    return Obj(kind, [T(8, ord(x)) for x in text])


def made(r):
    """what an earlier call made, as an operand; and the state after it"""
    if len(r) != 1:
        raise report.Broken("a call has %d outcomes: %r" % (len(r), [(v, s.facts) for s, v in r]))
    return r[0][0], Obj("at", r[0][1])


def tables(c):
    """a table that was just made works as one"""
    for size in (1, 2, 5, 256):
        peel, c.E.peel = c.E.peel, max(c.E.peel, size + 20)
        r = c.case("make-hash-table", [Obj("num", T(c.W, size))], ("any",))
        c.E.peel = peel
        if r is None:
            return
        st, t = made(r)
        if size:
            for ref, set_, kind in (("hashq-ref", "hashq-set!", "sym"), ("hash-ref", "hash-set!", "str")):
                ks = [named(x, kind) for x in ("a", "b", "zz")]
                v = unknown(c, "num", "v")
                s2 = st
                for k in ks[:2]:
                    c.case(ref, [t, k, F], F, st=s2)
                    r = c.case(set_, [t, k, v], v, st=s2)
                    if r is None:
                        return
                    s2 = r[0][0]
                    c.case(ref, [t, k, F], ("val", v), st=s2)
                    c.case(ref, [t, ks[2], F], F, st=s2)
    stored(c)


def stored(c):
    """what is put in a hash table is what is got from it, and nothing else is"""
    W = c.W
    keys = [named(x) for x in ("a", "b", "ab", "zz", "a1")]
    vals = [unknown(c, "num", "v0"), string(c, "v1", 1), pair(unknown(c, "num", "v2"), NIL), F, NIL]
    dflt = [pair(string(c, "d", 1), NIL), F]
    for size in (1, 2, 3, 7):
        for ref, set_, kind in (("hashq-ref", "hashq-set!", "sym"), ("hash-ref", "hash-set!", "str")):
            ks = [named("".join(chr(b.c) for b in k.a[0]), kind) for k in keys]
            table = hashed(c, size)
            for plan in ([], [0], [0, 1], [1, 0, 2], [0, 0], [2, 3, 4, 1], [4, 0, 4]):
                st = c.fresh()
                c.put(st, table)
                b = table.a[0][4].base + "v"
                have = {}
                for j, k in enumerate(plan):
                    r = c.case(set_, [table, ks[k], vals[j]], vals[j], mutates=(b,), st=st)
                    if r is None:
                        break
                    if len(r) != 1:
                        raise report.Broken("%s has %d outcomes" % (set_, len(r)))
                    st = r[0][0]
                    have[k] = vals[j]
                else:
                    for k, key in enumerate(ks):
                        for d in dflt:
                            want = have.get(k, d.a[0] if d is not F else F)
                            c.case(ref, [table, key, d], ("val", want), st=st)


def environment(c):
    ts = things(c)
    base = lst([pair(string(c, "z", 1, "sym"), ts[1])])
    names = [string(c, "p%d" % k, 1, "sym") for k in range(3)]
    for n in range(4):
        args = [ts[k] for k in (0, 5, 2)][:n]
        c.case("pairlis", [lst(names[:n]), lst(args), base], new([("new", a, b) for a, b in zip(names, args)], base))
        rest = string(c, "r", 1, "sym")
        for more in ([], [ts[1]], [ts[3], ts[0]]):
            tail = lst(more)
            c.case("pairlis", [lst(names[:n], rest), lst(args, tail), base], new([("new", a, b) for a, b in zip(names, args)] + [("new", rest, tail)], base))
        c.case("add-formals", [base, lst(names[:n])], new(names[:n][::-1], base))
        c.case("add-formals", [base, lst(names[:n], rest)], new([rest] + names[:n][::-1], base))


def hashed(c, size):
    return Obj("struct", [named("hashq-table"), UNSPEC, named("h"), Obj("num", T(c.W, size)), Obj("vec", [UNSPEC] * size)])


def symbols(c):
    """a name has one symbol; names that differ have different symbols"""
    W = c.W
    texts = ["a", "b", "ab", "abc", "abd", ""]
    for size in (1, 3):
        table = hashed(c, size)
        b = table.a[0][4].base + "v"
        st = c.fresh()
        st.mem["@g_symbols"] = {T(W, 0): (c.P, c.put(st, table))}
        got = {}
        for t in texts + texts:
            s = named(t, "str")
            if t not in got:
                r = c.case("string->symbol", [s], ("sym", s.a[0]), st=st, mutates=(b,))
                if r is None:
                    return
                st, got[t] = made(r)
                if any(o.a[0] == got[t].a[0] for k, o in got.items() if k != t):
                    return c.bad("string->symbol", "two names", "give the same symbol", c.p.reg["string->symbol"][1])
                if t == "b":
                    s2 = named("made", "str")
                    r = c.case("make-symbol", [s2], ("sym", s2.a[0]), st=st, mutates=(b,))
                    if r is None:
                        return
                    st, got["made"] = made(r)
                    texts = texts + ["made"]
            else:
                c.case("string->symbol", [s], got[t], st=st)
        c.case("string->symbol", [named("made", "str")], got["made"], st=st)


def modules(c):
    """a name is looked up among the locals first, then among what was defined"""
    W = c.W
    names = [named(x) for x in ("a", "b", "ab", "q")]
    vals = [unknown(c, "num", "v0"), string(c, "v1", 1), F, pair(NIL, NIL)]
    for size in (1, 3):
        table = hashed(c, size)
        b = table.a[0][4].base + "v"
        mod = Obj("struct", [named("module"), UNSPEC, named("m"), named("boot"), NIL, table])
        st = c.fresh()
        st.mem["@M0"] = {T(W, 0): (c.P, c.put(st, mod))}
        have = {}
        for k, v in ((0, 0), (1, 1), (2, 2), (0, 3)):
            r = c.case("module-define!", [NIL, names[k], vals[v]], vals[v], st=st, mutates=(b,))
            if r is None:
                return
            st, x = made(r)
            have[k] = vals[v]
            for j, n in enumerate(names):
                u = Obj("special", "cell_undefined")
                c.case("module-ref", [NIL, n], have.get(j, u), st=st)
                c.case("module-variable", [NIL, n], ("pair", n, have[j]) if j in have else F, st=st)
                other = pair(names[(j + 1) % 4], NIL)
                mine = pair(n, vals[1])
                for l in ([mine], [other, mine], [mine, pair(n, NIL)]):
                    c.case("module-ref", [lst(l), n], vals[1], st=st)
                    c.case("module-variable", [lst(l), n], mine, st=st)
                c.case("module-ref", [lst([other]), n], have.get(j, u), st=st)


def builtins(c):
    W = c.W
    ts = things(c)
    tag = Obj("special", "cell_symbol_builtin")
    typ, name, arity, fn = string(c, "ty", 1, "sym"), string(c, "nm", 2), unknown(c, "num", "ar"), unknown(c, "num", "fn")
    r = c.case("make-builtin", [typ, name, arity, fn], ("any",))
    if r is None:
        return
    st, x = made(r)
    c.case("builtin?", [x], TRUE, st=st)
    c.case("builtin-name", [x], name, st=st)
    c.case("builtin-arity", [x], ("val", arity), st=st)
    for o in ts:
        c.case("builtin?", [o], F)
    for es in ([], [ts[0]], [ts[3], tag], [ts[0], ts[1], tag]):
        c.case("builtin?", [Obj("struct", [ts[3], UNSPEC] + es)], F)
    c.case("builtin?", [Obj("struct", [ts[3], UNSPEC, tag])], TRUE)
