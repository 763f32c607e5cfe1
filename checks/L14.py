"""L14: the string and memory functions compute what ISO C defines."""
import itertools
from vt import bv, cx, lib, objs, report, vset
from vt.bv import T

V = (0, 1, 97, 98, 200)
FEW = (0, 97, 98)
CHARS = (0, 97, 200, 200 - 256, 256 + 97, 256)


def check(out):
    out.cov["explanation"] = (
        "Every function of lib/string (and the three __mem* ones) is evaluated abstractly on arrays of unknown bytes of every length up to the bound, on every architecture: a path is the set of byte values that "
        "take it, with one result term and one final memory. For every combination of representative byte values (NUL, letters, bytes above 127) exactly the paths that admit it are taken, and their result and memory "
        "must be the ones ISO C defines. Every access on every path must lie in the arrays given, whose sizes are the least that the standard lets the caller pass.")
    for arch in lib.ARCH:
        srcs = [s for s in lib.sources(arch) if s.startswith("lib/string/") or s.startswith("lib/ctype/")]
        Str(out, arch, lib.linked(arch, srcs)).decide()
    out.need("functions", 90)
    out.need("paths", 1000)
    out.need("combinations of values", 20000)


def cut(b):
    """the string at the start of bytes"""
    return b[:b.index(0)] if 0 in b else b


def sign(x):
    return (x > 0) - (x < 0)


L = 300            # long arrays, for counters too narrow


class Case:
    """arrays: name -> (size, terminated); args: terms or ("p", array, offset)"""

    def __init__(self, arrays, args, spec, values=V, chars=None, ret="value"):
        self.arrays, self.args, self.spec, self.values, self.chars, self.ret = arrays, args, spec, values, chars, ret


def P(a, k=0):
    return ("p", a, k)


def cases():
    """function -> [Case]; spec(mem: {array: [bytes]}, c) -> (result, memory changes)
    result: None, an int, ("p", array, offset), ("s", sign), ("z", is zero)"""
    r = {}

    def add(f, *a, **k):
        r.setdefault(f, []).append(Case(*a, **k))
    for n in range(5):
        s = {"s": (n + 1, True)}
        vals = V if n < 4 else FEW
        add("strlen", s, [P("s")], lambda m, c: (len(cut(m["s"])), {}), vals)
        if n < 4:
            add("strdup", s, [P("s")], lambda m, c: (("new", bytes(cut(m["s"]) + [0])), {}), vals)
            for f in ("strlwr", "strupr"):
                def case(m, c, f=f):
                    t = cut(m["s"])
                    t = [x + 32 if f == "strlwr" and 65 <= x <= 90 else x - 32 if f == "strupr" and 97 <= x <= 122 else x for x in t]
                    return P("s"), {"s": t + m["s"][len(t):]}
                if n < 3:
                    add(f, s, [P("s")], case, (0, 65, 90, 91, 64, 96, 97, 122, 123, 200, 233))
            for f in ("strchr", "index"):
                def find(m, c):
                    t = cut(m["s"]) + [0]
                    return P("s", t.index(c & 255)) if c & 255 in t else 0, {}
                add(f, s, [P("s"), "c"], find, V if n < 3 else FEW + (200,), chars=CHARS)
            for f in ("strrchr", "rindex"):
                def last(m, c):
                    t = cut(m["s"]) + [0]
                    return P("s", len(t) - 1 - t[::-1].index(c & 255)) if c & 255 in t else 0, {}
                add(f, s, [P("s"), "c"], last, V if n < 3 else FEW + (200,), chars=CHARS)
    for n in range(4):
        def mchr(m, c):
            return P("s", m["s"].index(c & 255)) if c & 255 in m["s"] else 0, {}
        add("memchr", {"s": (n, False)}, [P("s"), "c", ("n", n)], mchr, FEW + (200,), chars=CHARS)
        ab = {"a": (n, False), "b": (n, False)}
        vals = V + (127, 128) if n < 3 else FEW

        def mcmp(m, c):
            return ("s", sign((m["a"] > m["b"]) - (m["a"] < m["b"]))), {}
        add("memcmp", ab, [P("a"), P("b"), ("n", n)], mcmp, vals)
        add("bcmp", ab, [P("a"), P("b"), ("n", n)], lambda m, c: (("z", m["a"] == m["b"]), {}), vals)

        def ncmp(m, c, n=n):
            x, y = (cut(m[k])[:n] for k in "ab")
            return ("s", (x > y) - (x < y)), {}
        add("strncmp", ab, [P("a"), P("b"), ("n", n)], ncmp, vals)
        if n < 3:
            t = {"a": (n + 1, True), "b": (3, True)}

            def scmp(m, c):
                x, y = (cut(m[k]) for k in "ab")
                return ("s", (x > y) - (x < y)), {}
            add("strcmp", t, [P("a"), P("b")], scmp, V + (128,) if n < 2 else V)
            add("strncmp", t, [P("a"), P("b"), ("n", 7)], scmp)
            for f in ("strspn", "strcspn", "strpbrk"):
                def span(m, c, f=f):
                    x, y = (cut(m[k]) for k in "ab")
                    k = 0
                    while k < len(x) and (x[k] in y) == (f == "strspn"):
                        k += 1
                    return (k if f != "strpbrk" else P("a", k) if k < len(x) else 0), {}
                add(f, t, [P("a"), P("b")], span, FEW + (200,))
    for h in range(4):
        for n in range(3):
            def mem(m, c):
                x, y = bytes(m["h"]), bytes(m["n"])
                k = x.find(y)
                return P("h", k) if k >= 0 else 0, {}
            add("memmem", {"h": (h, False), "n": (n, False)}, [P("h"), ("i", h), P("n"), ("i", n)], mem, FEW + (200,))

    def sub(m, c):
        k = bytes(cut(m["h"])).find(bytes(cut(m["n"])))
        return P("h", k) if k >= 0 else 0, {}
    for n in range(3):
        add("strstr", {"h": (4, True), "n": (n + 1, True)}, [P("h"), P("n")], sub, FEW)

    def put(m, to, at, l):
        return m[to][:at] + list(l) + m[to][at + len(l):]
    for n in range(4):
        def cpy(m, c):
            return P("d"), {"d": put(m, "d", 0, cut(m["s"]) + [0])}
        add("strcpy", {"d": (n + 1, False), "s": (n + 1, True)}, [P("d"), P("s")], cpy, (0, 97, 200))
        for k in range(4):
            def ncpy(m, c, k=k):
                l = (cut(m["s"]) + [0] * k)[:k]
                return P("d"), {"d": put(m, "d", 0, l)}
            add("strncpy", {"d": (k, False), "s": (n + 1, True)}, [P("d"), P("s"), ("n", k)], ncpy, (0, 97, 200))
            if k == n and k:
                add("strncpy", {"d": (k, False), "s": (n, False)}, [P("d"), P("s"), ("n", k)], ncpy, (0, 97, 200))
            if n < 3:
                def ncat(m, c, k=k):
                    at = len(cut(m["d"]))
                    return P("d"), {"d": put(m, "d", at, cut(m["s"])[:k] + [0])}
                add("strncat", {"d": (5, 2), "s": (n + 1, True)}, [P("d"), P("s"), ("n", k)], ncat, (0, 97, 200))
                if k == n and k:
                    add("strncat", {"d": (5, 2), "s": (n, False)}, [P("d"), P("s"), ("n", k)], ncat, (0, 97, 200))
        if n < 3:
            def cat(m, c):
                return P("d"), {"d": put(m, "d", len(cut(m["d"])), cut(m["s"]) + [0])}
            add("strcat", {"d": (5, 2), "s": (n + 1, True)}, [P("d"), P("s")], cat, (0, 97, 200))
    one = (7,)
    for n in range(7):
        for f, a, ret in (("memcpy", "ds", True), ("__memcpy", "ds", True), ("memmove", "ds", True), ("__memmove", "ds", True), ("bcopy", "sd", False)):
            def blk(m, c, ret=ret):
                return (P("d") if ret else None), {"d": list(m["s"])}
            add(f, {"d": (n, False), "s": (n, False)}, [P(a[0]), P(a[1]), ("n", n)], blk, one)
        for f in ("memset", "__memset"):
            add(f, {"d": (n, False)}, [P("d"), "c", ("n", n)], lambda m, c, n=n: (P("d"), {"d": [c & 255] * n}), one, chars=CHARS + (-1, 255))
        add("bzero", {"d": (n, False)}, [P("d"), ("n", n)], lambda m, c, n=n: (None, {"d": [0] * n}), one)
    for n in (1, 2, 4):
        for x in range(7 - n):
            for y in range(7 - n):
                for f in ("memmove", "__memmove", "bcopy"):
                    def move(m, c, n=n, x=x, y=y, f=f):
                        return (P("o", x) if f != "bcopy" else None), {"o": put(m, "o", x, m["o"][y:y + n])}
                    add(f, {"o": (6, False)}, [P("o", x), P("o", y), ("n", n)] if f != "bcopy" else [P("o", y), P("o", x), ("n", n)], move, one)
    txt = {"s": (L + 1, True)}
    for f, a, k, args, spec in (
            ("strlen", txt, 0, [P("s")], lambda m, c: (L, {})),
            ("strchr", txt, 0, [P("s"), ("i", 0)], lambda m, c: (P("s", L), {})),
            ("strrchr", txt, 0, [P("s"), ("i", 1)], lambda m, c: (0, {})),
            ("memchr", {"s": (L, False)}, 0, [P("s"), ("i", 0), ("n", L)], lambda m, c: (0, {})),
            ("strdup", txt, 0, [P("s")], lambda m, c: (("new", bytes(m["s"])), {})),
            ("strspn", {"a": (L + 1, True), "b": (2, True)}, 0, [P("a"), P("b")], lambda m, c: (L, {})),
            ("strcspn", {"a": (L + 1, True), "b": (1, True)}, 0, [P("a"), P("b")], lambda m, c: (L, {})),
            ("memcmp", {"a": (L, False), "b": (L, False)}, 0, [P("a"), P("b"), ("n", L)], lambda m, c: (0, {})),
            ("strcmp", {"a": (L + 1, True), "b": (L + 1, True)}, 0, [P("a"), P("b")], lambda m, c: (0, {})),
            ("strncmp", {"a": (L, False), "b": (L, False)}, 0, [P("a"), P("b"), ("n", L)], lambda m, c: (0, {})),
            ("memmem", {"h": (L, False), "n": (L, False)}, 0, [P("h"), ("i", L), P("n"), ("i", L)], lambda m, c: (P("h"), {})),
            ("strcpy", {"d": (L + 1, False), "s": (L + 1, True)}, 0, [P("d"), P("s")], lambda m, c: (P("d"), {"d": m["s"]})),
            ("strncpy", {"d": (L, False), "s": (L, False)}, 0, [P("d"), P("s"), ("n", L)], lambda m, c: (P("d"), {"d": m["s"]})),
            ("strcat", {"d": (L + 1, 0), "s": (L + 1, True)}, 0, [P("d"), P("s")], lambda m, c: (P("d"), {"d": m["s"]})),
            ("strncat", {"d": (L + 1, 0), "s": (L, False)}, 0, [P("d"), P("s"), ("n", L)], lambda m, c: (P("d"), {"d": m["s"] + [0]})),
            ("memcpy", {"d": (L, False), "s": (L, False)}, 0, [P("d"), P("s"), ("n", L)], lambda m, c: (P("d"), {"d": m["s"]})),
            ("memmove", {"d": (L, False), "s": (L, False)}, 0, [P("d"), P("s"), ("n", L)], lambda m, c: (P("d"), {"d": m["s"]})),
            ("memset", {"d": (L, False)}, 0, [P("d"), ("i", 7), ("n", L)], lambda m, c: (P("d"), {"d": [7] * L}))):
        add(f, a, args, spec, "long")
    for n in (0, 1, 2, 4):
        def count(m, c):
            return m["s"].count(0), {}

        def starts(m):
            return [0] + [k + 1 for k, x in enumerate(m["s"]) if x == 0][:-1] if m["s"] else []
        add("__argz_count", {"s": (n, bool(n))}, [P("s"), ("n", n)], count, FEW)
        for f in ("__argz_extract_count", "__argz_extract"):
            add(f, {"s": (n, bool(n)), "v": (0, "ptrs", n + 1)}, [P("s"), ("n", n), P("v")],
                lambda m, c, f=f: ((m["s"].count(0) if f == "__argz_extract_count" else None), {"v": [P("s", k) for k in starts(m)] + [0]}), FEW)
    return r


class Access(Exception):
    pass


class Str:
    def __init__(self, out, arch, M):
        self.out, self.arch, self.M, self.W = out, arch, M, 8 * M.ptr

    def decide(self):
        for f, l in sorted(cases().items()):
            if f not in self.M.funcs or not self.M.funcs[f].blocks:
                raise report.Broken("%s: %s is not defined in lib/string" % (self.arch, f))
            self.out.count("functions")
            for c in l:
                self.case(f, c)

    def case(self, f, c):
        F = self.M.funcs[f]
        W = self.W
        st = cx.State()
        names = []
        size = {}
        fixed = {}
        tail = {}
        for a, s in c.arrays.items():
            if s[1] == "ptrs":
                size["&" + a] = s[2] * self.M.ptr
                st.mem["&" + a] = {}
                continue
            size["&" + a] = s[0]
            reg = st.mem.setdefault("&" + a, {})
            end = s[0] - 1 if s[1] is True else None if s[1] is False else s[1]
            for k in range(s[0]):
                n = "%s%d" % (a, k)
                if k == end:
                    reg[T(W, k)] = (1, T(8, 0))
                    fixed[n] = 0
                else:
                    if end is not None and k > end:
                        tail[n] = 11 + k       # room after the string
                    elif c.values == "long":
                        fixed[n] = 97
                    else:
                        names.append(n)
                    reg[T(W, k)] = (1, T(8, 97) if c.values == "long" and n in fixed else bv.var(n, 8))
        args = []
        for k, x in enumerate(c.args):
            if x == "c":
                args.append(bv.var("c", 32))
            elif x[0] == "p":
                args.append(bv.add(bv.var("&" + x[1], W), T(W, x[2])))
            else:
                args.append(T(W if x[0] == "n" else 32, x[1]))
        E = objs.Engine(self.M, models={"malloc": self.malloc}, inline_depth=6)
        E.peel = 310 if c.values == "long" else 24
        worst = []

        def deref(E, st, fn, i, addr, n, store):
            base, off = E.split(addr)
            if base == "^new":
                lim = st.x.get("new")
                if lim is None or off.t or not 0 <= off.c <= lim - n:
                    worst.append((fn, i, "the new block", off))
                return
            if base in size:
                if off.t or not 0 <= vset.sgn(off.c, W) <= size[base] - n:
                    worst.append((fn, i, "array %s of %d bytes" % (base[1:], size[base]), off))
            elif base is None or base[:1] != "@":
                worst.append((fn, i, "an unknown place", off))
        def guard(*a):
            deref(*a)
            if worst:
                raise Access()
        E.on_deref = guard
        outs = ()
        try:
            outs = E.run(f, args, st)
        except Access:
            pass
        except cx.Limit as e:
            raise report.Broken("%s: %s: %s" % (self.arch, f, e))
        what = "%s%s" % (f, tuple("%s+%d" % x[1:] if x[0] == "p" and x[2] else x[1] if x[0] == "p" else x if x == "c" else x[1] for x in c.args))
        for fn, i, obj, off in worst[:1]:
            self.out.violation("%s access" % f, "%s:%s: %s of %s (%s) accesses offset %r of %s, arrays %s" % (fn.file, i.line, fn.name, what, self.arch, off if off.t else vset.sgn(off.c, W), obj,
                                                                                                   {k[1:]: v for k, v in size.items()}))
        if worst:
            return
        self.out.count("paths", len(outs))
        one = c.values == (7,) or c.values == "long"
        for vals in itertools.product(*([(10 + k,) for k in range(len(names))] if one else [c.values] * len(names))):
            for ch in (c.chars or (0,)):
                env = dict(zip(names, vals), **fixed)
                env.update(tail)
                env["c"] = ch & 0xffffffff
                hit = [o for o in outs if vset.holds(o.state, env)]
                self.out.count("combinations of values")
                mem = {a: [env["%s%d" % (a, k)] for k in range(s[0])] for a, s in c.arrays.items() if s[1] != "ptrs"}
                res, ch2 = c.spec({k: list(v) for k, v in mem.items()}, ch)
                shown = "%s (%s) with %s%s" % (what, self.arch, ", ".join("%s=%s" % (k, v if len(v) < 10 else "%d letters" % L) for k, v in mem.items()), " c=%d" % ch if c.chars else "")
                if not hit:
                    self.out.violation("%s none" % f, "%s: %s does not return" % (F.file, shown))
                    return
                for o in hit:
                    msg = self.wrong(E, o, env, c, mem, res, ch2)
                    if msg:
                        self.out.violation("%s result" % f, "%s: %s %s" % (F.file, shown, msg))
                        return

    def malloc(self, E, st, f, i, av):
        s0 = st.clone()
        st.x = dict(st.x, new=av[0].c if av[0].isconst() else None)
        st.mem["^new"] = {}
        return [cx.Out("ret", st, bv.var("^new", self.W)), cx.Out("ret", s0, T(self.W, 0))]

    def wrong(self, E, o, env, c, mem, res, change):
        if o.kind != "ret":
            return "does not return (%s)" % o.kind
        W = self.W
        try:
            if isinstance(res, tuple) and res[0] == "p":
                want = bv.add(bv.var("&" + res[1], W), T(W, res[2]))
                if o.val is None or bv.trunc(o.val, W) != want:
                    return "returns %r, not %s + %d" % (o.val, res[1], res[2])
            elif isinstance(res, tuple) and res[0] == "new":
                if o.val is not None and o.val == T(W, 0) and "new" not in o.state.x:
                    return None
                if o.val != bv.var("^new", W):
                    return "returns %r, not the new copy" % o.val
                got = bytes(vset.term(E.load(o.state, bv.add(o.val, T(W, k)), 1), env) for k in range(len(res[1])))
                if got != res[1]:
                    return "makes %r, not %r" % (got, res[1])
            elif res is not None:
                if any(a[0] == "v" and a[1][:1] in "&^" for a, k in o.val.t):
                    return "returns a pointer, not %s" % (res,)
                v = vset.sgn(vset.term(o.val, env), o.val.w)
                if isinstance(res, tuple):
                    if res[0] == "s" and sign(v) != res[1]:
                        return "returns %d, which has the wrong sign" % v
                    if res[0] == "z" and (v == 0) != res[1]:
                        return "returns %d" % v
                elif v != res:
                    return "returns %d, not %d" % (v, res)
            for a, s in c.arrays.items():
                if s[1] == "ptrs":
                    for k, x in enumerate(change.get(a, [])):
                        t = E.load(o.state, bv.add(bv.var("&" + a, W), T(W, k * self.M.ptr)), self.M.ptr)
                        want = T(W, 0) if x == 0 else bv.add(bv.var("&" + x[1], W), T(W, x[2]))
                        if t != want:
                            return "sets element %d to %r, not %r" % (k, t, want)
                    continue
                want = change.get(a, mem[a])
                for k in range(s[0]):
                    t = E.load(o.state, bv.add(bv.var("&" + a, W), T(W, k)), 1)
                    got = vset.term(t, env)
                    if got != want[k]:
                        return "leaves %d at %s[%d], not %d" % (got, a, k, want[k])
        except vset.Unknown as u:
            return "has a result that depends on something else (%s)" % u
        return None
