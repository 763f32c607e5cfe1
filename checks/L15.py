"""L15: numbers and text convert exactly."""
import itertools
from vt import bv, cx, lib, objs, report, vset
from vt.bv import T

DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"
BYTES = (0, 9, 32, 43, 45, 47, 48, 49, 50, 55, 56, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 200)


def check(out):
    out.cov["explanation"] = (
        "The functions that write a number as text are evaluated abstractly on an unknown number: each path fixes the number of digits and gives every byte of the text as a term over the number; on powers of the base and "
        "their neighbours, the limits of the type and small numbers, the path that admits the number must hold exactly its digits. The functions that read a number are evaluated on texts of unknown bytes and on "
        "long texts of digits; on every path and every combination of representative bytes that takes it, the value must be the one the text denotes and the end must be where the digits end.")
    for arch in lib.ARCH:
        srcs = [s for s in lib.sources(arch) if s.split("/")[1] in ("ctype", "string") or s.startswith("lib/mes/") or s.startswith("lib/stdlib/") and s.split("/")[2][:3] in ("str", "ato")]
        srcs = [s for s in srcs if not any(x in s for x in ("strtod", "strtof", "strtold", "atof", "div.c", "__buffered_read", "fdgetc", "mes_open", "search-path"))]
        n = Num(out, arch, lib.linked(arch, srcs))
        n.writers()
        n.readers()
    out.need("functions", 36)
    out.need("numbers", 3000)
    out.need("texts", 10000)


def text(v, b):
    if v < 0:
        return "-" + text(-v, b)
    r = ""
    while True:
        r = DIGITS[v % b] + r
        v //= b
        if not v:
            return r


class Num:
    failed = set()

    def __init__(self, out, arch, M):
        self.out, self.arch, self.M, self.W = out, arch, M, 8 * M.ptr

    def file(self, f):
        return self.M.funcs[f].file or "lib"

    def engine(self, f, sizes, peel):
        if f not in self.M.funcs or not self.M.funcs[f].blocks:
            raise report.Broken("%s: %s is not defined" % (self.arch, f))
        E = objs.Engine(self.M, models={"malloc": self.malloc, "assert_msg": self.assert_msg}, inline_depth=10)
        E.peel = peel
        W = self.W
        worst = []

        def deref(E, st, fn, i, addr, n, store):
            base, off = E.split(addr)
            if base == "@__itoa_buf" or base is not None and base[:1] == "&" and "#" in base or base is not None and base[:1] == "@" and self.M.globals.get(base[1:], (0, 0, 0))[2]:
                return
            size = st.x.get("new") if base == "^new" else sizes.get(base) if base in sizes else self.gsize(base)
            if size is None or off.t or not 0 <= vset.sgn(off.c, W) <= size - n:
                worst.append("%s:%s: %s of %s (%s) %s offset %r of %s" % (fn.file, i.line, fn.name, f, self.arch, "writes" if store else "reads", off if off.t else vset.sgn(off.c, W), base))
                raise Access()
        E.on_deref = deref
        return E, worst

    def gsize(self, base):
        if base is not None and base[:1] == "@" and base[1:] in self.M.globals:
            return self.M.size(self.M.globals[base[1:]][0])

    def malloc(self, E, st, f, i, av):
        st.x = dict(st.x, new=av[0].c if av[0].isconst() else None)
        st.mem["^new"] = {}
        return [cx.Out("ret", st, bv.var("^new", self.W))]

    def assert_msg(self, E, st, f, i, av):
        """goes on only if its condition holds"""
        t = av[0]
        z = E.icmp(st, "ne", t, T(t.w, 0))
        v = cx.truth(z)
        if v is None:
            v = st.decide(z)
        if v is False:
            return [cx.Out("assert", st)]
        if v is None:
            s2 = st.clone()
            st.assume(z, True)
            s2.assume(z, False)
            return [cx.Out("ret", st, E.ret(st, i, "assert")), cx.Out("assert", s2)]
        return [cx.Out("ret", st, E.ret(st, i, "assert"))]

    def bad(self, f, what, msg):
        self.out.violation("%s %s" % (f, what), "%s: %s %s" % (self.file(f), f, msg))

    # ------------------------------------------------------------ number -> text
    def writers(self):
        W = self.W
        L = {"ntoab": [(b, s) for b in (2, 8, 10, 16, 36) for s in (0, 1)], "ltoab": [(b, 1) for b in (2, 8, 10, 16)], "itoa": [(10, 1)], "ltoa": [(10, 1)], "utoa": [(10, 0)], "ultoa": [(10, 0)]}
        for f, l in L.items():
            self.out.count("functions")
            F = self.M.funcs.get(f)
            if F is None:
                raise report.Broken("%s: %s is not defined" % (self.arch, f))
            w = self.M.size(F.params[0][0]) * 8
            if w != (32 if f in ("itoa", "utoa") else W):
                self.bad(f, "width", "(%s) takes a number of %d bits" % (self.arch, w))
                continue
            for b, signed in l:
                if f in self.failed or self.write(f, b, signed, w):
                    self.failed.add(f)
                    break

    def write(self, f, b, signed, w):
        vals = {0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 19, 20, 31, 35, 36, 37, 42, 99, 100, 101, 109, 110, 123, 1000, 4095, 4096, 65535, 65536, 1234567890}
        k = b
        while k < 1 << w:
            vals |= {k - 1, k, k + 1, 2 * k + b - 1, k * (b - 1)}
            k *= b
        vals |= {(1 << w - 1) - 1, (1 << w - 1), (1 << w) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1}
        if signed:
            vals |= {-v for v in vals}
            vals = {v for v in vals if -(1 << w - 1) <= v < 1 << w - 1}
        else:
            vals = {v for v in vals if 0 <= v < 1 << w}
        vals = sorted(vals, key=lambda v: (abs(v), v))
        if b <= 10:
            try:
                return self.write1(f, b, signed, bv.var("x", w), w, vals)
            except report.Broken:
                pass
        # digits and letters are different paths: two unknown digits of the least number of bits; every other number by itself
        try:
            if self.write1(f, b, signed, bv.ext(bv.var("x", 10), w, False, None), w, range(1024)):
                return True
        except report.Broken:
            vals = list(range(0, 1024)) + vals
        for v in vals:
            if self.write1(f, b, signed, T(w, v), w, [v]):
                return True

    def write1(self, f, b, signed, x, w, vals):
        W = self.W
        E, worst = self.engine(f, {}, 70)
        args = {"ntoab": [x, T(32, b), T(32, signed)], "ltoab": [x, T(32, b)]}.get(f, [x])
        st = cx.State()
        st.mem["@__itoa_buf"] = {T(W, 0): (W // 8, T(W, 0))}
        what = "(%s)%s" % (self.arch, "" if f not in ("ntoab", "ltoab") else " in base %d%s" % (b, "" if f == "ltoab" else ", signed" if signed else ", unsigned"))
        try:
            outs = E.run(f, args, st)
        except cx.Limit as e:
            raise report.Broken("%s %s: %s" % (f, what, e))
        except Access:
            self.out.violation("%s access" % f, worst[0])
            return True
        self.out.count("paths", len(outs))
        for v in vals:
            self.out.count("numbers")
            env = {"x": v & (1 << w) - 1}
            vset.memo = {}
            hit = [o for o in outs if vset.holds(o.state, env)]
            want = text(v, b)
            for o in hit or [None]:
                msg = self.same(E, o, env, want)
                vset.memo = None
                if msg:
                    self.bad(f, "text", "%s of %d %s" % (what, v, msg))
                    return True

    def same(self, E, o, env, want):
        if o is None:
            return "does not return"
        if o.kind != "ret":
            return "stops (%s)" % o.kind
        base, off = E.split(o.val)
        if base is None or off.t:
            return "returns an unknown place"
        try:
            got = []
            for k in range(len(want) + 1):
                got.append(vset.term(E.load(o.state, bv.add(o.val, T(self.W, k)), 1), env))
                if got[-1] == 0:
                    break
        except vset.Unknown as u:
            return "gives a text that depends on something else (%s)" % u
        if got != [ord(c) for c in want] + [0]:
            return "gives %r, not %r" % ("".join(map(chr, got)).rstrip("\0"), want)

    # ------------------------------------------------------------ text -> number
    def readers(self):
        for f in ("abtol", "atoi", "atol", "strtol", "strtoul", "strtoll", "strtoull"):
            self.out.count("functions")
            F = self.M.funcs.get(f)
            if F is None or not F.blocks:
                raise report.Broken("%s: %s is not defined" % (self.arch, f))
            bases = {"abtol": (0, 2, 8, 10, 16), "atoi": (None,), "atol": (None,)}.get(f, (0, 2, 8, 10, 16))
            for b in bases:
                for tail in ((True,) if f == "abtol" else (None,) if b is None else (True, False)):
                    if self.read(f, b, tail, 3 if f == "abtol" or b is None or f == "strtol" and b == 16 and tail else 2, None):
                        return
                    for t in self.long(b):
                        if self.read(f, b, tail, None, t):
                            return

    def long(self, b):
        n = b or 10
        w = self.W
        m = (1 << w - 1) - 1
        l = [text(m, n), text(-m, n), text((1 << 31) - 1, n), "-" + text((1 << 31) - 1, n), " \t\n\v\f\r+12".replace("12", text(n * n + 1, n)), "-" + text(n ** 5 + 1, n) + "/", "0" * 30 + "1"]
        if n == 16:
            l += ["0x" + text(0x7abcdef, 16), "DEADBEE", "0xFf", "0x7fffffff"]
        if b == 0:
            l += ["0x1f", "0x7fffffff"]
        return l

    def read(self, f, b, tail, n, txt):
        W = self.W
        F = self.M.funcs[f]
        st = cx.State()
        reg = st.mem.setdefault("&s", {})
        if txt is None:
            size = n + 1
            for k in range(n):
                reg[T(W, k)] = (1, bv.var("s%d" % k, 8))
            reg[T(W, n)] = (1, T(8, 0))
        else:
            size = len(txt) + 1
            for k, c in enumerate(txt + "\0"):
                reg[T(W, k)] = (1, T(8, ord(c)))
        s = bv.var("&s", W)
        sizes = {"&s": size, "&t": W // 8}
        if f == "abtol":
            st.mem["&t"] = {T(W, 0): (W // 8, s)}
            args = [bv.var("&t", W), T(32, b)]
        elif b is None:
            args = [s]
        else:
            st.mem["&t"] = {T(W, 0): (W // 8, bv.var("&old", W))}
            args = [s, bv.var("&t", W) if tail else T(W, 0), T(32, b)]
        E, worst = self.engine(f, sizes, 80)
        what = "(%s)%s" % (self.arch, "" if b is None else " in base %d%s" % (b, "" if tail else " without a tail pointer"))
        try:
            outs = E.run(f, args, st)
        except cx.Limit as e:
            if txt is not None:
                raise report.Broken("%s %s: %s" % (f, what, e))
            for t in itertools.product(BYTES, repeat=2):        # too many paths: every short text by itself
                if self.read(f, b, tail, None, "".join(map(chr, t)).split("\0")[0]):
                    return True
            return
        except Access:
            self.out.violation("%s access" % f, worst[0] + " of a text of %d bytes" % size)
            return True
        self.out.count("paths", len(outs))
        seen = set()
        for o in outs:
            for env, bytes_ in self.envs(o.state, n, txt):
                seen.add(bytes_)
                self.out.count("texts")
                msg = self.value(E, o, f, b, tail, env, bytes_, F)
                if msg:
                    self.bad(f, "value", "%s of %r %s" % (what, bytes(bytes_).split(b"\0")[0].decode("latin1"), msg))
                    return True
        if n is not None:
            for t in itertools.product(BYTES, repeat=n):
                if t not in seen:
                    self.bad(f, "none", "%s of %r does not return" % (what, bytes(t).split(b"\0")[0].decode("latin1")))
                    return True
        elif not seen:
            self.bad(f, "none", "%s of %r does not return" % (what, txt))
            return True

    def envs(self, st, n, txt):
        if txt is not None:
            yield {}, tuple(ord(c) for c in txt) + (0,)
            return
        names = ["s%d" % k for k in range(n)]
        dom = [[v for v in BYTES if vset.holds(st, {m: v})] for m in names]
        for t in itertools.product(*dom):
            env = dict(zip(names, t))
            if all(len(d) == 1 for d in dom) or vset.holds(st, env):
                yield env, t

    def value(self, E, o, f, b, tail, env, text_, F):
        if o.kind != "ret":
            return "stops (%s)" % o.kind
        s = bytes(text_).split(b"\0")[0]
        k = 0
        while k < len(s) and s[k] in (9, 10, 11, 12, 13, 32):
            k += 1
        base = b
        neg = False
        if k < len(s) and s[k] in b"+-":
            neg = s[k] == 45
            k += 1
        if base is None:
            base = 10
        pre = False
        if f[:4] == "strt":
            pre = s[k:k + 2] == b"0x"
            if pre and (base not in (0, 16) or k or not s[2:3] or chr(s[2]).lower() not in DIGITS[:16] or s[2] > 127):
                return None                     # not stated: a prefix after a sign, in another base, or with nothing after it
            if base == 0:
                if s[k:k + 1] == b"0" and not pre:
                    return None                 # octal is not supported
                base = 16 if pre else 10
            if pre:
                k += 2
        if base == 0:
            base = 10
        e = k
        v = 0
        while e < len(s) and s[e] < 128 and chr(s[e]).lower() in DIGITS[:base]:
            v = v * base + DIGITS.index(chr(s[e]).lower())
            e += 1
        if neg:
            v = -v
        w = min(8 * self.M.size(F.ret) if hasattr(F, "ret") else o.val.w, self.W)
        try:
            got = vset.term(o.val, env)
        except vset.Unknown as u:
            return "gives a number that depends on something else (%s)" % u
        if -(1 << w - 1) <= v < 1 << w - 1 and vset.sgn(got, o.val.w) != v:
            return "gives %d, not %d" % (vset.sgn(got, o.val.w), v)
        if tail and e > k:
            t = E.load(o.state, bv.var("&t", self.W), self.W // 8)
            if t != bv.add(bv.var("&s", self.W), T(self.W, e)):
                return "sets the end to %r, not text + %d" % (t, e)


class Access(Exception):
    pass
