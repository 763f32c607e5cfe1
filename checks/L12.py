"""L12: the output functions write exactly the text asked for, to the stream named."""
from vt import bv, cx, lib, objs, report, vset
from vt.bv import T

PLAIN = ["fputc", "putc", "fdputc", "eputc", "oputc", "putchar", "fputs", "fdputs", "eputs", "oputs", "puts", "fwrite"]
FORWARD = {"printf": ("vfprintf", 0), "vprintf": ("vfprintf", 0), "fprintf": ("vfprintf", 1), "sprintf": ("vsnprintf", 1), "vsprintf": ("vsnprintf", 1), "snprintf": ("vsnprintf", 2)}
OUT, ERR, FD = 1, 2, 5


def check(out):
    out.cov["explanation"] = (
        "The plain output functions are evaluated abstractly on unknown characters and on strings and blocks of unknown bytes; the bytes handed to write, joined, must be exactly those asked for and go to the descriptor named. "
        "vfprintf and vsnprintf are evaluated on every combination of conversion, flag, width, precision and length modifier of the supported language, set between literal text and another conversion, with unknown "
        "numbers (which number, in which base and signedness, is what the digits are asked for), unknown characters and strings of unknown bytes: the text written must be the one the format denotes, argument by argument, "
        "and for vsnprintf also what is kept of it, where it ends, and its length, for sizes around that length. The other members of the family must hand on stream, format and argument list.")
    for arch in lib.ARCH:
        srcs = [s for s in lib.sources(arch) if s.split("/")[1] in ("ctype", "string", "stdio", "mes") or s.split("/")[-1] in ("puts.c",)]
        srcs = [s for s in srcs if s.split("/")[-1] not in ("mini-write.c", "mes_open.c", "div.c", "vfscanf.c", "vsscanf.c", "fopen.c", "freopen.c", "search-path.c")]
        o = Out(out, arch, lib.linked(arch, srcs))
        o.plain()
        o.forward()
        o.formats("vfprintf")
        o.formats("vsnprintf")
    out.need("functions", 60)
    out.need("texts", 190)
    out.need("formats", 1000)


class Stop(Exception):
    pass


class Out:
    def __init__(self, out, arch, M):
        self.out, self.arch, self.M, self.W, self.P = out, arch, M, 8 * M.ptr, M.ptr
        for f in PLAIN + list(FORWARD) + ["vfprintf", "vsnprintf"]:
            if f not in M.funcs or not M.funcs[f].blocks:
                raise report.Broken("%s: %s is not defined" % (arch, f))

    def bad(self, f, what, msg):
        self.out.violation("%s %s" % (f, what), "%s: %s (%s) %s" % (self.M.funcs[f].file, f, self.arch, msg))
        return True

    def state(self):
        st = cx.State()
        for g, v in (("__stdout", OUT), ("__stderr", ERR), ("__stdin", 0)):
            n = self.M.size(self.M.globals[g][0]) if g in self.M.globals else 4
            st.mem["@" + g] = {T(self.W, 0): (n, T(8 * n, v))}
        return st

    def engine(self, sizes, models, results=(None,)):
        W = self.W

        def write(E, st, f, i, av):
            fd, p, n = av
            if not n.isconst() or not 0 <= n.c < 200:
                self.wrong.append("%s:%s: %s writes %s bytes" % (f.file, i.line, f.name, n.c if n.isconst() else "an unknown number of"))
                raise Stop()
            if self.deref:
                for k in range(n.c):
                    self.deref(E, st, f, i, bv.add(p, T(W, k)), 1, False)
            b = tuple(E.load(st, bv.add(p, T(W, k)), 1) for k in range(n.c))
            r = []
            for v in results:
                s = st.clone()
                d = bv.trunc(fd, 32) if fd.w > 32 else fd
                s.x = dict(st.x, out=st.x.get("out", ()) + tuple((d, x) for x in b), kernel=v if v is not None else n.c, writes=st.x.get("writes", 0) + 1)
                r.append(cx.Out("ret", s, T(E.tw(i.ty), n.c if v is None else v)))
            return r

        def quiet(E, st, f, i, av):
            return [cx.Out("ret", st, T(E.tw(i.ty), 0) if i.ty != "void" else None)]
        E = objs.Engine(self.M, models=dict({"write": write, "_write": write, "__mes_debug": quiet, "assert_msg": quiet}, **models), inline_depth=10)
        E.peel = 40
        self.wrong = []

        def deref(E, st, fn, i, addr, n, store):
            base, off = E.split(addr)
            if base is not None and (base[:1] == "@" and base not in sizes or base[:1] == "&" and "#" in base):
                return
            size = sizes.get(base)
            if size is None or off.t or not 0 <= vset.sgn(off.c, W) <= size - n:
                self.wrong.append("%s:%s: %s %s offset %s of %s%s" % (fn.file, i.line, fn.name, "writes" if store else "reads", repr(off) if off.t else vset.sgn(off.c, W), base, "" if size is None else ", of %d bytes" % size))
                raise Stop()
        self.deref = deref
        E.on_deref = deref
        return E

    def run(self, E, f, args, st, what):
        try:
            outs = E.run(f, args, st)
        except Stop:
            self.bad(f, "access", "%s: %s" % (what, self.wrong[0]))
            return None
        except cx.Limit as e:
            raise report.Broken("%s (%s) %s: %s" % (f, self.arch, what, e))
        if not outs:
            self.bad(f, "none", "%s does not return" % what)
            return None
        for o in outs:
            if o.kind != "ret":
                self.bad(f, "stop", "%s stops (%s)" % (what, o.kind))
                return None
        return outs

    def string(self, st, name, n):
        """n unknown bytes that are not NUL"""
        W = self.W
        E = objs.Engine(self.M)
        st.mem["&" + name] = {T(W, k): (1, bv.var("%s%d" % (name, k), 8)) for k in range(n)}
        st.mem["&" + name][T(W, n)] = (1, T(8, 0))
        for k in range(n):
            st.assume(E.icmp(st, "ne", bv.var("%s%d" % (name, k), 8), T(8, 0)), True)
        return bv.var("&" + name, W), [bv.var("%s%d" % (name, k), 8) for k in range(n)]

    # ------------------------------------------------------------ plain output
    def plain(self):
        W = self.W
        for f in PLAIN:
            self.out.count("functions")
            F = self.M.funcs[f]
            fd = {"e": ERR, "o": OUT}.get(f[0], FD) if f not in ("puts", "putchar") else OUT
            tofd = [T(self.tw(F.params[-1][0]), FD)] if fd == FD else []
            if f == "fwrite":
                self.fwrite(F)
                continue
            if F.params[0][0] != "ptr":
                c = bv.var("c", 32)
                E = self.engine({}, {})
                outs = self.run(E, f, [c] + tofd, self.state(), "of a character")
                self.same(f, outs, [bv.trunc(c, 8)], fd, "of a character c")
                continue
            for n in (0, 1, 2, 3, 12):
                st = self.state()
                s, l = self.string(st, "s", n)
                E = self.engine({"&s": n + 1}, {})
                what = "of a string of %d characters" % n
                outs = self.run(E, f, [s] + tofd, st, what)
                if self.same(f, outs, l + ([T(8, 10)] if f == "puts" else []), fd, what):
                    break

    def tw(self, ty):
        return self.W if ty == "ptr" else ty[1]

    def same(self, f, outs, want, fd, what):
        for o in outs or ():
            self.out.count("texts")
            got = list(o.state.x.get("out", ()))
            msg = self.differ(got, want, fd)
            if msg:
                return self.bad(f, "text", "%s %s" % (what, msg))

    def differ(self, got, want, fd):
        if [x for d, x in got] != want:
            return "writes %s, not %s" % (show([x for d, x in got]), show(want))
        for d, x in got:
            if d != T(32, fd):
                return "writes to descriptor %r, not %d" % (d, fd)

    def fwrite(self, F):
        W = self.W
        for size in (0, 1, 2, 5):
            for count in (0, 1, 3):
                n = size * count
                for r in sorted({n, -1, 0, n - 1, n // 2, size} - {-2}):
                    if not -1 <= r <= n or r and not n:
                        continue
                    st = self.state()
                    st.mem["&d"] = {T(W, k): (1, bv.var("d%d" % k, 8)) for k in range(n)}
                    E = self.engine({"&d": n}, {}, results=(r,))
                    what = "of %d elements of %d bytes" % (count, size)
                    outs = self.run(E, "fwrite", [bv.var("&d", W), T(W, size), T(W, count), T(self.tw(F.params[3][0]), FD)], st, what)
                    if self.same("fwrite", outs, [bv.var("d%d" % k, 8) for k in range(n)], FD, what):
                        return
                    for o in outs or ():
                        want = max(r, 0) // size if n else 0
                        if o.val != T(W, want):
                            self.bad("fwrite", "result", "%s, of which %d bytes are written, returns %r, not %d" % (what, r, o.val, want))
                            return

    # ------------------------------------------------------------ handing on
    def forward(self):
        W = self.W
        for f, (target, named) in FORWARD.items():
            self.out.count("functions")
            F = self.M.funcs[f]
            seen = []

            def model(E, st, fn, i, av):
                ap = av[-1]
                prev = None
                if E.split(ap)[0] is not None:
                    prev = E.load(st, bv.sub(ap, T(W, self.P)), self.P)
                s = st.clone()
                s.x = dict(st.x, calls=st.x.get("calls", ()) + ((av, prev),))
                return [cx.Out("ret", s, bv.var("result", 32))]
            E = self.engine({}, {target: model})
            E.on_deref = None
            fmt = bv.var("&format", W)
            args = {"printf": [fmt], "vprintf": [fmt], "fprintf": [T(self.tw(F.params[0][0]), FD), fmt], "sprintf": [bv.var("&buf", W), fmt], "vsprintf": [bv.var("&buf", W), fmt],
                    "snprintf": [bv.var("&buf", W), bv.var("size", W), fmt]}[f]
            va = f[0] == "v"
            if va:
                args.append(bv.var("&ap", W))
            for o in self.run(E, f, args, self.state(), "") or ():
                calls = o.state.x.get("calls", ())
                if len(calls) != 1:
                    self.bad(f, "calls", "formats %d times" % len(calls))
                    break
                av, prev = calls[0]
                first = {"printf": T(W, OUT), "vprintf": T(W, OUT), "fprintf": T(W, FD)}.get(f, bv.var("&buf", W))
                if bv.trunc(av[0], 32) != bv.trunc(first, 32):
                    self.bad(f, "stream", "hands on %r as where to write, not %r" % (av[0], first))
                if target == "vsnprintf":
                    if f == "snprintf" and av[1] != bv.var("size", W) or f != "snprintf" and not (av[1].isconst() and av[1].c >= 0x7fffffff):
                        self.bad(f, "size", "hands on %r as the size" % av[1])
                if av[-2] != fmt:
                    self.bad(f, "format", "hands on %r as the format" % av[-2])
                if va and av[-1] != bv.var("&ap", W) or not va and prev != fmt:
                    self.bad(f, "arguments", "does not hand on the arguments that follow the format (%r)" % av[-1])
                if o.val != bv.var("result", 32):
                    self.bad(f, "result", "does not return the result of %s" % target)

    # ------------------------------------------------------------ formats
    def table(self):
        """formats and what they denote; each item: literal bytes, or (conversion text, kind, options)"""
        r = []
        for c in "diuxXo":
            for flag in ("", "-", "0"):
                for width in ("", "2", "9", "12", "*7", "*2"):
                    if flag and not width:
                        continue
                    if flag == "0" and width[0] == "*":
                        continue                     # "%0*d" is read as the width 0
                    for mod in ("", "l"):
                        r.append((flag, width, "", mod, c))
            for width in ("", "12"):
                for prec in (".9", ".*6"):
                    r.append(("", width, prec, "", c))
        for flag in ("", "-"):
            for width in ("", "2", "7", "*7", "*2"):
                if flag and not width:
                    continue
                for prec in ("", ".2", ".0", ".9", ".*2", ".*1"):
                    r.append((flag, width, prec, "", "s"))
        if self.W == 64:
            r += [("", "", "", "ll", c) for c in "diux"]
        return r + [("", "", "", "", "c"), ("", "", "", "", "%"), ("", "", "", "", "n"), ("", "", "", "l", "d")]

    def formats(self, f):
        self.out.count("functions")
        for spec in self.table():
            for n in ((0, 3) if spec[4] == "s" else (3,)):
                for neg in ((False, True) if spec[4] in "di" and spec[0] != "0" and not spec[2] else (False,)):
                    if spec[4] == "s" and spec[2] and int(spec[2].replace("*", "")[1:] or 0) > n:
                        continue                     # only precisions that cut
                    if self.format(f, spec, n, neg):
                        return

    def format(self, f, spec, n, neg):
        W, P = self.W, self.P
        flag, width, prec, mod, c = spec
        st = self.state()
        slots = []
        text = b"<\xc3%" + flag.encode() + (b"*" if width[:1] == "*" else width.encode()) + (b".*" if prec[:2] == ".*" else prec.encode()) + mod.encode() + c.encode() + b">%s%c%u"
        star = lambda s, k: slots.append(T(W, int(s[k:])))
        if width[:1] == "*":
            star(width, 1)
        if prec[:2] == ".*":
            star(prec, 2)
        want = [T(8, ord("<")), T(8, 0xc3)]
        s, l = self.string(st, "s", n)
        base, digits, sg = {"d": (10, "4096", 1), "i": (10, "4096", 1), "u": (10, "4096", 0), "x": (16, "1f2e", 0), "X": (16, "1f2e", 0), "o": (8, "1707", None)}.get(c, (0, "", 0))
        if neg:
            digits = "-305"
        asked = []
        w = int(width.strip("*")) if width else 0
        p = int(prec.replace("*", "")[1:]) if prec else None
        sizes = {"&format": len(text) + 1, "&s": n + 1}
        if c in "diuxXo":
            slots.append(bv.var("x0", W))
            asked.append((bv.var("x0", W), base, sg, digits))
            body = [T(8, ord(x)) for x in (digits.upper() if c == "X" else digits)]
            if p is not None:
                body = [T(8, 48)] * (p - len(body)) + body
            body = pad(body, w, flag)
        elif c == "s":
            slots.append(s)
            body = pad(l[:p] if p is not None else l, w, flag)
        elif c == "c":
            slots.append(bv.var("x0", W))
            body = [bv.trunc(bv.var("x0", W), 8)]
        elif c == "%":
            body = [T(8, 37)]
        else:
            slots.append(bv.var("&n", W))
            sizes["&n"] = 4
            body = []
        want += body + [T(8, ord(">"))]
        t, m = self.string(st, "t", 2)
        sizes["&t"] = 3
        slots += [t, bv.var("y", W), bv.var("z", W)]
        asked.append((bv.var("z", W), 10, 0, "88"))
        want += m + [bv.trunc(bv.var("y", W), 8), T(8, 56), T(8, 56)]
        st.mem["&ap"] = {T(W, k * P): (P, x) for k, x in enumerate(slots)}
        sizes["&ap"] = len(slots) * P
        st.mem["&format"] = {T(W, k): (1, T(8, x)) for k, x in enumerate(text + b"\0")}
        what = "of \"%s\"" % text[2:-7].decode("latin1")

        def ntoab(E, st, fn, i, av):
            k = st.x.get("asked", 0)
            if k >= len(asked):
                self.wrong.append("asks for the digits of more numbers than the format has")
                raise Stop()
            x, base, sg, digits = asked[k]
            for got, exp, name in ((av[0], x, "number"), (av[1], T(32, base), "base")):
                if got != exp:
                    self.wrong.append("%s:%s: asks for the digits of the %s %r, not %r" % (fn.file, i.line, name, got, exp))
                    raise Stop()
            if sg is not None and (not av[2].isconst() or bool(av[2].c) != bool(sg)):
                self.wrong.append("%s:%s: takes the number as %s" % (fn.file, i.line, "unsigned" if sg else "signed"))
                raise Stop()
            st.x = dict(st.x, asked=k + 1)
            b = "&digits%d" % k
            sizes[b] = len(digits) + 1
            st.mem[b] = {T(W, j): (1, T(8, ord(d))) for j, d in enumerate(digits + "\0")}
            return [cx.Out("ret", st, bv.var(b, W))]
        F = self.M.funcs[f]
        size0 = len(want)
        for size in ((None,) if f == "vfprintf" else (size0 + 9, size0 + 1, size0, size0 - 1, 3, 1, 0)):
            if size is not None:
                sizes["&buf"] = size
            E = self.engine(sizes, {"ntoab": ntoab})
            st1 = st.clone()
            self.out.count("formats")
            args = [T(self.tw(F.params[0][0]), FD)] if size is None else [bv.var("&buf", W), T(self.tw(F.params[1][0]), size)]
            more = what + (" of %d arguments" % len(slots) if size is None else " into %d bytes, of a text of %d," % (size, size0))
            outs = self.run(E, f, args + [bv.var("&format", W), bv.var("&ap", W)], st1, more)
            if outs is None:
                return True
            if len(outs) != 1:
                raise report.Broken("%s %s has %d outcomes" % (f, more, len(outs)))
            o = outs[0]
            if c == "n":
                k = E.load(o.state, bv.var("&n", W), 4)
                if k != T(32, 2):
                    return self.bad(f, "count", "%s stores %r as the number of characters so far, not 2" % (more, k))
            if size is None:
                got = [(d, x) for d, x in o.state.x.get("out", ()) if d != T(32, ERR)]
                msg = self.differ(got, want, FD)
                if msg:
                    return self.bad(f, "text", "%s %s" % (more, msg))
            else:
                keep = want[:max(size - 1, 0)] + ([T(8, 0)] if size else [])
                got = [E.load(o.state, bv.add(bv.var("&buf", W), T(W, k)), 1) for k in range(len(keep))]
                if got != keep:
                    return self.bad(f, "text", "%s leaves %s, not %s" % (more, show(got), show(keep)))
            if o.val != T(o.val.w, size0):
                return self.bad(f, "result", "%s returns %r, not %d" % (more, o.val, size0))


def pad(l, w, flag):
    if len(l) >= w:
        return l
    return l + [T(8, 32)] * (w - len(l)) if flag == "-" else [T(8, 48 if flag == "0" else 32)] * (w - len(l)) + l


def show(l):
    return "\"%s\"" % "".join(chr(x.c & 255) if not x.t and 32 <= x.c & 255 < 127 else "\\%d" % (x.c & 255) if not x.t else "<%s>" % bv.rep(x.t[0][0]) for x in l)
