"""G15: numbers are read and printed exactly."""
import itertools, re
from checks import G11
from vt import bv, cx, mesc, prim, report, vset
from vt.bv import T

# the functions of the C library that make a text of a number (L15): width of the argument in bits (0: a word), signed
DIGITS = {"itoa": (32, True), "ltoa": (0, True), "utoa": (32, False), "ultoa": (0, False), "ltoab": (0, True), "itoab": (32, True), "utoab": (32, False), "ultoab": (0, False)}


CTYPE = {"isdigit": ((48, 57),), "isspace": ((9, 13), (32, 32)), "isxdigit": ((48, 57), (65, 70), (97, 102)), "isupper": ((65, 90),), "islower": ((97, 122),), "isalpha": ((65, 90), (97, 122)),
         "isalnum": ((48, 57), (65, 90), (97, 122))}


def ctype(name):
    """what L05 decides of the C library's function: one path per range of characters"""
    def model(E, st, f, i, av):
        c = av[0]
        if c.isconst():
            v = vset.sgn(c.c, c.w)
            return [cx.Out("ret", st, T(E.tw(i.ty), int(any(lo <= v <= hi for lo, hi in CTYPE[name]))))]
        r = []
        rest = [st]
        for lo, hi in CTYPE[name]:
            nxt = []
            for s in rest:
                for below in (True, False):
                    t = s.clone()
                    if not t.assume(bv.less(c, T(c.w, lo), True, 1, t), below):
                        continue
                    if below:
                        nxt.append(t)
                        continue
                    for above in (True, False):
                        t2 = t.clone()
                        if t2.assume(bv.less(T(c.w, hi), c, True, 1, t2), above):
                            if above:
                                nxt.append(t2)
                            else:
                                r.append(cx.Out("ret", t2, T(E.tw(i.ty), 1)))
            rest = nxt
        return r + [cx.Out("ret", s, T(E.tw(i.ty), 0)) for s in rest]
    return lambda obj: model


def check(out):
    out.cov["explanation"] = (
        "display_helper is evaluated abstractly on a number of unknown value: the text printed, where the digits are the C library's (L15) of a term over the value, must be the decimal text of the value on every path that admits it, "
        "for values around every limit. reader_read_sexp_ is evaluated on tokens of up to three unknown characters in front of an unknown delimiter, on #b, #o and #x tokens of unknown digits and on long tokens: for every "
        "combination of representative characters, the paths that admit it must read the number the token denotes, or the symbol of exactly these characters, and take the token and nothing after it.")
    for arch in ("x86_64", "x86"):
        p = prim.Prims(arch)
        for f in ("display_helper", "reader_read_sexp_"):
            if f not in p.m.M.funcs:
                raise report.Broken(f + " not found")
        for w in (0, 1):
            printed(out, p, arch, w)
        tokens(out, p, arch)
    out.need("numbers printed", 60)
    out.need("tokens", 2000)


def values(W):
    r = {0, 1, 9, 10, 99, 100, 12345678, (1 << 31) - 1, -(1 << 31), -1, -9, -10, -12345}
    if W == 64:
        r |= {1 << 31, (1 << 32) - 1, 1 << 32, -(1 << 31) - 1, -(1 << 32), (1 << 63) - 1, -(1 << 63), 12345678901, -98765432109876}
    return sorted(r)


def printed(out, p, arch, write):
    m = p.m
    W = m.W
    u = bv.var("n", W)

    def emit(st, x):
        st.x = dict(st.x, out=st.x.get("out", ()) + (x,))

    def put(E, st, f, i, av):
        emit(st, G11.byte(av[0]))
        return [cx.Out("ret", st, E.ret(st, i, "io"))]

    def puts(E, st, f, i, av):
        d = st.x.get("digits", {}).get(av[0])
        if d is not None:
            emit(st, d)
        else:
            s = mesc.cstring(m.M, av[0])
            if s is None:
                raise report.Broken("%s (%s) prints a text that is neither a literal nor a number's (line %s)" % (f.name, arch, i.line))
            for c in s:
                emit(st, T(32, ord(c)))
        return [cx.Out("ret", st, E.ret(st, i, "io"))]

    def digits(name):
        w, signed = DIGITS[name]

        def model(E, st, f, i, av):
            x = bv.var("&digits%d" % E.tick(st), W)
            a = av[0]
            base = av[1] if name.endswith("b") else T(W, 10)
            st.x = dict(st.x, digits=dict(st.x.get("digits", {}), **{}))
            st.x["digits"][x] = ("digits", bv.trunc(a, w) if w and a.w > w else a, base, signed)
            return [cx.Out("ret", st, x)]
        return model
    E = p.engine(models=dict({"fdputc": put, "fdputs": puts}, **{k: digits(k) for k in DIGITS}))
    E.peel = 4
    st = cx.State()
    st.mem.setdefault("@g_depth", {})[T(W, 0)] = (4, T(32, 5))
    p.operand(st, "&x0", "TNUMBER")
    st.mem["&x0"][T(W, m.O[2])] = (m.P, u)
    try:
        outs = E.run("display_helper", [bv.var("&x0", W), T(32, 0), E.gaddr(G11.empty(m.M)), T(32, 1), T(32, write)], st)
    except cx.Limit as e:
        raise report.Broken("display_helper (%s): %s" % (arch, e))
    for v in values(W):
        env = {"n": v & ((1 << W) - 1)}
        hit = 0
        for o in outs:
            try:
                if not vset.holds(o.state, env):
                    continue
            except vset.Unknown:
                pass
            hit += 1
            s = text(o.state.x.get("out", ()), env) if o.kind == "ret" else None
            out.count("numbers printed")
            if s != str(v):
                out.violation("print %s %s" % (arch, "write" if write else "display"), "display_helper (src/display.c, %s): the number %d is printed as %s" % (arch, v, s))
        if not hit:
            raise report.Broken("no path prints the number %d (%s)" % (v, arch))


def text(l, env):
    r = ""
    for x in l:
        try:
            if isinstance(x, tuple):
                n = vset.term(x[1], env)
                if x[3]:
                    n = vset.sgn(n, x[1].w)
                b = vset.term(x[2], env)
                if b < 2 or b > 36:
                    return None
                r += spell(n, b)
            else:
                r += chr(vset.term(x, env) & 255)
        except vset.Unknown:
            return None
    return r


def spell(n, b):
    if n < 0:
        return "-" + spell(-n, b)
    s = ""
    while True:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[n % b] + s
        n //= b
        if not n:
            return s


def denoted(s, W):
    """the object a token reads as: an integer, or a string for a symbol"""
    m = re.fullmatch(r"[+-]?[0-9]+", s)
    if m:
        return int(s)
    m = re.fullmatch(r"#([box])(-?)([0-9a-fA-F]+)", s)
    if m:
        n = int(m.group(3), {"b": 2, "o": 8, "x": 16}[m.group(1)])
        return -n if m.group(2) else n
    return s


def tokens(out, p, arch):
    W = p.m.W
    for n in (1, 2, 3) + ((4,) if out.thorough else ()):
        for parts in itertools.product(("+-", "0189/:", "a~"), repeat=n):
            reading(out, p, arch, "", n, parts)
    for r, ch in (("b", "01"), ("o", "0167"), ("x", "019afAF5")):
        for s in ("", "-"):
            for n in (1, 2, 3):
                reading(out, p, arch, "#" + r + s, n, (ch,) * n)
    long = [str(v) for v in values(W) if abs(v) > 999] + ["+" + str((1 << (W - 1)) - 1), "0" * 12 + "7", "-" + "0" * 12 + "15"]
    long += ["#x" + "%x" % ((1 << (W - 1)) - 1), "#x-" + "%x" % (1 << (W - 2)), "#o" + "%o" % ((1 << (W - 1)) - 1), "#b" + "{:b}".format((1 << (W - 1)) - 1), "#xdeadbee", "#xABCDEF0",
             "12345678a", "-12345-6", "+1b", "call-with-current-continuation", "x0123456789"]
    for s in long:
        reading(out, p, arch, s, 0, ())


def reading(out, p, arch, prefix, n, ch):
    m = p.m
    W = m.W

    def symbol(obj):
        def model(E, st, f, i, av):
            s = mesc.cstring(m.M, av[0]) if len(av[0].t) == 1 and av[0].t[0][0][0] == "v" and av[0].t[0][0][1][:1] == "@" and m.M.globals.get(av[0].t[0][0][1][1:], (0, 0, 0))[2] else None
            if s is not None:
                return obj(E, st, ("symbol", [T(8, ord(c)) for c in s]))
            r = []
            for k in range(80):
                b = E.load(st, bv.add(av[0], T(W, k)), 1)
                if b.isconst() and b.c & 255 == 0:
                    return obj(E, st, ("symbol", r))
                if b.t and st.decide(bv.iszero(b, 1, st)) is True:
                    return obj(E, st, ("symbol", r))
                r.append(b)
            return obj(E, st, ("symbol", None))
        return model

    def number(obj):
        return lambda E, st, f, i, av: obj(E, st, ("number", av[0]))
    us = [T(32, 0, ((("v", "u%d" % k), 1),)) for k in range(n)]
    d = bv.var("d", 32)
    st = cx.State()
    for u, c in zip(us, ch):
        for lo, hi in ((u, max(c)), (min(c), u)):
            a, b = (x if isinstance(x, T) else T(32, ord(x)) for x in (lo, hi))
            st.assume(bv.less(b, a, True, 1, st), False)
    outs = G11.read(p, st, [T(32, ord(c)) for c in prefix] + us + [d], models=dict({"cstring_to_symbol": symbol, "make_number": number}, **{k: ctype(k) for k in CTYPE}), peel=72)
    L = len(prefix) + n
    done = set()
    for kind, s, val, pos in outs:
        key = None
        for cs in itertools.product(*ch):
            env = {"u%d" % k: ord(c) for k, c in enumerate(cs)}
            tok = prefix + "".join(cs)
            for dl in G11.DELIM:
                env["d"] = dl
                try:
                    if not vset.holds(s, env):
                        continue
                except vset.Unknown as e:
                    raise report.Broken("reader (%s): a path of %r depends on %s" % (arch, prefix, e))
                done.add((cs, dl))
                out.count("tokens")
                want = denoted(tok, W)
                got = None
                if kind == "ret" and val is not None:
                    try:
                        if val[0] == "number":
                            got = vset.sgn(vset.term(val[1], env), W)
                        elif val[0] == "symbol" and val[1] is not None:
                            got = "".join(chr(vset.term(b, env) & 255) for b in val[1])
                    except vset.Unknown:
                        pass
                if isinstance(want, int):
                    want = vset.sgn(want, W)
                if got != want or type(got) != type(want):
                    out.violation("read %s %s" % (arch, key or prefix or "token"), "reader_read_sexp_ (src/reader.c, %s): %s in front of %s reads as %s" % (
                        arch, tok, "the end" if dl < 0 else repr(chr(dl)), "nothing known" if got is None else "the number %d" % got if isinstance(got, int) else "the symbol " + repr(got)))
                elif pos != L:
                    out.violation("extent %s %s" % (arch, prefix or "token"), "reader_read_sexp_ (src/reader.c, %s): reading %s takes %d characters, not %d" % (arch, tok, pos, L))
    for cs in itertools.product(*ch):
        for dl in G11.DELIM:
            if (cs, dl) not in done:
                out.violation("unread %s %s" % (arch, prefix or "token"), "reader_read_sexp_ (src/reader.c, %s): %s is never finished" % (arch, prefix + "".join(cs)))
                return
