"""G11: what write prints for characters and strings is what read reads back."""
from vt import bv, cx, mesc, prim, report, vset
from vt.bv import T

DELIM = [9, 10, 12, 32, 34, 40, 41, 59, -1]


def check(out):
    p = prim.Prims()
    m = p.m
    out.cov["explanation"] = (
        "display_helper in write mode is evaluated abstractly on a character of unknown value and on strings of one and two unknown bytes; each path gives the set of byte "
        "values that take it and the bytes it prints. Each printed form is then fed to the reader (reader_read_sexp_), with the unknown byte still unknown and followed by "
        "an unknown delimiter (characters) or by the closing quote (strings); on every reader path, for every value in the intersection of the two sets, the object read must "
        "be the byte written and all of the form, and nothing after it, must have been consumed.")
    for f in ("display_helper", "reader_read_sexp_"):
        if f not in m.M.funcs:
            raise report.Broken(f + " not found")
    chars(out, p)
    strings(out, p, 1)
    strings(out, p, 2)
    out.need("byte values as characters", 256)
    out.need("byte values in strings", 256)
    out.need("reader paths", 20)


def byte(t):
    """the byte a character argument puts in the output, as an int term"""
    return bv.ext(bv.trunc(t, 8), 32, False, None)


def written(p, obj, setup):
    """[(state, bytes)] of write"""
    m = p.m

    def put(E, st, f, i, av):
        st.x = dict(st.x, out=st.x.get("out", ()) + (byte(av[0]),))
        return [cx.Out("ret", st, E.ret(st, i, "io"))]

    def puts(E, st, f, i, av):
        s = mesc.cstring(m.M, av[0])
        if s is None:
            raise report.Broken("%s prints a text that is not a literal (line %s)" % (f.name, i.line))
        st.x = dict(st.x, out=st.x.get("out", ()) + tuple(T(32, ord(c)) for c in s))
        return [cx.Out("ret", st, E.ret(st, i, "io"))]

    def write(E, st, f, i, av):
        if not av[2].isconst() or av[2].c > 64:
            raise report.Broken("%s writes a block of unknown size (line %s)" % (f.name, i.line))
        o = tuple(bv.ext(E.load(st, bv.add(av[1], T(m.W, k)), 1), 32, False, None) for k in range(av[2].c))
        st.x = dict(st.x, out=st.x.get("out", ()) + o)
        return [cx.Out("ret", st, av[2])]
    E = p.engine(models={"fdputc": put, "fdputs": puts, "write": write, "_write": write})
    E.peel = 4
    st = cx.State()
    g = st.mem.setdefault("@g_depth", {})
    g[T(m.W, 0)] = (4, T(32, 5))
    setup(st)
    try:
        outs = E.run("display_helper", [obj, T(32, 0), E.gaddr(empty(m.M)), T(32, 1), T(32, 1)], st)
    except cx.Limit as e:
        raise report.Broken("display_helper: %s" % e)
    r = [(o.state, list(o.state.x.get("out", ()))) for o in outs if o.kind == "ret"]
    if not r:
        raise report.Broken("write never returns")
    return r


def empty(M):
    for n, g in M.globals.items():
        if g[1] is not None and (g[1][0] == "zero" and g[0] == ("arr", 1, ("i", 8)) or g[1][0] == "str" and g[1][1] == b"\0"):
            return n
    raise report.Broken("no empty string literal")


def read(p, st, stream, models=None, peel=16):
    """[(kind, state, value, consumed)]: value is ("char", term), ("string", [bytes]) or None"""
    m = p.m
    W = m.W

    def readchar(E, st, f, i, av):
        k = st.x.get("pos", 0)
        st.x = dict(st.x, pos=k + 1)
        return [cx.Out("ret", st, stream[k] if k < len(stream) else T(32, -1))]

    def peek(E, st, f, i, av):
        k = st.x.get("pos", 0)
        return [cx.Out("ret", st, stream[k] if k < len(stream) else T(32, -1))]

    def unread(E, st, f, i, av):
        st.x = dict(st.x, pos=st.x.get("pos", 0) - 1)
        return [cx.Out("ret", st, av[0])]

    def char(E, st, f, i, av):
        return obj(E, st, ("char", av[0]))

    def obj(E, st, v):
        x = bv.var("obj#%d" % E.tick(st), W)
        st.x = dict(st.x, objs=dict(st.x.get("objs", {}), **{x.t[0][0][1]: v}))
        return [cx.Out("ret", st, x)]

    def string(E, st, f, i, av):
        if not av[1].isconst() or av[1].c > 64:
            return obj(E, st, ("string", None))
        return obj(E, st, ("string", [E.load(st, bv.add(av[0], T(W, k)), 1) for k in range(av[1].c)]))

    def number(E, st, f, i, av):
        x = bv.var("&num%d" % E.tick(st), W)
        st.mem[x.t[0][0][1]] = {T(W, m.O[0]): (m.P, T(W, m.tags["TNUMBER"])), T(W, m.O[2]): (m.P, av[0])}
        return [cx.Out("ret", st, x)]

    def strcmp(E, st, f, i, av):
        a, b = (bytes_at(E, st, x) for x in av[:2])
        if a is None or b is None:
            return [cx.Out("ret", st, E.ret(st, i, "cmp"))]
        return [cx.Out("ret", st, T(E.tw(i.ty), 0 if a == b else 1))]

    def bytes_at(E, st, x):
        s = mesc.cstring(m.M, x)
        if s is not None and m.M.globals[x.t[0][0][1][1:]][2]:
            return s.encode("latin1")
        r = []
        for k in range(64):
            b = E.load(st, bv.add(x, T(W, k)), 1)
            if not b.isconst():
                return None
            if b.c & 255 == 0:
                return bytes(r)
            r.append(b.c & 255)
        return None
    E = p.engine(models=dict({"readchar": readchar, "peekchar": peek, "unreadchar": unread, "make_char": char, "make_string": string, "make_number": number, "strcmp": strcmp,
                              "assert_max_string": prim.stop}, **{k: f(obj) for k, f in (models or {}).items()}))
    E.peel = peel
    st = st.clone()
    first = stream[0]
    st.x = dict(st.x, pos=1)
    st.mem["@MAX_STRING"] = {T(W, 0): (p.m.M.size(m.M.globals["MAX_STRING"][0]), T(8 * p.m.M.size(m.M.globals["MAX_STRING"][0]), 524288))}
    f = m.M.funcs["reader_read_sexp_"]
    try:
        outs = E.run("reader_read_sexp_", [first, bv.var("^cell_nil", W)], st)
    except cx.Limit as e:
        raise report.Broken("reader_read_sexp_: %s" % e)
    r = []
    for o in outs:
        v = None
        if o.kind == "ret" and len(o.val.t) == 1 and o.val.t[0][0][0] == "v":
            v = o.state.x.get("objs", {}).get(o.val.t[0][0][1])
        r.append((o.kind, o.state, v, o.state.x.get("pos", 0)))
    return r


def name(v):
    return "%d%s" % (v, " ('%c')" % v if 32 < v < 127 else "")


def show(t):
    return "".join(chr(x.c) if x.isconst() and 32 <= x.c < 127 else "<%d>" % x.c if x.isconst() else "c" for x in t)


def chars(out, p):
    m = p.m
    W = m.W
    u = bv.var("c", W)
    seen = {}

    def setup(st):
        p.operand(st, "&x0", "TCHAR")
        st.mem["&x0"][T(W, m.O[2])] = (m.P, u)
    d = bv.var("d", 32)
    for st, text in written(p, bv.var("&x0", W), setup):
        S = [v for v in range(256) if vset.holds(st, {"c": v})]
        for v in S:
            if v in seen:
                raise report.Broken("two printed forms for character %d" % v)
            seen[v] = text
        if not S:
            continue
        out.count("byte values as characters", len(S))
        out.count("forms")
        left = {(v, x) for v in S for x in DELIM}
        for kind, s, val, pos in read(p, st, text + [d]):
            P = [(v, x) for v, x in left if vset.holds(s, {"c": v, "d": x})]
            if not P:
                continue
            out.count("reader paths")
            left -= set(P)
            for v, x in P:
                if kind != "ret" or val is None or val[0] != "char":
                    out.violation("char %d" % v, "character %s is written %s, which the reader does not read as a character" % (name(v), show(text)))
                    continue
                try:
                    got = vset.term(val[1], {"c": v, "d": x})
                except vset.Unknown:
                    got = None
                got = got if got is None else vset.sgn(got, val[1].w)
                if got != v:
                    out.violation("char %d" % v, "character %s is written %s, which reads back as %s" % (name(v), show(text), "an unknown value" if got is None else name(got & 255)))
                elif pos != len(text):
                    out.violation("char extent %d" % v, "reading %s (character %s) takes %d characters of input, not %d" % (show(text), name(v), pos, len(text)))
        for v, x in sorted(left)[:1]:
            out.violation("char %d" % v, "character %s is written %s, which the reader does not finish reading" % (name(v), show(text)))
    for v in range(256):
        if v not in seen:
            out.violation("unwritten %d" % v, "write prints nothing for character %s" % name(v))


def strings(out, p, n):
    m = p.m
    W = m.W
    E0 = p.engine()
    o = E0.run("cell_bytes", [bv.var("x", W)], cx.State())
    toff = bv.sub(o[0].val, bv.var("x", W)).c
    bs = [bv.var("c%d" % k, 8) for k in range(n)]

    def setup(st):
        p.operand(st, "&x0", "TSTRING")
        st.mem["&x0"][T(W, m.O[1])] = (m.P, T(W, n))
        st.mem["&x0"][T(W, m.O[2])] = (m.P, bv.var("&bytes", W))
        st.mem["&bytes"] = {T(W, toff + k): (1, bs[k]) for k in range(n)}
        st.mem["&bytes"][T(W, toff + n)] = (1, T(8, 0))
    seen = set()
    probe = [0, 9, 10, 27, 34, 48, 49, 65, 92, 97, 110, 120, 128, 255]
    for st, text in written(p, bv.var("&x0", W), setup):
        if n == 1:
            S = [(v,) for v in range(256) if vset.holds(st, {"c0": v})]
        else:
            A = [v for v in range(256) if vset.holds(st, {"c0": v})]
            B = [v for v in probe if vset.holds(st, {"c1": v})]
            S = [(a, b) for a in A for b in B if vset.holds(st, {"c0": a, "c1": b})]
        if not S:
            continue
        seen |= set(S)
        out.count("byte values in strings", len(S))
        left = set(S)
        for kind, s, val, pos in read(p, st, text):
            P = [v for v in left if vset.holds(s, {"c%d" % k: x for k, x in enumerate(v)})]
            if not P:
                continue
            out.count("reader paths")
            left -= set(P)
            for v in P:
                env = {"c%d" % k: x for k, x in enumerate(v)}
                what = "the string of the byte%s %s" % ("s" if n > 1 else "", ", ".join(name(x) for x in v))
                if kind != "ret" or val is None or val[0] != "string" or val[1] is None:
                    out.violation("string " + "-".join(map(str, v)), "%s is written %s, which the reader does not read as a string" % (what, show(text)))
                    continue
                try:
                    got = tuple(vset.term(b, env) for b in val[1])
                except vset.Unknown:
                    got = None
                if got != v:
                    out.violation("string " + "-".join(map(str, v)), "%s is written %s, which reads back as %s" % (what, show(text), got))
                elif pos != len(text):
                    out.violation("string extent", "reading %s takes %d characters of input, not %d" % (show(text), pos, len(text)))
        for v in sorted(left)[:1]:
            out.violation("string " + "-".join(map(str, v)), "the string of %s is written %s, which the reader does not finish reading" % (v, show(text)))
    if len({v[0] for v in seen}) < 256:
        out.violation("unwritten string", "write prints nothing for some string")
