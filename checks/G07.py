"""G07: indexing a vector, structure, string or byte area stays inside it."""
import re
from vt import bv, cx, mesc, prim, report
from vt.bv import T

# entry points through which element storage is reached; helpers are evaluated as part of them
ENTRIES = ["vector_ref_", "vector_ref", "vector_set_x_", "vector_set_x", "struct_ref_", "struct_ref", "struct_set_x_", "struct_set_x", "string_ref",
           "vector_to_list", "list_to_vector", "make_vector_", "make_vector", "make_struct", "equal2_p", "string_equal_p", "string_append",
           "string_to_list", "make_bytes", "make_string", "hash_table_printer", "display_helper", "builtin_p", "builtin_name", "builtin_arity", "builtin_function",
           "hashq_get_handle", "hash_ref", "hash_set_x_", "hash_set_x", "hashq_set_x", "stack_ref", "stack_length", "module_define_x", "make_stack", "make_frame"]

# what the type of the operand is decides what is indexed
BYTYPE = {"display_helper"}


def check(out):
    p = prim.Prims()
    m = p.m
    M, W, CELL = m.M, m.W, m.CELL
    out.cov["explanation"] = (
        "Every access made by these routines, on every path, to memory reached through the storage pointer of a vector or structure, the bytes of a string, "
        "or a block just obtained from alloc is resolved to owner + index * element size + field, and the facts of the path (comparisons passed, loop bounds) "
        "must imply 0 <= index < length of that owner; accepted indices of vector-ref, vector-set!, struct-ref, struct-set! and string-ref must select exactly "
        "the element named by the operand. Block copies into or out of bytes are compared with the length in the same way.")
    p.txt = {m.tags[t] for t in ("TSTRING", "TSYMBOL", "TKEYWORD", "TSPECIAL")}
    textoff = text_offset(p)
    adequate(out, p, textoff)
    todo = [f for f in ENTRIES if f in M.funcs]
    if len(todo) < len(ENTRIES) - 3:
        raise report.Broken("not found: %s" % [f for f in ENTRIES if f not in M.funcs])
    for fn in todo:
        analyse(out, p, fn, textoff)
    for name, kind in (("vector-ref", "TVECTOR"), ("vector-set!", "TVECTOR"), ("struct-ref", "TSTRUCT"), ("struct-set!", "TSTRUCT"), ("string-ref", "TSTRING")):
        element(out, p, name, kind, textoff)
    out.need("indexed accesses", 60)
    out.need("accepting paths", 8)


def text_offset(p):
    E = p.engine()
    o = E.run("cell_bytes", [bv.var("x", p.m.W)], cx.State())
    if len(o) != 1 or o[0].kind != "ret":
        raise report.Broken("cell_bytes not understood")
    d = bv.sub(o[0].val, bv.var("x", p.m.W))
    if d.t:
        raise report.Broken("cell_bytes is not a fixed offset")
    return d.c


def adequate(out, p, textoff):
    """bytes_cells (n) cells hold the header and n bytes, for every n"""
    m = p.m
    E = p.engine()
    ok = True
    for n in list(range(0, 6 * m.CELL)) + [524288, 524289]:
        o = E.run("bytes_cells", [T(m.W, n)], cx.State())
        if len(o) != 1 or not o[0].val.isconst():
            raise report.Broken("bytes_cells(%d) not understood" % n)
        out.count("byte sizes")
        if o[0].val.c * m.CELL < textoff + n or o[0].val.c < 1 or (o[0].val.c * m.CELL < textoff + 1):
            out.violation("bytes-cells", "bytes_cells (src/gc.c) reserves %d cells of %d bytes for %d bytes of text at offset %d" % (o[0].val.c, m.CELL, n, textoff))
            ok = False
            break
    return ok


OWN = re.compile(r"^\[(.+)\+(\d+)\](?:'\d+)?$")


class Acc:
    """classifies one address"""

    def __init__(self, p, textoff):
        self.p, self.textoff = p, textoff

    def typeof(self, E, st, Y):
        m = self.p.m
        for a, (lo, hi) in st.ranges.items():
            if lo == hi and a[0] == "v" and (a[1] == "[%s]" % Y or a[1].startswith("[%s]'" % Y)):
                return lo
        reg = st.mem.get(Y, {})
        e = reg.get(T(m.W, m.O[0]))
        if e is None:
            return None
        v = e[1]
        if v.isconst():
            return v.c
        for n, t in m.tags.items():
            if st.decide(E.icmp(st, "eq", v, T(v.w, t))) is True:
                return t
        return None

    def length(self, E, st, Y):
        m = self.p.m
        v = E.load(st, bv.add(bv.var(Y, m.W), T(m.W, m.O[1])), m.P)
        natural(st, v, text=self.typeof(E, st, Y) in self.p.txt)
        return v


def natural(st, v, text=False):
    """lengths of existing objects are not negative, and those of texts fit an int (make_string keeps them within MAX_STRING, an int)"""
    if len(v.t) == 1 and not v.c and v.t[0][1] == 1 and v.t[0][0] not in st.ranges:
        st.ranges[v.t[0][0]] = (0, (1 << 31) - 1 if text else 1 << 56)


def within(st, idx, cnt, m):
    """0 <= idx < cnt on this path"""
    W = idx.w
    if le(st, T(W, 0), idx) and le(st, bv.add(idx, T(W, 1)), cnt):
        return True
    # idx counts the steps of a walk along a list of cnt elements, and the walk has not reached its end
    for a, (init, off, k) in st.x.get("walks", {}).items():
        if off != m.O[2]:
            continue
        d = bv.sub(idx, bv.ideal(k, W))
        e = bv.sub(cnt, bv.var("count(%s)" % show(init), W))
        if d.t or e.t:
            continue
        dc, ec = signed(d.c, W), signed(e.c, W)
        live = st.decide(bv.trunc(bv.iszero(bv.sub(bv.var(a, W), bv.var("^cell_nil", W)), 64, st), 1)) is False
        if 0 <= dc <= ec + (0 if live else -1) and live:
            return True
    return False


def signed(c, W):
    return c - (1 << W) if c >= 1 << (W - 1) else c


def le(st, a, b):
    """a <= b as ideal integers on this path"""
    return st.bounds(bv.sub(b, a))[0] >= 0


def scaled(off, n):
    """off as (index, rest) with off = n * index + rest, 0 <= rest < n"""
    W = off.w
    idx = T(W, 0)
    half = 1 << (W - 1)
    for a, k in off.t:
        s = k - (1 << W) if k >= half else k
        if s % n:
            return None
        idx = bv.add(idx, T(W, 0, ((a, s // n),)))
    c = off.c - (1 << W) if off.c >= half else off.c
    return bv.add(idx, T(W, c // n)), c % n


def analyse(out, p, fn, textoff):
    m = p.m
    M, W, CELL = m.M, m.W, m.CELL
    A = Acc(p, textoff)
    bad = {}

    def flag(f, i, what):
        bad.setdefault((f, what), i.line)
    vec = {m.tags[t] for t in ("TVECTOR", "TSTRUCT")}
    txt = p.txt

    def deref(E, st, f, i, addr, n, wr):
        base, off = E.split(addr)
        if base is None:
            return
        if base in st.x.get("blocks", {}):
            cnt = st.x["blocks"][base]
            s = scaled(off, CELL)
            out.count("accesses to fresh blocks")
            if cnt[0] == "bytes":       # bytes at textoff
                if off.t or off.c >= textoff:
                    return
            if s is None or s[1] + n > CELL:
                flag(f.name, i, "an access at %s of a block of %s cells is not to a cell" % (off, cnt))
                return
            idx = s[0]
            if not within(st, idx, cnt[1], m):
                flag(f.name, i, "%s cell %s of a block of %s cells" % ("writes" if wr else "reads", show(idx), show(cnt[1])))
            return
        g = OWN.match(base)
        if not g or int(g.group(2)) != m.O[2]:
            return
        Y = g.group(1)
        t = A.typeof(E, st, Y)
        if t is None and not off.t:
            return
        L = None
        if t in vec:
            out.count("indexed accesses")
            s = scaled(off, CELL)
            if s is None or s[1] + n > CELL:
                flag(f.name, i, "an element access at byte offset %s is not aligned to elements" % show(off))
                return
            idx = s[0]
            L = A.length(E, st, Y)
            if not within(st, idx, L, m):
                flag(f.name, i, "%s element %s although the checks passed do not keep it within 0 .. length" % ("writes" if wr else "reads", show(idx)))
        elif t in txt:
            if not off.t and off.c < textoff:
                return
            out.count("indexed accesses")
            idx = bv.sub(off, T(W, textoff))
            L = A.length(E, st, Y)
            # the terminating null belongs to the text
            if not (le(st, T(W, 0), idx) and le(st, bv.add(idx, T(W, n - 1)), L)):
                flag(f.name, i, "%s byte %s of a text although the checks passed do not keep it within 0 .. length" % ("writes" if wr else "reads", show(idx)))
        elif t is None:
            out.count("indexed accesses")
            flag(f.name, i, "indexes into %s whose type is not established" % Y)

    def alloc(E, st, f, i, av):
        v = bv.var("&blk%d" % E.tick(st), W)
        b = dict(st.x.get("blocks", {}))
        b[v.t[0][0][1]] = ("cells", av[0])
        st.x = dict(st.x, blocks=b)
        return [cx.Out("ret", st, v)]

    def mkvec(E, st, f, i, av):
        b = bv.var("&vec%d" % E.tick(st), W)
        s = bv.var("&blk%d" % E.tick(st), W)
        bl = dict(st.x.get("blocks", {}))
        bl[s.t[0][0][1]] = ("cells", av[0])
        st.x = dict(st.x, blocks=bl)
        st.mem[b.t[0][0][1]] = {T(W, m.O[0]): (m.P, T(W, m.tags["TVECTOR"])), T(W, m.O[1]): (m.P, av[0]), T(W, m.O[2]): (m.P, s)}
        return [cx.Out("ret", st, b)]

    def mem(nargs):
        def g(E, st, f, i, av):
            n = av[2]
            for k in nargs:
                base, off = E.split(av[k])
                if base is None:
                    continue
                if base in st.x.get("blocks", {}):
                    kind, cnt = st.x["blocks"][base]
                    out.count("block copies")
                    want = st.x.get("sized", {}).get(base)
                    o = bv.sub(off, T(W, textoff))
                    if want is None or not (le(st, T(W, 0), o) and le(st, bv.add(o, n), want)):
                        flag(f.name, i, "copies %s bytes into a block reserved for %s" % (show(n), show(want) if want is not None else "%s cells" % show(cnt)))
                    continue
                mm = OWN.match(base)
                if mm and int(mm.group(2)) == m.O[2]:
                    Y = mm.group(1)
                    t = A.typeof(E, st, Y)
                    L = A.length(E, st, Y)
                    out.count("block copies")
                    o = bv.sub(off, T(W, textoff))
                    # text is followed by its terminating null
                    if not (le(st, T(W, 0), o) and le(st, bv.add(o, n), bv.add(L, T(W, 1)))):
                        flag(f.name, i, "reads %s bytes at %s of a text, which its length does not bound" % (show(n), show(o)))
            return [cx.Out("ret", st, E.ret(st, i, "mem"))]
        return g

    def bcells(E, st, f, i, av):
        v = bv.var("cells(%s)#%d" % (show(av[0]), E.tick(st)), W)
        st.x = dict(st.x, cells=dict(st.x.get("cells", {}), **{v.t[0][0][1]: av[0]}))
        st.ranges[v.t[0][0]] = (1, 1 << 60)
        return [cx.Out("ret", st, v)]

    def alloc2(E, st, f, i, av):
        r = alloc(E, st, f, i, av)
        c = st.x.get("cells", {})
        if len(av[0].t) == 1 and not av[0].c and av[0].t[0][0][1] in c:
            st.x = dict(st.x, sized=dict(st.x.get("sized", {}), **{r[0].val.t[0][0][1]: c[av[0].t[0][0][1]]}))
        return r

    def length(E, st, f, i, av):
        v = bv.var("count(%s)" % show(av[0]), W)
        st.ranges[v.t[0][0]] = (-1, 1 << 60)
        return [cx.Out("ret", st, v)]

    def textlist(E, st, f, i, av):
        # bytes_to_list (s, n) reads s[0 .. n-1]
        r = mem((0,))(E, st, f, i, [av[0], None, av[1]])
        return [cx.Out("ret", st, E.ret(st, i, "list"))]

    def hashc(E, st, f, i, av):
        # 0 <= hash < size is decided below
        v = bv.var("hash#%d" % E.tick(st), E.tw(i.ty))
        return [cx.Out("ret", st, v)]
    models = {"alloc": alloc2, "bytes_cells": bcells, "memcpy": mem((0, 1)), "memcmp": mem((0, 1)), "bytes_to_list": textlist, "hash_cstring": hashc,
              "gc_check": prim.silent, "module_ref": prim.silent, "write": prim.silent, "strlen": prim.silent, "fdisplay_": prim.silent}
    if fn not in ("vector_ref_", "vector_ref", "vector_set_x_", "vector_set_x", "struct_ref_", "struct_ref", "struct_set_x_", "struct_set_x"):
        # decided by themselves
        for x in ("vector_ref_", "vector_set_x_", "struct_ref_", "struct_set_x_"):
            models[x] = lambda E, st, f, i, av: [cx.Out("ret", st, E.ret(st, i, "element"))]
    for x in ("string_equal_p", "apply", "display_helper", "module_ref"):
        models[x] = prim.silent
    models["equal2_p"] = lambda E, st, f, i, av: [cx.Out("ret", st, E.ret(st, i, "equal"))]
    if fn != "make_vector_":
        models["make_vector_"] = mkvec
    if "length__" in M.funcs and fn != "length__":
        models["length__"] = lambda E, st, f, i, av: listlen(E, st, f, i, av, m)
    if fn in ("make_bytes", "make_string"):
        pass
    E = p.engine(models=models)
    E.on_deref = deref

    def onload(E, st, f, i, addr, n, v):
        base, off = E.split(addr)
        if base is not None and not off.t and off.c == m.O[1] and n == m.P:
            t = A.typeof(E, st, base)
            if t in vec | txt:
                natural(st, v, text=t in txt)
    E.on_load = onload
    E.separate = lambda st, a, b: mesc.separate(st, a, b) or a.startswith("[" + b) or b.startswith("[" + a)
    f = M.funcs[fn]
    out.count("routines")
    for tag in sorted(m.tags) if fn in BYTYPE else [None]:
        st = cx.State()
        args = [bv.var("a%d" % k, E.tw(ty)) for k, (ty, n) in enumerate(f.params)]
        if tag:
            args[0] = p.operand(st, "&x0", tag)
            if tag == "TPORT":        # a string port holds its string
                s = bv.var("&x0s", W)
                st.mem["&x0"][T(W, m.O[2])] = (m.P, s)
                p.operand(st, "&x0s", "TSTRING")
        try:
            outs = E.run(fn, args, st)
        except cx.Limit as e:
            raise report.Broken("%s: %s" % (fn, e))
        out.count("paths", len(outs))
    for (g, what), line in sorted(bad.items()):
        out.violation("%s %s %s" % (fn, g, re.sub(r"[#']\d+|:\d+", "", what)), "%s (line %s), reached from %s: %s" % (g, line, fn, what))


def listlen(E, st, f, i, av, m):
    v = bv.var("count(%s)" % show(av[0]), m.W)
    st.ranges[v.t[0][0]] = (-1, 1 << 60)
    return [cx.Out("ret", st, v)]


def show(t):
    return re.sub(r"[#']\d+", "", repr(t))


def element(out, p, name, kind, textoff):
    """an accepted index selects the element it names; others raise before touching memory"""
    m = p.m
    W, CELL = m.W, m.CELL
    fn = p.reg[name][1]
    acc = []

    def deref(E, st, f, i, addr, n, wr):
        base, off = E.split(addr)
        if base == "[&x0+%d]" % m.O[2]:
            if kind == "TSTRING" and not off.t and off.c < textoff:
                return
            st.x = dict(st.x, acc=st.x.get("acc", ()) + ((off, n, wr, i.line),))
    E = p.engine(models={"module_ref": prim.silent})
    E.on_deref = deref
    idx = bv.var("[&x1+%d]" % m.O[2], W)
    L = bv.var("[&x0+%d]" % m.O[1], W)
    st = cx.State()
    nargs = len(m.M.funcs[fn].params)
    natural(st, L)
    st.mem["&x1"] = {T(W, m.O[0]): (m.P, T(W, m.tags["TNUMBER"])), T(W, m.O[2]): (m.P, idx)}
    st.mem["&x0"] = {T(W, m.O[0]): (m.P, T(W, m.tags[kind])), T(W, m.O[1]): (m.P, L), T(W, m.O[2]): (m.P, bv.var("[&x0+%d]" % m.O[2], W))}
    E.ptratoms.add("[&x0+%d]" % m.O[2])
    args = [bv.var("&x%d" % k, W) for k in range(nargs)]
    try:
        outs = E.run(fn, args, st)
    except cx.Limit as e:
        raise report.Broken("%s: %s" % (name, e))
    writes = name.endswith("!")
    n = 0
    for o in outs:
        a = o.state.x.get("acc", ())
        if o.kind != "ret":
            if a:
                out.violation("late %s" % name, "%s (%s, line %s) touches an element and then fails" % (name, fn, a[0][3]))
            continue
        out.count("accepting paths")
        n += 1
        if not (le(o.state, T(W, 0), idx) and le(o.state, bv.add(idx, T(W, 1)), L)):
            out.violation("accepts %s" % name, "%s (%s) returns for an index that is not known to be within 0 .. length-1" % (name, fn))
        if not [x for x in a if x[2] == writes]:
            out.violation("no access %s" % name, "%s (%s) returns without %s the element" % (name, fn, "writing" if writes else "reading"))
        for off, k, wr, line in a:
            if kind == "TSTRING":
                if bv.sub(off, T(W, textoff)) != idx or k != 1:
                    out.violation("wrong %s" % name, "%s (%s, line %s) addresses byte %s for index %s" % (name, fn, line, show(bv.sub(off, T(W, textoff))), show(idx)))
            else:
                d = bv.sub(off, bv.mulc(idx, CELL))
                if d.t or not 0 <= d.c or d.c + k > CELL:
                    out.violation("wrong %s" % name, "%s (%s, line %s) addresses byte %s of the storage for index %s" % (name, fn, line, show(off), show(idx)))
    # some path must reject each end
    for lo in (True, False):
        ok = False
        for o in outs:
            if o.kind == "ret":
                continue
            s = o.state.clone()
            c = E.icmp(s, "slt", idx, T(W, 0)) if lo else E.icmp(s, "sge", idx, L)
            if s.decide(c) is not False:
                ok = True
        if not ok:
            out.violation("end %s" % name, "%s (%s) has no failing path for an index %s" % (name, fn, "below zero" if lo else "at the length or above"))
    if not n:
        out.violation("never %s" % name, "%s (%s) returns for no index" % (name, fn))
