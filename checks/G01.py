"""G01: the collector follows, copies and moves every component of every object type."""
from vt import bv, cx, mesc, report
from vt.bv import T

# what each type's two components hold.  ref: a Scheme object; raw: anything else;
# any: never a movable reference, so treating it either way is harmless;
# body: the elements that follow; data: inline bytes
KINDS = {
    "TCHAR": ("raw", "raw"),
    "TNUMBER": ("raw", "raw"),
    "TBYTES": ("raw", "data"),
    "TCLOSURE": ("any", "ref"),          # car: #f, an immovable special object
    "TCONTINUATION": ("raw", "ref"),
    "TKEYWORD": ("raw", "ref"),
    "TMACRO": ("ref", "ref"),
    "TPAIR": ("ref", "ref"),
    "TPORT": ("raw", "ref"),
    "TREF": ("ref", "raw"),
    "TSPECIAL": ("raw", "ref"),
    "TSTRING": ("raw", "ref"),
    "TSTRUCT": ("raw", "body"),
    "TSYMBOL": ("raw", "ref"),
    "TVALUES": ("raw", "ref"),           # car: 0
    "TVARIABLE": ("ref", "raw"),
    "TVECTOR": ("raw", "body"),
}


class Env:
    def __init__(self, out):
        self.out = out
        m = self.m = mesc.Mes()
        self.W, self.P, self.CELL, self.O = m.W, m.P, m.CELL, m.O
        for n in KINDS:
            if n not in m.tags:
                raise report.Broken("type %s not in constants.h" % n)
        for n in m.tags:
            if n not in KINDS and n != "TBROKEN_HEART":
                raise report.Broken("type %s has no component description in this check" % n)

    def c(self, x):
        return T(self.W, x)

    def engine(self, sel, tag, models=None, opaque=()):
        """sel(base, off): is this the type word of the object under study?"""
        m = self.m
        mo = {"memcpy": memmodel, "memmove": memmodel}
        for n in ("eputs", "oputs", "ltoa", "ntoab", "itoa", "gc_stats_", "strlen"):
            mo[n] = silent
        mo.update(models or {})
        E = m.engine(models=mo, opaque=opaque)
        base_hook = E.init_hook

        def hook(E, st, base, off, n, ty):
            if n == self.P and sel is not None and sel(st, base, off):
                return T(self.W, m.tags[tag])
            if base == "@g_debug" and not off.t and off.c == 0:
                return T(8 * n, 0)
            return base_hook(E, st, base, off, n, ty)
        E.init_hook = hook
        return E

    def bytes_cells(self, L, st):
        """number of cells of a byte area of L bytes, as the code computes it"""
        E = self.m.engine()
        r = [o for o in E.run("bytes_cells", [L], st.clone()) if o.kind == "ret"]
        if len(r) != 1:
            raise report.Broken("bytes_cells has %d results" % len(r))
        return r[0].val


def memmodel(E, st, f, i, av):
    st.events.append(cx.Event("bytes", "memcpy", av, i, f.name))
    return [cx.Out("ret", st, av[0])]


def silent(E, st, f, i, av):
    return [cx.Out("ret", st, E.ret(st, i, "text"))]


def same(a, b):
    return bv.sub(a, b).t == () and bv.sub(a, b).c == 0


def diff0(a, b):
    d = bv.sub(a, b)
    return not d.t and d.c == 0


def low(a, b, w=32):
    """equal in the low w bits (cell counts fit an int)"""
    return diff0(bv.trunc(a, w) if a.w > w else a, bv.trunc(b, w) if b.w > w else b)


def advance_ok(adv, cell, count):
    """adv bytes == cell * count, where the count may have passed through an int"""
    return low(adv, bv.mulc(count, cell))


def ptrphis(M, f, info):
    fn = M.funcs[f]
    h = info[1]
    return [(i.res, info[2][i.res]) for i in fn.blocks[h] if i.op == "phi" and i.ty == "ptr" and i.res in info[2]]


def ev_bytes(st):
    return [e for e in st.events if e.kind in ("bytes", "memcpy")]


def check(out):
    G = Env(out)
    scan(G)
    copy(G)
    move(G)
    areas(G)
    storage(G)
    construction(G)
    out.cov["explanation"] = (
        "gc_loop, gc_copy and gc_cellcpy are evaluated abstractly once per object type with the type word of the object under study "
        "fixed and everything else unknown (LLVM IR of src/*.c, helpers inlined). Per type the three functions must treat each "
        "component according to a table: a reference is passed to gc_copy and the result stored back, relocated by exactly the "
        "distance between the two areas; a raw component is stored unchanged; vector and structure bodies are copied element by "
        "element; byte areas are copied whole; and the scan, the allocation pointer and the moving pointers advance by exactly the "
        "object's size. Byte areas are at least header plus length. What is written into the storage of vectors and structures is a character, a number or a "
        "reference (the objects that survive being copied inline), what is read from it never is the storage cell itself, and each constructor call puts "
        "references and raw values where the collector expects them.")
    out.need("obligations", 120)


def scan(G):
    m, out = G.m, G.out
    for tag, (ca, cd) in sorted(KINDS.items()):
        copies = []

        def gc_copy(E, st, f, i, av):
            v = bv.var("copy(%r)" % (av[0],), E.W)
            st.events.append(cx.Event("copy", "gc_copy", av, i, f.name, v))
            return [cx.Out("ret", st, v)]

        p = m.M.funcs["gc_loop"].params[0][1] if "gc_loop" in m.M.funcs else None
        if p is None:
            raise report.Broken("gc_loop not found")
        base = "scan0"
        E = G.engine(lambda st, b, off: b == base and is_start(off, G), tag, {"gc_copy": gc_copy, "gc_flip": silent})
        a0 = E.fresh(base, "ptr")
        try:
            outs = E.run("gc_loop", [a0], cx.State())
        except cx.Limit as e:
            raise report.Broken("gc_loop: %s" % e)
        its = [o for o in outs if o.kind == "loop"]
        if any(o.kind in ("assert", "error", "exit", "unreachable") for o in outs):
            out.violation("scan %s aborts" % tag, "gc_loop stops with an error on a live %s object" % tag)
            continue
        if not its:
            out.violation("scan %s loop" % tag, "gc_loop does not go on scanning after a %s object" % tag)
            continue
        for o in its:
            ph = ptrphis(m.M, o.info[0], o.info)
            if len(ph) != 1:
                raise report.Broken("gc_loop: cannot identify the scan pointer among %s" % [x for x, _ in ph])
            cur, nxt = ph[0][1]
            bs, off = E.split(cur)
            final = o.state.mem.get(bs, {})
            evs = [e for e in o.state.events if e.kind == "copy"]
            for fld, kind, nm in ((1, ca, "car"), (2, cd, "cdr")):
                at = bv.add(off, G.c(G.O[fld]))
                e = final.get(at)
                orig = None
                # the component as it was: what a fresh load names it
                s0 = cx.State()
                s0.mem = {}
                val = e[1] if e is not None else None
                src = E.load(start(o), bv.add(cur, G.c(G.O[fld])), G.P, "ptr")
                copied = [x for x in evs if diff0(x.args[0], src)]
                out.count("obligations")
                if kind == "ref":
                    if not copied:
                        out.violation("scan %s %s" % (tag, nm), "gc_loop does not copy the object the %s of a %s refers to: it is lost or left behind at the next collection" % (nm, tag))
                    elif val is None or not diff0(val, copied[-1].val):
                        out.violation("scan %s %s store" % (tag, nm), "gc_loop copies the %s of a %s but does not store the new address in it" % (nm, tag))
                elif kind in ("raw", "body", "data"):
                    if copied:
                        out.violation("scan %s %s" % (tag, nm), "gc_loop treats the raw %s of a %s as an object" % (nm, tag))
                    elif val is not None and not diff0(val, src):
                        out.violation("scan %s %s store" % (tag, nm), "gc_loop changes the raw %s of a %s" % (nm, tag))
                else:
                    if copied and (val is None or not diff0(val, copied[-1].val)) or not copied and val is not None and not diff0(val, src):
                        out.violation("scan %s %s store" % (tag, nm), "gc_loop changes the %s of a %s" % (nm, tag))
            t = final.get(off)
            if t is not None and not (not t[1].t and t[1].c == m.tags[tag]):
                out.violation("scan %s type" % tag, "gc_loop changes the type of a %s object" % tag)
            adv = bv.sub(nxt, cur)
            out.count("obligations")
            L = E.load(start(o), bv.add(cur, G.c(G.O[1])), G.P)
            if tag == "TBYTES":
                ok = advance_ok(adv, G.CELL, G.bytes_cells(L, o.state))
            else:
                ok = not adv.t and adv.c == G.CELL
            if not ok:
                out.violation("scan %s advance" % tag, "gc_loop advances by %r bytes over a %s object%s" % (
                    adv, tag, "" if tag == "TBYTES" else " of %d bytes" % G.CELL))
    # the loop goes on exactly while scan < g_free, and flips after it
    E = G.engine(None, None, {"gc_copy": lambda E, st, f, i, av: [cx.Out("ret", st, E.fresh("c#%d" % E.tick(st), "ptr"))],
                              "gc_flip": lambda E, st, f, i, av: (st.events.append(cx.Event("flip", "gc_flip", av, i, f.name)), [cx.Out("ret", st, None)])[1]})
    outs = E.run("gc_loop", [E.fresh("scan0", "ptr")], cx.State())
    its = [o for o in outs if o.kind == "loop"]
    for o in outs:
        if o.kind not in ("ret", "loop"):
            continue
        out.count("obligations")
        if o.kind == "ret" and len([e for e in o.state.events if e.kind == "flip"]) != 1:
            out.violation("scan flip", "gc_loop returns without exactly one gc_flip")
        ph = ptrphis(m.M, "gc_loop", (o if o.kind == "loop" else its[0]).info)
        if len(ph) != 1 or not its:
            raise report.Broken("gc_loop: scan pointer not identified")
        cur = ph[0][1][0]
        s0 = start(its[0])
        end = E.load(s0, bv.var("@g_free", G.W), G.P, "ptr")
        d = o.state.decide(E.icmp(o.state, "ult", cur, end))
        if o.kind == "ret" and d is not False:
            out.violation("scan stops early", "gc_loop stops before every copied object is scanned")
        if o.kind == "loop" and d is not True:
            out.violation("scan goes too far", "gc_loop scans beyond the copied objects")


def start(o):
    """the state at the start of the iteration, for naming what memory held then"""
    return o.info[4].clone()


def is_start(off, G):
    """offset of an object's first word: no constant component inside the cell"""
    return off.c % G.CELL == 0 and off.c == 0


def copy(G):
    m, out = G.m, G.out
    if "gc_copy" not in m.M.funcs:
        raise report.Broken("gc_copy not found")
    for tag in sorted(KINDS) + ["TBROKEN_HEART"]:
        E = G.engine(lambda st, b, off: b == "old" and not off.t and off.c == 0, tag)
        old = E.fresh("old", "ptr")
        st = cx.State()
        free = E.load(st, bv.var("@g_free", G.W), G.P, "ptr")
        init = st.clone()
        oc = [E.load(init, bv.add(old, G.c(o)), G.P) for o in G.O]
        try:
            outs = E.run("gc_copy", [old], st)
        except cx.Limit as e:
            raise report.Broken("gc_copy: %s" % e)
        rets = [o for o in outs if o.kind == "ret"]
        if not rets:
            out.violation("copy %s" % tag, "gc_copy does not return for a %s object" % tag)
        if any(o.kind in ("error", "unreachable") for o in outs):
            out.violation("copy %s aborts" % tag, "gc_copy fails on a %s object" % tag)
        for o in rets:
            out.count("obligations")
            g = o.state.mem.get("@g_free", {}).get(T(G.W, 0))
            gf = g[1] if g else free
            if tag == "TBROKEN_HEART":
                if not diff0(o.val, oc[1]):
                    out.violation("copy forwarding", "gc_copy of an already copied object returns %r, not the forwarding address" % o.val)
                if not diff0(gf, free):
                    out.violation("copy forwarding allocates", "gc_copy of an already copied object allocates again")
                continue
            cells = o.state.mem
            if not diff0(o.val, free):
                out.violation("copy %s result" % tag, "gc_copy returns %r for a %s, not the address of the copy" % (o.val, tag))
                continue
            nb, no = E.split(free)
            reg = cells.get(nb, {})

            def new(fld):
                e = reg.get(bv.add(no, G.c(G.O[fld])))
                return e[1] if e else None
            body = KINDS[tag][1] == "body"
            want = [G.c(m.tags[tag]), oc[1], bv.add(free, G.c(G.CELL)) if body else oc[2]]
            nbytes = [e for e in ev_bytes(o.state)]
            for fld, nm in ((0, "type"), (1, "car"), (2, "cdr")):
                out.count("obligations")
                v = new(fld)
                if v is None and nbytes and any(diff0(e.args[0], free) and not e.args[2].t and e.args[2].c >= G.O[fld] + G.P for e in nbytes):
                    continue
                if tag == "TBYTES" and fld == 2:
                    continue
                if v is None or not diff0(v, want[fld]):
                    if v is None and body and fld != 2:
                        # the element stores may have made it unknown: elements start behind the header
                        pass
                    out.violation("copy %s %s" % (tag, nm), "the copy of a %s object has %s in its %s, expected %r" % (tag, "nothing known" if v is None else repr(v), nm, want[fld]))
            # forwarding
            f0 = cells.get("old", {}).get(T(G.W, G.O[0]))
            f1 = cells.get("old", {}).get(T(G.W, G.O[1]))
            out.count("obligations")
            if not (f0 and not f0[1].t and f0[1].c == m.tags["TBROKEN_HEART"]):
                out.violation("copy %s mark" % tag, "gc_copy does not mark the old %s object as copied" % tag)
            if not (f1 and diff0(f1[1], free)):
                out.violation("copy %s forward" % tag, "gc_copy does not leave the new address in the old %s object" % tag)
            adv = bv.sub(gf, free)
            if tag == "TBYTES":
                ok = advance_ok(adv, G.CELL, G.bytes_cells(oc[1], o.state))
                if not ok:
                    out.violation("copy TBYTES size", "gc_copy allocates %r bytes for a byte area, not bytes_cells (length) cells" % adv)
                if not copies_bytes(G, E, outs, o, bv.add(free, G.c(G.O[2])), bv.add(old, G.c(G.O[2])), oc[1]):
                    out.violation("copy TBYTES data", "gc_copy does not copy the length bytes of a byte area to the new object's data")
            elif body:
                copy_body(G, E, outs, o, tag, old, oc, free, adv)
            else:
                if adv.t or adv.c != G.CELL:
                    out.violation("copy %s size" % tag, "gc_copy allocates %r bytes for a %s" % (adv, tag))
                if nbytes and not all(diff0(e.args[0], free) for e in nbytes):
                    out.violation("copy %s extra" % tag, "gc_copy copies byte data for a %s" % tag)


def copies_bytes(G, E, outs, o, dst, src, n):
    for e in ev_bytes(o.state):
        if diff0(e.args[0], dst) and diff0(e.args[1], src) and low(e.args[2], n, 64):
            return True
    # a byte loop
    for l in outs:
        if l.kind != "loop":
            continue
        k = bv.ideal(l.info[3], G.W)
        b, off = E.split(dst)
        e = l.state.mem.get(b, {}).get(bv.add(off, k))
        if e is not None and e[0] == 1:
            v = E.load(start(l), bv.add(src, k), 1)
            if diff0(e[1], v) and l.state.decide(E.icmp(l.state, "slt", k, n)) is True and \
                    o.state.decide(E.icmp(o.state, "slt", k, n)) is False:
                return True
    return False


def copy_body(G, E, outs, o, tag, old, oc, free, adv):
    out = G.out
    loops = [l for l in outs if l.kind == "loop"]
    out.count("obligations")
    ok = False
    why = "no loop copying its elements"
    for l in loops:
        k = bv.ideal(l.info[3], G.W)
        st = l.state
        dst = bv.add(free, bv.add(G.c(G.CELL), bv.mulc(k, G.CELL)))
        src = bv.add(oc[2], bv.mulc(k, G.CELL))
        b, off = E.split(dst)
        reg = st.mem.get(b, {})
        good = True
        for fld in range(3):
            e = reg.get(bv.add(off, G.c(G.O[fld])))
            v = E.load(start(l), bv.add(src, G.c(G.O[fld])), G.P)
            if e is None or not diff0(e[1], v):
                if any(diff0(x.args[0], dst) and diff0(x.args[1], src) and not x.args[2].t and x.args[2].c == G.CELL for x in ev_bytes(st)):
                    continue
                good = False
                why = "word %d of element k is %s, expected %r" % (fld, e[1] if e else "not written", v)
        if not good:
            continue
        if st.decide(E.icmp(st, "slt", k, oc[1])) is not True:
            why = "the loop also copies elements beyond the length"
            continue
        if o.state.decide(E.icmp(o.state, "slt", k, oc[1])) is not False:
            why = "the loop may stop before the last element"
            continue
        if not diff0(adv, bv.add(G.c(G.CELL), bv.mulc(k, G.CELL))):
            why = "the allocation pointer advances by %r" % adv
            continue
        ok = True
        break
    if not ok:
        for e in ev_bytes(o.state):
            if diff0(e.args[0], bv.add(free, G.c(G.CELL))) and diff0(e.args[1], oc[2]) and diff0(e.args[2], bv.mulc(oc[1], G.CELL)) and \
                    diff0(adv, bv.add(G.c(G.CELL), bv.mulc(oc[1], G.CELL))):
                ok = True
    if not ok:
        out.violation("copy %s body" % tag, "gc_copy of a %s: %s" % (tag, why))


def move(G):
    m, out = G.m, G.out
    if "gc_cellcpy" not in m.M.funcs:
        raise report.Broken("gc_cellcpy not found")
    ps = m.M.funcs["gc_cellcpy"].params
    if len(ps) != 3:
        raise report.Broken("gc_cellcpy has %d parameters" % len(ps))
    for tag, (ca, cd) in sorted(KINDS.items()):
        E = G.engine(lambda st, b, off: b == "src" and off.c == 0, tag)
        E.separate = lambda st, a, b: True      # objects are read before the word they are moved to is written (forward copy)
        dst, src, n = E.fresh("dest", "ptr"), E.fresh("src", "ptr"), E.fresh("n", ("i", G.W))
        try:
            outs = E.run("gc_cellcpy", [dst, src, n], cx.State())
        except cx.Limit as e:
            raise report.Broken("gc_cellcpy: %s" % e)
        dist = bv.sub(src, dst)
        its = [o for o in outs if o.kind == "loop"]
        if any(o.kind in ("assert", "error", "exit") for o in outs) or not its:
            out.violation("move %s aborts" % tag, "gc_cellcpy does not move a %s object" % tag)
            continue
        for o in its:
            ph = ptrphis(m.M, o.info[0], o.info)
            cur = {}
            for nm, (v, x) in ph:
                b, off = E.split(v)
                cur[b] = (v, x)
            if set(cur) != {"src", "dest"}:
                raise report.Broken("gc_cellcpy: moving pointers not identified: %s" % sorted(map(str, cur)))
            sc, sn = cur["src"]
            dc, dn = cur["dest"]
            for fld, kind, nm in ((0, "type", "type"), (1, ca, "car"), (2, cd, "cdr")):
                b, off = E.split(bv.add(dc, G.c(G.O[fld])))
                e = o.state.mem.get(b, {}).get(off)
                a = E.load(start(o), bv.add(sc, G.c(G.O[fld])), G.P)
                out.count("obligations")
                v = e[1] if e is not None else None
                moved = bv.sub(a, dist)
                if kind == "type":
                    okv = v is not None and not v.t and v.c == m.tags[tag]
                elif kind == "data":
                    okv = True
                elif kind in ("ref", "body"):
                    okv = v is not None and diff0(v, moved)
                elif kind == "raw":
                    okv = v is not None and diff0(v, a)
                else:
                    okv = v is not None and diff0(v, a)
                if not okv:
                    out.violation("move %s %s" % (tag, nm), "gc_cellcpy stores %s in the %s of a moved %s, expected %s" % (
                        v, nm, tag, "the reference minus the moved distance" if kind in ("ref", "body") else "the unchanged value"))
            if tag == "TBYTES":
                L = E.load(start(o), bv.add(sc, G.c(G.O[1])), G.P)
                if not copies_bytes(G, E, outs, o, bv.add(dc, G.c(G.O[2])), bv.add(sc, G.c(G.O[2])), L):
                    out.violation("move TBYTES data", "gc_cellcpy does not move the length bytes of a byte area")
                want = G.bytes_cells(L, o.state)
                ok = advance_ok(bv.sub(sn, sc), G.CELL, want) and advance_ok(bv.sub(dn, dc), G.CELL, want)
                cnt = [bv.sub(x, v) for r, (v, x) in o.info[2].items() if v.w == G.W and not any(r == y for y, _ in ph)]
                ok2 = any(low(bv.neg(d), want) for d in cnt)
            else:
                ok = all(not d.t and d.c == G.CELL for d in (bv.sub(sn, sc), bv.sub(dn, dc)))
                cnt = [bv.sub(x, v) for r, (v, x) in o.info[2].items() if not any(r == y for y, _ in ph)]
                ok2 = any(not d.t and d.c == -1 for d in cnt)
            out.count("obligations")
            if not ok:
                out.violation("move %s advance" % tag, "gc_cellcpy advances source by %r and destination by %r bytes over a %s" % (bv.sub(sn, sc), bv.sub(dn, dc), tag))
            if not ok2:
                out.violation("move %s count" % tag, "gc_cellcpy does not count down the remaining cells by the size of a %s" % tag)


def areas(G):
    """a byte area holds its header and all its bytes"""
    m, out = G.m, G.out
    E = m.engine()
    L = E.fresh("length", ("i", G.W))
    t = G.bytes_cells(L, cx.State())
    out.count("obligations")
    r = floor_form(t, L)
    if r is None:
        raise report.Broken("bytes_cells: size formula %r not recognised" % t)
    c, d, k = r        # cells = floor ((L + c) / d) + k  >=  (L + c - d + 1) / d + k
    # CELL * cells >= L + header for all L >= 0
    need = G.O[2]
    if G.CELL < d or G.CELL * (c - d + 1 + k * d) < need * d:
        out.violation("bytes_cells", "bytes_cells (length) = (length + %d) / %d + %d cells of %d bytes do not hold a header of %d bytes and length bytes" % (c, d, k, G.CELL, need))
    # every byte area is allocated with that size
    n = 0
    mo = {"memcpy": memmodel, "memmove": memmodel}
    for fn in ("make_bytes",):
        if fn not in m.M.funcs:
            raise report.Broken("make_bytes not found")
        E = m.engine(models=dict(mo, alloc=alloc_model))
        s, L = E.fresh("s", "ptr"), E.fresh("length", ("i", G.W))
        st0 = cx.State()
        st0.ranges[L.t[0][0]] = (0, (1 << 62))
        for o in E.run(fn, [s, L], st0):
            if o.kind != "ret":
                continue
            al = [e for e in o.state.events if e.kind == "alloc"]
            out.count("obligations")
            if len(al) != 1 or not low(al[0].args[0], G.bytes_cells(L, o.state)):
                out.violation("make_bytes size", "make_bytes allocates %s cells, not bytes_cells (length)" % [e.args[0] for e in al])
                continue
            x = al[0].val
            b, off = E.split(x)
            reg = o.state.mem.get(b, {})
            ty, le = reg.get(bv.add(off, G.c(G.O[0]))), reg.get(bv.add(off, G.c(G.O[1])))
            if not (ty and not ty[1].t and ty[1].c == m.tags["TBYTES"] and le and diff0(le[1], L)):
                out.violation("make_bytes header", "make_bytes does not record type and length of the area")
            if not diff0(o.val, x):
                out.violation("make_bytes result", "make_bytes does not return the area")
            ev = ev_bytes(o.state)
            zero = o.state.decide(E.icmp(o.state, "eq", L, T(G.W, 0)))
            if zero is not True and not any(diff0(e.args[0], bv.add(x, G.c(G.O[2]))) and diff0(e.args[1], s) and diff0(e.args[2], L) for e in ev):
                out.violation("make_bytes data", "make_bytes does not copy the length bytes it is given")


def alloc_model(E, st, f, i, av):
    v = E.fresh("^area#%d" % E.tick(st), "ptr")
    st.events.append(cx.Event("alloc", "alloc", av, i, f.name, v))
    return [cx.Out("ret", st, v)]


def floor_form(t, L):
    """t = floor ((L + c) / d) + k"""
    if len(t.t) != 1 or t.t[0][1] != 1:
        return None
    a = t.t[0][0]
    x = y = None
    if a[0] == "op" and a[1] in ("udiv", "sdiv"):
        x, y = a[3], a[4]
    if x is None or not isinstance(x, T) or y.t or y.c <= 0:
        return None
    r = bv.sub(x, L)
    if r.t:
        return None
    return r.c, y.c, t.c


# ---------------------------------------------------------------- element storage
INLINE = ("TCHAR", "TNUMBER", "TREF")      # immutable, or a reference: may live in a vector's or structure's storage
MAKERS = ("make_cell", "make_pointer_cell", "make_value_cell")


def maker(G):
    def make(E, st, f, i, av):
        v = E.fresh("object", "ptr")
        b = v.t[0][0][1]
        st.mem[b] = {T(G.W, G.O[k]): (G.P, av[k] if isinstance(av[k], T) else T(G.W, 0)) for k in range(3)}
        st.events.append(cx.Event("make", "make", av, i, f.name, v))
        return [cx.Out("ret", st, v)]
    return make


def storage(G):
    m, out, M = G.m, G.out, G.m.M
    mk = maker(G)
    # what reading gives
    for fn, typ in (("vector_ref_", "TVECTOR"), ("struct_ref_", "TSTRUCT"), ("vector_to_list", "TVECTOR")):
        if fn not in M.funcs:
            raise report.Broken("%s not found" % fn)
        for tag in INLINE:
            E = m.engine(models={n: mk for n in MAKERS})
            base_hook = E.init_hook

            def hook(E, st, base, off, n, ty):
                if base == "[&x+%d]" % G.O[2] and n == G.P and off.c % G.CELL == G.O[0] and all(k % G.CELL == 0 for _, k in off.t):
                    return T(G.W, m.tags[tag])
                return base_hook(E, st, base, off, n, ty)
            E.init_hook = hook
            st = cx.State()
            st.mem["&x"] = {T(G.W, G.O[0]): (G.P, T(G.W, m.tags[typ]))}
            args = [bv.var("&x", G.W)] + [bv.var("i%d" % k, E.tw(ty)) for k, (ty, n) in enumerate(M.funcs[fn].params[1:])]
            E.ptratoms.add("&x")
            try:
                outs = E.run(fn, args, st)
            except cx.Limit as e:
                raise report.Broken("%s: %s" % (fn, e))
            n = 0
            for o in outs:
                got = [o.val] if o.kind == "ret" and isinstance(o.val, T) else []
                for e in o.state.events:
                    if e.kind == "make":
                        got += [a for a in e.args[1:] if isinstance(a, T)]
                n += bool(got)
                for v in got:
                    b, off = E.split(v)
                    if b is not None and "[&x+%d]" % G.O[2] == b:
                        out.violation("%s escape %s" % (fn, tag), "%s hands out the storage cell of an element of type %s itself: a collection moves it as part of the whole and as an object of its own" % (fn, tag))
            if not n:
                raise report.Broken("%s gives nothing for an element of type %s" % (fn, tag))
            out.count("obligations")
    # what is written
    sites = 0
    for f in M.funcs.values():
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == "call" and i.a[0] == ("g", "copy_cell"):
                    sites += 1
                    source(G, f, i, i.a[1][1][1], set())
    out.count("obligations", sites)


def defs(f):
    return {i.res: i for b in f.order for i in f.blocks[b] if i.res}


def source(G, f, at, v, seen):
    """the value v of f is copied into storage"""
    out, M = G.out, G.m.M
    if (f.name, v) in seen or v[0] != "l":
        return
    seen.add((f.name, v))
    i = defs(f).get(v[1])
    if i is None:
        k = [n for _, n in f.params].index(v[1]) if v[1] in [n for _, n in f.params] else None
        if k is None:
            return
        for g in M.funcs.values():
            for b in g.order:
                for c in g.blocks[b]:
                    if c.op == "call" and c.a[0] == ("g", f.name) and k < len(c.a[1]):
                        source(G, g, c, c.a[1][k][1], seen)
    elif i.op == "phi":
        for x, _ in i.a:
            source(G, f, at, x, seen)
    elif i.op == "select":
        for x in i.a[1:]:
            source(G, f, at, x, seen)
    elif i.op == "call" and i.a[0][0] == "g" and i.a[0][1] in M.funcs:
        for t in entry(G, i.a[0][1]):
            if t not in INLINE:
                G.out.violation("%s stores %s" % (f.name, t), "%s:%s: %s copies an object of type %s into element storage (%s gives it as it is): its identity and, for vectors and structures, its elements are lost in a collection" % (
                    f.file, at.line, f.name, t, i.a[0][1]))
    elif i.op == "load" and i.a[0][0] == "g" and i.a[0][1] in G.m.special:
        return
    else:
        G.out.violation("%s stores an object" % f.name, "%s:%s: %s copies an object of any type into element storage; only characters, numbers and references survive there" % (f.file, at.line, f.name))


def entry(G, fn):
    """types of what fn gives for an object of each type"""
    c = G.__dict__.setdefault("entries", {})
    if fn in c:
        return c[fn]
    m, M = G.m, G.m.M
    mk = maker(G)
    r = set()
    if len(M.funcs[fn].params) != 1:
        r = c[fn] = {"an unknown type"}
        return r
    for tag in sorted(m.tags):
        if tag == "TBROKEN_HEART":
            continue
        E = m.engine(models={n: mk for n in MAKERS})
        st = cx.State()
        st.mem["&x"] = {T(G.W, G.O[0]): (G.P, T(G.W, m.tags[tag]))}
        E.ptratoms.add("&x")
        args = [bv.var("&x", G.W)] + [bv.var("i%d" % k, E.tw(ty)) for k, (ty, n) in enumerate(M.funcs[fn].params[1:])]
        try:
            outs = E.run(fn, args, st)
        except cx.Limit as e:
            r.add("an unknown type")
            break
        for o in outs:
            if o.kind == "ret" and isinstance(o.val, T):
                t = E.load(o.state.clone(), bv.add(o.val, G.c(G.O[0])), G.P, "i%d" % G.W)
                r.add(m.byname.get(t.c, "?") if not t.t else "an unknown type")
    c[fn] = r
    return r


# ---------------------------------------------------------------- constructors
def construction(G):
    """references where the collector follows, raw values where it does not"""
    from checks import G03
    m, out, M = G.m, G.out, G.m.M
    types = G03.Check(out, "x86_64").types
    for f in M.funcs.values():
        d = defs(f)
        par = {n: k for k, (_, n) in enumerate(f.params)}

        def kind(v, depth=0):
            if v[0] == "int":
                return "raw" if v[1] else None
            if v[0] in ("null", "undef") or depth > 20:
                return None
            if v[0] != "l":
                return None
            i = d.get(v[1])
            if i is None:
                k = par.get(v[1])
                t = types.get(f.name, (False, []))[1]
                return "ref" if k is not None and k < len(t) and t[k] else None
            if i.op == "call":
                n = i.a[0][1] if i.a[0][0] == "g" else None
                return None if n not in types else "ref" if types[n][0] else "raw"
            if i.op == "inttoptr":
                x = i.a[1] if isinstance(i.a[1], tuple) else i.a[0]
                j = d.get(x[1]) if x[0] == "l" else None
                return None if j is not None and j.op == "ptrtoint" else "raw"
            if i.op == "phi":
                ks = {kind(x, depth + 1) for x, _ in i.a}
                return ks.pop() if len(ks) == 1 else None
            if i.op in ("add", "sub", "mul", "sext", "zext", "trunc"):
                return None if i.op == "trunc" else "raw" if i.op in ("add", "sub", "mul") else None
            return None
        for b in f.order:
            for i in f.blocks[b]:
                if i.op != "call" or i.a[0][0] != "g" or i.a[0][1] not in MAKERS or f.name in MAKERS:
                    continue
                a = [x for _, x in i.a[1]]
                if a[0][0] != "int" or a[0][1] not in m.byname:
                    continue
                tag = m.byname[a[0][1]]
                if tag not in KINDS or tag == "TCONTINUATION":      # completed by call/cc (G04)
                    continue
                out.count("obligations")
                for k, nm in ((1, "car"), (2, "cdr")):
                    want, got = KINDS[tag][k - 1], kind(a[k])
                    if want == "ref" and got == "raw" or want == "raw" and got == "ref":
                        out.violation("%s makes %s %s" % (f.name, tag, nm), "%s:%s: %s makes a %s whose %s is %s; the collector treats it as %s" % (
                            f.file, i.line, f.name, tag, nm, "a raw value" if got == "raw" else "a reference", "a reference" if want == "ref" else "a raw value"))
