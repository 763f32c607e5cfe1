"""G02: every root is traced by gc_, moved by gc_flip, and no other place keeps an object across a collection."""
import re
from vt import bv, cx, mesc, report
from vt.bv import T
from checks.G01 import diff0, silent, memmodel

REGS = ("R0", "R1", "R2", "R3")
STARTUP = ("gc_init", "init_symbols", "init_symbols_", "init_symbol", "gc_init_news", "gc_up_arena")


def scm_globals(M):
    """globals declared as struct scm * / struct scm **, from the debug information"""
    md = M.md

    def fld(b, n):
        m = re.search(r"\b%s: (![0-9]+)" % n, b)
        return m.group(1) if m else None

    def depth(t, d=0):
        """pointer depth to struct scm, or None"""
        while t in md:
            k, b = md[t]
            if k == "DICompositeType":
                if re.search(r'name: "scm"', b):
                    return d
                if "DW_TAG_array_type" in b:
                    t = fld(b, "baseType")
                    d += 1
                    continue
                return None
            if k != "DIDerivedType":
                return None
            if "DW_TAG_pointer_type" in b:
                d += 1
            t = fld(b, "baseType")
        return None
    r = {}
    for k, (kind, b) in md.items():
        if kind == "DIGlobalVariable":
            m = re.search(r'name: "([^"]+)"', b)
            d = depth(fld(b, "type"))
            if m and d:
                nm = m.group(1)
                r[nm] = d
                lk = re.search(r'linkageName: "([^"]+)"', b)
    return r


def writers(M):
    """global -> functions storing to it directly"""
    w = {}
    for n, f in M.funcs.items():
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == "store":
                    p = i.a[1]
                    while p[0] == "ce":
                        p = p[3][0][1] if p[1] == "getelementptr" else p[3]
                    if p[0] == "g":
                        w.setdefault(p[1], set()).add(n)
    return w


def check(out):
    m = mesc.Mes()
    W, P, CELL = m.W, m.P, m.CELL
    c = lambda x: T(W, x)
    G = lambda n: bv.var("@" + n, W)
    need = ["gc", "gc_", "gc_flip", "gc_push_frame", "gc_peek_frame", "gc_pop_frame", "gc_init_news", "gc_copy", "gc_loop", "gc_cellcpy"]
    for n in need:
        if n not in m.M.funcs:
            raise report.Broken("%s not found" % n)
    out.cov["explanation"] = (
        "gc_ and gc_flip are evaluated abstractly (LLVM IR, all helpers inlined except gc_copy/gc_loop/gc_cellcpy): on every path each "
        "root global must end up holding the copy of its old value, every stack slot from the stack pointer to its end and every cell from the "
        "first special object to the last symbol must be passed to gc_copy, and gc_flip must move each root by exactly the distance it moves "
        "the heap; the special objects must come back to their own addresses. Every global variable or static of a type that can refer "
        "to an object, found in the debug information, must be such a root, a register saved in the frame gc pushes, an arena pointer, "
        "or a special object that is assigned only at start-up.")
    mo = {"memcpy": memmodel}
    for n in ("eputs", "oputs", "ltoa", "ntoab", "itoa", "gc_stats_", "write_error_", "gc_dump_arena", "getenv", "clock_gettime",
              "seconds_and_nanoseconds_to_long", "gc_up_arena"):
        mo[n] = silent

    glob = scm_globals(m.M)
    if len(glob) < 100:
        raise report.Broken("only %d object globals in the debug information" % len(glob))
    wr = writers(m.M)
    arena = {"g_cells", "g_free", "g_news", "cell_arena", "cell_zero", "g_symbol", "g_symbol_max"}
    roots = []
    for g, d in sorted(glob.items()):
        if d != 1 or g in REGS or g in arena:
            continue
        ws = wr.get(g, set())
        if g in m.special:
            out.count("special objects")
            late = ws - set(STARTUP)
            if late:
                out.violation("special %s" % g, "%s, which the collector does not update, is assigned outside start-up, in %s" % (g, ", ".join(sorted(late))))
            continue
        if g.startswith("cell_") and not ws:
            continue                    # never assigned at all: no object (G12)
        if g in m.M.globals and m.M.globals[g][2]:
            continue
        roots.append(g)
    for g, d in sorted(glob.items()):
        if d >= 2 and g != "g_stack_array" and not g.startswith("cell_"):
            out.violation("table %s" % g, "%s is a table of object references that the collector does not trace" % g)
    # ------------------------------------------------------------ gc_: copying

    def gc_copy(E, st, f, i, av):
        v = bv.var("copy(%r)" % (av[0],), E.W)
        st.events.append(cx.Event("copy", "gc_copy", av, i, f.name, v))
        return [cx.Out("ret", st, v)]

    def gc_loop(E, st, f, i, av):
        st.events.append(cx.Event("gc_loop", "gc_loop", av, i, f.name, extra=st.clone()))
        return [cx.Out("ret", st, None)]
    E = m.engine(models=dict(mo, gc_copy=gc_copy, gc_loop=gc_loop))
    init = cx.State()
    old = {g: E.load(init, G(g), P, "ptr") for g in roots}
    free0 = E.load(init, G("g_free"), P, "ptr")
    cells0 = E.load(init, G("g_cells"), P, "ptr")
    stack0 = E.load(init, G("g_stack"), P)
    arr0 = E.load(init, G("g_stack_array"), P, "ptr")
    symmax = E.load(init, G("g_symbol_max"), P, "ptr")
    try:
        outs = E.run("gc_", [], init.clone())
    except cx.Limit as e:
        raise report.Broken("gc_: %s" % e)
    rets = [o for o in outs if o.kind == "ret"]
    if not rets:
        raise report.Broken("gc_ never returns")
    for o in rets:
        gl = [e for e in o.state.events if e.kind == "gc_loop"]
        out.count("gc_ paths")
        if len(gl) != 1:
            out.violation("gc_ scan", "gc_ runs gc_loop %d times on a path" % len(gl))
            continue
        up = any(e.name == "gc_up_arena" for e in o.state.events)
        st = gl[0].extra
        for g in roots:
            v = E.load(st.clone(), G(g), P, "ptr")
            out.count("obligations")
            if not diff0(v, bv.var("copy(%r)" % (old[g],), W)):
                out.violation("root %s" % g, "gc_ leaves %s, which refers to an object, %s" % (g, "pointing at the old object" if diff0(v, old[g]) else "holding %r" % v))
        first = gl[0].args[0]
        news = E.load(st.clone(), G("g_news"), P, "ptr")
        # the scan starts at the first copied cell
        d = bv.sub(first, free0)
        if not diff0(bv.sub(first, news), bv.sub(m_start(m, W), c(0))):
            out.violation("gc_ scan start", "gc_ starts scanning %r bytes behind the start of the new area; the special objects are %r bytes behind the start of the heap" % (bv.sub(first, news), m_start(m, W)))
    # loops: symbols and stack
    loops = [o for o in outs if o.kind == "loop"]
    sym, stk = [], []
    def verdict(l, rets, loops):
        bad = [x for x, o in l if x != 'found']
        if bad:
            return bad[0]
        if not l or any(not any(('iv', o.info[3]) in r.state.ranges for x, o in l) for r in rets):
            return ''
        return 'found'
    for o in loops:
        k = bv.ideal(o.info[3], W)
        st = o.state
        for e in st.events:
            if e.kind != "copy":
                continue
            a = e.args[0]
            if diff0(a, bv.add(bv.var("^cell_nil", W), bv.mulc(k, CELL))):
                s1 = "found"
                if st.decide(E.icmp(st, "ult", a, symmax)) is not True:
                    s1 = "runs past the last symbol"
                for r in with_loop(rets, o):
                    if r.state.decide(E.icmp(r.state, "ult", a, symmax)) is not False:
                        s1 = "stops before the last symbol"
                sym.append((s1, o))
            idx = bv.add(stack0, k)
            slot = bv.add(arr0, bv.mulc(idx, P))
            if diff0(a, E.load(o.info[4].clone(), slot, P, "ptr")):
                s1 = "found"
                b, off = E.split(slot)
                x = st.mem.get(b, {}).get(off)
                if x is None or not diff0(x[1], e.val):
                    s1 = "does not store the new address"
                lim = E.load(o.info[4].clone(), G("STACK_SIZE"), P)
                if st.decide(E.icmp(st, "ult", idx, lim)) is not True:
                    s1 = "runs past the stack"
                for r in with_loop(rets, o):
                    if r.state.decide(E.icmp(r.state, "ult", idx, lim)) is not False:
                        s1 = "stops before the last slot"
                stk.append((s1, o))
    def every(l, what):
        """each iteration of the loop must do it, whatever path it takes"""
        ivs = [o.info[3] for x, o in l]
        done = [o for x, o in l]
        for o in loops:
            if o.info[3] in ivs and not any(o is d for d in done):
                l.append(("skips %s on some paths" % what, o))
        return l
    sym, stk = verdict(every(sym, "cells"), rets, loops), verdict(every(stk, "slots"), rets, loops)
    out.count("obligations", 2)
    if sym != "found":
        out.violation("gc_ symbols", "gc_ does not copy all cells from the first special object to the last symbol in order%s" % (": the loop %s" % sym if sym else ""))
    if stk != "found":
        out.violation("gc_ stack", "gc_ does not copy every object saved on the stack%s" % (": the loop %s" % stk if stk else ""))
    # ------------------------------------------------------------ gc_flip: moving

    def cellcpy(E, st, f, i, av):
        st.events.append(cx.Event("cellcpy", "gc_cellcpy", av, i, f.name))
        return [cx.Out("ret", st, None)]
    E = m.engine(models=dict(mo, gc_cellcpy=cellcpy))
    E.separate = lambda st, a, b: "g_stack_array" not in a or "g_stack_array" not in b
    init = cx.State()
    old = {g: E.load(init, G(g), P, "ptr") for g in roots}
    free0 = E.load(init, G("g_free"), P, "ptr")
    cells0 = E.load(init, G("g_cells"), P, "ptr")
    news0 = E.load(init, G("g_news"), P, "ptr")
    stack0 = E.load(init, G("g_stack"), P)
    arr0 = E.load(init, G("g_stack_array"), P, "ptr")
    try:
        outs = E.run("gc_flip", [], init.clone())
    except cx.Limit as e:
        raise report.Broken("gc_flip: %s" % e)
    dist = bv.sub(news0, cells0)
    rets = [o for o in outs if o.kind == "ret"]
    if not rets:
        raise report.Broken("gc_flip never returns")
    for o in rets:
        out.count("gc_flip paths")
        cc = [e for e in o.state.events if e.kind == "cellcpy"]
        out.count("obligations")
        if len(cc) != 1 or not diff0(cc[0].args[0], cells0) or not diff0(cc[0].args[1], news0) or \
                not diff0(cc[0].args[2], exact_div(bv.sub(free0, news0), CELL)):
            out.violation("flip heap", "gc_flip does not move exactly the cells from g_news to g_free to g_cells: gc_cellcpy %s" % [e.args for e in cc])
        for g in roots + ["g_free"]:
            v = E.load(o.state.clone(), G(g), P, "ptr")
            was = free0 if g == "g_free" else old[g]
            out.count("obligations")
            if not dist_ok(v, was, dist):
                out.violation("flip %s" % g, "gc_flip changes %s to %r; the heap has moved by g_news - g_cells" % (g, v))
    res = []
    loops = [o for o in outs if o.kind == "loop"]
    for o in loops:
        k = bv.ideal(o.info[3], W)
        idx = bv.add(stack0, k)
        slot = bv.add(arr0, bv.mulc(idx, P))
        b, off = E.split(slot)
        x = o.state.mem.get(b, {}).get(off)
        if x is None:
            continue
        was = E.load(o.info[4].clone(), slot, P, "ptr")
        ok = "found"
        if not dist_ok(x[1], was, dist):
            ok = "stores %r" % x[1]
        lim = E.load(o.info[4].clone(), G("STACK_SIZE"), P)
        if o.state.decide(E.icmp(o.state, "ult", idx, lim)) is not True:
            ok = "runs past the stack"
        for r in with_loop(rets, o):
            if r.state.decide(E.icmp(r.state, "ult", idx, lim)) is not False:
                ok = "stops before the last slot"
        res.append((ok, o))
    ok = verdict(every(res, "slots"), rets, loops)
    out.count("obligations")
    if ok != "found":
        out.violation("flip stack", "gc_flip does not move every stack slot%s" % (": the loop " + ok if ok else ""))
    # ------------------------------------------------------------ the specials keep their addresses
    start_up(m, out)
    # ------------------------------------------------------------ registers
    frames(m, out, mo)
    safe = {"R0", "R1", "R2", "R3"}
    out.sample({"roots": roots, "registers": sorted(safe), "arena pointers": sorted(arena)})
    out.cov["roots"] = roots
    out.need("special objects", 90)
    out.need("obligations", 15)
    if len(roots) < 4:
        raise report.Broken("only roots %s found" % roots)


def with_loop(rets, o):
    """the returns whose path went through the loop o"""
    return [r for r in rets if ("iv", o.info[3]) in r.state.ranges]


def exact_div(t, n):
    if t.c % n == 0 and all(k % n == 0 for _, k in t.t):
        return T(t.w, t.c // n, [(a, k // n) for a, k in t.t])
    return bv.op("sdiv", t.w, t, T(t.w, n))


def dist_ok(v, was, dist):
    """v = was - dist, where a difference of cell pointers may be divided and multiplied by the cell size"""
    if diff0(v, bv.sub(was, dist)):
        return True
    r = bv.sub(was, v)
    if r.c or len(r.t) != 1:
        return False
    a, k = r.t[0]
    if a[0] == "op" and a[1] in ("sdiv", "udiv") and not a[4].t and a[4].c == k:
        return diff0(a[3], dist)
    return False


def m_start(m, W):
    return T(W, m.CELL)


def start_up(m, out):
    """init_symbols places the special objects CELL bytes behind g_cells, one cell each, up to g_symbol_max"""
    W, P = m.W, m.P

    def init_(E, st, f, i, av):
        nil = E.load(st.clone(), bv.var("@cell_nil", W), P, "ptr")
        st.events.append(cx.Event("init", "init_symbols_", [nil], i, f.name))
        v = bv.var("after(%r)" % nil, W)
        st.mem.setdefault("@g_symbol", {})[T(W, 0)] = (P, v)
        return [cx.Out("ret", st, None)]
    E = m.engine(models={"init_symbols_": init_, "acons": silent, "make_hash_table_": silent, "make_string0": silent, "make_number": silent}, fixed=False)
    st = cx.State()
    cells = E.load(st, bv.var("@g_cells", W), P, "ptr")
    outs = [o for o in E.run("init_symbols", [], st) if o.kind == "ret"]
    if not outs:
        raise report.Broken("init_symbols does not return")
    for o in outs:
        ev = [e for e in o.state.events if e.kind == "init"]
        out.count("obligations")
        if not ev or not diff0(ev[0].args[0], bv.add(cells, T(W, m.CELL))):
            out.violation("specials start", "the first special object is not placed one cell behind g_cells, where every collection puts it back")
        mx = E.load(o.state.clone(), bv.var("@g_symbol_max", W), P, "ptr")
        if not mx.t or "after" not in repr(mx):
            out.violation("specials end", "g_symbol_max is not the end of the special objects")
    # one cell each, in order
    addrs = [a for a, t, n in m.sym_records]
    first = addrs[0]
    for n, a in enumerate(addrs[:len(set(addrs))]):
        d = bv.sub(a, first)
        if d.t or d.c != n * m.CELL:
            out.violation("specials order", "special object %d (%s) is not in cell %d" % (n, m.sym_records[n][2], n))
            break


def symmetry(m, out, mo):
    """what gc_push_frame saves, gc_pop_frame gives back"""
    W, P = m.W, m.P
    if not {"gc_push_frame", "gc_pop_frame"} <= set(m.M.funcs):
        raise report.Broken("the frame functions are not found")
    E = m.engine(models=mo)
    E.separate = lambda st, a, b: "g_stack_array" not in a or "g_stack_array" not in b
    st = cx.State()
    regs = {r: E.load(st, bv.var("@" + r, W), P, "ptr") for r in REGS}
    sp = E.load(st, bv.var("@g_stack", W), P)
    arr = E.load(st, bv.var("@g_stack_array", W), P, "ptr")
    for o in [o for o in E.run("gc_push_frame", [], st.clone()) if o.kind == "ret"]:
        # no slot of the frame keeps what an earlier frame left there: the collector will follow it
        n = bv.sub(sp, E.load(o.state.clone(), bv.var("@g_stack", W), P))
        if n.t or not 0 < n.c < 64:
            out.violation("frame size", "gc_push_frame moves the stack pointer by %r" % n)
            continue
        for j in range(1, n.c + 1):
            b, off = E.split(bv.add(arr, bv.mulc(bv.sub(sp, T(W, j)), P)))
            out.count("obligations")
            if o.state.mem.get(b, {}).get(off) is None:
                out.violation("frame slot %d" % (n.c - j), "gc_push_frame leaves slot %d of the frame as an earlier frame left it; the collector follows it" % (n.c - j))
        # everything the registers held is found again by gc_pop_frame
        s = o.state.clone()
        for r in REGS:
            s.mem["@" + r] = {T(W, 0): (P, bv.var("clobbered " + r, W))}
        for p in [p for p in E.run("gc_pop_frame", [], s) if p.kind == "ret"]:
            for r in REGS:
                v = E.load(p.state.clone(), bv.var("@" + r, W), P, "ptr")
                out.count("obligations")
                if not diff0(v, regs[r]):
                    out.violation("frame %s" % r, "gc_pop_frame gives %s the value %r, not the one gc_push_frame saved" % (r, v))
            v = E.load(p.state.clone(), bv.var("@g_stack", W), P)
            if not diff0(v, sp):
                out.violation("frame stack", "gc_push_frame and gc_pop_frame move the stack pointer by different amounts")


def frames(m, out, mo):
    symmetry(m, out, mo)
    # gc itself: saves, collects, restores

    def rec(nm):
        def f(E, st, fn, i, av):
            st.events.append(cx.Event("step", nm, av, i, fn.name))
            return [cx.Out("ret", st, None if i.ty == "void" else E.ret(st, i, nm))]
        return f
    mod = dict(mo, gc_push_frame=rec("gc_push_frame"), gc_=rec("gc_"), gc_pop_frame=rec("gc_pop_frame"))
    E = m.engine(models=mod)
    for o in [o for o in E.run("gc", [], cx.State()) if o.kind == "ret"]:
        s = [e.name for e in o.state.events if e.kind == "step"]
        out.count("obligations")
        if s != ["gc_push_frame", "gc_", "gc_pop_frame"]:
            out.violation("gc order", "gc does %s instead of saving the registers, collecting and restoring them" % ", ".join(s))
