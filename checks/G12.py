"""G12: every special object and type tag is created, once, with its own identity."""
import os, re
from vt import bv, cx, ll, mesc, prim, report
from vt.bv import T


def check(out):
    m = mesc.Mes()
    M, W, P = m.M, m.W, m.P
    out.cov["explanation"] = (
        "init_symbols is evaluated abstractly, both passes: for every global the interpreter's code reads as a special object, the address it holds afterwards, the "
        "type and text stored there, and the entry made in the symbol table; addresses and names must be pairwise distinct, both passes must agree, and names must be "
        "those the object is documented under. The environment it returns must bind each <cell:X> symbol to the number of tag TX, once, and the tag numbers that "
        "M2-Planet reads from the comments of constants.h must be those the C compiler sees.")
    used = {}
    for n, f in M.funcs.items():
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == "load" and i.a[0][0] == "g" and i.a[0][1].startswith("cell_"):
                    used.setdefault(i.a[0][1], (n, i.line))
    rec = {"strings": {}, "interned": [], "bound": [], "numbers": {}, "passes": []}

    def make_string(E, st, f, i, av):
        v = bv.var("&str%d" % E.tick(st), W)
        text = bv.var("&txt%d" % E.tick(st), W)
        nm = mesc.cstring(M, av[0])
        rec["strings"][v] = (nm, av[1], text)
        st.mem[v.t[0][0][1]] = {T(W, m.O[0]): (P, T(W, m.tags["TSTRING"])), T(W, m.O[1]): (P, av[1]), T(W, m.O[2]): (P, text)}
        return [cx.Out("ret", st, v)]

    def make_string0(E, st, f, i, av):
        v = bv.var("&str%d" % E.tick(st), W)
        rec["strings"][v] = (mesc.cstring(M, av[0]), None, None)
        return [cx.Out("ret", st, v)]

    def table(E, st, f, i, av):
        rec["passes"].append({g: val(st, g) for g in M.globals if g.startswith("cell_")})
        return [cx.Out("ret", st, bv.var("&table", W))]

    def val(st, g):
        e = st.mem.get("@" + g, {}).get(T(W, 0))
        return e[1] if e else None

    def intern(E, st, f, i, av):
        rec["interned"].append((av, i.line))
        return [cx.Out("ret", st, av[2])]

    def acons(E, st, f, i, av):
        v = bv.var("&alist%d" % E.tick(st), W)
        rec["bound"].append((av[0], av[1], av[2], v, i.line))
        return [cx.Out("ret", st, v)]

    def number(E, st, f, i, av):
        v = bv.var("&num%d" % E.tick(st), W)
        rec["numbers"][v] = av[0]
        return [cx.Out("ret", st, v)]

    def cons(E, st, f, i, av):
        return [cx.Out("ret", st, bv.var("&cons%d" % E.tick(st), W))]
    E = cx.Engine(M, models={"make_string": make_string, "make_string0": make_string0, "make_hash_table_": table, "hash_set_x": intern, "acons": acons, "make_number": number,
                             "cons": cons, "strlen": mesc.strlen(M)}, max_paths=50)
    E.max_steps = 4000000
    if "init_symbols" not in M.funcs:
        raise report.Broken("init_symbols not found")
    try:
        outs = [o for o in E.run("init_symbols", [], cx.State()) if o.kind == "ret"]
    except cx.Limit as e:
        raise report.Broken("init_symbols: %s" % e)
    if len(outs) != 1 or len(rec["passes"]) != 1:
        raise report.Broken("init_symbols has %d paths, %d symbol tables" % (len(outs), len(rec["passes"])))
    o = outs[0]
    st = o.state
    spec = {}
    for l in open(os.path.join(report.V, "support", "specials.txt")):
        if l[0] != "#":
            g, t, n = l.rstrip("\n").split(" ", 2)
            spec[g] = (t, n)
    made = {}
    outside = {"cell_arena", "cell_zero"}         # not objects: set by the arena set-up
    for g in sorted(set(used) | {g for g in spec if g in M.globals}):
        if g in outside:
            continue
        v = val(st, g)
        out.count("special objects")
        site = "%s, line %s" % used[g] if g in used else "nowhere"
        if v is None:
            out.violation("missing " + g, "%s (used in %s) is never created by init_symbols" % (g, site))
            continue
        if v in made:
            out.violation("same %s %s" % (made[v], g), "%s and %s are the same object" % (made[v], g))
        made[v] = g
        first = rec["passes"][0].get(g)
        if first != v:
            out.violation("moved " + g, "%s is created at another place by the second pass: references made in between are lost" % g)
        base, off = E.split(v)
        cells = {k: E.load(st, bv.add(v, T(W, m.O[k])), P) for k in range(3)}
        t = cells[0].c if cells[0].isconst() else None
        ents = [(s, l) for (tab, s, x), l in rec["interned"] if x == v]
        names = [rec["strings"].get(s, (None, None, None)) for s, l in ents]
        if len(ents) != 1:
            out.violation("interned " + g, "%s is entered in the symbol table %d times" % (g, len(ents)))
            continue
        nm, ln, text = names[0]
        if nm is None or ln is None:
            out.violation("name " + g, "the name of %s is not known" % g)
            continue
        if not ln.isconst() or ln.c != len(nm) or cells[1] != T(W, len(nm)) or cells[2] != text:
            out.violation("text " + g, "the text of %s is not the %d characters of \"%s\"" % (g, len(nm), nm))
        if rec["interned"][0][0][0] != bv.var("&table", W):
            out.violation("table", "the special objects are not entered in the symbol table")
        if g in spec:
            wt, wn = spec[g]
            if m.typename(t) != wt:
                out.violation("type " + g, "%s has type %s, not %s" % (g, m.typename(t), wt))
            if nm != wn:
                out.violation("named " + g, "%s is named \"%s\", not \"%s\"" % (g, nm, wn))
        elif t not in (m.tags["TSPECIAL"], m.tags["TSYMBOL"]):
            out.violation("type " + g, "%s has type %s" % (g, m.typename(t)))
        rec.setdefault("names", {}).setdefault(nm, []).append(g)
    for g in spec:
        if g not in M.globals:
            out.sample("%s no longer exists" % g)
    for nm, gs in rec.get("names", {}).items():
        if len(gs) > 1:
            out.violation("name " + " ".join(gs), "%s share the name \"%s\": the symbol table keeps one of them" % (" and ".join(gs), nm))
    out.need("special objects", 100)
    # the environment
    chain = {v: (k, x, nxt, line) for k, x, nxt, v, line in rec["bound"]}
    v, env = o.val, []
    while v in chain:
        k, x, nxt, line = chain[v]
        env.append((k, x, line))
        v = nxt
    if v != val(st, "cell_nil"):
        out.violation("environment", "the environment init_symbols returns is not a list of the bindings it makes")
    seen = {}
    for k, x, line in env:
        g = made.get(k)
        if g is None or g not in spec or not re.match(r"<cell:.*>$", spec[g][1]):
            continue
        out.count("type tags")
        tag = "T" + spec[g][1][6:-1].upper().replace("-", "_")
        n = rec["numbers"].get(x)
        if g in seen:
            out.violation("twice " + g, "%s is bound twice" % spec[g][1])
        seen[g] = n
        if n is None or not n.isconst() or tag not in m.tags or n.c != m.tags[tag]:
            out.violation("tag " + g, "%s is bound to %s (line %s), but %s is %s" % (spec[g][1], n, line, tag, m.tags.get(tag)))
    lib = set()
    for d, _, fs in os.walk(os.path.join(report.REPO, "mes", "module")):
        for f in fs:
            if f.endswith((".mes", ".scm")):
                lib |= set(re.findall(r"<cell:[a-z-]+>", open(os.path.join(d, f), errors="replace").read()))
    bound = {spec[g][1] for g in seen}
    for n in sorted(lib - bound):
        out.violation("unbound " + n, "the Scheme library refers to %s, which init_symbols does not bind" % n)
    out.need("type tags", 17)
    vals = {}
    for t, n in m.tags.items():
        if n in vals:
            out.violation("number %s" % t, "%s and %s have the same number %d" % (t, vals[n], n))
        vals[n] = t
    comments(out, m)


def comments(out, m):
    """// CONSTANT NAME n, which M2-Planet reads, against the value the C compiler sees"""
    p = os.path.join(report.REPO, "include", "mes", "constants.h")
    text = open(p).read()
    seen = {}
    for g in re.finditer(r"^// CONSTANT (\w+)\s+(-?\w+)\s*$", text, re.M):
        seen[g.group(1)] = int(g.group(2), 8 if re.match(r"0[0-7]+$", g.group(2)) else 0)
    for t, n in m.tags.items():
        out.count("constants for M2-Planet")
        if seen.get(t) != n:
            out.violation("m2 " + t, "%s is %d in C and %s for M2-Planet (include/mes/constants.h)" % (t, n, seen.get(t)))
