"""G05: the registry of built-ins agrees with their definitions, and application passes exactly the arguments supplied."""
import re
from vt import bv, cx, evalm, mesc, report
from vt.bv import T
from checks import G04


def registry(m, out):
    """(name, arity, function, line) of every init_builtin call of mes_builtins, in both modes"""
    M = m.M
    for n in ("mes_builtins", "init_builtin"):
        if n not in M.funcs:
            raise report.Broken("%s not found" % n)
    modes = {}
    for mini in (0, 1):
        rec = []

        def model(E, st, f, i, av):
            # the registration call: a C string, a constant arity and a function address among its arguments
            nm = [mesc.cstring(M, a) for a in av]
            nm = [x for x in nm if x is not None]
            ar = [a.c for a in av if a.w == 32 and a.isconst()]
            fn = [a.t[0][0][1][1:] for a in av if len(a.t) == 1 and not a.c and a.t[0][0][0] == "v" and a.t[0][0][1][0] == "@"
                  and a.t[0][0][1][1:] in M.funcs]
            if len(nm) != 1 or len(ar) != 1 or len(fn) != 1:
                fn2 = [a.t[0][0][1] for a in av if len(a.t) == 1 and a.t[0][0][0] == "v"]
                raise report.Broken("init_builtin call at line %s not understood: %s" % (i.line, av))
            rec.append((nm[0], ar[0], fn[0], i.line))
            return [cx.Out("ret", st, E.ret(st, i, "alist"))]
        E = m.engine(models={"init_builtin": model, "make_builtin_type": lambda E, st, f, i, av: [cx.Out("ret", st, E.ret(st, i, "type"))]}, max_paths=100)
        st = cx.State()
        st.mem["@g_mini"] = {T(m.W, 0): (4, T(32, mini))}
        try:
            E.run("mes_builtins", [bv.var("a", m.W)], st)
        except cx.Limit as e:
            raise report.Broken("mes_builtins: %s" % e)
        modes[mini] = rec
    return modes


def conventional(f, funcs):
    """Scheme name a function's C name stands for"""
    s = f.rstrip("_") if f.rstrip("_") not in funcs else f
    s = re.sub(r"_p$", "?", s)
    s = re.sub(r"_x$", "!", s)
    s = s.replace("_to_", "->")
    return s.replace("_", "-")


def check(out):
    m = mesc.Mes()
    M, W = m.M, m.W
    out.cov["explanation"] = (
        "Every registration made by mes_builtins (both modes) is collected by abstract evaluation: constant name, arity and function. "
        "Each name must be unique, the arity must equal the parameter count of the function's definition (one for variadic, -1), a name "
        "must not be bound to the function of another registered name. apply_builtin is evaluated for every registered arity: the function "
        "must be called with car, cadr, ... of the list in order, or with the whole list. check_formals must fail on every path on which the "
        "count of arguments is not the arity; eval_apply must call it, with the same procedure and list, before apply_builtin.")
    modes = registry(m, out)
    arities = set()
    for mode, rec in modes.items():
        seen = {}
        for n, ar, fn, line in rec:
            out.count("registrations")
            arities.add(ar)
            if n in seen:
                out.violation("duplicate %s" % n, "src/builtins.c:%s: the name %s is registered twice (%s and %s)" % (line, n, seen[n], fn))
            seen[n] = fn
            k = len(M.funcs[fn].params)
            want = 1 if ar == -1 else ar
            if k != want:
                out.violation("arity %s" % n, "src/builtins.c:%s: %s is registered with arity %s, but %s takes %d parameter%s" % (line, n, ar, fn, k, "" if k == 1 else "s"))
            if ar < -1 or ar > 4:
                out.violation("arity %s" % n, "src/builtins.c:%s: %s has arity %s" % (line, n, ar))
        names = {n: fn for n, ar, fn, _ in rec}
        for n, ar, fn, line in rec:
            c = conventional(fn, M.funcs)
            if c != n and c in names and names[c] != fn:
                out.violation("crossed %s" % n, "src/builtins.c:%s: %s is bound to the function %s, which is the implementation of %s" % (line, n, fn, c))
            d = [x for x, y in names.items() if y == fn and x != n]
            if d and not ({n, d[0]} <= set()):
                out.violation("shared %s" % min(n, d[0]), "src/builtins.c:%s: %s and %s are bound to the same function %s" % (line, n, d[0], fn))
    # the mini mode provides a subset with the same meaning
    full = {n: (ar, fn) for n, ar, fn, _ in modes[0]}
    for n, ar, fn, line in modes[1]:
        if n in full and full[n] != (ar, fn):
            out.violation("mini %s" % n, "src/builtins.c:%s: %s is %s with arity %s in mini mode, %s with arity %s otherwise" % (line, n, fn, ar, full[n][1], full[n][0]))
    init_builtin(m, out)
    application(m, out, arities)
    formals(m, out, arities)
    order(m, out)
    out.need("registrations", 100)
    out.need("applications", 5)
    out.sample([(n, ar, fn) for n, ar, fn, _ in modes[0][:6]])


def init_builtin(m, out):
    """init_builtin passes name, arity and function on to the slots builtin_name, builtin_arity and builtin_function read"""
    M, W = m.M, m.W
    for n in ("make_builtin", "builtin_name", "builtin_arity", "builtin_function", "struct_ref_", "make_struct"):
        if n not in M.funcs:
            raise report.Broken("%s not found" % n)
    cells = {}

    def cons(E, st, f, i, av):
        v = bv.var("&cons%d" % len(cells), W)
        cells["&cons%d" % len(cells)] = (av[0], av[1])
        return [cx.Out("ret", st, v)]
    got = []

    def mkstruct(E, st, f, i, av):
        lst = []
        x = av[1]
        while len(x.t) == 1 and x.t[0][0][1] in cells:
            a, x = cells[x.t[0][0][1]]
            lst.append(a)
        got.append((av[0], lst, av[2]))
        return [cx.Out("ret", st, bv.var("struct", W))]

    def wrap(nm):
        def g(E, st, f, i, av):
            return [cx.Out("ret", st, bv.var("%s(%s)" % (nm, ",".join(evalm.show(bv.sub(a, T(a.w, 0))) for a in av)), E.tw(i.ty)))]
        return g

    def number(E, st, f, i, av):
        v = av[0]
        return [cx.Out("ret", st, bv.var("number(%s)" % bv.rep(lowatom(v)), E.tw(i.ty)))]
    assoc = []

    def acons(E, st, f, i, av):
        assoc.append(av)
        return [cx.Out("ret", st, bv.var("alist", W))]
    E = m.engine(models={"cons": cons, "make_struct": mkstruct, "make_number": number, "cstring_to_symbol": wrap("symbol"),
                         "symbol_to_string": wrap("string"), "acons": acons,
                         "cast_voidp_to_long": lambda E, st, f, i, av: [cx.Out("ret", st, av[0])]})
    st = cx.State()
    outs = E.run("init_builtin", [bv.var("type", W), bv.var("name", W), bv.var("arity", 32), bv.var("function", W), bv.var("alist0", W)], st)
    outs = [o for o in outs if o.kind == "ret"]
    if len(outs) != 1 or len(got) != 1:
        raise report.Broken("init_builtin: %d paths, %d structures" % (len(outs), len(got)))
    ty, lst, _ = got[0]
    # struct layout: two slots before the values (make_struct)
    base = struct_base(m)

    def slot(fn):
        seen = []

        def ref(E, st, f, i, av):
            seen.append(av[1])
            return [cx.Out("ret", st, E.ret(st, i, "slot"))]
        E2 = m.engine(models={"struct_ref_": ref})
        E2.run(fn, [bv.var("b", W)], cx.State())
        if len(seen) != 1 or not seen[0].isconst():
            raise report.Broken("%s: slot not found" % fn)
        return seen[0].c - base
    txt = [evalm.show(x) for x in lst]
    for fn, pat, what in (("builtin_name", "(string((symbol((name)))))", "name"), ("builtin_arity", "(number(arity))", "arity"), ("builtin_function", "(number(function))", "function")):
        k = slot(fn)
        out.count("registry slots")
        ok = 0 <= k < len(lst) and what in txt[k] and not any(o in txt[k] for o in ("name", "arity", "function") if o != what)
        if not ok:
            out.violation("slot %s" % fn, "src/builtins.c: %s reads value %d of a built-in, which init_builtin fills with %s" % (fn, k, txt[k] if 0 <= k < len(lst) else "nothing"))
    if len(assoc) != 1 or "name" not in repr(assoc[0][0]) or "symbol" not in repr(assoc[0][0]) or evalm.show(assoc[0][1]) != "(struct)" or evalm.show(assoc[0][2]) != "(alist0)":
        out.violation("binding", "init_builtin does not bind the symbol of the name to the built-in: %s" % (assoc,))


def lowatom(v):
    if len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
        a = v.t[0][0]
        if a[0] == "ex" and len(a[2].t) == 1:
            return a[2].t[0][0]
        return a
    return ("v", repr(v), v.w)


def struct_base(m):
    """index of the first value in a structure: where make_struct's copying loop starts"""
    M, W, P = m.M, m.W, m.P
    n = [0]

    def alloc(E, st, f, i, av):
        n[0] += 1
        return [cx.Out("ret", st, bv.var("&blk%d" % n[0], W))]

    def same(E, st, f, i, av):
        return [cx.Out("ret", st, av[0])]
    E = m.engine(models={"alloc": alloc, "length__": lambda E, st, f, i, av: [cx.Out("ret", st, T(W, 1))], "vector_entry": same})
    E.peel = 3
    st = cx.State()
    st.mem["&list"] = {T(W, m.O[0]): (P, T(W, m.tags["TPAIR"])), T(W, m.O[1]): (P, bv.var("&first", W)), T(W, m.O[2]): (P, bv.var("^cell_nil", W))}
    st.mem["&first"] = {T(W, m.O[0]): (P, T(W, 4242))}
    try:
        outs = E.run("make_struct", [bv.var("type", W), bv.var("&list", W), bv.var("printer", W)], st)
    except cx.Limit as e:
        raise report.Broken("make_struct: %s" % e)
    c = {off.c for o in outs if o.kind == "ret" for r, reg in o.state.mem.items() if r.startswith("&blk") for off, (k, v) in reg.items() if v.isconst() and v.c == 4242 and not off.t}
    if len(c) != 1 or min(c) % m.CELL:
        raise report.Broken("make_struct: the first value is not found")
    return c.pop() // m.CELL


def application(m, out, arities):
    M, W, P = m.M, m.W, m.P
    if "apply_builtin" not in M.funcs:
        raise report.Broken("apply_builtin not found")
    tv = m.tags["TVALUES"]
    for ar in sorted(arities | {0, 1, 2, 3}):
        def barity(E, st, f, i, av):
            v = bv.var("&arity", W)
            st.mem["&arity"] = {T(W, m.O[2]): (P, T(W, ar))}
            st.mem["&arity"][T(W, 0)] = (P, T(W, m.tags["TNUMBER"]))
            return [cx.Out("ret", st, v)]

        def bfunc(E, st, f, i, av):
            if evalm.show(av[0]) != "(fn)":
                out.violation("apply-function", "apply_builtin calls the function of %s" % evalm.show(av[0]))
            return [cx.Out("ret", st, bv.var("code(fn)", W))]

        def cons(E, st, f, i, av):
            k = "&c%d" % len([b for b in st.mem if b and b.startswith("&c")])
            st.mem[k] = {T(W, m.O[1]): (P, av[0]), T(W, m.O[2]): (P, av[1]), T(W, 0): (P, T(W, m.tags["TPAIR"]))}
            return [cx.Out("ret", st, bv.var(k, W))]
        E = m.engine(models={"builtin_arity": barity, "builtin_function": bfunc, "cons": cons, "car": None, "cdr": None})
        E.models.pop("car"); E.models.pop("cdr")
        # a list of the right length, no value a (values ...) object
        n = {-1: 2}.get(ar, ar)
        for vals in range(0, 3):
            st = cx.State()
            items = []
            for k in range(n):
                st.mem["&l%d" % k] = {T(W, 0): (P, T(W, m.tags["TPAIR"])), T(W, m.O[1]): (P, bv.var("&x%d" % k, W)),
                                      T(W, m.O[2]): (P, bv.var("&l%d" % (k + 1), W) if k + 1 < n else bv.var("^cell_nil", W))}
                isv = k < 2 and (vals == k + 1)
                st.mem["&x%d" % k] = {T(W, 0): (P, T(W, tv if isv else m.tags["TCHAR"]))}
                if isv:
                    st.mem["&x%d" % k][T(W, m.O[2])] = (P, bv.var("&vl", W))
                    st.mem["&vl"] = {T(W, 0): (P, T(W, m.tags["TPAIR"])), T(W, m.O[1]): (P, bv.var("first", W))}
                items.append(bv.var("first" if isv else "&x%d" % k, W))
            lst = bv.var("&l0", W) if n else bv.var("^cell_nil", W)
            if vals and vals > n:
                continue
            try:
                outs = E.run("apply_builtin", [bv.var("fn", W), lst], st)
            except cx.Limit as e:
                raise report.Broken("apply_builtin: %s" % e)
            rets = [o for o in outs if o.kind == "ret"]
            if not rets:
                raise report.Broken("apply_builtin with arity %d does not return" % ar)
            for o in rets:
                ic = [e for e in o.state.events if e.kind == "icall"]
                out.count("applications")
                if len(ic) != 1:
                    out.violation("apply %d" % ar, "apply_builtin (src/eval-apply.c): a built-in of arity %d is called %d times when applied to %d arguments" % (ar, len(ic), n))
                    continue
                e = ic[0]
                if evalm.show(e.args[0]) != "(code(fn))":
                    out.violation("apply %d" % ar, "apply_builtin calls %s for arity %d" % (evalm.show(e.args[0]), ar))
                a = list(e.args[1:])
                if ar == -1:
                    got = []
                    if len(a) == 1:
                        x = a[0]
                        while x.t and x.t[0][0][1] in o.state.mem and x.t[0][0][1][0] == "&":
                            r = o.state.mem[x.t[0][0][1]]
                            got.append(r[T(W, m.O[1])][1])
                            x = r[T(W, m.O[2])][1]
                        if evalm.show(x) != "(^cell_nil)":
                            got.append(x)
                    a = got
                if a != items:
                    out.violation("apply %d%s" % (ar, " values" if vals else ""),
                                  "%s (%s:%s): a built-in of arity %d applied to %s%s receives %s" % (
                                      e.fn, e.file or "src/cc.c", e.line, ar, [evalm.show(x) for x in items],
                                      " (argument %d being a values object)" % vals if vals else "", [evalm.show(x) for x in a]))
                if o.val is None or not (o.val.t and not o.val.c) or evalm.show(o.val) == "(^cell_unspecified)":
                    out.violation("apply-result %d" % ar, "apply_builtin does not return the result of a built-in of arity %d" % ar)


def formals(m, out, arities):
    M, W, P = m.M, m.W, m.P
    if "check_formals" not in M.funcs:
        raise report.Broken("check_formals not found")

    def length(E, st, f, i, av):
        return [cx.Out("ret", st, bv.var("count(%s)" % evalm.show(av[0]), E.tw(i.ty)))]
    for ar in sorted(arities):
        E = m.engine(models={"length__": length}, opaque={"eputs", "itoa", "write_error_", "make_string0", "cons", "fdputs"})
        st = cx.State()
        st.mem["&arity"] = {T(W, 0): (P, T(W, m.tags["TNUMBER"])), T(W, m.O[2]): (P, T(W, ar))}
        outs = E.run("check_formals", [bv.var("f", W), bv.var("&arity", W), bv.var("args", W)], st)
        n = bv.var("count((args))", W)
        kinds = set()
        for o in outs:
            s = o.state.clone()
            kinds.add(o.kind)
            out.count("arity checks")
            if o.kind == "ret" and ar >= 0:
                if s.decide(E.icmp(s, "eq", n, T(W, ar))) is not True:
                    out.violation("formals %d" % ar, "check_formals (src/eval-apply.c) lets a built-in of arity %d run with another number of arguments" % ar)
            if o.kind != "ret":
                if ar == -1 or s.decide(E.icmp(s, "eq", n, T(W, ar))) is not False:
                    out.violation("formals-reject %d" % ar, "check_formals rejects a legal call of a built-in of arity %d" % ar)
                e = [x for x in s.events if x.kind == "fail"]
                if e and e[-1].name == "error" and "wrong_number_of_args" not in str(e[-1].extra):
                    out.violation("formals-key %d" % ar, "check_formals reports %s for a wrong number of arguments" % e[-1].extra)
        if "ret" not in kinds or (ar >= 0 and len(kinds) < 2):
            out.violation("formals-missing %d" % ar, "check_formals: arity %d: outcomes %s" % (ar, sorted(kinds)))


def order(m, out):
    E, f, head, disp, env0, inv = G04.extract(m)
    tab = G04.transitions(m, E, f, head, disp, env0, inv)
    n = 0
    for l, rows in tab.items():
        for r in rows:
            ok = []
            for k, nm, a, line in r["ev"]:
                if k == "effect" and nm == "check_formals":
                    ok.append(a)
                if k == "effect" and nm == "apply_builtin":
                    n += 1
                    want = [x for x in ok if x[0] == a[0] and x[2] == a[1] and evalm.show(x[1]) == "(builtin_arity(%s))" % evalm.show(a[0])]
                    if not want:
                        out.violation("unchecked %s" % l, "eval_apply (src/eval-apply.c:%s): %s applied to %s without checking the number of arguments against its arity" % (line, evalm.show(a[0]), evalm.show(a[1])))
    out.count("applications in the evaluator", n)
    out.need("applications in the evaluator", 1)
    # nobody else applies a built-in
    for n, fn in m.M.funcs.items():
        if n in ("eval_apply",):
            continue
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op == "call" and i.a and i.a[0] == ("g", "apply_builtin"):
                    out.violation("caller %s" % n, "%s (line %s) applies a built-in without check_formals" % (n, i.line))
