"""G10: integer arithmetic applies the operator it names, to all operands."""
from vt import bv, cx, prim, report
from vt.bv import T

FOLD = {"+": (0, bv.add), "*": (1, bv.mul), "logand": (-1, lambda a, b: bv.bitop("and", [a, b], a.w)), "logior": (0, lambda a, b: bv.bitop("or", [a, b], a.w)),
        "logxor": (0, lambda a, b: bv.bitop("xor", [a, b], a.w))}
CHAIN = ("<", ">", "=")
MAX = 5


def check(out):
    p = prim.Prims()
    out.cov["explanation"] = (
        "The function of each operator is evaluated abstractly on lists of 0 to %d numbers of unknown value; on every path the number it returns must be, as a "
        "normal-form term over the operands' values, the fold of the operator over all of them (for comparisons, the path must have established every adjacent "
        "relation to answer true and the failure of one to answer false). An operand of unknown other type in any position, after numbers, must make every path fail "
        "without its value having been used, and a zero divisor must make every path fail." % MAX)
    for n in list(FOLD) + list(CHAIN) + ["-", "/", "modulo", "ash", "lognot"]:
        if n not in p.reg:
            raise report.Broken("%s is not registered" % n)
        out.count("operators")
    for n, (e, f) in FOLD.items():
        for k in range(MAX + 1):
            fold(out, p, n, k, e, f)
    for n in CHAIN:
        for k in range(MAX + 1):
            chain(out, p, n, k)
    for k in range(1, MAX + 1):
        minus(out, p, k)
    for k in range(1, 4):
        divide(out, p, k)
    modulo(out, p)
    ash(out, p)
    one(out, p, "lognot", lambda v: bv.bnot(v))
    for n in list(FOLD) + list(CHAIN) + ["-", "/"]:
        for k in range(1, MAX if n != "/" else 4):
            for j in range(k):
                if n in CHAIN and k == 1:
                    continue
                reject(out, p, n, k, j)
    for n, ar in (("modulo", 2), ("ash", 2), ("lognot", 1)):
        for j in range(ar):
            reject(out, p, n, ar, j)
    for k in range(2, 4):
        for j in range(1, k):
            zero(out, p, "/", k, j)
    zero(out, p, "modulo", 2, 1)
    out.need("results compared", 60)
    out.need("rejections", 60)


def engine(p):
    m = p.m

    def number(tag, val):
        def g(E, st, f, i, av):
            v = bv.var("num#%d" % E.tick(st), m.W)
            if tag is not None:
                st.x = dict(st.x, num=dict(st.x.get("num", {}), **{v.t[0][0][1]: (T(m.W, m.tags["TNUMBER"]), av[0])}))
            else:
                st.x = dict(st.x, num=dict(st.x.get("num", {}), **{v.t[0][0][1]: (av[0], av[val])}))
            return [cx.Out("ret", st, v)]
        return g
    E = p.engine(models={"make_number": number(1, 0), "make_value_cell": number(None, 2), "make_cell": number(None, 2), "make_pointer_cell": number(None, 2)},
                 max_paths=20000)
    E.peel = MAX + 2
    return E


def val(p, k):
    return bv.var("v%d" % k, p.m.W)


def operands(p, st, k, bad=None, const=None):
    m = p.m
    l = []
    for j in range(k):
        st.mem["&n%d" % j] = {T(m.W, m.O[2]): (m.P, (const or {}).get(j, val(p, j)))}
        if j == bad:
            t = bv.var("type", m.W)
            st.mem["&n%d" % j][T(m.W, m.O[0])] = (m.P, t)
            st.assume(p.eq(st, t, T(m.W, m.tags["TNUMBER"])), False)
        else:
            st.mem["&n%d" % j][T(m.W, m.O[0])] = (m.P, T(m.W, m.tags["TNUMBER"]))
        l.append(bv.var("&n%d" % j, m.W))
    return l


def run(p, name, k, bad=None, const=None, deref=None):
    st = cx.State()
    E = engine(p)
    p.eq = lambda s, a, b: E.icmp(s, "eq", a, b)
    ops = operands(p, st, k, bad, const)
    ar, fn, line = p.reg[name]
    if deref:
        E.on_deref = deref
    try:
        return E, E.run(fn, [p.list(st, ops)] if ar == -1 else ops, st)
    except cx.Limit as e:
        raise report.Broken("%s of %d operands: %s" % (name, k, e))


def where(p, name):
    return "%s (%s)" % (name, p.reg[name][1])


def number(p, o):
    """value of the number a path returns"""
    m = p.m
    v = o.val
    if len(v.t) == 1 and not v.c and v.t[0][0][0] == "v":
        n = v.t[0][0][1]
        r = o.state.x.get("num", {}).get(n)
        if r:
            return r[1] if r[0] == T(r[0].w, m.tags["TNUMBER"]) else None
        if n.startswith("&n"):       # the operand itself
            return o.state.mem[n][T(m.W, m.O[2])][1]
    return None


def rets(out, p, name, k, outs):
    r = [o for o in outs if o.kind == "ret"]
    if not r:
        out.violation("never %s %d" % (name, k), "%s returns for no %d numbers" % (where(p, name), k))
    if any(o.kind == "loop" for o in outs):
        raise report.Broken("%s does not finish a list of %d operands" % (name, k))
    return r


def show(t):
    return repr(t).replace(":64", "").replace(":32", "")


def fold(out, p, name, k, e, f):
    E, outs = run(p, name, k)
    want = T(p.m.W, e)
    for j in range(k):
        want = f(want, val(p, j))
    for o in rets(out, p, name, k, outs):
        out.count("results compared")
        got = number(p, o)
        if got is None or got != want:
            out.violation("value %s %d" % (name, k), "%s of %d operands returns %s, not %s" % (where(p, name), k, got and show(got), show(want)))


def minus(out, p, k):
    E, outs = run(p, "-", k)
    want = bv.neg(val(p, 0)) if k == 1 else val(p, 0)
    for j in range(1, k):
        want = bv.sub(want, val(p, j))
    for o in rets(out, p, "-", k, outs):
        out.count("results compared")
        got = number(p, o)
        if got is None or got != want:
            out.violation("value - %d" % k, "%s of %d operands returns %s, not %s" % (where(p, "-"), k, got and show(got), show(want)))


def chain(out, p, name, k):
    E, outs = run(p, name, k)
    W = p.m.W
    pred = {"<": "slt", ">": "sgt", "=": "eq"}[name]
    t, f = bv.var("^cell_t", W), bv.var("^cell_f", W)
    seen = set()
    for o in rets(out, p, name, k, outs):
        out.count("results compared")
        rel = [o.state.decide(E.icmp(o.state, pred, val(p, j), val(p, j + 1))) for j in range(k - 1)]
        if pred == "eq":
            # equality is transitive: any two operands
            neq = any(o.state.decide(E.icmp(o.state, pred, val(p, i), val(p, j))) is False for i in range(k) for j in range(i))
            cls = list(range(k))
            for i in range(k):
                for j in range(i):
                    if o.state.decide(E.icmp(o.state, pred, val(p, i), val(p, j))) is True:
                        a, b = cls[i], cls[j]
                        cls = [b if c == a else c for c in cls]
            rel = [False] if neq else [True] * (k - 1) if len(set(cls)) <= 1 else [None]
        if o.val == t:
            seen.add(1)
            if not all(r is True for r in rel):
                out.violation("true %s %d" % (name, k), "%s answers true for %d operands on a path that has not established every relation (%s)" % (where(p, name), k, rel))
        elif o.val == f:
            seen.add(0)
            if not any(r is False for r in rel):
                out.violation("false %s %d" % (name, k), "%s answers false for %d operands although no relation is known to fail" % (where(p, name), k))
        else:
            out.violation("answer %s" % name, "%s returns neither true nor false: %s" % (where(p, name), show(o.val)))
    if k > 1 and seen != {0, 1} or k <= 1 and seen != {1}:
        out.violation("answers %s %d" % (name, k), "%s of %d operands can answer only %s" % (where(p, name), k, sorted(seen)))


def one(out, p, name, f):
    E, outs = run(p, name, 1)
    for o in rets(out, p, name, 1, outs):
        out.count("results compared")
        if number(p, o) != f(val(p, 0)):
            out.violation("value " + name, "%s returns %s" % (where(p, name), show(number(p, o)) if number(p, o) else None))


def sign(E, st, v):
    W = v.w
    if st.decide(E.icmp(st, "slt", v, T(W, 0))) is True:
        return -1
    if st.decide(E.icmp(st, "slt", v, T(W, 0))) is False:
        return 1
    return 0


def mag(E, st, v):
    s = sign(E, st, v)
    return v if s > 0 else bv.neg(v) if s < 0 else None


def divop(op, x, y, W):
    if not y.t and y.c == 1:
        return x if op.endswith("div") else T(W, 0)
    if not x.t and x.c == 0:
        return x
    return bv.op(op, W, x, y)


def isone(E, st, v):
    return st.decide(E.icmp(st, "eq", v, T(v.w, 1))) is True or st.decide(E.icmp(st, "eq", v, T(v.w, -1))) is True


def unit(E, st, t, k, p):
    """the term with operands of known constant value put in"""
    for j in range(k):
        for c in (1, -1, 0):
            if st.decide(E.icmp(st, "eq", val(p, j), T(t.w, c))) is True:
                t = subst(t, val(p, j).t[0][0], T(t.w, c))
    return t


def subst(t, a, v):
    r = T(t.w, t.c)
    for x, k in t.t:
        if x == a:
            y = v
        elif x[0] == "op" and x[1] in ("udiv", "sdiv", "urem", "srem"):
            l, r2 = subst(x[3], a, v), subst(x[4], a, v)
            y = divop(x[1], l, r2, t.w)
            if not r2.t and r2.c == -1 and x[1] == "sdiv":
                y = bv.neg(l)
        else:
            y = T(t.w, 0, ((x, 1),))
        r = bv.add(r, bv.mulc(y, k))
    return r


def divide(out, p, k):
    E, outs = run(p, "/", k)
    W = p.m.W
    for o in rets(out, p, "/", k, outs):
        out.count("results compared")
        st = o.state
        got = number(p, o)
        # truncating quotient, by magnitudes or by signed division
        wants = []
        w = val(p, 0)
        for j in range(1, k):
            w = divop("sdiv", w, val(p, j), W)
        wants.append(w)
        ms = [mag(E, st, val(p, j)) for j in range(k)]
        if None not in ms:
            w = ms[0]
            neg = sign(E, st, val(p, 0)) < 0
            for j in range(1, k):
                w = divop("udiv", w, ms[j], W)
                neg ^= sign(E, st, val(p, j)) < 0
            wants.append(bv.neg(w) if neg else w)
        if got is None or unit(E, st, got, k, p) not in [unit(E, st, w, k, p) for w in wants]:
            out.violation("value / %d" % k, "%s of %d operands returns %s on a path where the quotient is %s" % (
                where(p, "/"), k, got and show(got), show(wants[-1])))


def modulo(out, p):
    E, outs = run(p, "modulo", 2)
    W = p.m.W
    a, b = val(p, 0), val(p, 1)
    for o in rets(out, p, "modulo", 2, outs):
        out.count("results compared")
        st = o.state
        got = number(p, o)
        ok = False
        ma, mb = mag(E, st, a), mag(E, st, b)
        if got is not None and ma is not None and mb is not None:
            sa, sb = sign(E, st, a), sign(E, st, b)
            r = divop("urem", ma, mb, W)
            if st.decide(E.icmp(st, "eq", r, mb)) is True:       # no such path: a remainder is less than the divisor
                continue
            z = st.decide(E.icmp(st, "eq", r, T(W, 0)))
            same = bv.mulc(r, sa)                       # remainder with the sign of the dividend
            if z is True:
                ok = got in (T(W, 0), r, same)
            elif sa == sb:
                ok = got == same
            elif z is False:
                ok = got == bv.add(same, b)
        if not ok and got is not None:
            r = divop("srem", a, b, W)
            z = st.decide(E.icmp(st, "eq", r, T(W, 0)))
            d = differ(E, st, r, b)
            if got == r:
                ok = z is True or d is False
            elif got == bv.add(r, b):
                ok = z is False and d is True
        if not ok:
            out.violation("value modulo", "modulo (%s) returns %s on a path with dividend %s and divisor %s" % (
                p.reg["modulo"][1], got and show(got), {1: ">= 0", -1: "< 0", 0: "of unknown sign"}[sign(E, st, a)],
                {1: ">= 0", -1: "< 0", 0: "of unknown sign"}[sign(E, st, b)]))


def differ(E, st, x, y):
    """do the signs differ on this path?"""
    sx, sy = sign(E, st, x), sign(E, st, y)
    if sx and sy:
        return sx != sy
    W = x.w
    a, b = E.icmp(st, "slt", x, T(W, 0)), E.icmp(st, "slt", y, T(W, 0))
    for t in [E.icmp(st, "ne", cx.widen_bool(a, w), cx.widen_bool(b, w)) for w in (8, 32, 64)] + [bv.add(a, b), bv.bitop("xor", [a, b], 1)] + [
            E.icmp(st, "slt", bv.bitop("xor", [x, y], W), T(W, 0))]:
        r = st.decide(t)
        if r is not None:
            return r
    return None


def ash(out, p):
    E, outs = run(p, "ash", 2)
    W = p.m.W
    n, c = val(p, 0), val(p, 1)
    seen = set()
    for o in rets(out, p, "ash", 2, outs):
        out.count("results compared")
        st = o.state
        got = number(p, o)
        lo, hi = st.bounds(c)
        ok = False
        if got is not None:
            forms = {"left": bv.shift("shl", n, c, W), "right": bv.shift("sar", n, bv.neg(c), W), "all": bv.shift("sar", n, T(W, W - 1), W), "none": T(W, 0)}
            for f, t in forms.items():
                if got == t:
                    seen.add(f)
                    ok = ok or {"left": 0 <= lo and hi <= W - 1, "right": -W < lo and hi <= 0, "all": hi <= 1 - W, "none": lo >= W}[f]
            if lo == hi == 0 and got == n:
                ok = True
        if not ok:
            out.violation("value ash", "ash (%s) returns %s for shift counts in %s .. %s" % (p.reg["ash"][1], got and show(got), lo if lo > -cx.INF else "-inf", hi if hi < cx.INF else "inf"))
    for f in ("left", "right"):
        if f not in seen:
            out.violation("ash " + f, "ash (%s) never shifts %s by its count" % (p.reg["ash"][1], f))


def reject(out, p, name, k, j):
    uses = []

    def deref(E, st, f, i, addr, n, wr):
        base, off = E.split(addr)
        if base == "&n%d" % j and not off.t and off.c >= p.m.O[2]:
            uses.append((f.name, i.line))
    E, outs = run(p, name, k, bad=j, deref=deref)
    out.count("rejections")
    for o in outs:
        if o.kind != "ret":
            continue
        if name in CHAIN and o.val == bv.var("^cell_f", p.m.W):
            # an earlier pair has decided the answer
            pred = {"<": "slt", ">": "sgt", "=": "eq"}[name]
            if any(o.state.decide(E.icmp(o.state, pred, val(p, a), val(p, b))) is False for b in range(j) for a in range(b)):
                continue
        out.violation("accepts %s %d %d" % (name, k, j), "%s returns although operand %d of %d is not a number" % (where(p, name), j + 1, k))
    for f, line in uses:
        out.violation("uses %s %d %d" % (name, k, j), "%s: %s (line %s) uses the value of operand %d of %d, which is not a number" % (where(p, name), f, line, j + 1, k))


def zero(out, p, name, k, j):
    E, outs = run(p, name, k, const={j: T(p.m.W, 0)})
    out.count("zero divisors")
    if any(o.kind == "ret" for o in outs):
        out.violation("zero %s %d" % (name, j), "%s returns although divisor %d is zero" % (where(p, name), j))
