"""Special forms and primitive procedures of vt.scheme."""
from functools import reduce
from . import absint
from .absint import Lin, SStr, sstr, is_int, AnalysisError, SchemeError
from .sexp import *
from .scheme import (Opq, Env, Closure, Tail, Macro, RecType, Rec, equal, eqv, S, QUOTE, UNQ, UNQS, QQ,
                     ELSE, ARROW, UNDERSCORE, Interp)

SF = {}


def sf(name):
    def d(f):
        SF[name] = f
        return f
    return d


@sf("quote")
def _quote(I, x, sc, tail):
    v = x.cdr.car
    return lambda env: v


@sf("quasiquote")
def _qq(I, x, sc, tail):
    return comp_qq(I, x.cdr.car, sc, 1)


def comp_qq(I, t, sc, depth):
    if not isinstance(t, Pair):
        return lambda env: t
    if t.car is UNQ:
        if depth == 1:
            f = I.comp(t.cdr.car, sc)
            return lambda env: I.force(f(env))
        f = comp_qq(I, t.cdr.car, sc, depth - 1)
        return lambda env: Pair(UNQ, Pair(f(env), NIL))
    if t.car is QQ:
        f = comp_qq(I, t.cdr.car, sc, depth + 1)
        return lambda env: Pair(QQ, Pair(f(env), NIL))
    if isinstance(t.car, Pair) and t.car.car is UNQS and depth == 1:
        f = I.comp(t.car.cdr.car, sc)
        r = comp_qq(I, t.cdr, sc, depth)

        def splice(env):
            v = I.force(f(env))
            rest = r(env)
            if rest is NIL:
                return v
            return plist(pl(v), rest)
        return splice
    a = comp_qq(I, t.car, sc, depth)
    d = comp_qq(I, t.cdr, sc, depth)
    return lambda env: Pair(a(env), d(env))


@sf("if")
def _if(I, x, sc, tail):
    p = pl(x.cdr)
    c = I.comp(p[0], sc)
    a = I.comp(p[1], sc, tail)
    b = I.comp(p[2], sc, tail) if len(p) > 2 else (lambda env: UNSPEC)

    def run(env):
        return a(env) if I.truth(I.force(c(env))) else b(env)
    return run


@sf("begin")
def _begin(I, x, sc, tail):
    return I.body(pl(x.cdr), sc, tail)


@sf("lambda")
def _lambda(I, x, sc, tail):
    return I.comp_lambda(x.cdr.car, pl(x.cdr.cdr), sc, "lambda", False, x)


@sf("lambda*")
def _lambdas(I, x, sc, tail):
    return I.comp_lambda(x.cdr.car, pl(x.cdr.cdr), sc, "lambda", True, x)


@sf("define")
def _define(I, x, sc, tail):
    name, fn = I.comp_define(x, sc)

    def run(env):
        v = I.force(fn(env))
        if env is None:
            I.g[name] = v
        else:
            env.d[name] = v
        return UNSPEC
    return run


SF["define*"] = _define


@sf("set!")
def _set(I, x, sc, tail):
    s = x.cdr.car
    f = I.comp(x.cdr.cdr.car, sc)

    def run(env):
        v = I.force(f(env))
        e = env
        while e is not None:
            if s in e.d:
                e.d[s] = v
                return UNSPEC
            e = e.up
        I.g[s] = v
        return UNSPEC
    return run


@sf("let")
def _let(I, x, sc, tail):
    if isinstance(x.cdr.car, Sym):      # named let
        name = x.cdr.car
        binds = [pl(b) for b in pl(x.cdr.cdr.car)]
        inits = [I.comp(b[1], sc) for b in binds]
        lam = I.comp_lambda(plist([b[0] for b in binds]), pl(x.cdr.cdr.cdr), sc + ({name},), name.name)

        def run(env):
            args = [I.force(f(env)) for f in inits]
            e = Env({}, env)
            c = lam(e)
            e.d[name] = c
            return Tail(c, args)
        return run if tail else (lambda env: I.force(run(env)))
    binds = [pl(b) if isinstance(b, Pair) else [b, False] for b in pl(x.cdr.car)]
    names = [b[0] for b in binds]
    inits = [I.comp(b[1], sc) for b in binds]
    body = I.body(pl(x.cdr.cdr), sc + (set(names),), tail)

    def run2(env):
        d = {}
        for n, f in zip(names, inits):
            d[n] = I.force(f(env))
        return body(Env(d, env))
    return run2


@sf("let*")
def _lets(I, x, sc, tail):
    binds = [pl(b) for b in pl(x.cdr.car)]
    steps = []
    for b in binds:
        steps.append((b[0], I.comp(b[1], sc)))
        sc = sc + ({b[0]},)
    body = I.body(pl(x.cdr.cdr), sc, tail)

    def run(env):
        for n, f in steps:
            env = Env({n: I.force(f(env))}, env)
        return body(env)
    return run


@sf("letrec")
def _letrec(I, x, sc, tail):
    binds = [pl(b) for b in pl(x.cdr.car)]
    sc = sc + ({b[0] for b in binds},)
    steps = [(b[0], I.comp(b[1], sc)) for b in binds]
    body = I.body(pl(x.cdr.cdr), sc, tail)

    def run(env):
        e = Env({}, env)
        for n, f in steps:
            e.d[n] = I.force(f(e))
        return body(e)
    return run


SF["letrec*"] = _letrec


@sf("do")
def _do(I, x, sc, tail):
    specs = [pl(b) for b in pl(x.cdr.car)]
    loop = S("__do_loop")
    test = x.cdr.cdr.car
    body = pl(x.cdr.cdr.cdr)
    form = plist([S("let"), loop, plist([lst(s[0], s[1]) for s in specs]),
                  plist([S("if"), test.car, plist([S("begin")] + (pl(test.cdr) or [UNSPEC])),
                         plist([S("begin")] + body + [plist([loop] + [s[2] if len(s) > 2 else s[0] for s in specs])])])])
    return I.comp(form, sc, tail)


@sf("cond")
def _cond(I, x, sc, tail):
    cls = []
    for cl in pl(x.cdr):
        c = pl(cl)
        if c[0] is ELSE:
            cls.append((None, I.body(c[1:], sc, tail), "body"))
        elif len(c) == 1:
            cls.append((I.comp(c[0], sc), None, "val"))
        elif c[1] is ARROW:
            cls.append((I.comp(c[0], sc), I.comp(c[2], sc), "arrow"))
        else:
            cls.append((I.comp(c[0], sc), I.body(c[1:], sc, tail), "body"))

    def run(env):
        for t, b, k in cls:
            if t is None:
                return b(env)
            v = I.force(t(env))
            if I.truth(v):
                if k == "body":
                    return b(env)
                if k == "val":
                    return v
                f = I.force(b(env))
                return Tail(f, [v]) if tail else I.apply(f, [v])
        return UNSPEC
    return run


@sf("case")
def _case(I, x, sc, tail):
    k = I.comp(x.cdr.car, sc)
    cls = []
    for cl in pl(x.cdr.cdr):
        body = pl(cl.cdr)
        arrow = body and body[0] is ARROW
        b = I.comp(body[1], sc) if arrow else I.body(body, sc, tail)
        cls.append((None if cl.car is ELSE else pl(cl.car), b, arrow))

    def run(env):
        v = I.force(k(env))
        for ks, b, arrow in cls:
            hit = ks is None
            if not hit:
                for d in ks:
                    if isinstance(v, Lin) and isinstance(d, int):
                        hit = I.path.eq(v, d)
                    else:
                        hit = eqv(v, d)
                    if hit:
                        break
            if hit:
                if arrow:
                    return I.apply(I.force(b(env)), [v])
                return b(env)
        return UNSPEC
    return run


@sf("and")
def _and(I, x, sc, tail):
    fs = pl(x.cdr)
    if not fs:
        return lambda env: True
    init = [I.comp(f, sc) for f in fs[:-1]]
    last = I.comp(fs[-1], sc, tail)

    def run(env):
        for f in init:
            v = I.force(f(env))
            if not I.truth(v):
                return False
        return last(env)
    return run


@sf("or")
def _or(I, x, sc, tail):
    fs = pl(x.cdr)
    if not fs:
        return lambda env: False
    init = [I.comp(f, sc) for f in fs[:-1]]
    last = I.comp(fs[-1], sc, tail)

    def run(env):
        for f in init:
            v = I.force(f(env))
            if I.truth(v):
                return True if isinstance(v, Opq) else v
        return last(env)
    return run


@sf("when")
def _when(I, x, sc, tail):
    c = I.comp(x.cdr.car, sc)
    b = I.body(pl(x.cdr.cdr), sc, tail)
    return lambda env: b(env) if I.truth(I.force(c(env))) else UNSPEC


@sf("unless")
def _unless(I, x, sc, tail):
    c = I.comp(x.cdr.car, sc)
    b = I.body(pl(x.cdr.cdr), sc, tail)
    return lambda env: UNSPEC if I.truth(I.force(c(env))) else b(env)


@sf("cut")
def _cut(I, x, sc, tail):
    items = pl(x.cdr)
    slots = []
    out = []
    rest = False
    for it in items:
        if it is S("<>"):
            s = S("__cut%d" % len(slots))
            slots.append(s)
            out.append(s)
        elif it is S("<...>"):
            rest = True
        else:
            out.append(it)
    params = plist(slots, S("__cutrest") if rest else NIL)
    body = plist([S("apply")] + out + [S("__cutrest")]) if rest else plist(out)
    return I.comp_lambda(params, [body], sc, "cut")


@sf("let-keywords")
def _letkw(I, x, sc, tail):
    rest = I.comp(x.cdr.car, sc)
    specs = pl(x.cdr.cdr.cdr.car)
    binds = [(pl(s) if isinstance(s, Pair) else [s, False]) for s in specs]
    body = I.body(pl(x.cdr.cdr.cdr.cdr), sc + ({b[0] for b in binds},), tail)
    inits = [(b[0], I.comp(b[1], sc)) for b in binds]

    def run(env):
        r = pl(I.force(rest(env)))
        kv = {}
        for i in range(0, len(r) - 1, 2):
            if isinstance(r[i], Kw):
                kv[r[i].name] = r[i + 1]
        known = {n.name for n, _ in inits}
        for k in kv:
            if k not in known:
                raise SchemeError(("unrecognized keyword", k))
        d = {}
        for n, f in inits:
            d[n] = kv[n.name] if n.name in kv else I.force(f(env))
        return body(Env(d, env))
    return run


@sf("set-field")
def _setfield(I, x, sc, tail):
    o = I.comp(x.cdr.car, sc)
    acc = I.comp(x.cdr.cdr.car.car, sc)
    v = I.comp(x.cdr.cdr.cdr.car, sc)

    def run(env):
        r = I.force(o(env))
        t, i = I.force(acc(env)).field
        vs = list(r.v)
        vs[i] = I.force(v(env))
        return Rec(t, vs)
    return run


@sf("set-fields")
def _setfields(I, x, sc, tail):
    o = I.comp(x.cdr.car, sc)
    fs = [(I.comp(c.car.car, sc), I.comp(c.cdr.car, sc)) for c in pl(x.cdr.cdr)]

    def run(env):
        r = I.force(o(env))
        vs = list(r.v)
        t = r.t
        for acc, v in fs:
            t, i = I.force(acc(env)).field
            vs[i] = I.force(v(env))
        return Rec(t, vs)
    return run


@sf("assert")
def _assert(I, x, sc, tail):
    return lambda env: UNSPEC


@sf("receive")
def _receive(I, x, sc, tail):
    lam = I.comp_lambda(x.cdr.car, pl(x.cdr.cdr.cdr), sc, "receive")
    e = I.comp(x.cdr.cdr.car, sc)

    def run(env):
        v = I.force(e(env))
        vs = v.vals if isinstance(v, Values) else [v]
        return I.apply(lam(env), vs)
    return run


class Values:
    def __init__(self, v):
        self.vals = v


# ------------------------------------------------------------- pmatch / match
@sf("pmatch")
def _pmatch(I, x, sc, tail):
    e = I.comp(x.cdr.car, sc)
    clauses = []
    for cl in pl(x.cdr.cdr):
        pat = cl.car
        body = pl(cl.cdr)
        guards = []
        if body and isinstance(body[0], Pair) and body[0].car is S("guard"):
            guards = pl(body[0].cdr)
            body = body[1:]
        if pat is ELSE:
            clauses.append((None, [], I.body(body, sc, tail)))
            continue
        names = set(pm_vars(pat))
        sc2 = sc + (names,)
        clauses.append((pat, [I.comp(g, sc2) for g in guards], I.body(body, sc2, tail)))

    def run(env):
        v = I.force(e(env))
        for pat, guards, body in clauses:
            if pat is None:
                return body(env)
            b = {}
            if not pm_match(pat, v, b):
                continue
            en = Env(b, env)
            if all(I.truth(I.force(g(en))) for g in guards):
                return body(en)
        raise SchemeError(("pmatch: no match", v))
    return run


def pm_vars(p):
    if isinstance(p, Pair):
        if p.car is UNQ:
            return [p.cdr.car]
        return pm_vars(p.car) + pm_vars(p.cdr)
    if p is UNDERSCORE:
        return []
    return []


def pm_match(p, v, b):
    while True:
        if isinstance(p, Pair):
            if p.car is UNQ and isinstance(p.cdr, Pair) and p.cdr.cdr is NIL:
                b[p.cdr.car] = v
                return True
            if not isinstance(v, Pair):
                return False
            if not pm_match(p.car, v.car, b):
                return False
            p, v = p.cdr, v.cdr
            continue
        if p is UNDERSCORE:
            b[p] = v
            return True
        if p is NIL:
            return v is NIL
        return equal(p, v)


@sf("match")
def _match(I, x, sc, tail):
    e = I.comp(x.cdr.car, sc)
    clauses = []
    for cl in pl(x.cdr.cdr):
        pat = cl.car
        names = set(m_vars(pat))
        sc2 = sc + (names,)
        clauses.append((pat, I.body(pl(cl.cdr), sc2, tail)))

    def run(env):
        v = I.force(e(env))
        for pat, body in clauses:
            b = {}
            if m_match(I, pat, v, b, env):
                return body(Env(b, env))
        raise SchemeError(("match: no match", v))
    return run


def m_vars(p):
    if isinstance(p, Sym):
        return [] if p in (UNDERSCORE, S("...")) else [p]
    if isinstance(p, Pair):
        if p.car is QUOTE:
            return []
        if p.car is S("?"):
            return [v for q in pl(p.cdr.cdr) for v in m_vars(q)]
        if p.car in (S("and"), S("or"), S("not")):
            return [v for q in pl(p.cdr) for v in m_vars(q)]
        return m_vars(p.car) + m_vars(p.cdr)
    return []


def m_match(I, p, v, b, env):
    if isinstance(p, Sym):
        if p is not UNDERSCORE:
            b[p] = v
        return True
    if isinstance(p, Pair):
        if p.car is QUOTE:
            return equal(p.cdr.car, v)
        if p.car is S("?"):
            f = I.force(I.comp(p.cdr.car, ())(env))
            return I.truth(I.apply(f, [v])) and all(m_match(I, q, v, b, env) for q in pl(p.cdr.cdr))
        if p.car is S("and"):
            return all(m_match(I, q, v, b, env) for q in pl(p.cdr))
        if p.car is S("or"):
            return any(m_match(I, q, v, b, env) for q in pl(p.cdr))
        if isinstance(p.cdr, Pair) and p.cdr.car is S("..."):
            items = []
            w = v
            while isinstance(w, Pair):
                items.append(w.car)
                w = w.cdr
            if w is not NIL:
                return False
            bs = []
            for it in items:
                bb = {}
                if not m_match(I, p.car, it, bb, env):
                    return False
                bs.append(bb)
            for name in m_vars(p.car):
                b[name] = plist([bb[name] for bb in bs])
            return True
        return isinstance(v, Pair) and m_match(I, p.car, v.car, b, env) and m_match(I, p.cdr, v.cdr, b, env)
    if p is NIL:
        return v is NIL
    return equal(p, v)


# ------------------------------------------------------------- primitives
def install(I):
    I.special = SF
    g = {}

    def P(name):
        def d(f):
            g[S(name)] = f
            return f
        return d

    def path():
        return I.path

    def num(x, who="?"):
        if isinstance(x, bool) or not isinstance(x, (int, float, Lin)):
            raise SchemeError(("wrong-type-arg", who, x))
        return x

    g[S("+")] = lambda *a: reduce(absint.add, [num(x, "+") for x in a], 0)
    g[S("*")] = lambda *a: reduce(absint.mul, [num(x, "*") for x in a], 1)

    @P("-")
    def minus(a, *r):
        num(a, "-")
        if not r:
            return absint.neg(a)
        return reduce(lambda x, y: absint.add(x, absint.neg(num(y, "-"))), r, a)

    def chain(f):
        def h(*a):
            for x in a:
                num(x, "cmp")
            return all(f(x, y) for x, y in zip(a, a[1:]))
        return h
    g[S("<")] = chain(lambda a, b: path().lt(a, b))
    g[S(">")] = chain(lambda a, b: path().lt(b, a))
    g[S("<=")] = chain(lambda a, b: not path().lt(b, a))
    g[S(">=")] = chain(lambda a, b: not path().lt(a, b))
    g[S("=")] = chain(lambda a, b: path().eq(a, b))
    g[S("zero?")] = lambda a: path().eq(num(a, "zero?"), 0)
    g[S("positive?")] = lambda a: path().lt(0, num(a))
    g[S("negative?")] = lambda a: path().lt(num(a), 0)
    g[S("even?")] = lambda a: path().eq(path().mod(num(a), 2), 0)
    g[S("odd?")] = lambda a: not path().eq(path().mod(num(a), 2), 0)
    g[S("1+")] = lambda a: absint.add(num(a), 1)
    g[S("1-")] = lambda a: absint.add(num(a), -1)
    g[S("abs")] = lambda a: path().abs(num(a))
    g[S("modulo")] = lambda a, m: path().mod(a, m)
    g[S("floor-quotient")] = g[S("floor/")] = lambda a, m: path().fdiv(a, m)
    g[S("quotient")] = lambda a, m: path().quo(a, m)
    g[S("remainder")] = lambda a, m: absint.add(a, absint.neg(absint.mul(path().quo(a, m), m)))

    @P("max")
    def mx(a, *r):
        for x in r:
            if path().lt(a, x):
                a = x
        return a

    @P("min")
    def mn(a, *r):
        for x in r:
            if path().lt(x, a):
                a = x
        return a

    @P("ash")
    def ash(a, n):
        if isinstance(n, int):
            if isinstance(a, int):
                return a << n if n >= 0 else a >> -n
            return absint.mul(a, 1 << n) if n >= 0 else path().fdiv(a, 1 << -n)
        if isinstance(a, Opq) or isinstance(n, (Opq, Lin)):
            return Lin(((("ash", a, n), 1),), 0)
        raise AnalysisError("ash")

    def bitop(name, f):
        def h(*a):
            if all(isinstance(x, int) for x in a):
                return reduce(f, a)
            if name == "logand" and len(a) == 2:
                x, m = a if isinstance(a[1], int) else (a[1], a[0])
                if isinstance(m, int) and m >= 0 and (m & (m + 1)) == 0:
                    return path().mod(x, m + 1)
            return Lin((((name,) + tuple(a), 1),), 0)
        return h
    g[S("logand")] = bitop("logand", lambda a, b: a & b)
    g[S("logior")] = bitop("logior", lambda a, b: a | b)
    g[S("logxor")] = bitop("logxor", lambda a, b: a ^ b)
    g[S("lognot")] = lambda a: absint.add(absint.neg(a), -1)
    g[S("expt")] = lambda a, b: a ** b
    g[S("number?")] = lambda x: is_int(x) or isinstance(x, float)
    g[S("integer?")] = g[S("exact?")] = is_int
    g[S("inexact->exact")] = lambda x: int(x)

    # predicates
    g[S("pair?")] = lambda x: isinstance(x, Pair)
    g[S("null?")] = lambda x: x is NIL
    g[S("symbol?")] = lambda x: isinstance(x, Sym)
    g[S("keyword?")] = lambda x: isinstance(x, Kw)
    g[S("string?")] = lambda x: isinstance(x, (str, SStr))
    g[S("char?")] = lambda x: isinstance(x, Char)
    g[S("boolean?")] = lambda x: isinstance(x, bool)
    g[S("procedure?")] = lambda x: callable(x)
    g[S("vector?")] = lambda x: isinstance(x, Vec)

    @P("list?")
    def listp(x):
        while isinstance(x, Pair):
            x = x.cdr
        return x is NIL

    @P("not")
    def nott(x):
        return not I.truth(x)
    g[S("eq?")] = lambda a, b: eqv(a, b)
    g[S("eqv?")] = lambda a, b: eqv(a, b)

    @P("equal?")
    def eql(a, b):
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not isinstance(a, bool) and not isinstance(b, bool):
            return path().eq(a, b)
        return equal(a, b)
    g[S("eq?")] = lambda a, b: eql(a, b) if isinstance(a, Lin) or isinstance(b, Lin) else eqv(a, b)

    # pairs
    def car(x):
        if not isinstance(x, Pair):
            raise SchemeError(("wrong-type-arg", "car", x))
        return x.car

    def cdr(x):
        if not isinstance(x, Pair):
            raise SchemeError(("wrong-type-arg", "cdr", x))
        return x.cdr
    g[S("car")] = car
    g[S("cdr")] = cdr
    g[S("pmatch-car")] = car
    g[S("pmatch-cdr")] = cdr
    import itertools
    for n in (2, 3, 4):
        for c in itertools.product("ad", repeat=n):
            def f(x, c=c):
                for k in reversed(c):
                    x = car(x) if k == "a" else cdr(x)
                return x
            g[S("c" + "".join(c) + "r")] = f
    g[S("cons")] = lambda a, b: Pair(a, b)
    g[S("list")] = lambda *a: plist(a)
    g[S("cons*")] = lambda *a: plist(a[:-1], a[-1])
    g[S("set-car!")] = lambda p, v: setattr(p, "car", v) or UNSPEC
    g[S("set-cdr!")] = lambda p, v: setattr(p, "cdr", v) or UNSPEC

    @P("append")
    def append(*ls):
        ls = [l for l in ls if l is not NIL]
        if not ls:
            return NIL
        r = ls[-1]
        for l in reversed(ls[:-1]):
            r = plist(splpl(l, "append"), r)
        return r
    g[S("append!")] = append
    g[S("append2")] = append

    def splpl(x, who):
        try:
            return pl(x)
        except ValueError:
            raise SchemeError(("wrong-type-arg", who, x))

    @P("length")
    def length(x):
        return len(splpl(x, "length"))
    g[S("reverse")] = lambda x: plist(list(reversed(splpl(x, "reverse"))))
    g[S("list-ref")] = lambda l, n: idx(splpl(l, "list-ref"), n)

    def idx(l, n):
        if isinstance(n, Lin):
            for i in range(len(l)):
                if path().eq(n, i):
                    return l[i]
            raise SchemeError(("out-of-range", n))
        if not 0 <= n < len(l):
            raise SchemeError(("out-of-range", n))
        return l[n]

    @P("list-tail")
    def list_tail(l, n):
        for _ in range(n):
            l = cdr(l)
        return l

    @P("list-head")
    def list_head(l, n):
        out = []
        if isinstance(n, Lin):
            raise AnalysisError("list-head symbolic")
        for _ in range(n):
            out.append(car(l))
            l = cdr(l)
        return plist(out)
    g[S("take")] = list_head
    g[S("drop")] = list_tail
    g[S("last")] = lambda l: pl(l)[-1]
    g[S("last-pair")] = lambda l: list_tail(l, len(pl(l)) - 1)

    def mem(test):
        def h(x, l, *t):
            while isinstance(l, Pair):
                if (I.truth(I.apply(t[0], [x, l.car])) if t else test(x, l.car)):
                    return l
                l = l.cdr
            return False
        return h
    g[S("memq")] = g[S("memv")] = mem(eqv)
    g[S("member")] = mem(equal)

    def ass(test):
        def h(x, l, *t):
            while isinstance(l, Pair):
                if isinstance(l.car, Pair) and test(x, l.car.car):
                    return l.car
                l = l.cdr
            return False
        return h
    g[S("assq")] = g[S("assv")] = ass(eqv)
    g[S("assoc")] = ass(equal)

    def assref(test):
        a = ass(test)

        def h(l, x):
            r = a(x, l)
            return r.cdr if r is not False else False
        return h
    g[S("assoc-ref")] = assref(equal)
    g[S("assq-ref")] = g[S("assv-ref")] = assref(eqv)
    g[S("acons")] = lambda k, v, l: Pair(Pair(k, v), l)

    # higher order
    A = lambda f, *a: I.apply(f, list(a))
    T = lambda f, *a: I.truth(I.apply(f, list(a)))

    @P("apply")
    def apply_(f, *a):
        return Tail(f, list(a[:-1]) + splpl(a[-1], "apply"))

    @P("map")
    def map_(f, *ls):
        return plist([I.apply(f, list(xs)) for xs in zip(*[splpl(l, "map") for l in ls])])

    @P("for-each")
    def foreach(f, *ls):
        for xs in zip(*[splpl(l, "for-each") for l in ls]):
            I.apply(f, list(xs))
        return UNSPEC
    g[S("append-map")] = lambda f, *ls: append(*pl(map_(f, *ls)))
    g[S("filter")] = lambda f, l: plist([x for x in splpl(l, "filter") if T(f, x)])
    g[S("remove")] = lambda f, l: plist([x for x in splpl(l, "remove") if not T(f, x)])
    g[S("partition")] = lambda f, l: Values([g[S("filter")](f, l), g[S("remove")](f, l)])
    g[S("filter-map")] = lambda f, *ls: plist([x for x in pl(map_(f, *ls)) if x is not False])
    g[S("delete")] = lambda x, l: plist([y for y in splpl(l, "delete") if not equal(x, y)])

    @P("fold")
    def fold(f, init, *ls):
        for xs in zip(*[splpl(l, "fold") for l in ls]):
            init = I.apply(f, list(xs) + [init])
        return init

    @P("fold-right")
    def foldr(f, init, *ls):
        for xs in reversed(list(zip(*[splpl(l, "fold-right") for l in ls]))):
            init = I.apply(f, list(xs) + [init])
        return init

    @P("reduce")
    def red(f, init, l):
        l = pl(l)
        if not l:
            return init
        r = l[0]
        for x in l[1:]:
            r = A(f, x, r)
        return r

    @P("find")
    def find(f, l):
        for x in splpl(l, "find"):
            if T(f, x):
                return x
        return False

    @P("find-tail")
    def find_tail(f, l):
        while isinstance(l, Pair):
            if T(f, l.car):
                return l
            l = l.cdr
        return False

    @P("list-index")
    def list_index(f, l):
        for i, x in enumerate(splpl(l, "list-index")):
            if T(f, x):
                return i
        return False

    @P("any")
    def any_(f, *ls):
        for xs in zip(*[pl(l) for l in ls]):
            v = I.apply(f, list(xs))
            if I.truth(v):
                return v
        return False

    @P("every")
    def every(f, *ls):
        v = True
        for xs in zip(*[pl(l) for l in ls]):
            v = I.apply(f, list(xs))
            if not I.truth(v):
                return False
        return v

    @P("iota")
    def iota(n, start=0, step=1):
        if isinstance(n, Lin):
            raise AnalysisError("iota symbolic")
        return plist([start + i * step for i in range(n)])

    @P("unfold")
    def unfold(stop, f, nxt, seed):
        out = []
        while not T(stop, seed):
            out.append(A(f, seed))
            seed = A(nxt, seed)
        return plist(out)
    g[S("make-list")] = lambda n, v=UNSPEC: plist([v] * n)

    @P("compose")
    def compose(*fs):
        def h(*a):
            v = I.apply(fs[-1], list(a))
            for f in reversed(fs[:-1]):
                v = I.apply(f, [v])
            return v
        return h
    g[S("negate")] = lambda f: (lambda *a: not I.truth(I.apply(f, list(a))))
    g[S("const")] = lambda v: (lambda *a: v)
    g[S("identity")] = lambda x: x
    g[S("and=>")] = lambda v, f: I.apply(f, [v]) if I.truth(v) else False
    g[S("values")] = lambda *a: a[0] if len(a) == 1 else Values(list(a))

    @P("call-with-values")
    def cwv(p, c):
        v = I.apply(p, [])
        return I.apply(c, v.vals if isinstance(v, Values) else [v])
    g[S("dynamic-wind")] = lambda a, b, c: (I.apply(a, []), I.apply(b, []), I.apply(c, []))[1]

    # strings
    def chk_s(x, who):
        if not isinstance(x, (str, SStr)):
            raise SchemeError(("wrong-type-arg", who, x))
        return x

    g[S("string-append")] = lambda *a: sstr([chk_s(x, "string-append") for x in a])

    @P("string-join")
    def sjoin(l, sep=" ", *k):
        out = []
        for i, x in enumerate(pl(l)):
            if i:
                out.append(sep)
            out.append(x)
        return sstr(out)

    def conc(x):
        if isinstance(x, SStr):
            raise AnalysisError("operation on symbolic string %r" % x)
        if not isinstance(x, str):
            raise SchemeError(("wrong-type-arg", "string", x))
        return x
    g[S("string-length")] = lambda s: len(conc(s))
    g[S("string=?")] = lambda a, b: a == b
    g[S("string-prefix?")] = lambda p, s: conc(s).startswith(p)
    g[S("string-suffix?")] = lambda p, s: conc(s).endswith(p)
    g[S("string-drop")] = lambda s, n: conc(s)[n:]
    g[S("string-drop-right")] = lambda s, n: conc(s)[:len(s) - n]
    g[S("string-take")] = lambda s, n: conc(s)[:n]
    g[S("substring")] = lambda s, a, b=None: conc(s)[a:b]
    g[S("string-ref")] = lambda s, n: Char(conc(s)[n])
    g[S("string-null?")] = lambda s: s == ""
    g[S("string->list")] = lambda s: plist([Char(c) for c in conc(s)])
    g[S("list->string")] = lambda l: "".join(c.c for c in pl(l))
    g[S("string")] = lambda *a: "".join(c.c for c in a)
    g[S("make-string")] = lambda n, c=Char(" "): c.c * n if isinstance(n, int) else (_ for _ in ()).throw(AnalysisError("make-string symbolic"))
    g[S("string-split")] = lambda s, c: plist(conc(s).split(c.c))
    g[S("string-index")] = lambda s, c: (lambda i: i if i >= 0 else False)(conc(s).find(c.c))
    g[S("string-trim")] = lambda s: conc(s).strip()
    g[S("string-upcase")] = lambda s: conc(s).upper()
    g[S("string-downcase")] = lambda s: conc(s).lower()
    g[S("string-substitute")] = lambda s, a, b: conc(s).replace(a, b)
    g[S("string->symbol")] = lambda s: S(conc(s))
    g[S("symbol->string")] = lambda s: s.name
    g[S("symbol-append")] = lambda *a: S("".join(x.name for x in a))
    g[S("keyword->string")] = lambda k: k.name
    g[S("keyword->symbol")] = lambda k: S(k.name)
    g[S("symbol->keyword")] = lambda k: Kw(k.name)

    @P("number->string")
    def n2s(n, base=10):
        if isinstance(n, Lin):
            return SStr([("num", n, base)])
        if isinstance(n, float):
            return str(n)
        if base == 10:
            return str(n)
        if base == 16:
            return "%x" % n if n >= 0 else "-%x" % -n
        if base == 8:
            return "%o" % n
        return bin(n)[2:]

    @P("string->number")
    def s2n(s, base=10):
        try:
            return int(conc(s), base)
        except ValueError:
            try:
                return float(s) if base == 10 else False
            except ValueError:
                return False
    g[S("char->integer")] = lambda c: ord(c.c) if isinstance(c, Char) else err("wrong-type-arg", "char->integer", c)
    g[S("integer->char")] = lambda n: Char(chr(n))
    g[S("char=?")] = lambda a, b: a == b
    g[S("char-alphabetic?")] = lambda c: c.c.isalpha()
    g[S("char-numeric?")] = lambda c: c.c.isdigit()

    def disp(x):
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, Char):
            return x.c
        if isinstance(x, Lin):
            return SStr([("num", x, 10)])
        return write(x)

    @P("display")
    def display(x, *port):
        if not port:
            I.out.append(disp(x))
        return UNSPEC

    @P("write")
    def write_(x, *port):
        if not port:
            I.out.append(write(x))
        return UNSPEC

    @P("newline")
    def newline(*port):
        if not port:
            I.out.append("\n")
        return UNSPEC

    @P("format")
    def fmt(dest, f, *args):
        if isinstance(dest, str):
            args = (f,) + args
            f = dest
            dest = False
        out = []
        args = list(args)
        i = 0
        while i < len(f):
            if f[i] == "~" and i + 1 < len(f):
                c = f[i + 1]
                i += 2
                if c in "aA":
                    out.append(disp(args.pop(0)))
                elif c in "sS":
                    out.append(write(args.pop(0)))
                elif c == "%":
                    out.append("\n")
                elif c == "~":
                    out.append("~")
                else:
                    raise AnalysisError("format ~%s" % c)
            else:
                out.append(f[i])
                i += 1
        if dest is False:
            return sstr(out)
        return UNSPEC
    g[S("simple-format")] = fmt
    g[S("current-error-port")] = lambda: Opq("stderr")
    g[S("current-output-port")] = lambda: Opq("stdout")
    g[S("getenv")] = lambda n: I.env_vars.get(n, False)

    @P("with-output-to-string")
    def wots(th):
        saved = I.out
        I.out = []
        try:
            I.apply(th, [])
            return sstr(I.out)
        finally:
            I.out = saved
    g[S("pretty-print-c99")] = lambda o: UNSPEC
    g[S("pretty-print")] = lambda o, *r: UNSPEC

    def err(*a):
        raise SchemeError(a)
    g[S("error")] = err
    g[S("throw")] = err
    g[S("exit")] = lambda *a: err("exit", *a)

    # bytevectors
    class BV:
        def __init__(self, n):
            self.n = n
            self.b = [0] * n
    g[S("make-bytevector")] = lambda n, *f: BV(n)

    def bvset(nbytes, signed=False):
        def h(bv, i, v, *e):
            if i < 0 or i + nbytes > bv.n:
                raise SchemeError(("out-of-range", i))
            if isinstance(v, Lin):
                lo, hi = path().range(v)
                bv.b[i:i + nbytes] = [path().mod(path().fdiv(v, 256 ** k), 256) for k in range(nbytes)]
                bv.sym = v
            else:
                bv.b[i:i + nbytes] = [(v >> (8 * k)) & 255 for k in range(nbytes)]
            return UNSPEC
        return h
    for n in (8, 16, 32, 64):
        for p in "us":
            g[S("bytevector-%s%d-set!" % (p, n))] = bvset(n // 8, p == "s")
            g[S("bytevector-%s%d-native-set!" % (p, n))] = bvset(n // 8, p == "s")
    g[S("bytevector->u8-list")] = lambda bv: plist(bv.b)
    g[S("bytevector-length")] = lambda bv: bv.n
    g[S("bytevector-u8-ref")] = lambda bv, i: bv.b[i]
    g[S("bytevector?")] = lambda x: isinstance(x, BV)

    # environment
    g[S("current-module")] = lambda: Opq("module")
    g[S("%compiler")] = "gnuc"
    g[S("%arch")] = "x86_64"
    g[S("%host-type")] = "x86_64-unknown-linux-gnu"
    g[S("stderr")] = Opq("stderr")
    g[S("else")] = True
    I.g.update(g)
