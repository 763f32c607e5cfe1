"""Abstract interpreter for the Scheme subset MesCC is written in.

Expressions are compiled to Python closures over an environment; values are
ordinary Scheme data, or abstract values of vt.absint (symbolic integers and
strings) or Opq (an unknown object).  Branching on an abstract condition goes
through Path and is enumerated by the driver."""
import sys, os
from . import absint
from .absint import Lin, SStr, sstr, is_int, AnalysisError, SchemeError
from .sexp import *

sys.setrecursionlimit(100000)


class Opq:
    def __init__(self, name, **kw):
        self.name = name
        self.kw = kw

    def __repr__(self):
        return "<%s>" % self.name


class Env:
    __slots__ = ("d", "up")

    def __init__(self, d, up):
        self.d = d
        self.up = up


class Closure:
    __slots__ = ("interp", "req", "opt", "rest", "keys", "body", "env", "name", "src")

    def __call__(self, *args):
        return self.interp.apply(self, list(args))

    def __repr__(self):
        return "#<procedure %s>" % self.name


class Tail:
    __slots__ = ("f", "args")

    def __init__(self, f, args):
        self.f = f
        self.args = args


class Macro:
    def __init__(self, fn, kind="proc"):
        self.fn = fn


class RecType:
    def __init__(self, name, fields):
        self.name = name
        self.fields = fields

    def __repr__(self):
        return self.name


class Rec:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t = t
        self.v = v

    def __repr__(self):
        return "#<%s %s>" % (self.t.name, " ".join("%s=%r" % (f, x) for f, x in zip(self.t.fields, self.v)))

    def __eq__(self, o):
        return self is o or (isinstance(o, Rec) and o.t is self.t and all(equal(a, b) for a, b in zip(self.v, o.v)))

    def __hash__(self):
        return hash(self.t.name)


class EofObj:
    pass


S = Sym
QUOTE, QQ, UNQ, UNQS = S("quote"), S("quasiquote"), S("unquote"), S("unquote-splicing")
ELSE, ARROW, DEFINE, BEGIN, UNDERSCORE = S("else"), S("=>"), S("define"), S("begin"), S("_")


def equal(a, b):
    if a is b:
        return True
    while isinstance(a, Pair) and isinstance(b, Pair):
        if not equal(a.car, b.car):
            return False
        a, b = a.cdr, b.cdr
        if a is b:
            return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Opq) or isinstance(b, Opq):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, Char, SStr, Lin, Rec, Vec)):
        return a == b
    return False


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Char) and isinstance(b, Char):
        return a == b
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a == b
    if isinstance(a, str) and isinstance(b, str) and a == "" == b:
        return True
    return False


class Interp:
    def __init__(self):
        self.g = {}
        self.macros = {}
        self.path = absint.Path([], {})
        self.out = []
        self.env_vars = {}
        self.loaded = {}
        self.depth = 0
        self.defs = {}       # name -> (file, line)
        self.overrides = {}
        from . import schemelib
        schemelib.install(self)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is False:
            return False
        if isinstance(v, Opq) and v.kw.get("bool"):
            return self.path.boolean(v.name)
        return True

    # ------------------------------------------------------------ apply
    def apply(self, f, args):
        while True:
            if isinstance(f, Closure):
                r = self.enter(f, args)
                if type(r) is Tail:
                    f, args = r.f, r.args
                    continue
                return r
            if callable(f):
                r = f(*args)
                if type(r) is Tail:
                    f, args = r.f, r.args
                    continue
                return r
            raise AnalysisError("apply of non-procedure %r" % (f,))

    def enter(self, f, args):
        d = {}
        n = len(f.req)
        if len(args) < n:
            raise SchemeError(("wrong-number-of-args", f.name, len(args)))
        for p, a in zip(f.req, args):
            d[p] = a
        rest = args[n:]
        env = Env(d, f.env)
        for p, init in f.opt:
            if rest and not (f.keys and isinstance(rest[0], Kw)):
                d[p] = rest[0]
                rest = rest[1:]
            else:
                d[p] = self.force(init(env)) if init else False
        if f.keys is not None:
            kv = {}
            i = 0
            while i + 1 < len(rest) + 0 and isinstance(rest[i], Kw):
                kv[rest[i].name] = rest[i + 1]
                i += 2
            for p, init in f.keys:
                if p.name in kv:
                    d[p] = kv[p.name]
                else:
                    d[p] = self.force(init(env)) if init else False
            if not f.rest:
                rest = rest[i:]
        if f.rest is not None:
            d[f.rest] = plist(rest)
        elif rest and f.keys is None:
            raise SchemeError(("wrong-number-of-args", f.name, len(args)))
        self.depth += 1
        if self.depth > 3000:
            self.depth = 0
            raise AnalysisError("recursion too deep in %s" % f.name)
        try:
            return f.body(env)
        finally:
            self.depth -= 1

    def force(self, r):
        if type(r) is Tail:
            return self.apply(r.f, r.args)
        return r

    # ------------------------------------------------------------ lookup
    def lookup_fn(self, s):
        g = self.g

        def look(env):
            e = env
            while e is not None:
                d = e.d
                if s in d:
                    return d[s]
                e = e.up
            try:
                return g[s]
            except KeyError:
                raise SchemeError(("unbound-variable", s.name))
        return look

    # ------------------------------------------------------------ compile
    def comp(self, x, scope, tail=False):
        """scope: set-chain of lexically bound symbols (tuple of sets), used to
        keep special forms from being shadowed."""
        if isinstance(x, Sym):
            return self.lookup_fn(x)
        if not isinstance(x, Pair):
            return lambda env: x
        h = x.car
        if isinstance(h, Sym) and not any(h in s for s in scope):
            sf = self.special.get(h.name)
            if sf:
                return sf(self, x, scope, tail)
            m = self.macros.get(h)
            if m:
                return self.comp(self.apply(m.fn, pl(x.cdr)) if not getattr(m, "raw", None) else m.raw(x), scope, tail)
        f = self.comp(h, scope)
        args = [self.comp(a, scope) for a in pl(x.cdr)]
        ap = self.apply
        force = self.force
        if tail:
            def call(env):
                return Tail(force(f(env)), [force(a(env)) for a in args])
        else:
            def call(env):
                return ap(force(f(env)), [force(a(env)) for a in args])
        return call

    def body(self, forms, scope, tail=True):
        """body with internal defines"""
        forms = list(forms)
        names = set()
        for f in forms:
            if isinstance(f, Pair) and isinstance(f.car, Sym) and f.car.name in ("define", "define*"):
                t = f.cdr.car
                while isinstance(t, Pair):
                    t = t.car
                names.add(t)
        sc = scope + (names,) if names else scope
        fs = []
        for i, f in enumerate(forms):
            if isinstance(f, Pair) and isinstance(f.car, Sym) and f.car.name in ("define", "define*"):
                name, fn = self.comp_define(f, sc)

                def dodef(env, name=name, fn=fn):
                    env.d[name] = self.force(fn(env))
                    return UNSPEC
                fs.append(dodef)
            else:
                fs.append(self.comp(f, sc, tail and i == len(forms) - 1))
        if names:
            def run(env):
                e = Env({}, env)
                r = UNSPEC
                for f in fs[:-1]:
                    self.force(f(e))
                return fs[-1](e) if fs else r
            return run
        if len(fs) == 1:
            return fs[0]
        if not fs:
            return lambda env: UNSPEC
        init, last = fs[:-1], fs[-1]

        def seq(env):
            for f in init:
                self.force(f(env))
            return last(env)
        return seq

    def comp_define(self, x, scope):
        t = x.cdr.car
        star = x.car.name == "define*"
        if isinstance(t, Pair):
            body = pl(x.cdr.cdr)
            # curried define
            while isinstance(t.car, Pair):
                body = [plist([S("lambda*" if star else "lambda"), t.cdr] + body)]
                t = t.car
            return t.car, self.comp_lambda(t.cdr, body, scope, t.car.name, star, x)
        if x.cdr.cdr is NIL:
            return t, (lambda env: UNSPEC)
        v = x.cdr.cdr.car
        if isinstance(v, Pair) and v.car in (S("lambda"), S("lambda*")):
            return t, self.comp_lambda(v.cdr.car, pl(v.cdr.cdr), scope, t.name, v.car.name == "lambda*", x)
        return t, self.comp(v, scope)

    def comp_lambda(self, params, body, scope, name="lambda", star=False, src=None):
        req, opt, keys, rest = [], [], None, None
        mode = "req"
        p = params
        names = set()
        pend = []
        while isinstance(p, Pair):
            q = p.car
            if isinstance(q, Kw):
                if q.name == "optional":
                    mode = "opt"
                elif q.name == "key":
                    mode = "key"
                    keys = []
                elif q.name == "rest":
                    mode = "rest"
                elif q.name == "allow-other-keys":
                    pass
                p = p.cdr
                continue
            if mode == "req":
                req.append(q)
                names.add(q)
            else:
                if isinstance(q, Pair):
                    nm, init = q.car, q.cdr.car
                else:
                    nm, init = q, None
                names.add(nm)
                pend.append((mode, nm, init))
            p = p.cdr
        if p is not NIL:
            rest = p
            names.add(p)
        sc = scope + (names,)
        for mode, nm, init in pend:
            fn = self.comp(init, sc) if init is not None else None
            if mode == "opt":
                opt.append((nm, fn))
            elif mode == "key":
                keys.append((nm, fn))
            else:
                rest = nm
        b = body
        if len(b) > 1 and isinstance(b[0], str):
            b = b[1:]
        code = self.body(b, sc, True)
        interp = self

        def make(env):
            c = Closure()
            c.interp = interp
            c.req, c.opt, c.rest, c.keys = req, opt, rest, keys
            c.body = code
            c.env = env
            c.name = name
            c.src = src
            return c
        return make

    # ------------------------------------------------------------ toplevel
    def eval_top(self, x):
        if isinstance(x, Pair) and isinstance(x.car, Sym):
            n = x.car.name
            if n in ("define", "define*"):
                name, fn = self.comp_define(x, ())
                if name in self.overrides:
                    return
                self.g[name] = self.force(fn(None))
                self.defs[name] = (x.file, x.line)
                return
            if n == "begin":
                for y in pl(x.cdr):
                    self.eval_top(y)
                return
            if n == "define-module" or n == "use-modules" or n == "mes-use-module":
                return
            if n == "define-macro":
                t = x.cdr.car
                if isinstance(t, Pair):
                    fn = self.comp_lambda(t.cdr, pl(x.cdr.cdr), (), t.car.name)(None)
                    self.macros[t.car] = Macro(fn)
                else:
                    self.macros[t] = Macro(self.force(self.comp(x.cdr.cdr.car, ())(None)))
                return
            if n in ("define-immutable-record-type", "define-record-type"):
                return self.define_record(x)
            if n == "define-syntax" or n == "define-syntax-rule":
                return self.define_syntax(x)
            if n == "cond-expand":
                for cl in pl(x.cdr):
                    if self.feature(cl.car):
                        for y in pl(cl.cdr):
                            self.eval_top(y)
                        return
                return
        return self.force(self.comp(x, ())(None))

    def feature(self, f):
        if isinstance(f, Sym):
            return f.name in ("guile", "guile-2", "guile-2.2", "else")
        h = f.car.name
        if h == "not":
            return not self.feature(f.cdr.car)
        if h == "or":
            return any(self.feature(y) for y in pl(f.cdr))
        if h == "and":
            return all(self.feature(y) for y in pl(f.cdr))
        return False

    def define_record(self, x):
        parts = pl(x.cdr)
        name, ctor, pred = parts[:3]
        fields = parts[3:]
        fnames = [f.car.name for f in fields]
        t = RecType(name.name, fnames)
        self.g[name] = t
        if isinstance(ctor, Pair):
            cargs = [a.name for a in pl(ctor.cdr)]

            def make(*args):
                if len(args) != len(cargs):
                    raise SchemeError(("wrong-number-of-args", ctor.car.name))
                kv = dict(zip(cargs, args))
                return Rec(t, [kv.get(f, False) for f in fnames])
            self.g[ctor.car] = make
            self.defs[ctor.car] = (x.file, x.line)
        self.g[pred] = lambda o: isinstance(o, Rec) and o.t is t
        self.defs[pred] = (x.file, x.line)
        for i, f in enumerate(fields):
            acc = pl(f)
            if len(acc) > 1:
                def get(o, i=i, acc=acc):
                    if not (isinstance(o, Rec) and o.t is t):
                        raise SchemeError(("wrong-type-arg", acc[1].name, o))
                    return o.v[i]
                get.field = (t, i)
                self.g[acc[1]] = get
                self.defs[acc[1]] = (x.file, x.line)
            if len(acc) > 2:
                def sset(o, v, i=i):
                    o.v[i] = v
                    return UNSPEC
                self.g[acc[2]] = sset

    def define_syntax(self, x):
        if x.car.name == "define-syntax-rule":
            pat = x.cdr.car
            self.macros[pat.car] = m = Macro(None)
            rules = [(pat, x.cdr.cdr.car)]
            lits = set()
        else:
            name = x.cdr.car
            tr = x.cdr.cdr.car
            if not (isinstance(tr, Pair) and tr.car is S("syntax-rules")):
                raise AnalysisError("define-syntax %s" % name)
            lits = set(pl(tr.cdr.car))
            rules = [(r.car, r.cdr.car) for r in pl(tr.cdr.cdr)]
            self.macros[name] = m = Macro(None)
        m.raw = lambda form: syntax_rules(form, lits, rules)

    def load(self, path, rel=None):
        for x in read_file(path, rel or path):
            self.eval_top(x)


# ---------------------------------------------------------------- syntax-rules (unhygienic)
ELL = S("...")


def sr_match(p, f, lits, b, top=False):
    if isinstance(p, Sym):
        if p in lits:
            return f is p
        if p is not UNDERSCORE:
            b[p] = f
        return True
    if isinstance(p, Pair):
        if isinstance(p.cdr, Pair) and p.cdr.car is ELL:
            after = p.cdr.cdr
            n_after = 0
            a = after
            while isinstance(a, Pair):
                n_after += 1
                a = a.cdr
            items = []
            g = f
            while isinstance(g, Pair):
                items.append(g.car)
                g = g.cdr
            k = len(items) - n_after
            if k < 0:
                return False
            bs = []
            for it in items[:k]:
                bb = {}
                if not sr_match(p.car, it, lits, bb):
                    return False
                bs.append(bb)
            for v in sr_vars(p.car, lits):
                b[v] = ("...", [bb[v] for bb in bs])
            for _ in range(k):
                f = f.cdr
            return sr_match(after, f, lits, b)
        return isinstance(f, Pair) and sr_match(p.car, f.car, lits, b) and sr_match(p.cdr, f.cdr, lits, b)
    if p is NIL:
        return f is NIL
    return equal(p, f)


def sr_vars(p, lits):
    if isinstance(p, Sym):
        return [] if p in lits or p is ELL or p is UNDERSCORE else [p]
    if isinstance(p, Pair):
        return sr_vars(p.car, lits) + sr_vars(p.cdr, lits)
    return []


def sr_expand(t, b):
    if isinstance(t, Sym):
        return b.get(t, t)
    if isinstance(t, Pair):
        if isinstance(t.cdr, Pair) and t.cdr.car is ELL:
            vs = [v for v in sr_vars(t.car, ()) if isinstance(b.get(v), tuple) and b[v][0] == "..."]
            n = max([len(b[v][1]) for v in vs] or [0])
            out = []
            for i in range(n):
                bb = dict(b)
                for v in vs:
                    bb[v] = b[v][1][i]
                out.append(sr_expand(t.car, bb))
            return plist(out, sr_expand(t.cdr.cdr, b))
        return Pair(sr_expand(t.car, b), sr_expand(t.cdr, b), t.line, t.file)
    return t


def syntax_rules(form, lits, rules):
    for pat, tmpl in rules:
        b = {}
        if sr_match(pat.cdr, form.cdr, lits, b):
            return sr_expand(tmpl, b)
    raise AnalysisError("no syntax rule matches %s" % write(form)[:80])
