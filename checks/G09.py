"""G09: type predicates are exact and disjoint."""
import os
from vt import bv, cx, prim, report, sexp
from vt.bv import T
from vt.sexp import Sym, Pair

FILE = "mes/module/mes/type-0.mes"
# predicate -> the kinds of object it answers true for; a kind is a type tag, optionally with a marked component
SPEC = {
    "bytes?": {"TBYTES"}, "char?": {"TCHAR"}, "eof-object?": {"TCHAR eof"}, "closure?": {"TCLOSURE"}, "continuation?": {"TCONTINUATION"},
    "keyword?": {"TKEYWORD"}, "macro?": {"TMACRO"}, "number?": {"TNUMBER"}, "port?": {"TPORT"},
    "special?": {"TSPECIAL", "TSPECIAL nil", "TSPECIAL t", "TSPECIAL f"}, "string?": {"TSTRING"}, "struct?": {"TSTRUCT", "TSTRUCT short", "TSTRUCT builtin"},
    "symbol?": {"TSYMBOL"}, "values?": {"TVALUES"}, "variable?": {"TVARIABLE"}, "vector?": {"TVECTOR"}, "broken-heart?": {"TBROKEN_HEART"},
    "pair?": {"TPAIR", "TPAIR lambda"}, "null?": {"TSPECIAL nil"}, "builtin?": {"TSTRUCT builtin"}, "boolean?": {"TSPECIAL t", "TSPECIAL f"},
    "procedure?": {"TSTRUCT builtin", "TPAIR lambda", "TCLOSURE"}, "atom?": None,
}

# further special objects and symbols the interpreter knows by address
OTHERS = ["undefined", "unspecified", "dot", "closure", "circular", "vm_apply"]
NAMED = ["symbol_lambda", "symbol_builtin", "symbol_call_with_current_continuation", "symbol_begin"]
SPEC["special?"] |= {"TSPECIAL " + x for x in OTHERS}
SPEC["symbol?"] |= {"TSYMBOL " + x for x in NAMED}


def check(out):
    p = prim.Prims()
    m = p.m
    for x in OTHERS + NAMED:
        if "cell_" + x not in m.special:
            raise report.Broken("cell_%s is not found" % x)
    kinds = sorted(t for t in m.tags if t != "TREF") + ["TCHAR eof", "TSPECIAL nil", "TSPECIAL t", "TSPECIAL f", "TSTRUCT short", "TSTRUCT builtin", "TPAIR lambda"]
    kinds += ["TSPECIAL " + x for x in OTHERS] + ["TSYMBOL " + x for x in NAMED]
    out.cov["explanation"] = (
        "Every type predicate is evaluated abstractly on an object of every kind (%d kinds: all type tags, and the marked sub-kinds). Predicates written in C are "
        "evaluated over the compiled source; those of %s over their definitions, with core:type, char->integer, eq?, >, = and car evaluated in turn over the C source "
        "and <cell:X> being the numbers bound at start-up (G12). On every path the answer must be exactly true for the kinds of the predicate and false for all others." % (len(kinds), FILE))
    defs = {}
    path = os.path.join(report.REPO, FILE)
    if not os.path.exists(path):
        raise report.Broken(FILE + " not found")
    for x in sexp.read_file(path):
        if isinstance(x, Pair) and x.car is Sym("define") and isinstance(x.cdr.car, Pair):
            defs[x.cdr.car.car.name] = (x.cdr.car.cdr, x.cdr.cdr)
    ev = Eval(p, defs)
    for name, yes in SPEC.items():
        if name not in p.reg and name not in defs:
            raise report.Broken("predicate %s is defined neither in C nor in %s" % (name, FILE))
        if yes is None:
            yes = set(kinds) - SPEC["pair?"]
        out.count("predicates")
        for k in kinds:
            out.count("answers decided")
            r = ev.answers(name, k)
            want = {"t" if k in yes else "f"}
            if r != want:
                out.violation("%s %s" % (name, k), "(%s x) can answer %s for an object of kind %s; it must answer %s" % (
                    name, ", ".join(sorted(r)) or "nothing", k, "#t" if k in yes else "#f"))
    new = [n for n in defs if n.endswith("?") and n not in SPEC and n not in ("variable-global?",)]
    out.cov["other predicates of the file"] = sorted(new)
    out.need("predicates", 23)
    out.need("answers decided", 500)


class Unknown(Exception):
    pass


class Eval:
    """answers of a predicate: subset of {"t", "f", anything else by name}"""

    def __init__(self, p, defs):
        self.p, self.defs = p, defs

    def object(self, st, kind):
        m, W = self.p.m, self.p.m.W
        P = m.P
        if kind.startswith(("TSPECIAL ", "TSYMBOL ")):
            return bv.var("^cell_" + kind.split()[1], W)
        tag, _, sub = kind.partition(" ")
        o = {T(W, m.O[0]): (P, T(W, m.tags[tag]))}
        v = bv.var("[&x+%d]" % m.O[2], W)
        if tag == "TCHAR":
            if sub:
                v = T(W, -1)
            else:
                st.ranges[v.t[0][0]] = (0, 255)
        if tag == "TSTRUCT":
            n = 2 if sub == "short" else 5
            o[T(W, m.O[1])] = (P, T(W, n))
            v = bv.var("&slots", W)
            st.mem["&slots"] = {}
            for k in range(n):
                x = "^cell_symbol_builtin" if k == 2 and sub == "builtin" else "^cell_symbol_hashq_table" if k == 2 else "^cell_symbol_record_type"
                st.mem["&slots"][T(W, k * m.CELL + m.O[0])] = (P, T(W, m.tags["TREF"]))
                for f in (1,):
                    st.mem["&slots"][T(W, k * m.CELL + m.O[f])] = (P, bv.var(x, W))
                st.mem["&slots"][T(W, k * m.CELL + m.O[2])] = (P, T(W, 0))
        if tag == "TPAIR":
            c = "^cell_symbol_lambda" if sub else "^cell_symbol_begin"
            o[T(W, m.O[1])] = (P, bv.var(c, W))
        o[T(W, m.O[2])] = (P, v)
        st.mem["&x"] = o
        return bv.var("&x", W)

    def answers(self, name, kind):
        st = cx.State()
        x = self.object(st, kind)
        r = set()
        for kd, v, s in self.call(name, [x], st, 0):
            if kd != "ret":
                r.add("an error")
            elif v == bv.var("^cell_t", v.w):
                r.add("t")
            elif v == bv.var("^cell_f", v.w):
                r.add("f")
            else:
                r.add("another object")
        return r

    def call(self, name, args, st, depth):
        if depth > 20:
            raise report.Broken("predicate %s recurses" % name)
        if name in self.defs:
            formals, body = self.defs[name]
            env = {}
            f = formals
            for a in args:
                if not isinstance(f, Pair):
                    raise report.Broken("%s is called with %d arguments" % (name, len(args)))
                env[f.car.name] = a
                f = f.cdr
            r = [("ret", None, st)]
            for e in seq(body):
                r = [y for k, v, s in r for y in (self.ev(e, env, s, depth) if k == "ret" else [(k, v, s)])]
            return r
        if name not in self.p.reg:
            raise report.Broken("%s is neither a built-in nor defined in %s" % (name, FILE))
        ar, fn, line = self.p.reg[name]

        def number(E, st, f, i, av):
            v = bv.var("&num%d" % E.tick(st), self.p.m.W)
            m = self.p.m
            st.mem[v.t[0][0][1]] = {T(m.W, m.O[0]): (m.P, T(m.W, m.tags["TNUMBER"])), T(m.W, m.O[2]): (m.P, av[0])}
            return [cx.Out("ret", st, v)]
        E = self.p.engine(models={"make_number": number})
        E.peel = len(args) + 2
        st = st.clone()
        E.M                                           # the C source
        if ar == -1:
            args = [self.p.list(st, args, pre="&arg%d_" % E.tick(st))]
        try:
            outs = E.run(fn, args, st)
        except cx.Limit as e:
            raise report.Broken("%s: %s" % (name, e))
        return [(o.kind, o.val, o.state) for o in outs]

    def truthy(self, v, st):
        """Scheme truth: everything but #f"""
        f = bv.var("^cell_f", v.w)
        if v == f:
            return False
        if len(v.t) == 1 and v.t[0][0][0] == "v" and v.t[0][0][1][0] in "&^":
            return True
        raise report.Broken("truth of %s not known" % v)

    def ev(self, e, env, st, depth):
        m, W = self.p.m, self.p.m.W
        if isinstance(e, Sym):
            if e.name in env:
                return [("ret", env[e.name], st)]
            if e.name.startswith("<cell:"):
                tag = "T" + e.name[6:-1].upper().replace("-", "_")
                if tag not in m.tags:
                    raise report.Broken("%s names no type tag" % e.name)
                st = st.clone()
                n = "&tag" + tag
                st.mem[n] = {T(W, m.O[0]): (m.P, T(W, m.tags["TNUMBER"])), T(W, m.O[2]): (m.P, T(W, m.tags[tag]))}
                return [("ret", bv.var(n, W), st)]
            raise report.Broken("variable %s in a predicate" % e.name)
        if e is True or e is False:
            return [("ret", bv.var("^cell_t" if e else "^cell_f", W), st)]
        if isinstance(e, int):
            st = st.clone()
            n = "&const%d" % e
            st.mem[n] = {T(W, m.O[0]): (m.P, T(W, m.tags["TNUMBER"])), T(W, m.O[2]): (m.P, T(W, e))}
            return [("ret", bv.var(n, W), st)]
        if not isinstance(e, Pair):
            raise report.Broken("expression %s in a predicate" % sexp.write(e))
        op = e.car
        args = seq(e.cdr)
        n = op.name if isinstance(op, Sym) else None
        if n == "quote":
            x = args[0]
            for g, (t, nm, _) in m.special.items():
                if isinstance(x, Sym) and nm == x.name:
                    return [("ret", bv.var("^" + g, W), st)]
            raise report.Broken("quoted %s in a predicate" % sexp.write(x))
        if n in ("and", "or"):
            if not args:
                return [("ret", bv.var("^cell_t" if n == "and" else "^cell_f", W), st)]
            res, cur = [], [st]
            for i, a in enumerate(args):
                nxt = []
                for s in cur:
                    for k, v, s2 in self.ev(a, env, s, depth):
                        if k != "ret" or i == len(args) - 1 or self.truthy(v, s2) == (n == "or"):
                            res.append((k, v, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res
        if n == "if":
            res = []
            for k, v, s in self.ev(args[0], env, st, depth):
                if k != "ret":
                    res.append((k, v, s))
                elif self.truthy(v, s):
                    res += self.ev(args[1], env, s, depth)
                else:
                    res += self.ev(args[2], env, s, depth) if len(args) > 2 else [("ret", bv.var("^cell_unspecified", W), s)]
            return res
        if n == "cond":
            if not args:
                return [("ret", bv.var("^cell_unspecified", W), st)]
            cl = seq(args[0])
            if cl[0] is Sym("else"):
                return self.ev(cl[-1], env, st, depth)
            res = []
            for k, v, s in self.ev(cl[0], env, st, depth):
                if k != "ret":
                    res.append((k, v, s))
                elif self.truthy(v, s):
                    res += self.ev(cl[-1], env, s, depth) if len(cl) > 1 else [(k, v, s)]
                else:
                    res += self.ev(Pair(Sym("cond"), e.cdr.cdr), env, s, depth)
            return res
        if n == "not":
            return [(k, v if k != "ret" else bv.var("^cell_f" if self.truthy(v, s) else "^cell_t", W), s) for k, v, s in self.ev(args[0], env, st, depth)]
        if n is None:
            raise report.Broken("application %s in a predicate" % sexp.write(e))
        res, cur = [], [([], st)]
        for a in args:
            nxt = []
            for vs, s in cur:
                for k, v, s2 in self.ev(a, env, s, depth):
                    if k == "ret":
                        nxt.append((vs + [v], s2))
                    else:
                        res.append((k, v, s2))
            cur = nxt
        for vs, s in cur:
            res += self.call(n, vs, s, depth + 1)
        return res


def seq(x):
    r = []
    while isinstance(x, Pair):
        r.append(x.car)
        x = x.cdr
    return r
