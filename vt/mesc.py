"""The interpreter (src/*.c) under vt.cx: cell layout, type tags, special objects,
error model."""
import os, re, subprocess
from . import bv, cx, ll, report
from .bv import T


def first(E, st, f, i, av):
    return [cx.Out("ret", st, av[0])]


class Engine(cx.Engine):
    """addresses in one object compare as their offsets: no object wraps round the address space"""

    def icmp(self, st, pred, a, b):
        if pred[0] == "u" and a.w == self.W:
            for t, k in a.t:
                if k == 1 and t[0] == "v" and (self.named(t[1]) or t[1] in self.ptratoms) and (t, 1) in b.t:
                    base = T(self.W, 0, ((t, 1),))
                    return cx.Engine.icmp(self, st, "s" + pred[1:], bv.sub(a, base), bv.sub(b, base))
        return cx.Engine.icmp(self, st, pred, a, b)


class Mes:
    def __init__(self, arch="x86_64"):
        self.arch = arch
        self.M = ll.interpreter(arch)
        self.W = self.M.ptr * 8
        self.P = self.M.ptr
        if "struct.scm" not in self.M.types:
            raise report.Broken("struct scm not found in the compiled interpreter")
        self.CELL = self.M.size(("named", "struct.scm"))
        self.O = [self.M.field(("named", "struct.scm"), i)[0] for i in range(3)]
        self.tags = constants(arch)
        self.byname = {v: k for k, v in self.tags.items()}
        need = ["assert_msg_decl"]
        self.specials()

    def engine(self, opaque=(), models=None, fixed=True, **kw):
        # print a part of an object and return the object, wherever it is now
        m = {"assert_msg": assert_msg, "error": error, "fdisplay_part": first, "display_part": first}
        m.update(models or {})
        E = Engine(self.M, models=m, opaque=opaque, **kw)
        E.mes = self
        E.cell = self.CELL
        E.separate = separate
        if fixed:
            for g in self.special:
                n = "^" + g
                E.fixed["@" + g] = bv.var(n, self.W)
                E.ptratoms.add(n)
            E.init_hook = self.hook
        return E

    def hook(self, E, st, base, off, n, ty):
        if base is not None and base[0] == "^" and not off.t and off.c == 0 and n == self.P:
            s = self.special.get(base[1:])
            if s:
                return T(self.W, s[0])
        return None

    def addr(self, base, field, off=0):
        return bv.add(bv.var(base, self.W), T(self.W, self.O[field] + off))

    def specials(self):
        """special objects and keyword symbols: what init_symbols_ creates, by abstract evaluation"""
        M = self.M
        self.special = {}
        self.special_order = []
        if "init_symbols_" not in M.funcs or "init_symbol" not in M.funcs:
            raise report.Broken("init_symbols_/init_symbol not found")
        rec = []

        def isym(E, st, f, i, av):
            # address term, type, name
            nm = cstring(M, av[2])
            rec.append((av[0], av[1].c if av[1].isconst() else None, nm))
            return None           # evaluate the body too

        E = cx.Engine(M, models={"init_symbol": isym, "strlen": strlen(M)}, opaque={"make_string", "hash_set_x"}, max_paths=50)
        st = cx.State()
        # first pass of init_symbols: the symbol table does not exist yet
        st.mem["@g_symbols"] = {T(self.W, 0): (self.P, T(self.W, 0))}
        try:
            outs = E.run("init_symbols_", [], st)
        except cx.Limit as e:
            raise report.Broken("init_symbols_: %s" % e)
        outs = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1:
            raise report.Broken("init_symbols_ has %d paths" % len(outs))
        s = outs[0].state
        self.sym_records = rec
        self.sym_final = s
        byaddr = {}
        for a, t, n in rec:
            byaddr.setdefault(a, []).append((t, n))
        for g in M.globals:
            if g.startswith("cell_"):
                e = s.mem.get("@" + g, {}).get(T(self.W, 0))
                if e is not None and e[1] in byaddr:
                    t, n = byaddr[e[1]][-1]
                    self.special[g] = (t, n, e[1])
        self.sym_dups = {a: l for a, l in byaddr.items() if len(l) > 1}
        if len(self.special) < 100:
            raise report.Broken("only %d special objects found" % len(self.special))

    def typename(self, t):
        return self.byname.get(t, str(t))


def cstring(M, t):
    """constant string a term points at"""
    if len(t.t) == 1 and t.t[0][1] == 1 and t.t[0][0][0] == "v" and t.t[0][0][1][0] == "@":
        g = M.globals.get(t.t[0][0][1][1:])
        if g and g[1] is not None and g[1][0] == "str":
            b = g[1][1][t.c:]
            return b.split(b"\0")[0].decode("latin1")
        if g and g[1] is not None and g[1][0] == "zero":
            return ""
    return None


def strlen(M):
    def f(E, st, fn, i, av):
        s = cstring(M, av[0])
        if s is None:
            return None
        return [cx.Out("ret", st, T(E.tw(i.ty), len(s)))]
    return f


def assert_msg(E, st, f, i, av):
    c = E.icmp(st, "ne", av[0], T(av[0].w, 0))
    d = st.decide(c)
    if d is True:
        return [cx.Out("ret", st, None)]
    msg = cstring(E.M, av[1])
    if d is False:
        st.events.append(cx.Event("fail", "assert_msg", av, i, f.name, extra=msg))
        return [cx.Out("assert", st, info=msg)]
    s2 = st.clone()
    s2.assume(c, False)
    s2.events.append(cx.Event("fail", "assert_msg", av, i, f.name, extra=msg))
    st.assume(c, True)
    return [cx.Out("ret", st, None), cx.Out("assert", s2, info=msg)]


def error(E, st, f, i, av):
    """error () raises: it does not return to its caller (throw, or exit)"""
    k = av[0].t[0][0][1] if len(av[0].t) == 1 and av[0].t[0][0][0] == "v" else repr(av[0])
    st.events.append(cx.Event("fail", "error", av, i, f.name, extra=k))
    return [cx.Out("error", st, info=k)]


def separate(st, a, b):
    """objects being allocated do not overlap those that exist"""
    return a.startswith("[@g_free") != b.startswith("[@g_free")


_c = {}


def constants(arch="x86_64"):
    if arch in _c:
        return _c[arch]
    src = '#include "mes/constants.h"\n'
    r = subprocess.run(["clang", "-E", "-dM", "-x", "c", "-nostdinc"] + ll.flags(arch) + ["-"], input=src, capture_output=True, text=True)
    if r.returncode:
        raise report.Broken("include/mes/constants.h: " + r.stderr[-300:])
    d = {}
    for l in r.stdout.split("\n"):
        m = re.match(r"#define (T[A-Z_]+) (\d+)$", l)
        if m:
            d[m.group(1)] = int(m.group(2))
    if len(d) < 15:
        raise report.Broken("only %d type tags in constants.h" % len(d))
    _c[arch] = d
    return d
