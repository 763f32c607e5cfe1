"""Built-in procedures applied to operands of a given type, under vt.cx."""
from . import bv, cx, mesc, report
from .bv import T

SILENT = {"eputs", "oputs", "fdputs", "eputc", "fdputc", "write_error_", "display_error_", "display_", "write_", "display_port_",
          "write_port_", "puts"}
PURE = {"itoa", "ltoa", "utoa", "ntoab"}
# allocate and look up; what they do with their own operands is decided where they are the subject
FRESH = {"cstring_to_symbol", "make_string0", "make_string", "cons", "acons", "make_number", "make_char", "make_cell", "make_pointer_cell", "make_value_cell",
         "make_ref", "assoc", "assq", "make_string_port"}


class Prims:
    def __init__(self, arch="x86_64"):
        from checks import G05
        self.m = mesc.Mes(arch)
        self.reg = {}
        for n, ar, fn, line in G05.registry(self.m, None)[0]:
            self.reg[n] = (ar, fn, line)
        self.n = 0

    def engine(self, **kw):
        m = self.m
        M = m.M
        models = {}
        for s in SILENT:
            if s in M.funcs or True:
                models[s] = silent
        for s in PURE | FRESH:
            models[s] = lambda E, st, f, i, av: [cx.Out("ret", st, E.ret(st, i, "text"))]
        models["cast_charp_to_long"] = models["cast_voidp_to_long"] = models["cast_scmp_to_long"] = ident
        models["cast_voidp_to_charp"] = models["cast_long_to_charp"] = ident
        models["abort"] = models["exit"] = stop
        models["__assert_fail"] = stop
        models.update(kw.pop("models", {}))
        E = m.engine(models=models, **kw)
        return E

    def operand(self, st, name, typ):
        """a cell of the given type (tag name), or of unknown type when typ is None; "nil" is the empty list"""
        m = self.m
        if typ == "nil":
            return bv.var("^cell_nil", m.W)
        if typ is not None and typ.startswith("L:"):      # a list of elements of these types
            return self.list(st, [self.operand(st, name + "efgh"[k], t) for k, t in enumerate(typ[2:].split(","))], pre=name + "l")
        if typ is not None:
            st.mem[name] = {T(m.W, m.O[0]): (m.P, T(m.W, m.tags[typ]))}
        return bv.var(name, m.W)

    def list(self, st, items, pre="&l"):
        m = self.m
        for k in range(len(items)):
            st.mem["%s%d" % (pre, k)] = {
                T(m.W, m.O[0]): (m.P, T(m.W, m.tags["TPAIR"])),
                T(m.W, m.O[1]): (m.P, items[k]),
                T(m.W, m.O[2]): (m.P, bv.var("%s%d" % (pre, k + 1), m.W) if k + 1 < len(items) else bv.var("^cell_nil", m.W))}
        return bv.var("%s0" % pre, m.W) if items else bv.var("^cell_nil", m.W)

    def args(self, st, name, types, pre="&x"):
        """argument terms of the function of a built-in, the operands having the given types"""
        ar, fn, line = self.reg[name]
        ops = [self.operand(st, "%s%d" % (pre, k), t) for k, t in enumerate(types)]
        if ar == -1:
            return [self.list(st, ops)]
        return ops

    def run(self, E, name, types, st=None):
        st = st or cx.State()
        ar, fn, line = self.reg[name]
        return E.run(fn, self.args(st, name, types), st)


def silent(E, st, f, i, av):
    return [cx.Out("ret", st, E.ret(st, i, "io"))]


def ident(E, st, f, i, av):
    return [cx.Out("ret", st, av[0])]


def stop(E, st, f, i, av):
    return [cx.Out("exit", st)]
