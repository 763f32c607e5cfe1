"""L09: no path uses a local variable before it is set, or ends a value-returning function without a value."""
import re
from vt import abi, fin, lib, ll, report

U = fin.UNSET


MARK = {8: -115, 16: -29555, 32: -1920103027, 64: -8246779703540740723}
PAT = re.compile(r"^  (%[\w.\"-]+) = alloca (i8|i16|i32|i64|ptr), align \d+", re.M)


def mark(arch):
    """every scalar local starts with a recognisable constant, so that promotion to registers cannot fold 'not set' away"""
    W = 64 if arch == "x86_64" else 32

    def put(m):
        t = m.group(2)
        v = "inttoptr (i%d %d to ptr)" % (W, MARK[W]) if t == "ptr" else str(MARK[int(t[1:])])
        return "%s\n  store %s %s, ptr %s" % (m.group(0), t, v, m.group(1))
    return lambda s: PAT.sub(put, s)


def check(out):
    out.cov["explanation"] = (
        "Every function of the C library and the interpreter is explored to a fixpoint over a finite abstract domain in which a local variable starts as 'not set' (structures and arrays byte by byte); values that can be told apart "
        "(null, small constants, conditions already taken) keep infeasible combinations of paths out. Reaching a branch, a return, a call argument, an address or a store to shared memory with a value that is not set is reported.")
    for arch in ("x86_64", "x86", "arm"):
        for src, M in sorted(lib.modules(arch, passes="mem2reg", edit=mark(arch)).items()):
            module(out, arch, M)
        if arch != "arm" or out.thorough:
            module(out, arch, ll.compile_c(["src/%s.c" % x for x in ll.INTERP], arch, passes="mem2reg", edit=mark(arch)))
    out.need("functions", 1200)
    out.need("states", 20000)


def module(out, arch, M):
    for name in sorted(M.funcs):
        f = M.funcs[name]
        if not f.blocks:
            continue
        out.count("functions")
        E = Undef(M, out, arch, lim=4, limit=8000)
        try:
            E.call(name, [None] * len(f.params))
        except fin.Limit:
            out.count("large functions explored without arithmetic")
            E = Undef(M, out, arch, lim=4, limit=60000)
            E.coarse = True
            try:
                E.call(name, [None] * len(f.params))
            except fin.Limit as e:
                raise report.Broken(str(e))
        out.count("states", E.steps)


class Undef(fin.Fin):
    coarse = False

    def __init__(self, M, out, arch, **kw):
        super().__init__(M, depth=1, models={"_sys_call1": self.sys1, "longjmp": self.stop, "_longjmp": self.stop, "__exit": self.stop, "assert_msg": self.check}, **kw)
        self.out, self.arch = out, arch

    def isset(self, f, i, what, v):
        if v != U:
            return v
        self.out.violation("%s %s" % (f.name, what), "%s:%s: %s %s that no assignment on the way has set (%s)" % (f.file, i.line, f.name, what, self.arch))
        return None

    def fresh(self, mem, region, i):
        if self.coarse and isinstance(self.M.resolve(i.ty), tuple) and self.M.resolve(i.ty)[0] == "arr":
            self.blind.add(region)
            self.windows[region] = 0
            return
        mem[region, 0, self.M.size(i.ty) * (i.a[0][1] if i.a and isinstance(i.a[0], tuple) and i.a[0][0] == "int" else 1)] = U

    # values
    def value(self, env, ty, v):
        if v[0] == "undef" or v[0] == "int" and v[1] == MARK.get(self.width(ty)):
            return U
        return super().value(env, ty, v)

    def gep(self, ty, base, idx):
        if base == U or any(x == U for _, x in idx if not isinstance(x, int)):
            return U
        return super().gep(ty, base, idx)

    def arith(self, op, w, a, b, lit):
        if U in (a, b):
            return U
        if self.coarse:
            return None
        return super().arith(op, w, a, b, lit)

    def cmp(self, p, a, b):
        if U in (a, b):
            return U
        return super().cmp(p, a, b)

    def stop(self, E, f, i, av, mem, es):
        return []

    def check(self, E, f, i, av, mem, es):
        return [] if av[0] is not None and av[0][0] == "c" and av[0][2] == 0 else None

    def sys1(self, E, f, i, av, mem, es):
        if av[0] is not None and av[0][0] == "c" and abi.name(self.arch, av[0][2]) in ("exit", "exit_group"):
            return []
        return [(None, mem, es)]

    # memory: ranges that are not set are kept as (region, off, n) -> U
    def load(self, mem, p, n, ty):
        if p is not None and p[0] == "p" and p[2] is not None and p[1][0] == "&":
            for (r, o, m), v in mem.items():
                if r == p[1] and v == U and o <= p[2] and p[2] + n <= o + m:
                    return U
        return super().load(mem, p, n, ty)

    def store(self, mem, p, n, v, esc):
        if p is not None and p[0] == "p" and p[2] is not None:
            for (r, o, m), x in list(mem.items()):
                if r == p[1] and x == U and o < p[2] + n and p[2] < o + m:
                    del mem[r, o, m]
                    if o < p[2]:
                        mem[r, o, p[2] - o] = U
                    if p[2] + n < o + m:
                        mem[r, p[2] + n, o + m - p[2] - n] = U
        if self.coarse and v != U and (p is None or p[0] != "p" or p[1][0] != "&" or p[1] in esc):
            v = None
        super().store(mem, p, n, v, esc)
