"""L16: qsort sorts."""
from vt import bv, cx, lib, objs, report, vset
from vt.bv import T



def check(out):
    out.cov["explanation"] = (
        "qsort is evaluated abstractly on arrays of unknown elements with a comparison function of which only what a comparison function guarantees is known: every outcome consistent with the earlier ones is followed. "
        "At the end of every path the array must hold each element once, unbroken, and the comparisons made must imply that each element is not greater than the next; every access and every comparison must lie in the array. "
        "So the paths cover every order, with every pattern of equal elements, of that many elements.")
    for arch in lib.ARCH:
        Sort(out, arch, lib.linked(arch, ["lib/stdlib/qsort.c"] + [s for s in lib.sources(arch) if s.startswith("lib/string/mem")])).decide()
    out.need("arrays", 48)
    out.need("orders", 3900)


class Sort:
    def __init__(self, out, arch, M):
        self.out, self.arch, self.M, self.W = out, arch, M, 8 * M.ptr
        if "qsort" not in M.funcs or not M.funcs["qsort"].blocks:
            raise report.Broken("qsort is not defined")

    def decide(self):
        for n, z in ((0, 4), (1, 4), (2, 1), (2, 8), (2, 24), (2, 40), (2, 132), (3, 1), (3, 3), (3, 20), (4, 4), (5, 1)):
            for m in (1, 256):
                if self.one(n, z, m):
                    return

    def bad(self, what, msg):
        self.out.violation(what, "%s: %s (%s)" % (self.M.funcs["qsort"].file or "lib/stdlib/qsort.c", msg, self.arch))
        return True

    def element(self, E, st, addr, n, z):
        """which element is at addr: its number, or a message"""
        base, off = E.split(addr)
        if base != "&a" or off.t or not 0 <= off.c < n * z or off.c % z:
            return "compares something that is not an element (offset %s)" % (off.c if base == "&a" and not off.t else repr(addr))
        r = set()
        for j in range(z):
            t = st.mem.get("&a", {}).get(T(self.W, off.c + j))
            if t is None or t[0] != 1 or t[1].c or len(t[1].t) != 1 or t[1].t[0][0][0] != "v":
                return "compares an element that is not one of the array's"
            k, p = t[1].t[0][0][1][1:].split(".")
            if int(p) != j:
                return "compares a broken element"
            r.add(int(k))
        return r.pop() if len(r) == 1 else "compares a broken element"

    def one(self, n, z, m):
        M = m
        W = self.W
        self.out.count("arrays")
        st = cx.State()
        reg = st.mem.setdefault("&a", {})
        for k in range(n):
            for j in range(z):
                reg[T(W, k * z + j)] = (1, bv.var("e%d.%d" % (k, j), 8))
        wrong = []

        def compare(E, st, f, i, av):
            x, y = (self.element(E, st, a, n, z) for a in av[:2])
            for e in (x, y):
                if isinstance(e, str):
                    wrong.append("%s:%s: %s %s" % (f.file, i.line, f.name, e))
                    raise Wrong()
            w = E.tw(i.ty)
            o = st.x.get("order", frozenset())
            k = known(o, x, y)
            r = []
            for v in ((k,) if k is not None else (-1, 0, 1)):
                s = st.clone()
                s.x = dict(st.x, order=close(o | {(x, y, v)}) if k is None else o)
                r.append(cx.Out("ret", s, T(w, v * M)))
            return r
        E = Engine(self.M, models={"compare": compare, "*": self.indirect}, inline_depth=4 * n + 12, max_paths=200000)
        E.peel = n * z + 8

        def deref(E, st, fn, i, addr, m, store):
            base, off = E.split(addr)
            if base is not None and base[:1] == "&" and "#" in base:
                return
            if base != "&a" or off.t or not 0 <= vset.sgn(off.c, W) <= n * z - m:
                wrong.append("%s:%s: %s %s offset %r, outside the array" % (fn.file, i.line, fn.name, "writes" if store else "reads", off if off.t else vset.sgn(off.c, W)))
                raise Wrong()
        E.on_deref = deref
        what = "%d elements of %d bytes" % (n, z)
        try:
            outs = E.run("qsort", [bv.var("&a", W), T(W, n), T(W, z), E.gaddr("compare")], st)
        except cx.Limit as e:
            raise report.Broken("qsort of %s: %s" % (what, e))
        except Wrong:
            return self.bad("access", "%s, with %s" % (wrong[0], what))
        if not outs:
            return self.bad("none", "qsort of %s does not return" % what)
        for o in outs:
            self.out.count("orders")
            if o.kind != "ret":
                return self.bad("stop", "qsort of %s stops (%s)" % (what, o.kind))
            order = o.state.x.get("order", frozenset())
            l = [self.element(E, o.state, bv.add(bv.var("&a", W), T(W, k * z)), n, z) for k in range(n)]
            how = ", ".join("e%d %s e%d" % (x, {-1: "<", 0: "=", 1: ">"}[v], y) for x, y, v in sorted(order) if x < y)
            if any(isinstance(x, str) for x in l) or sorted(l) != list(range(n)):
                return self.bad("permutation", "qsort of %s leaves %s, not each element once, when %s" % (what, l, how))
            for x, y in zip(l, l[1:]):
                if known(order, x, y) not in (-1, 0):
                    return self.bad("order", "qsort of %s leaves the order %s when %s" % (what, " ".join("e%d" % x for x in l), how))

    def indirect(self, E, st, f, i, av):
        raise report.Broken("qsort calls through an unknown pointer (line %s)" % i.line)


class Engine(objs.Engine):
    def recursive(self, fid, name):
        return False


class Wrong(Exception):
    pass


def known(o, x, y):
    if x == y:
        return 0
    for v in (-1, 0, 1):
        if (x, y, v) in o:
            return v


def close(o):
    o = set(o)
    while True:
        new = {(y, x, -v) for x, y, v in o}
        for x, y, v in o:
            for p, q, u in o:
                if y == p and x != q and (v == u or not v or not u):
                    new.add((x, q, v or u))
        if new <= o:
            return frozenset(o)
        o |= new
