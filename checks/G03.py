"""G03: no object reference is held across a collection outside the roots."""
import re
from vt import ll, mesc, report
from checks.G02 import scm_globals

# what follows a call to these is never executed (an error that returns into its C caller is not a continuation of it: the
# handler's continuation replaces the stack), so nothing is held across it
NORETURN = {"error", "exit", "_exit", "abort", "__assert_fail", "assert_max_string"}


def check(out):
    out.cov["explanation"] = (
        "Over the compiled interpreter (SSA form, both word sizes): every function that can reach the collector through direct or function-pointer calls is found from the call graph; every value that refers to an object (typed "
        "struct scm * or derived from one, by the debug information and by loads, address arithmetic and calls) is tracked through each function; a liveness analysis then asks, at every call that may collect, whether such a value "
        "is still needed afterwards. References kept in local arrays or variables whose address is taken are reported as well. Special objects keep their addresses (G02) and may be held.")
    for arch in ("x86_64", "x86"):
        Check(out, arch).decide()
    out.need("functions that may collect", 10)
    out.need("calls that may collect", 30)
    out.need("safe points in the evaluator", 6)
    out.need("object references", 1500)


def names(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "l" and isinstance(x[1], str):
            yield x[1]
            return
        for y in x:
            yield from names(y)
    elif isinstance(x, list):
        for y in x:
            yield from names(y)


def globs(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "g" and isinstance(x[1], str):
            yield x[1]
            return
        for y in x:
            yield from globs(y)
    elif isinstance(x, list):
        for y in x:
            yield from globs(y)


class Check:
    def __init__(self, out, arch):
        self.out, self.arch = out, arch
        self.m = m = mesc.Mes(arch)
        self.M = m.M
        self.special = {g for g in m.special}
        glob = scm_globals(self.M)
        if len(glob) < 100 or len(self.special) < 90:
            raise report.Broken("only %d object globals and %d special objects" % (len(glob), len(self.special)))
        # the arena's own bounds do not refer to an object
        self.roots = {g for g, d in glob.items() if d == 1 and g not in self.special and not g.startswith("cell_")} - {"g_cells", "g_symbol_max"}
        self.tables = {g for g, d in glob.items() if d == 2}
        self.types = self.prototypes()

    # ------------------------------------------------------------ types
    def prototypes(self):
        """function -> (returns an object, [parameter is an object])"""
        md = self.M.md

        def fld(b, n):
            m = re.search(r"\b%s: (![0-9]+)" % n, b)
            return m.group(1) if m else None

        def scm(t, d=0):
            while t in md:
                k, b = md[t]
                if k == "DICompositeType":
                    return d == 1 and re.search(r'name: "scm"', b) is not None
                if k != "DIDerivedType":
                    return False
                if "DW_TAG_pointer_type" in b:
                    d += 1
                t = fld(b, "baseType")
            return False
        r = {}
        for k, (kind, b) in md.items():
            if kind != "DISubprogram":
                continue
            m = re.search(r'name: "([^"]+)"', b)
            t = md.get(fld(b, "type") or "")
            if not m or not t:
                continue
            tt = md.get(fld(t[1], "types") or "")
            l = [x.strip() for x in tt[1].split(",")] if tt else []
            r[m.group(1)] = (bool(l) and scm(l[0]), [scm(x) for x in l[1:]])
        if sum(v[0] for v in r.values()) < 100:
            raise report.Broken("the functions' types are not found")
        return r

    # ------------------------------------------------------------ which functions may collect
    def collecting(self):
        M = self.M
        for g in ("gc_", "eval_apply"):
            if g not in M.funcs:
                raise report.Broken("%s is not found" % g)
        taken = set()
        calls = {}
        for n, f in M.funcs.items():
            c = calls.setdefault(n, set())
            back = self.returning(f)
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == "call":
                        if b in back:
                            c.add(i.a[0][1] if i.a[0][0] == "g" else "*")
                        taken |= {g for g in globs(i.a[1]) if g in M.funcs}
                    else:
                        taken |= {g for g in globs(i.a) if g in M.funcs}
        for g, x in M.globals.items():
            taken |= {y for y in globs(x) if y in M.funcs}
        if len(taken) < 100:
            raise report.Broken("only %d functions have their address taken" % len(taken))
        may = {"gc_"}
        ch = True
        while ch:
            ch = False
            for n, c in calls.items():
                if n in may or n in NORETURN:
                    continue
                if c & may or "*" in c and taken & may:
                    may.add(n)
                    ch = True
        self.indirect = bool(taken & may)
        return may

    def blocks(self, f):
        """the blocks reached with the debug level 0"""
        seen, work = set(), [f.order[0]]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if not self.ends(f, b):
                work += self.succ(f, b)
        return [b for b in f.order if b in seen]

    def noreturn(self, i):
        """a call after which nothing is executed: it ends the program, or asserts something false"""
        if i.op != "call" or i.a[0][0] != "g":
            return False
        return i.a[0][1] in NORETURN or i.a[0][1] == "assert_msg" and bool(i.a[1]) and i.a[1][0][1] == ("int", 0)

    def ends(self, f, b):
        return any(self.noreturn(i) for i in f.blocks[b])

    def returning(self, f):
        """the blocks from which the function can return"""
        bl = self.blocks(f)
        r = {b for b in bl if f.blocks[b][-1].op == "ret" and not self.ends(f, b)}
        ch = True
        while ch:
            n = {b for b in bl if b not in r and not self.ends(f, b) and any(s in r for s in self.succ(f, b))}
            r |= n
            ch = bool(n)
        return r

    def succ(self, f, b):
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.a) == 1:
            return [t.a[0]]
        if t.op == "br":
            v = self.debug(f, b, t.a[0])
            return list(t.a[1:]) if v is None else [t.a[1] if v else t.a[2]]
        if t.op == "switch":
            return [t.a[1]] + [x for _, x in t.a[2]]
        return []

    def debug(self, f, b, c):
        """the value of a comparison of g_debug with a constant, at level 0"""
        if c[0] != "l":
            return None
        d = {i.res: i for i in f.blocks[b] if i.res}
        i = d.get(c[1])
        if i is None or i.op != "icmp" or i.a[2][0] != "int" or i.a[1][0] != "l":
            return None
        ld = d.get(i.a[1][1])
        if ld is None or ld.op != "load" or ld.a[0] != ("g", "g_debug"):
            return None
        k = i.a[2][1]
        return {"eq": 0 == k, "ne": 0 != k, "sgt": 0 > k, "sge": 0 >= k, "slt": 0 < k, "sle": 0 <= k, "ugt": False, "uge": k == 0, "ult": k != 0, "ule": True}[i.a[0]]

    # ------------------------------------------------------------ what refers to an object
    def refs(self, f, params):
        """names in f that may refer to an object; params: which parameters do"""
        ref = {n: "the parameter %s" % n for (t, n), p in zip(f.params, params) if p}
        fixed = set()
        local = set()
        table = set()
        ch = True

        def isref(v):
            if v[0] == "l":
                return v[1] in ref
            if v[0] == "ce":
                return any(isref(x) for t, x in v[3]) if v[1] == "getelementptr" else isref(v[3])
            return False

        def isfixed(v):
            return v[0] == "l" and v[1] in fixed
        while ch:
            ch = False
            for b in f.order:
                for i in f.blocks[b]:
                    if i.res is None or i.res in ref or i.res in fixed or i.res in table:
                        continue
                    why = None
                    if i.op == "load" and i.ty == "ptr":
                        a = i.a[0]
                        if a[0] == "g":
                            if a[1] in self.special:
                                fixed.add(i.res)
                                ch = True
                            elif a[1] in self.tables:
                                table.add(i.res)
                                ch = True
                            elif a[1] in self.roots:
                                why = a[1]
                        elif isref(a) or isfixed(a) or a[0] == "l" and a[1] in table:
                            why = "a field of an object"
                    elif i.op in ("getelementptr", "bitcast", "freeze"):
                        v = i.a[1] if i.op == "bitcast" else i.a[0]
                        if isref(v):
                            why = "a place in an object"
                        elif v[0] == "l" and v[1] in table:
                            table.add(i.res)
                            ch = True
                        elif isfixed(v):
                            fixed.add(i.res)
                            ch = True
                    elif i.op == "phi" and i.ty == "ptr" and any(isref(v) for v, _ in i.a):
                        why = i.res.split(".")[0]
                    elif i.op == "select" and i.ty == "ptr" and any(isref(v) for v in i.a[1:]):
                        why = "a choice of objects"
                    elif i.op == "call" and i.ty == "ptr":
                        n = i.a[0][1] if i.a[0][0] == "g" else None
                        if n is None or self.types.get(n, (False,))[0]:
                            why = "the result of %s" % (n or "a call")
                        elif any(isref(v) for t, v in i.a[1]):
                            why = "the result of %s on an object" % n
                    if why:
                        ref[i.res] = why
                        ch = True
        return ref

    def params(self):
        """parameters that refer to objects: by type, or because a caller passes such a value"""
        par = {}
        for n, f in self.M.funcs.items():
            t = self.types.get(n, (False, []))[1]
            par[n] = [ty == "ptr" and k < len(t) and t[k] for k, (ty, _) in enumerate(f.params)]
        ch = True
        while ch:
            ch = False
            self.ref = {}
            for n, f in self.M.funcs.items():
                r = self.ref[n] = self.refs(f, par[n])
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.op == "call" and i.a[0][0] == "g" and i.a[0][1] in par:
                            for k, (t, v) in enumerate(i.a[1]):
                                p = par[i.a[0][1]]
                                if k < len(p) and not p[k] and v[0] == "l" and v[1] in r:
                                    p[k] = True
                                    ch = True
        return self.ref

    # ------------------------------------------------------------ liveness
    def live(self, f):
        """block -> names live at its end"""
        bl = self.blocks(f)
        use, deff, phiuse = {}, {}, {}
        # a phi counts if something other than phis needs it
        phis = {i.res: (b, i) for b in bl for i in f.blocks[b] if i.op == "phi"}
        need, work = set(), []
        for b in bl:
            for i in self.body(f, b):
                if i.op != "phi":
                    work += [n for n in names(i.a) if n in phis]
        while work:
            n = work.pop()
            if n in need:
                continue
            need.add(n)
            b, i = phis[n]
            work += [x for v, src in i.a if src in bl and not self.ends(f, src) and b in self.succ(f, src) for x in names(v) if x in phis]
        for b in bl:
            u, d = set(), set()
            for i in self.body(f, b):
                if i.op == "phi" and i.res not in need:
                    continue
                if i.op == "phi":
                    for v, src in i.a:
                        phiuse.setdefault((src, b), set()).update(names(v))
                else:
                    u |= {n for n in names(i.a) if n not in d}
                if i.res is not None:
                    d.add(i.res)
            use[b], deff[b] = u, d
        inn = {b: set() for b in bl}
        outs = {b: set() for b in bl}
        ch = True
        while ch:
            ch = False
            for b in reversed(bl):
                o = set()
                if not self.ends(f, b):
                    for s in self.succ(f, b):
                        o |= inn[s] | phiuse.get((b, s), set())
                n = use[b] | (o - deff[b])
                if n != inn[b] or o != outs[b]:
                    inn[b], outs[b] = n, o
                    ch = True
        return bl, outs

    def body(self, f, b):
        r = []
        for i in f.blocks[b]:
            r.append(i)
            if self.noreturn(i):
                break
        return r

    def decide(self):
        out, M = self.out, self.M
        may = self.collecting()
        if "eval_apply" not in may or "gc_check" in M.funcs and "gc_check" not in may:
            raise report.Broken("the evaluator does not reach the collector")
        ref = self.params()
        out.count("functions that may collect", len(may))
        out.count("object references", sum(len(r) for r in ref.values()))
        # the collector itself handles objects that are moving
        inner = {"gc_"}
        for n in sorted(set(M.funcs) - inner):
            f = M.funcs[n]
            bl, outs = self.live(f)
            out.count("functions analysed")
            allocas = {i.res for b in bl for i in f.blocks[b] if i.op == "alloca"}
            for b in bl:
                alive = set(outs[b])
                for i in reversed(self.body(f, b)):
                    if i.res is not None:
                        alive.discard(i.res)
                    if i.op == "call":
                        c = i.a[0][1] if i.a[0][0] == "g" else None
                        if c in may or c is None and self.indirect:
                            out.count("calls that may collect")
                            if n == "eval_apply":
                                out.count("safe points in the evaluator")
                            for v in sorted(alive & set(ref[n])):
                                out.violation("%s holds %s across %s" % (n, ref[n][v], c or "a function pointer"),
                                              "%s:%s: %s still uses %s (%%%s) after calling %s, which may collect (%s)" % (f.file, i.line, n, ref[n][v], v, c or "through a pointer", self.arch))
                    if i.op == "store" and i.a[0][0] == "l" and i.a[0][1] in ref[n] and self.root(f, i.a[1]) in allocas:
                        out.violation("%s keeps a reference in memory" % n, "%s:%s: %s keeps %s in a local that the collector does not update (%s)" % (f.file, i.line, n, ref[n][i.a[0][1]], self.arch))
                    if i.op != "phi":
                        alive |= set(names(i.a))

    def root(self, f, v):
        d = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
        while v[0] == "l" and v[1] in d and d[v[1]].op in ("getelementptr", "bitcast"):
            i = d[v[1]]
            v = i.a[1] if i.op == "bitcast" else i.a[0]
        return v[1] if v[0] == "l" else None
