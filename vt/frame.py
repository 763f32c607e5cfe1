"""Functions whose inline assembly works on their own stack frame (start-up code, setjmp, longjmp).

The frame is what the compiler's prologue makes of it: the frame pointer F, the
caller's frame pointer at [F], the return address (or, in the entry point, the
argument count) in the word above, and parameter k at F + slot (k) where the
compiler's convention puts it there.  Machine state carries over from one asm
statement to the next."""
import re
from . import arm, bv, inlasm, m1, report, x86
from .cx import Event, Out
from .inlasm import Bad
from .x86 import Undecodable

FP = {"x86_64": 5, "x86": 5, "arm": 11}
SP = {"x86_64": 4, "x86": 4, "arm": 13}


class Frame:
    def __init__(self, arch, style, bad):
        self.arch, self.style, self.bad = arch, style, bad
        self.W = 64 if arch == "x86_64" else 32
        self.P = self.W // 8
        self.on_call = self.on_kernel = None
        self.fp = bv.var({"x86_64": "rbp", "x86": "ebp", "arm": "fp"}[arch], self.W)

    def slot(self, k):
        """offset of parameter k from the frame pointer, None: the convention does not fix it"""
        if self.style == "gcc" and self.arch != "x86":
            return None
        return (2 + k) * self.P

    def word(self, t):
        """('addr', d): F + d, ('word', d): the word at F + d, else None.  Knows the names that the engine gives to
        what lies beyond a parameter's own slot."""
        if t.w != self.W:
            return None
        d = bv.sub(t, self.fp)
        if d.isconst():
            return "addr", d.c
        if len(t.t) == 1 and t.t[0][1] == 1:
            a = t.t[0][0]
            if a[0] == "v":
                m = re.fullmatch(r"&[^:]*:(\w+)\.addr", a[1])
                if m and self.par(m.group(1)) is not None:
                    return "addr", self.par(m.group(1)) + t.c
                m = re.fullmatch(r"\[&[^:]*:(\w+)\.addr(?:\+(-?\d+))?\]([.']\d+)*", a[1])
                if m and not t.c and self.par(m.group(1)) is not None:
                    return "word", self.par(m.group(1)) + int(m.group(2) or 0)
                m = re.fullmatch(r"\[%s(?:\+(-?\d+))?\]([.']\d+)*" % self.fp.t[0][0][1], a[1])
                if m and not t.c:
                    return "word", int(m.group(1) or 0)
            if a[0] == "ld" and a[1] == self.P and not t.c:
                d = bv.sub(a[2], self.fp)
                if d.isconst():
                    return "word", d.c
        return None

    def par(self, name):
        for k, (ty, n) in enumerate(self.F.params):
            if n.lstrip("%") == name:
                return self.slot(k)
        return None

    def run(self, E, fname, args, st):
        self.F = E.M.funcs[fname]
        E.models["asm"] = self.model
        E.store_hook = self.stored
        return E.run(fname, args, st)

    def stored(self, st, base, off, nbytes, val):
        st.x["last"] = val

    # -- one statement
    def model(self, E, st, f, i, av, callee):
        regs, writes = st.x.get("m", ({}, ()))
        writes = list(writes)
        for k, (ty, n) in enumerate(f.params):
            if self.slot(k) is None:
                continue
            for b, reg in st.mem.items():
                if b and re.fullmatch(r"&%s#\d+:%s\.addr" % (re.escape(f.name), re.escape(n.lstrip("%"))), b):
                    for o, (nb, v) in reg.items():
                        if not o.t and o.c == 0:
                            a = bv.add(self.fp, bv.const(self.W, self.slot(k)))
                            v = v if v.w == self.W else bv.ext(v, self.W, True, st)
                            if (a, self.P, v) not in writes:
                                writes = [w for w in writes if w[0] != a] + [(a, self.P, v)]
        try:
            if self.style == "gcc":
                outs = self.gcc(E, st, i, av, callee, regs, writes)
            else:
                outs = self.mescc(st, i, callee, regs, writes)
        except Bad as e:
            self.bad(f.name, i.line, str(e))
            return [Out("ret", st, E.ret(st, i, "asm"))]
        s, vals = outs
        for e in s.events:
            st.events.append(Event("machine", e[0], list(e[1:]), i, f.name, extra=s))
        for tgt, r, w in s.calls:
            if self.on_call:
                self.on_call(E, st, tgt, r, w, i)
        for e in s.events:
            if e[0] in ("syscall", "int", "swi") and self.on_kernel and self.on_kernel(E, st, e, s, i):
                return [Out("exit", st, info=("kernel", e, i))]
        if s.stop:
            return [Out("exit", st, info=("asm", s, i))]
        keep = dict(enumerate(s.r))
        if self.arch == "arm" and self.style == "gcc":
            for n in (0, 1, 2, 3, 12):          # the compiler needs one to address what the statement sets
                keep[n] = bv.var("scratch%d#%d" % (n, E.tick(st)), 32)
        st.x["m"] = (keep, tuple(s.writes))
        st.x["last"] = None
        ind = [j for j, c in enumerate(inlasm.split(callee[2])) if c.startswith("=*")]
        for j, p in zip(ind, av):
            E.store(st, p, vals[j].w // 8, vals[j])
        vals = [v for j, v in enumerate(vals) if j not in ind]
        return [Out("ret", st, vals[0] if vals else None)]

    def mescc(self, st, i, callee, regs, writes):
        regs = dict(regs)
        last = st.x.get("last")
        if last is not None:                    # an assignment leaves its value in the first register
            regs[0] = last if last.w == self.W else bv.ext(last, self.W, True, st) if last.w < self.W else bv.trunc(last, self.W)
        try:
            items = inlasm.mescc_code(self.arch, [callee[1].replace("$$", "$")], self.syms())
            return inlasm.execute(self.arch, items, st, regs, writes), []
        except m1.M1Error as e:
            raise Bad("cannot be assembled: %s" % e)
        except Undecodable as e:
            raise report.Broken("asm %r: %s" % (callee[1], e))

    def syms(self):
        return {}

    def gcc(self, E, st, i, av, callee, regs, writes):
        outs, ins, clob, mem = inlasm.constraints(self.arch, callee[2])
        ind = [j for j, (k, f, e) in enumerate(outs) if "*" in k]
        av = av[len(ind):]
        ws = [] if i.ty == "void" else [E.tw(i.ty)]
        for j in ind:
            ws.insert(j, self.W)
        plans = list(inlasm.allocations(self.arch, outs, ins, clob))
        if len(outs) == 1 and not ins and outs[0][1] is None and "r" in outs[0][0]:
            plans = [((("r", r),), {}) for r in inlasm.POOL[self.arch] if r not in clob]
        texts = [inlasm.subst(self.arch, callee[1], list(co) + [ci[k] for k in range(len(ins))], ws + [a.w for a in av]) for co, ci in plans]
        res = []
        for (co, ci), code, text in zip(plans, inlasm.assemble(self.arch, texts), texts):
            if isinstance(code, str):
                raise Bad("the statement cannot be assembled: %s" % code.strip())
            r, w = dict(regs), list(writes)
            for k, a in enumerate(av):
                v = a if a.w == self.W else bv.ext(a, self.W, True, st)
                if ci[k][0] == "r":
                    r[ci[k][1]] = v
                else:
                    w = w + [(bv.add(self.fp, bv.const(self.W, inlasm.slot(self.arch, ci[k][1]))), self.P, v)]
            try:
                s = inlasm.execute(self.arch, code, st, r, w)
            except Undecodable as e:
                raise report.Broken("asm %r: %s" % (text, e))
            vals = []
            for p, wd in zip(co, ws):
                v = s.r[p[1]] if p[0] == "r" else s.load(bv.add(self.fp, bv.const(self.W, inlasm.slot(self.arch, p[1]))), wd // 8)
                vals.append(bv.trunc(v, wd) if v.w > wd else v)
            # operands in memory lie in the frame, below everything the statement looks at
            s.writes = [x for x in s.writes if not any(ci[k][0] == "m" and x[0] == bv.add(self.fp, bv.const(self.W, inlasm.slot(self.arch, ci[k][1]))) for k in range(len(av)))]
            res.append((s, vals))
        s, vals = res[0]
        for s2, v2 in res[1:]:
            if v2 != vals or [e[0] for e in s2.events] != [e[0] for e in s.events] or s2.stop != s.stop:
                raise Bad("the effect depends on the allocation of the operands")
            for n in range(len(s.r)):
                if s2.r[n] != s.r[n] and n != 15:
                    s.r[n] = bv.var("unknown%d" % n, self.W)
            if s.stop and s2.events[-1] != s.events[-1]:
                raise Bad("the destination depends on the allocation of the operands")
        return s, vals
