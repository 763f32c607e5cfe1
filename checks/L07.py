"""L07: longjmp resumes where setjmp returns, in the frame setjmp was called from, with the given value."""
import os
from vt import bv, cx, frame, lib, ll, report, vset
from vt.bv import T

VALUES = (0, 1, 2, 5, 0x7fffffff, 0x80000000, 0xffffffff)


def check(out):
    out.cov["explanation"] = (
        "setjmp is evaluated abstractly in a frame whose saved frame pointer and return address are unknown words: what it stores in each field of the environment is a term over that frame. longjmp is evaluated on an "
        "unknown environment and value up to the jump; its assembly is executed at machine level for every operand allocation. With the stored terms put in for the fields, the registers at the jump must be the "
        "caller's frame pointer, the stack pointer after setjmp's return, setjmp's return address, and the value (1 for 0) in the result register.")
    for arch in lib.ARCH:
        for style in ("gcc", "mescc"):
            if (arch, style) == ("arm", "gcc"):
                continue        # the header declares it unsupported
            Pair(out, arch, style).decide()
    out.need("variants", 5)
    out.need("registers", 5 * 4)


class Pair:
    def __init__(self, out, arch, style):
        self.out, self.arch, self.style = out, arch, style
        self.W = 64 if arch == "x86_64" else 32
        self.P = self.W // 8
        self.src = "lib/%s-mes-%s/setjmp.c" % (arch, style)
        defs = list(lib.DEFS)
        if style == "mescc":
            defs += ["-D__MESC__=1", "-U__GNUC__"]
        self.M = ll.compile_c([self.src], arch, defs=defs, passes="verify")

    def bad(self, what, msg):
        self.out.violation("%s %s %s" % (self.arch, self.style, what), "%s: %s" % (self.src, msg))

    def engine(self):
        def leave(E, st, f, i, av):
            return [cx.Out("exit", st, info=("call", f.name, i))]
        return cx.Engine(self.M, models={"exit": leave, "_exit": leave, "abort": leave}, inline_depth=3)

    def func(self, n):
        F = self.M.funcs.get(n)
        if F is None or not F.blocks:
            raise report.Broken("%s does not define %s" % (self.src, n))
        return F

    def decide(self):
        self.out.count("variants")
        saved = self.setjmp()
        if saved is not None:
            self.longjmp(saved)

    # -- setjmp
    def setjmp(self):
        E = self.engine()
        F = self.func("setjmp")
        fr = frame.Frame(self.arch, self.style, lambda fn, line, m: self.bad("asm", "%s, line %s: %s" % (fn, line, m)))
        env = bv.var("p0", self.W)
        res = None
        for o in fr.run(E, "setjmp", [env], cx.State()):
            self.out.count("paths")
            if o.kind != "ret":
                self.bad("setjmp", "setjmp does not return")
                return None
            if o.val is None or not (o.val.isconst() and o.val.c == 0):
                self.bad("setjmp result", "setjmp returns %r instead of 0" % o.val)
            m = {}
            for off, (n, v) in o.state.mem.get("p0", {}).items():
                if off.t or n != self.P:
                    self.bad("setjmp", "setjmp writes %d bytes at %r of the environment" % (n, off))
                    return None
                m[off.c] = self.term(fr, v)
            if res is not None and res != m:
                self.bad("setjmp", "setjmp saves different things on different paths")
            res = m
        return res

    def term(self, fr, v):
        """v as a term over the frame of setjmp: F its frame pointer, BP and RET the words it saved"""
        w = fr.word(v)
        if w is None:
            return None
        k, d = w
        if k == "addr":
            return bv.add(bv.var("F", self.W), bv.const(self.W, d))
        if d == 0:
            return bv.var("BP", self.W)
        if d == self.P:
            return bv.var("RET", self.W)
        return bv.var("frame word %d" % d, self.W)

    # -- longjmp
    def longjmp(self, saved):
        E = self.engine()
        self.func("longjmp")
        fr = frame.Frame(self.arch, self.style, lambda fn, line, m: self.bad("asm", "%s, line %s: %s" % (fn, line, m)))
        env, val = bv.var("p0", self.W), bv.var("p1", 32)
        seen = set()
        for o in fr.run(E, "longjmp", [env, val], cx.State()):
            self.out.count("paths")
            vals = [v for v in VALUES if vset.holds(o.state, {"p1": v})]
            if not vals:
                continue
            if o.kind != "exit" or not o.info or o.info[0] != "asm":
                self.bad("longjmp", "longjmp %s instead of jumping (value %s)" % ("returns" if o.kind == "ret" else "ends the program", vals[0]))
                continue
            seen.update(vals)
            s = o.info[1]
            e = s.events[-1]
            tgt = e[1][1] if e[0] == "jmp" and e[1][0] == "val" else e[1] if e[0] == "ret" else None
            F, BP, RET = (bv.var(n, self.W) for n in ("F", "BP", "RET"))
            for what, got, want, text in (
                    ("program counter", tgt, RET, "setjmp's return address"),
                    ("frame pointer", s.r[frame.FP[self.arch]], BP, "the frame pointer of setjmp's caller"),
                    ("stack pointer", s.r[frame.SP[self.arch]], bv.add(F, bv.const(self.W, 2 * self.P)), "the stack pointer at setjmp's return")):
                self.out.count("registers")
                x = self.restore(got, saved, s) if isinstance(got, T) else None
                if x != want:
                    self.bad("longjmp " + what, "longjmp sets the %s to %s, not %s (%r)" % (what, "%r, with what setjmp saved %r" % (got, x) if x is not None else repr(got), text, want))
            r0 = s.r[0]
            self.out.count("registers")
            for v in vals:
                w = v or 1
                try:
                    g = vset.term(bv.trunc(r0, 32) if r0.w > 32 else r0, {"p1": v})
                except vset.Unknown:
                    g = None
                if g is None or g & 0xffffffff != w:
                    self.bad("longjmp value", "after longjmp (env, %d) setjmp answers %s, not %d" % (v, r0 if g is None else g, w))
                    break
        miss = [v for v in VALUES if v not in seen]
        if miss:
            self.bad("longjmp", "no path of longjmp jumps for value %d" % miss[0])

    def restore(self, t, saved, s):
        """t with each word of the environment replaced by what setjmp put there; None if something else is in it"""
        r = bv.const(self.W, t.c)
        for a, k in t.t:
            if a[0] != "ld" or a[1] != self.P:
                return None
            d = bv.sub(a[2], bv.var("p0", self.W))
            if not d.isconst() or saved.get(d.c) is None:
                return None
            # what longjmp holds and pushes lies on the stack (its own, or that of setjmp's caller), not in the environment
            for b, n, v in a[3]:
                if not self.stack(b, saved, s):
                    return None
            r = bv.add(r, bv.mulc(saved[d.c], k))
        return r

    def stack(self, t, saved, s):
        if bv.sub(t, bv.var({"x86_64": "rbp", "x86": "ebp", "arm": "fp"}[self.arch], self.W)).isconst():
            return True
        x = self.restore(t, saved, s)
        return x is not None and bv.sub(x, bv.var("F", self.W)).isconst()
