"""L08: the entry point hands main the kernel's argc, argv and envp and exits with main's result."""
import os, re
from vt import abi, bv, cx, frame, inlasm, lib, ll, report
from vt.bv import T

# variant -> (source, arch, compiler); the kernel leaves argc at the stack pointer, argv after it
VARIANTS = [("linux", a, c) for a in lib.ARCH for c in ("gcc", "mescc")] + [("freebsd", "x86", c) for c in ("gcc", "mescc")]
STD = (("__stdin", 0), ("__stdout", 1), ("__stderr", 2))


def check(out):
    out.cov["explanation"] = (
        "_start is evaluated abstractly from the kernel's initial stack (argc at the stack pointer, then argv, then the environment), its assembly at machine level for each operand allocation, machine state carried over "
        "between the statements. At the call of main the arguments in the places of the calling convention, environ and the three standard descriptors must be the terms argc, the address of argv, the address after "
        "argv's null, and 0, 1, 2; afterwards the exit system call must be issued with main's result.")
    for os_, arch, style in VARIANTS:
        src = "lib/%s/%s-mes-%s/crt1.c" % (os_, arch, style)
        if not os.path.exists(os.path.join(report.REPO, src)):
            raise report.Broken("%s is missing" % src)
        Start(out, os_, arch, style, src).decide()
    out.need("variants", 8)
    out.need("main arguments", 3 * 8)
    out.need("exits", 8)


def arch_regs(arch):
    return 8 if arch == "x86" else 16


class Start:
    def __init__(self, out, os_, arch, style, src):
        self.out, self.os, self.arch, self.style, self.src = out, os_, arch, style, src
        self.W = 64 if arch == "x86_64" else 32
        self.P = self.W // 8
        defs = list(lib.DEFS)
        if style == "mescc":
            defs += ["-D__MESC__=1", "-U__GNUC__"]
        # MesCC takes a call without arguments for the statement that it is: what was pushed before stays there
        text = open(os.path.join(report.REPO, src)).read()
        self.main = "main"
        if style == "mescc" and re.search(r"\bmain \(\)", text):
            self.main = "call_of_main"
            defs.append("-Dmain(...)=call_of_main ()")
        self.M = ll.compile_c([src], arch, defs=defs, passes="verify")
        # words that the prologue pushes below argc
        self.below = 2 if (arch, style) == ("arm", "mescc") else 1

    def bad(self, what, msg):
        self.out.violation("%s %s %s %s" % (self.os, self.arch, self.style, what), "%s: %s" % (self.src, msg))

    def decide(self):
        self.out.count("variants")
        F = self.M.funcs.get("_start")
        if F is None or not F.blocks:
            raise report.Broken("%s does not define _start" % self.src)
        fr = self.fr = frame.Frame(self.arch, self.style, lambda fn, line, m: self.bad("asm", "%s, line %s: %s" % (fn, line, m)))
        fr.on_call, fr.on_kernel = self.called, self.kernel

        def main(E, st, f, i, av):
            regs, writes = st.x.get("m", ({}, ()))
            regs = [regs.get(n, bv.var("unset%d" % n, self.W)) for n in range(16)]
            if av:
                writes = tuple(writes) + tuple((bv.add(regs[frame.SP[self.arch]], bv.const(self.W, k * self.P)), self.P, a if a.w == self.W else bv.ext(a, self.W, True, st)) for k, a in enumerate(av))
            self.called(E, st, ("lab", "main"), regs, writes, i)
            keep = {n: regs[n] for n in (frame.FP[self.arch], frame.SP[self.arch])}
            for n in range(arch_regs(self.arch)):
                keep.setdefault(n, bv.var("main result" if n == 0 else "after main %d" % n, self.W))
            st.x["m"] = (keep, writes)
            return [cx.Out("ret", st, E.ret(st, i, "main"))]

        E = cx.Engine(self.M, models={self.main: main}, inline_depth=3, unroll=3)
        st = cx.State()
        # the kernel starts a program with its registers cleared
        st.x["m"] = ({n: bv.const(self.W, 0) for n in range(min(15, arch_regs(self.arch))) if n not in (frame.FP[self.arch], frame.SP[self.arch])}, ())
        for o in fr.run(E, "_start", [], st):
            self.out.count("paths")
            if o.kind == "exit" and o.info and o.info[0] == "kernel":
                continue
            if o.state.x.get("exited"):
                continue
            self.bad("exit", "_start does not end with the exit system call%s" % ("" if o.state.x.get("main") else ", main is not called"))

    # -- terms
    def norm(self, t, own):
        """t over argc and F; loads from the kernel's part of the stack read what the kernel put there (everything _start pushes lies below its frame)"""
        if not isinstance(t, T):
            return t

        def at(a):
            if a[0] in ("v", "ld"):
                w = self.fr.word(T(self.W, 0, ((a, 1),))) if (a[0] != "v" or len(a) < 3 or a[2] == self.W) else None
                if w is not None and w[0] == "word":
                    return ("v", "argc", self.W) if w[1] == self.below * self.P else ("v", "stack word %d" % w[1], self.W)
            return a
        return inlasm.mapatoms(t, at)

    def expect(self):
        argc = bv.var("argc", self.W)
        argv = bv.add(self.fr.fp, bv.const(self.W, (self.below + 1) * self.P))
        envp = bv.add(bv.add(argv, bv.const(self.W, self.P)), bv.mulc(argc, self.P))
        return [("argc", argc), ("argv", argv), ("envp", envp)]

    def lookup(self, addr, n, writes):
        """the value last written at addr, as far as nothing unrelated may have overwritten it"""
        for b, m, v in reversed(list(writes)):
            if b == addr and m == n:
                return v
            d = bv.sub(b, addr)
            if d.isconst() and -m < d.c < n:
                return None
        return None

    def called(self, E, st, tgt, regs, writes, i):
        name = tgt[1] if tgt[0] == "lab" else None
        if name == "_exit":
            self.exits(st, self.lookup(regs[frame.SP[self.arch]], self.P, writes), i)
            st.x["exited"] = True
            return
        if name != "main":
            self.bad("call", "line %s: _start calls %s" % (i.line, name or "an address it computed"))
            return
        st.x["main"] = st.x.get("main", 0) + 1
        st.x["result"] = {"x86_64": "rax'1", "x86": "eax'1", "arm": "r0'1"}[self.arch]
        if self.style == "gcc" and self.arch == "x86_64":
            av = [regs[7], regs[6], regs[2]]
        elif self.style == "gcc" and self.arch == "arm":
            av = list(regs[:3])
        else:
            sp = regs[frame.SP[self.arch]]
            av = [self.lookup(bv.add(sp, bv.const(self.W, k * self.P)), self.P, writes) for k in range(3)]
        av = [self.reload(a, writes) for a in av]
        self.arguments(E, st, av, writes, i)

    def reload(self, a, writes):
        """a load whose address was written before"""
        if isinstance(a, T) and len(a.t) == 1 and not a.c and a.t[0][1] == 1 and a.t[0][0][0] == "ld":
            v = self.lookup(a.t[0][0][2], a.t[0][0][1], writes)
            return a if v is None else v
        return a

    def arguments(self, E, st, av, writes, i):
        for k, (what, want) in enumerate(self.expect()):
            self.out.count("main arguments")
            got = self.norm(av[k], writes) if av and isinstance(av[k], T) else None
            if got != want:
                self.bad("main " + what, "line %s: main gets %s as %s, not %r" % (i.line, "nothing that _start set" if got is None else repr(got), what, want))
        for name, n, want in [(s, 4, bv.const(32, v)) for s, v in STD] + [("environ", self.P, self.expect()[2][1])]:
            self.out.count("globals")
            if self.style == "mescc":
                got = None
                for b, m, v in writes:
                    if "('addr', '%s')" % name in repr(b) and m == n:
                        got = v
            else:
                got = E.load(st, E.gaddr(name), n)
            if isinstance(got, T) and got.w > 8 * n:
                got = bv.trunc(got, 8 * n)
            got = self.norm(got, writes) if isinstance(got, T) else got
            if got != want:
                self.bad(name, "line %s: at the call of main %s is %s, not %r" % (i.line, name, "not set" if got is None else repr(got), want))

    def kernel(self, E, st, e, s, i):
        """an entry into the kernel; True: it ends the process"""
        try:
            args = inlasm.kernel_args(self.arch, e)
        except inlasm.Bad as x:
            self.bad("exit", str(x))
            return True
        nr = abi.nr(self.arch, "exit") if self.os == "linux" else 1
        if not (args[0].isconst() and args[0].c == nr):
            self.bad("exit", "line %s: the system call after main is number %r, exit is %d" % (i.line, args[0], nr))
            return True
        status = args[1]
        if self.os == "freebsd":       # arguments on the stack, above a word for the return address
            status = self.lookup(bv.add(e[1][frame.SP[self.arch]], bv.const(self.W, self.P)), self.P, s.writes)
        self.exits(st, status, i)
        return True

    def exits(self, st, status, i):
        self.out.count("exits")
        if st.x.get("main") != 1:
            self.bad("exit", "line %s: the process exits %s" % (i.line, "before main is called" if not st.x.get("main") else "after main is called %d times" % st.x["main"]))
            return
        got = bv.trunc(status, 32) if isinstance(status, T) and status.w > 32 else status
        ok = [bv.var(n, w) for n in ("main result", st.x.get("result", "")) for w in (32, self.W)]
        ok = [bv.trunc(x, 32) if x.w > 32 else x for x in ok]
        if got not in ok:
            self.bad("exit status", "line %s: the exit status is %r, not what main returned" % (i.line, status))

