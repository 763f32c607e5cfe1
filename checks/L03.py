"""L03: each wrapper issues the system call it is named after, with the caller's arguments."""
import re
from vt import abi, bv, cx, lib, report, vset
from vt.bv import T

# function: call and the parameters it passes, in order; % marks an int of which the kernel reads the low 32 bits
SIMPLE = {
    "access": "access 0 %1", "brk": "brk 0", "chdir": "chdir 0", "chmod": "chmod 0 %1", "clock_gettime": "clock_gettime %0 1",
    "close": "close %0", "dup": "dup %0", "dup2": "dup2 %0 %1", "execve": "execve 0 1 2", "fcntl": "fcntl %0 %1 .", "fork": "fork",
    "fstat": "fstat %0 1", "fsync": "fsync %0", "getdents": "getdents %0 1 %2", "getegid": "getegid", "geteuid": "geteuid",
    "getgid": "getgid", "getpid": "getpid", "getppid": "getppid", "getrusage": "getrusage %0 1", "gettimeofday": "gettimeofday 0 1",
    "getuid": "getuid", "ioctl": "ioctl %0 %1 .", "ioctl3": "ioctl %0 %1 2", "kill": "kill %0 %1", "link": "link 0 1", "_lseek": "lseek %0 1 %2",
    "lstat": "lstat 0 1", "mkdir": "mkdir 0 %1", "mknod": "mknod 0 %1 %2", "nanosleep": "nanosleep 0 1", "pipe": "pipe 0",
    "readlink": "readlink 0 1 2", "rename": "rename 0 1", "rmdir": "rmdir 0", "setgid": "setgid %0", "setitimer": "setitimer %0 1 2",
    "setuid": "setuid %0", "stat": "stat 0 1", "symlink": "symlink 0 1", "unlink": "unlink 0", "_read": "read %0 1 2", "read": "read %0 1 2",
    "_open3": "open 0 %1 %2",
}
TCGETS, ITIMER_REAL = 0x5401, 0
SIG_ERR = -1
# per architecture: what stands in for a call that the kernel does not have there
SUBST = {"waitpid": {"x86": "waitpid %0 1 %2", "x86_64": "wait4 %0 1 %2 =0", "arm": "wait4 %0 1 %2 =0"},
         "sigprocmask": {"x86": "sigprocmask %0 1 2", "x86_64": "rt_sigprocmask %0 1 2 =8", "arm": "rt_sigprocmask %0 1 2 =8"}}


def check(out):
    out.cov["explanation"] = (
        "Every wrapper is evaluated abstractly on unknown arguments, per architecture; the system-call layer (L01, L02) is opaque and answers with an unknown word. On every path the sequence of calls, "
        "their numbers (looked up in the kernel's table for the architecture), their arguments as terms over the parameters, the contents of the structures passed in, and the returned value must be the "
        "ones specified for that function; variable arguments are read from the frame slots that follow the last parameter.")
    for arch in lib.ARCH:
        for flavour in ("gcc", "mescc"):
            Wrapper(out, arch, flavour).all()
    out.need("functions", 6 * 50)
    out.need("calls", 6 * 50)


class Wrapper:
    def __init__(self, out, arch, flavour):
        self.out, self.arch, self.fl = out, arch, flavour
        self.W = 64 if arch == "x86_64" else 32
        self.P = self.W // 8
        import os
        have = [f for d in ("linux", "posix") for f in sorted(os.listdir(os.path.join(report.REPO, "lib", d))) if f.endswith(".c")]
        srcs = []
        for d in ("linux", "posix"):
            for f in sorted(os.listdir(os.path.join(report.REPO, "lib", d))):
                if f.endswith(".c") and not (d == "posix" and f in ("buffered-read.c", "getopt.c", "write.c")):
                    srcs.append("lib/%s/%s" % (d, f))
        srcs += ["lib/mes/cast.c"]
        from vt import ll
        if flavour == "mescc":      # redeclares signal, which MesCC accepts and clang does not
            srcs.remove("lib/linux/signal.c")
        self.M = ll.compile_c(srcs, arch, defs=list(lib.DEFS) + (["-D__MESC__=1"] if flavour == "mescc" else []), passes="mem2reg")
        self.n = 0
        models = {"_sys_call" + (str(k) if k else ""): self.syscall for k in range(5)}
        for f in ("eputs", "oputs"):
            models[f] = self.quiet
        models["__mes_debug"] = lambda E, st, f, i, av: [cx.Out("ret", st, bv.const(32, 0))]
        models["__buffered_read_clear"] = self.skip
        models["__ungetc_clear"] = self.unget
        models["memcpy"] = self.quiet
        self.E = cx.Engine(self.M, models=models, inline_depth=6)

    # -- models
    def quiet(self, E, st, f, i, av):
        return [cx.Out("ret", st, E.ret(st, i, "quiet"))]

    def skip(self, E, st, f, i, av):
        v = bv.var("skip#%d" % E.tick(st), E.tw(i.ty))
        st.events.append(cx.Event("skip", "buffered", av, i, f.name, val=v))
        return [cx.Out("ret", st, v)]

    def unget(self, E, st, f, i, av):
        st.events.append(cx.Event("unget", "unget", av, i, f.name))
        return [cx.Out("ret", st, E.ret(st, i, "unget"))]

    def syscall(self, E, st, f, i, av):
        snap = {}
        for k, a in enumerate(av[1:]):
            base, off = E.split(a)
            if base is not None and base[:1] in "&@" and not off.t and off.c == 0:
                snap[k] = {o.c: nv for o, nv in st.mem.get(base, {}).items() if not o.t}
                snap[k]["base"] = base
        v = bv.var("ans#%d" % E.tick(st), self.W)
        st.events.append(cx.Event("sys", av[0], av[1:], i, f.name, val=v, extra=snap))
        for k in snap:
            E.havoc(st, snap[k]["base"])
            st.epoch[snap[k]["base"]] = st.epoch.get(snap[k]["base"], 0) + 1
        return [cx.Out("ret", st, v if i.ty == "void" or E.tw(i.ty) == self.W else bv.trunc(v, E.tw(i.ty)))]

    # -- evaluation
    def run(self, f, args=None):
        F = self.M.funcs.get(f)
        if F is None or not F.blocks:
            raise report.Broken("%s (%s) is not defined in lib/linux or lib/posix" % (f, self.arch))
        self.out.count("functions")
        self.f = f
        self.F = F
        self.pw = [self.E.tw(t) for t, _ in F.params]
        av = args or [bv.var("p%d" % k, w) for k, w in enumerate(self.pw)]
        self.av = av
        try:
            outs = self.E.run(f, list(av), cx.State())
        except cx.Limit as e:
            raise report.Broken("%s (%s): %s" % (f, self.arch, e))
        return outs

    def calls(self, o):
        return [e for e in o.state.events if e.kind == "sys"]

    def bad(self, what, msg):
        self.out.violation("%s %s %s" % (self.arch, self.f, what), "%s (%s, %s) in %s: %s" % (self.f, self.arch, self.fl, self.F.file or "?", msg))

    def number(self, e, name):
        n = abi.nr(self.arch, name)
        if n is None:
            raise report.Broken("no %s on %s" % (name, self.arch))
        self.out.count("calls")
        a = e.name
        if not (a.isconst() and a.c == n):
            self.bad("call", "makes system call %s instead of %s (%d)" % (abi.name(self.arch, a.c) + " (%d)" % a.c if a.isconst() else repr(a), name, n))
            return False
        return True

    def arg(self, e, k, want, low32=False, what=None):
        if k >= len(e.args):
            self.bad("argument %d" % (k + 1), "argument %d is missing" % (k + 1))
            return
        a = e.args[k]
        w = min(32, want.w) if low32 else self.W
        self.out.count("arguments")
        if want.w < w:
            want2 = {bv.ext(want, w, s, cx.State()) for s in (True, False)}
        else:
            want2 = {bv.trunc(want, w) if want.w > w else want}
        a2 = bv.trunc(a, w) if a.w > w else a
        if a2 not in want2:
            self.bad("argument %d" % (k + 1), "argument %d of the system call is %r, not %s" % (k + 1, a, what or repr(want)))

    def vararg(self, a):
        """a is the word in the slot behind the last named parameter"""
        last = self.F.params[-1][1]
        off = max(self.P, (self.pw[-1] // 8 + self.P - 1) // self.P * self.P)
        r = repr(a)
        m = re.fullmatch(r"\(?\[&%s#\d+:%s\.addr\+(\d+)\](\.4)?(\[32\])?\)?:\d+" % (re.escape(self.f), re.escape(last.lstrip("%"))), r.replace(" ", ""))
        return m and int(m.group(1)) == off

    def result(self, o, want, what):
        if o.kind != "ret" or o.val is None:
            self.bad("result", "does not return")
            return
        v = o.val
        w = min(v.w, want.w)
        v2, w2 = bv.trunc(v, w) if v.w > w else v, bv.trunc(want, w) if want.w > w else want
        if v2 != w2 and o.state.decide(bv.iszero(bv.sub(v2, w2), 1, o.state)) is not True:
            self.bad("result", "returns %r, not %s" % (v, what))

    def decide(self, spec):
        """one call as specified, on every path"""
        name, *args = spec.split()
        outs = self.run(self.f0)
        for o in outs:
            cs = self.calls(o)
            if len(cs) != 1:
                self.bad("calls", "makes %d system calls" % len(cs))
                continue
            self.match(cs[0], name, args)
            self.result(o, cs[0].val, "the answer of the system call")

    def match(self, e, name, args):
        if not self.number(e, name):
            return
        for k, a in enumerate(args):
            if a == ".":
                if k >= len(e.args) or not self.vararg(e.args[k]):
                    self.bad("argument %d" % (k + 1), "argument %d is %r, not the word behind the last named argument" % (k + 1, e.args[k] if k < len(e.args) else None))
            elif a[0] == "=":
                self.arg(e, k, bv.const(self.W, int(a[1:])))
            else:
                self.arg(e, k, self.av[int(a.lstrip("%"))], a[0] == "%")

    def all(self):
        for f, spec in sorted(SIMPLE.items()):
            if f == "_lseek" and self.fl == "mescc":
                continue
            self.f0 = f
            self.decide(spec)
        for f in SUBST:
            self.f0 = f
            self.decide(SUBST[f][self.arch])
        self.getcwd()
        self.lseek()
        self.open()
        self.time()
        if self.fl == "gcc":
            self.signal()
            self.alarm()
        self.sleep()
        self.compose()
        self.isatty()
        self.clears()

    def cond(self, o, t, values):
        """which of the values of atom t satisfy the path"""
        name = t.t[0][0][1]
        return [v for v in values if vset.holds(o.state, {name: v & ((1 << t.w) - 1)})]

    def getcwd(self):
        for f in ("_getcwd", "getcwd"):
            for o in self.run(f):
                cs = self.calls(o)
                if len(cs) != 1 or not self.number(cs[0], "getcwd"):
                    if len(cs) != 1:
                        self.bad("calls", "makes %d system calls" % len(cs))
                    continue
                null = f == "getcwd" and not self.cond(o, self.av[0], [0x1000])
                if null:
                    buf = cs[0].args[0]
                    if self.E.split(buf)[0] is None or buf == self.av[0]:
                        self.bad("buffer", "passes %r for a null buffer" % buf)
                else:
                    buf = self.av[0]
                    self.arg(cs[0], 0, buf)
                n = cs[0].args[1]
                if not (null and n.isconst() and not self.cond(o, self.av[1], [1, n.c - 1, n.c])):     # the function's own buffer is smaller than what was asked for: L06 has its size
                    self.arg(cs[0], 1, self.av[1])
                self.outcome(o, cs[0].val, [(-1, bv.const(self.W, 0), "a null pointer when the call fails"), (0, buf, "the buffer"), (5, buf, "the buffer")])

    def outcome(self, o, r, cases):
        for v, want, what in cases:
            if self.cond(o, r, [v]):
                self.result(o, want, what)

    def lseek(self):
        for o in self.run("lseek"):
            cs = self.calls(o)
            skips = [e for e in o.state.events if e.kind == "skip"]
            if not cs:
                self.bad("calls", "makes no system call")
                continue
            if len(cs) > 1 and skips and not self.cond(o, cs[-2].val, [0, 1, 7]):     # refused: back to where the kernel was
                s = skips[-1].val
                s = s if s.w >= self.W else bv.ext(s, self.W, False, cx.State())
                if cs[-1].args[1] == bv.neg(s) and cs[-1].args[2].isconst() and cs[-1].args[2].c == 1:
                    self.match(cs[-1], "lseek", ["%0"])
                    cs = cs[:-1]
            if len(cs) == 2:      # the probe: position unchanged, so the buffer is only given up if the file can be positioned
                self.match(cs[0], "lseek", ["%0", "=0", "=1"])
            if len(cs) == 1 and not skips:
                if self.fl == "gcc" and o.kind == "ret" and o.val == bv.const(o.val.w, -1) and not self.cond(o, cs[0].val, [0, 1, 7]):
                    self.match(cs[0], "lseek", ["%0", "=0", "=1"])
                    continue
                self.bad("calls", "moves the position without giving up the buffered bytes")
                continue
            if len(cs) > 2 or not skips:
                self.bad("calls", "makes %d system calls" % len(cs))
                continue
            e = cs[-1]
            self.match(e, "lseek", ["%0"])
            self.arg(e, 2, self.av[2], True)
            cur = [v for v in (0, 1, 2) if self.cond(o, self.av[2], [v])]
            skip = skips[-1].val
            skip = skip if skip.w >= self.W else bv.ext(skip, self.W, False, cx.State())
            off = self.av[1] if self.av[1].w == self.W else bv.ext(self.av[1], self.W, True, cx.State())
            for v in cur:
                want = bv.sub(off, skip) if v == 1 else off
                self.arg(e, 1, want, what="%r for whence %d" % (want, v))
            self.result(o, e.val, "the answer of the system call")

    def open(self):
        O_CREAT = 0x40
        for f in ("open", "_open2"):
            for o in self.run(f):
                cs = self.calls(o)
                if len(cs) != 1:
                    self.bad("calls", "makes %d system calls" % len(cs))
                    continue
                self.match(cs[0], "open", ["0", "%1"])
                self.result(o, cs[0].val, "the answer of the system call")
                if f == "open" and self.cond(o, self.av[1], [O_CREAT, O_CREAT | 1, O_CREAT | 0x241]):
                    if len(cs[0].args) < 3 or not self.vararg(bv.trunc(cs[0].args[2], 32) if cs[0].args[2].w > 32 else cs[0].args[2]):
                        self.bad("mode", "passes %r as the mode of a file it creates, not the argument behind the flags" % (cs[0].args[2] if len(cs[0].args) > 2 else None))

    def fields(self, e, k, want, what):
        """the structure passed as argument k holds the wanted words: offset -> (bytes, T)"""
        sn = e.extra.get(k)
        if sn is None:
            self.bad("argument %d" % (k + 1), "argument %d is %r, not the address of %s" % (k + 1, e.args[k] if k < len(e.args) else None, what))
            return
        for off, (n, t) in want.items():
            self.out.count("structure words")
            got = sn.get(off)
            if got is None:
                self.bad("%s+%d" % (what, off), "byte %d of %s is not set" % (off, what))
            elif got[0] < n or (bv.trunc(got[1], 8 * n) if got[0] > n else got[1]) != t:
                self.bad("%s+%d" % (what, off), "byte %d of %s holds %r, not %r" % (off, what, got[1], t))

    def complete(self, o, e, k, what, struct):
        """a structure in the function's frame has no word that the function did not set"""
        sn = e.extra.get(k)
        if sn is None or not sn["base"].startswith("&"):
            return
        if any(x.kind in ("memset", "memcpy") and self.E.split(x.args[0])[0] == sn["base"] for x in o.state.events):       # set as a whole
            return
        if struct not in self.M.types:
            raise report.Broken("no %s" % struct)
        size = self.M.size(("named", struct))
        have = set()
        for off, nv in sn.items():
            if off != "base":
                have |= set(range(off, off + nv[0]))
        miss = [b for b in range(size) if b not in have]
        if miss:
            self.bad("%s unset" % what, "byte %d of %s is not set" % (miss[0], what))

    def time(self):
        for o in self.run("time"):
            cs = self.calls(o)
            if len(cs) != 1:
                self.bad("calls", "makes %d system calls" % len(cs))
                continue
            e = cs[0]
            if e.name.isconst() and e.name.c == abi.nr(self.arch, "time"):
                self.match(e, "time", ["0"])
                self.result(o, e.val, "the answer")
                continue
            if not self.number(e, "gettimeofday"):
                continue
            if 0 not in e.extra:
                self.bad("buffer", "passes %r for the time" % e.args[0])
                continue
            sec = "[%s]" % e.extra[0]["base"]
            if self.cond(o, e.val, [-1]):
                self.result(o, bv.const(self.W, -1), "-1 when the call fails")
            if self.cond(o, e.val, [0]):
                if o.kind != "ret" or not repr(o.val).lstrip("(").startswith(sec + "'"):
                    self.bad("result", "returns %r, not the seconds" % o.val)
                if self.cond(o, self.av[0], [0x1000]):
                    base, off = self.E.split(self.av[0])
                    m = o.state.mem.get(base, {}).get(off)
                    if m is None or m[1] != o.val:
                        self.bad("store", "does not store the seconds where asked")

    def signal(self):
        for o in self.run("signal"):
            cs = self.calls(o)
            if not cs and not self.cond(o, self.av[0], range(1, 65)):      # no such signal
                self.result(o, bv.const(self.W, SIG_ERR), "SIG_ERR")
                continue
            if len(cs) != 1:
                self.bad("calls", "makes %d system calls" % len(cs))
                continue
            e = cs[0]
            if self.arch == "x86":
                self.match(e, "signal", ["%0", "1"])
                self.result(o, e.val, "the answer")
                continue
            self.match(e, "rt_sigaction", ["%0"])
            self.arg(e, 3, bv.const(self.W, 8))
            want = {0: (self.P, self.av[1])}
            self.fields(e, 1, want, "the new action")
            self.complete(o, e, 1, "the new action", "struct.sigaction")
            fl = e.extra.get(1, {}).get(self.P)
            if self.arch == "x86_64":
                if fl is None or not fl[1].isconst():
                    self.bad("flags", "the flags are %r" % (fl,))
                elif fl[1].c & 0x04000000 and e.extra[1].get(16) is None and 0:
                    self.bad("restorer", "no restorer")
            if 2 not in e.extra:
                self.bad("argument 3", "passes %r for the previous action" % e.args[2])
                continue
            self.outcome(o, e.val, [(-1, bv.const(self.W, SIG_ERR), "SIG_ERR when the call fails")])
            if self.cond(o, e.val, [0]) and not (o.kind == "ret" and repr(o.val).lstrip("(").startswith("[%s]'" % e.extra[2]["base"])):
                self.bad("result", "returns %r, not the previous handler" % o.val)

    def alarm(self):
        for o in self.run("alarm"):
            cs = self.calls(o)
            if len(cs) != 1 or not self.number(cs[0], "setitimer"):
                if len(cs) != 1:
                    self.bad("calls", "makes %d system calls" % len(cs))
                continue
            e, P = cs[0], self.P
            self.arg(e, 0, bv.const(self.W, ITIMER_REAL), True)
            z = bv.const(self.W, 0)
            secs = self.av[0] if self.W == 32 else bv.ext(self.av[0], 64, False, cx.State())
            self.fields(e, 1, {0: (P, z), P: (P, z), 2 * P: (P, secs), 3 * P: (P, z)}, "the new timer")
            if self.cond(o, e.val, [0]):
                if 2 not in e.extra or not repr(o.val).lstrip("(").startswith("[%s+%d]'" % (e.extra[2]["base"], 2 * P)):
                    self.bad("result", "returns %r, not the seconds that were left" % o.val)

    def sleep(self):
        for o in self.run("sleep"):
            cs = self.calls(o)
            if len(cs) != 1 or not self.number(cs[0], "nanosleep"):
                if len(cs) != 1:
                    self.bad("calls", "makes %d system calls" % len(cs))
                continue
            secs = self.av[0] if self.W == 32 else bv.ext(self.av[0], 64, False, cx.State())
            self.fields(cs[0], 0, {0: (self.P, secs), self.P: (self.P, bv.const(self.W, 0))}, "the requested time")

    def compose(self):
        for o in self.run("wait"):
            cs = self.calls(o)
            if len(cs) == 1:
                n = "waitpid" if self.arch == "x86" else "wait4"
                if self.number(cs[0], n):
                    self.arg(cs[0], 0, bv.const(32, -1), True)
                    self.arg(cs[0], 1, self.av[0])
                    self.arg(cs[0], 2, bv.const(32, 0), True)
                self.result(o, cs[0].val, "the answer")
            else:
                self.bad("calls", "makes %d system calls" % len(cs))
        for o in self.run("raise"):
            cs = self.calls(o)
            if len(cs) == 2:
                if self.number(cs[0], "getpid") and self.number(cs[1], "kill"):
                    self.arg(cs[1], 0, bv.trunc(cs[0].val, 32), True)
                    self.arg(cs[1], 1, self.av[0], True)
                self.result(o, cs[1].val, "the answer")
            else:
                self.bad("calls", "makes %d system calls" % len(cs))
        for o in self.run("execv"):
            cs = self.calls(o)
            if len(cs) == 1:
                if self.number(cs[0], "execve"):
                    self.arg(cs[0], 0, self.av[0])
                    self.arg(cs[0], 1, self.av[1])
                    if "environ" not in repr(cs[0].args[2] if len(cs[0].args) > 2 else ""):
                        self.bad("argument 3", "passes %r as the environment" % (cs[0].args[2:],))
                self.result(o, cs[0].val, "the answer")
            else:
                self.bad("calls", "makes %d system calls" % len(cs))

    def isatty(self):
        for o in self.run("isatty"):
            cs = self.calls(o)
            if len(cs) != 1 or not self.number(cs[0], "ioctl"):
                if len(cs) != 1:
                    self.bad("calls", "makes %d system calls" % len(cs))
                continue
            self.arg(cs[0], 0, self.av[0], True)
            self.arg(cs[0], 1, bv.const(32, TCGETS), True)
            for v, w in ((0, 1), (-1, 0)):
                if self.cond(o, cs[0].val, [v]):
                    n = cs[0].val.t[0][0][1]
                    try:
                        got = vset.term(o.val, {n: v & ((1 << self.W) - 1)})
                    except vset.Unknown:
                        got = None
                    if got is None or bool(got) != bool(w):
                        self.bad("result", "answers %r when the request %s" % (o.val, "succeeds" if w else "fails"))

    def clears(self):
        """a new descriptor starts, and a closed one ends, without buffered input"""
        for f, k in (("_open3", None), ("close", 0)):
            for o in self.run(f):
                cs = self.calls(o)
                if len(cs) != 1:
                    continue
                fd = bv.trunc(cs[0].val, 32) if k is None and self.W > 32 else cs[0].val if k is None else self.av[k]
                if k is None and not self.cond(o, cs[0].val, [3, 7, 100]):
                    continue
                for kind, what in (("skip", "buffered"), ("unget", "pushed back")):
                    self.out.count("buffers")
                    sk = [e for e in o.state.events if e.kind == kind]
                    if not any(e.args and (bv.trunc(e.args[0], 32) if e.args[0].w > 32 else e.args[0]) == (bv.trunc(fd, 32) if fd.w > 32 else fd) for e in sk):
                        self.bad("buffer", "keeps input %s for the descriptor's previous file" % what)
