"""G13: system and port primitives make the C library call they are named after, with their operands, and give back its answer."""
from vt import bv, cx, lib, mesc, prim, report, vset
from vt.bv import T

O_RDONLY, O_WRONLY, O_CREAT, O_TRUNC = 0, 1, 0o100, 0o1000
SIGABRT = 6
LIBC = ("open", "access", "chmod", "getenv", "setenv", "isatty", "fork", "execv", "waitpid", "time", "gettimeofday", "getcwd", "dup", "dup2", "unlink", "__raise", "raise",
        "write", "fdgetc", "fdungetc", "clock_gettime", "strcpy", "memcpy", "exit", "abort", "close", "mkdir", "rename", "rmdir", "kill", "link", "symlink", "read", "lseek",
        "fdputc", "putenv", "unsetenv", "vfork", "wait", "execve", "execvp", "chdir", "_open3", "mes_open")
MAKE = {"make_number": "number", "make_char": "character", "make_string0": "string0", "make_string": "string", "cons": "pair", "make_string_port": "port", "make_cell": "cell",
        "make_pointer_cell": "cell", "make_value_cell": "cell"}
N, S, Q = "TNUMBER", "TSTRING", "TPORT"
# primitive: operand types, call, its arguments (Vk the number, Sk the text of operand k, a number, or * for anything), the answer
SIMPLE = [
    ("access?", (S, N), "access S0 V1", {0: "#t", -1: "#f", -13: "#f"}),
    ("chmod", (S, N), "chmod S0 V1", None),
    ("isatty?", (N,), "isatty V0", {1: "#t", 0: "#f"}),
    ("primitive-fork", (), "fork", "number"),
    ("dup", (N,), "dup V0", "number"),
    ("dup2", (N, N), "dup2 V0 V1", None),
    ("delete-file", (S,), "unlink S0", None),
    ("current-time", (), "time =0", "number"),
    ("getcwd", (), "getcwd * >512", "string0"),
    ("getenv", (S,), "getenv S0", {0x1000: "string0", 0: "#f"}),
    ("open-input-file", (S,), "mes_open S0 =%d *" % O_RDONLY, {0: "number", 3: "number", -1: "error"}),
    ("open-output-file", (S,), "mes_open S0 =%d =%d" % (O_WRONLY | O_CREAT | O_TRUNC, 0o600), "number"),
    ("open-output-file", (S, N), "mes_open S0 =%d V1" % (O_WRONLY | O_CREAT | O_TRUNC), "number"),
    ("exit", (N,), "exit V0", "ends"),
    ("abort", (), "__raise =%d" % SIGABRT, "any"),
]


def check(out):
    out.cov["explanation"] = (
        "The function of every system and port primitive is evaluated abstractly on unknown operands of the accepted types, with the C library's functions answering unknown values. On every path the sequence of C library "
        "calls and their arguments, as terms over the operands, the special objects and numbers returned, and the current ports afterwards must be the specified ones.")
    for arch in ("x86_64", "x86"):
        G13(out, arch).all()
    out.need("primitives", 2 * 30)
    out.need("paths", 2 * 60)
    out.need("arguments", 2 * 30)


class G13:
    def __init__(self, out, arch):
        self.out = out
        self.p = prim.Prims(arch)
        self.m = self.p.m
        self.W, self.P, self.arch = self.m.W, self.m.P, arch

    def engine(self, over=None):
        models = {}

        def lib_(name):
            def g(E, st, f, i, av):
                n = len([e for e in st.events if e.kind == "libc"])
                v = bv.var("ans#%d" % n, E.tw(i.ty)) if i.ty != "void" else None
                snap = {}
                for k, a in enumerate(av):
                    if a.w != E.W:
                        continue
                    base, off = E.split(a)
                    if base is not None:
                        snap[k] = (base, off, {o: nv for o, nv in st.mem.get(base, {}).items()})
                st.events.append(cx.Event("libc", name, av, i, f.name, val=v, extra=snap))
                if name in ("waitpid", "gettimeofday", "time", "clock_gettime", "read"):
                    for k, (base, off, _) in snap.items():
                        if base[:1] in "&[@":
                            E.havoc(st, base)
                if name in ("exit", "abort"):
                    return [cx.Out("exit", st)]
                return [cx.Out("ret", st, v)]
            return g

        def make(kind):
            def g(E, st, f, i, av):
                v = bv.var("^new#%d" % E.tick(st), self.W)
                E.ptratoms.add(v.t[0][0][1])
                text = None
                if kind.startswith("string") and av:
                    base, off = E.split(av[0])
                st.events.append(cx.Event("make", kind, av, i, f.name, val=v))
                if kind == "string":
                    st.mem[v.t[0][0][1]] = {T(self.W, self.m.O[0]): (self.P, T(self.W, self.m.tags["TSTRING"])),
                                            T(self.W, self.m.O[1]): (self.P, av[1] if av[1].w == self.W else bv.ext(av[1], self.W, False, st)),
                                            T(self.W, self.m.O[2]): (self.P, bv.var("^bytes#%s" % v.t[0][0][1][5:], self.W))}
                return [cx.Out("ret", st, v)]
            return g
        for n in LIBC:
            models[n] = lib_(n)
        for n, k in MAKE.items():
            models[n] = make(k)
        models.update(over or {})
        return self.p.engine(models=models, max_paths=3000)

    # -- terms
    def V(self, k):
        return bv.var("[&x%d+%d]" % (k, self.m.O[2]), self.W)

    def S(self, k, name=None):
        s = bv.var("[%s+%d]" % (name or "&x%d" % k, self.m.O[2]), self.W)
        return self.bytes_of(s)

    def bytes_of(self, s):
        if not hasattr(self, "boff"):
            E = self.m.engine()
            E.models["cast_voidp_to_charp"] = prim.ident
            x = bv.var("s", self.W)
            outs = [o for o in E.run("cell_bytes", [x], cx.State()) if o.kind == "ret"]
            if len(outs) != 1:
                raise report.Broken("cell_bytes has %d outcomes" % len(outs))
            self.boff = bv.sub(outs[0].val, x)
        return bv.add(s, self.boff)

    def same(self, a, want):
        w = min(a.w, want.w)
        return (bv.trunc(a, w) if a.w > w else a) == (bv.trunc(want, w) if want.w > w else want)

    # -- reporting
    def bad(self, what, msg):
        fn = self.p.reg[self.name][1]
        self.out.violation("%s %s" % (self.name, what), "(%s%s) (%s, %s): %s" % (self.name, " " + " ".join(t or "any" for t in self.types) if self.types else "", fn, self.arch, msg))

    def run(self, name, types, prepare=None, over=None):
        if name not in self.p.reg:
            raise report.Broken("%s is not registered" % name)
        self.name, self.types = name, types
        self.out.count("primitives")
        E = self.engine(over)
        if name in ("open-output-file", "read-char", "write-byte", "write-char"):
            E.peel = 3
        st = cx.State()
        if prepare:
            prepare(E, st)
        try:
            outs = self.p.run(E, name, types, st)
        except cx.Limit as e:
            raise report.Broken("%s: %s" % (name, e))
        self.E = E
        for o in outs:
            self.out.count("paths")
            yield o, [e for e in o.state.events if e.kind == "libc"], [e for e in o.state.events if e.kind == "make"]

    def cond(self, o, t, v):
        return vset.holds(o.state, {t.t[0][0][1]: v & ((1 << t.w) - 1)})

    def arg(self, e, k, spec):
        self.out.count("arguments")
        if spec == "*":
            return
        if spec[0] == ">":
            if k >= len(e.args) or not e.args[k].isconst() or not int(spec[1:]) <= e.args[k].c < 1 << 31:
                self.bad("argument %d" % (k + 1), "argument %d of %s is %r, not at least %s" % (k + 1, e.name, e.args[k] if k < len(e.args) else None, spec[1:]))
            return
        want = self.V(int(spec[1:])) if spec[0] == "V" else self.S(int(spec[1:])) if spec[0] == "S" else T(self.W, int(spec[1:]))
        if k >= len(e.args) or not self.same(e.args[k], want):
            what = {"V": "the number that is operand %d", "S": "the text of operand %d"}.get(spec[0], "%s") % (int(spec[1:]) + 1 if spec[0] in "VS" else spec[1:])
            self.bad("argument %d" % (k + 1), "argument %d of %s is %r, not %s" % (k + 1, e.name, e.args[k] if k < len(e.args) else None, what))

    def made(self, o, makes):
        return next((e for e in makes if e.val == o.val), None)

    def result(self, o, makes, want, of=None):
        """want: number/string0/character of the term, #t, #f, or any"""
        if want == "any":
            return
        if want == "error":
            if o.kind not in ("error", "assert", "exit"):
                self.bad("failure", "returns although the call failed")
            return
        if o.kind != "ret":
            self.bad("result", "does not return (%s)" % o.kind)
            return
        if want in ("#t", "#f"):
            if o.val != bv.var("^cell_" + want[1], self.W):
                self.bad("result", "answers %r, not %s" % (o.val, want))
            return
        e = self.made(o, makes)
        if e is None or e.name != want:
            self.bad("result", "answers %s, not a %s" % (e.name if e else repr(o.val), want))
        elif of is not None and not self.same(e.args[0], of):
            self.bad("result", "answers the %s of %r, not of %r" % (want, e.args[0], of))

    # -- the primitives
    def all(self):
        for name, types, call, result in SIMPLE:
            fn, *args = call.split()
            returns = 0
            for o, calls, makes in self.run(name, types):
                if len(calls) != 1 and not (result == "any" and calls):
                    if o.kind in ("assert", "error") and not calls:
                        continue                     # refused: G08
                    self.bad("calls", "makes %d C library calls%s" % (len(calls), ": " + ", ".join(e.name for e in calls) if calls else ""))
                    continue
                e = calls[0]
                if e.name != fn:
                    self.bad("call", "calls %s, not %s" % (e.name, fn))
                    continue
                returns += 1
                for k, a in enumerate(args):
                    self.arg(e, k, a)
                if result == "ends":
                    if o.kind != "exit":
                        self.bad("result", "goes on")
                elif isinstance(result, dict):
                    for v, want in result.items():
                        if self.cond(o, e.val, v):
                            self.result(o, makes, want, e.val if want in ("number", "string0") else None)
                elif result in ("number", "string0"):
                    self.result(o, makes, result, e.val)
                elif result is None and o.kind != "ret":
                    self.bad("result", "does not return (%s)" % o.kind)
            if not returns:
                self.bad("none", "never calls %s" % fn)
        self.setenv()
        self.execl()
        self.waitpid()
        self.gettimeofday()
        self.write_byte()
        self.input()
        self.ports()
        self.string_port()

    def setenv(self):
        n = 0
        for o, calls, makes in self.run("setenv", (S, S)):
            if o.kind != "ret":
                continue
            n += 1
            sets = [e for e in calls if e.name == "setenv"]
            other = [e for e in calls if e.name not in ("setenv", "strcpy", "memcpy")]
            if len(sets) != 1 or other:
                self.bad("calls", "calls %s" % ", ".join(e.name for e in calls))
                continue
            e = sets[0]
            if not self.same(e.args[0], self.S(0)):
                c = [x for x in calls[:calls.index(e)] if x.name in ("strcpy", "memcpy") and x.args[0] == e.args[0]]
                if not c or not self.same(c[-1].args[1], self.S(0)):
                    self.bad("name", "sets %r, which is not the text of operand 1" % e.args[0])
            self.arg(e, 1, "S1")
            if not (e.args[2].isconst() and e.args[2].c):
                self.bad("overwrite", "passes %r for overwrite" % e.args[2])
        if not n:
            self.bad("none", "never returns")

    def execl(self):
        n = 0

        def length(E, st, f, i, av):
            return [cx.Out("ret", st, T(E.tw(i.ty), 2))]
        for o, calls, makes in self.run("execl", (S, "L:TSTRING,TSTRING"), over={"length__": length}, prepare=lambda E, st: setattr(E, "peel", 5)):
            if o.kind != "ret":
                continue
            n += 1
            ex = [e for e in calls if e.name == "execv"]
            if len(ex) != 1 or len(calls) != 1:
                self.bad("calls", "calls %s" % ", ".join(e.name for e in calls))
                continue
            e = ex[0]
            self.arg(e, 0, "S0")
            if 1 not in e.extra:
                self.bad("argument 2", "passes %r as argument vector" % e.args[1])
                continue
            base, off, mem = e.extra[1]
            want = [self.S(0), self.S(0, "&x1e"), self.S(0, "&x1f"), T(self.W, 0)]
            for k, w in enumerate(want):
                self.out.count("arguments")
                got = mem.get(bv.add(off, T(off.w, k * self.P)))
                if got is None or got[1] != w:
                    self.bad("vector %d" % k, "word %d of the argument vector is %r, not %r" % (k, got and got[1], w))
            self.result(o, makes, "number", e.val)
        if not n:
            self.bad("none", "never calls execv")

    def pair(self, o, makes, a, b):
        """the answer is the pair of the numbers a and b (terms, or predicates on terms)"""
        e = self.made(o, makes)
        if o.kind != "ret" or e is None or e.name != "pair":
            self.bad("result", "answers %r, not a pair" % o.val)
            return
        for k, (w, what) in enumerate((a, b)):
            x = next((y for y in makes if y.val == e.args[k]), None)
            if x is None or x.name != "number" or not (w(x.args[0]) if callable(w) else self.same(x.args[0], w)):
                self.bad("result %d" % k, "the %s of the answer is %r, not %s" % (("car", "cdr")[k], x.args[0] if x is not None else e.args[k], what))

    def stored(self, e, k, off=0):
        """is a term what the call left in the object its argument k points to?"""
        base, o, _ = e.extra[k]

        def f(t):
            atoms = [a for a, _ in t.t]
            while len(atoms) == 1 and atoms[0][0] in ("ex", "tr"):
                atoms = [a for a, _ in atoms[0][2].t] if isinstance(atoms[0][2], T) else [atoms[0][2]]
            if t.c or len(atoms) != 1 or atoms[0][0] != "v":
                return False
            n = atoms[0][1]
            d = o.c + off if not o.t else None
            return n.startswith("[%s%s]'" % (base, "+%d" % d if d else ""))
        return f

    def waitpid(self):
        for o, calls, makes in self.run("core:waitpid", (N, N)):
            if len(calls) != 1 or calls[0].name != "waitpid":
                if o.kind == "ret":
                    self.bad("calls", "calls %s" % ", ".join(e.name for e in calls))
                continue
            e = calls[0]
            self.arg(e, 0, "V0")
            self.arg(e, 2, "V1")
            if 1 not in e.extra:
                self.bad("argument 2", "passes %r for the status" % e.args[1])
                continue
            self.pair(o, makes, (e.val, "the answer of waitpid"), (self.stored(e, 1), "the status"))

    def gettimeofday(self):
        for o, calls, makes in self.run("gettimeofday", ()):
            if len(calls) != 1 or calls[0].name != "gettimeofday" or 0 not in calls[0].extra:
                self.bad("calls", "calls %s" % ", ".join(e.name for e in calls))
                continue
            e = calls[0]
            self.pair(o, makes, (self.stored(e, 0), "the seconds"), (self.stored(e, 0, self.P), "the microseconds"))

    def glob(self, o, g):
        e = o.state.mem.get("@" + g, {}).get(T(self.W, 0))
        return e[1] if e else None

    def current(self, st):
        """unknown but valid current descriptors"""
        for g in ("__stdin", "__stdout", "__stderr"):
            if g not in self.m.M.globals:
                raise report.Broken("%s not found" % g)
            st.mem["@" + g] = {T(self.W, 0): (4, bv.var(g, 32))}

    def write_byte(self):
        for name in ("write-byte", "write-char"):
            for typ in (N, "TCHAR"):
                for port in (None, N):
                    n = 0
                    for o, calls, makes in self.run(name, (typ,) if port is None else (typ, port), prepare=lambda E, st: self.current(st)):
                        if o.kind != "ret":
                            if calls:
                                self.bad("failure", "fails after writing")
                            continue
                        n += 1
                        if len(calls) != 1 or calls[0].name != "write":
                            self.bad("calls", "calls %s" % (", ".join(e.name for e in calls) or "nothing"))
                            continue
                        e = calls[0]
                        v = self.V(1)
                        for x in ([0, 1, 2, 3, 7] if port else [None]):
                            if x is not None and not self.cond(o, v, x):
                                continue
                            self.out.count("arguments")
                            want = "__stdout" if x in (None, 1) else "__stderr" if x == 2 else None
                            ok = self.same(e.args[0], bv.var(want, 32)) if want else self.same(e.args[0], v)
                            if want is None and not ok:
                                try:
                                    ok = vset.term(e.args[0], {v.t[0][0][1]: x}) == x
                                except vset.Unknown:
                                    pass
                            if not ok:
                                self.bad("port", "writes to %r%s" % (e.args[0], "" if x is None else " for port %d" % x))
                        self.out.count("arguments", 2)
                        if not (e.args[2].isconst() and e.args[2].c == 1):
                            self.bad("size", "writes %r bytes" % e.args[2])
                        got = None
                        if 1 in e.extra:
                            base, off, mem = e.extra[1]
                            got = mem.get(off)
                        if got is None and 1 in e.extra:
                            got = (1, None)
                            if e.extra[1][0] == "&x0" and e.extra[1][1] == T(self.W, self.m.O[2]):      # the operand's own low byte
                                got = (1, bv.trunc(self.V(0), 8))
                        if got is None or got[1] is None or not (got[1].w >= 8 and self.same(bv.trunc(got[1], 8) if got[1].w > 8 else got[1], bv.trunc(self.V(0), 8))):
                            self.bad("byte", "writes %r, not the value of operand 1" % (got and got[1]))
                    if not n:
                        self.bad("none", "never writes")

    def stdin_at(self, fd):
        def f(E, st):
            self.current(st)
            st.mem["@__stdin"] = {T(self.W, 0): (4, T(32, fd))}
        return f

    def input(self):
        """from a descriptor: one call, on the current port or the port given"""
        for name, kind, fns in (("read-byte", "number", ["fdgetc"]), ("peek-byte", "number", ["fdgetc", "fdungetc"]), ("read-char", "character", ["fdgetc"]), ("peek-char", "character", ["fdgetc", "fdungetc"])):
            for fd in (0, 5):
                for port in ((False, True) if name == "read-char" else (False,)):
                    n = 0
                    for o, calls, makes in self.run(name, (N,) if port else () if self.p.reg[name][0] != -1 else (), prepare=self.stdin_at(fd)):
                        if port and not self.cond(o, self.V(0), 7):
                            continue
                        n += 1
                        if o.kind != "ret" or [e.name for e in calls] != fns:
                            self.bad("calls", "%s calling %s, not %s" % (o.kind, ", ".join(e.name for e in calls) or "nothing", ", ".join(fns)))
                            continue
                        self.out.count("arguments", len(calls))
                        want = self.V(0) if port else T(32, fd)
                        g = calls[0]
                        if not self.same(g.args[0], want):
                            self.bad("port", "reads from %r, not from %r" % (g.args[0], want))
                        if len(calls) == 2 and not (calls[1].args[0] == g.val and self.same(calls[1].args[1], want)):
                            self.bad("unread", "puts back %r to %r" % tuple(calls[1].args[:2]))
                        self.result(o, makes, kind, g.val)
                        if self.glob(o, "__stdin") not in (None, T(32, fd)):
                            self.bad("stdin", "leaves the current input port %r" % self.glob(o, "__stdin"))
                    if not n:
                        self.bad("none", "never reads")
        for name, typ in (("unread-byte", N), ("unread-char", "TCHAR")):
            n = 0
            for o, calls, makes in self.run(name, (typ,), prepare=self.stdin_at(5)):
                if o.kind != "ret":
                    continue
                n += 1
                self.out.count("arguments")
                if [e.name for e in calls] != ["fdungetc"] or not self.same(calls[0].args[0], self.V(0)) or not self.same(calls[0].args[1], T(32, 5)):
                    self.bad("calls", "calls %s" % ", ".join(map(repr, calls)))
            if not n:
                self.bad("none", "never returns")

    def ports(self):
        for name, g in (("current-output-port", "__stdout"), ("current-error-port", "__stderr")):
            for o, calls, makes in self.run(name, (), prepare=lambda E, st: self.current(st)):
                self.result(o, makes, "number", bv.var(g, 32))
        for o, calls, makes in self.run("current-input-port", (), prepare=self.stdin_at(5)):
            self.result(o, makes, "number", T(32, 5))
        for name, g, d in (("set-current-output-port", "__stdout", 1), ("set-current-error-port", "__stderr", 2), ("set-current-input-port", "__stdin", 0)):
            n = 0
            for o, calls, makes in self.run(name, (N,), prepare=self.stdin_at(5)):
                if o.kind != "ret":
                    continue
                n += 1
                self.out.count("arguments")
                now = self.glob(o, g)
                for x in (0, 1, 2, 3, 9):
                    if not self.cond(o, self.V(0), x):
                        continue
                    try:
                        v = vset.term(now, {self.V(0).t[0][0][1]: x}) if now is not None else None
                    except vset.Unknown:
                        v = None
                    if v != (x or d):
                        self.bad("port", "makes %r the current port when given %d" % (now, x))
                if g == "__stdin":
                    self.result(o, makes, "number", T(32, 5))
                for h in ("__stdin", "__stdout", "__stderr"):
                    if h != g and self.glob(o, h) not in (T(32, 5) if h == "__stdin" else bv.var(h, 32),):
                        self.bad("other port", "changes %s" % h)
            if not n:
                self.bad("none", "never returns")
        n = 0
        for o, calls, makes in self.run("set-current-input-port", (Q,), prepare=self.stdin_at(5)):
            n += o.kind == "ret"
            if o.kind == "ret" and (self.glob(o, "__stdin") is None or not self.same(self.glob(o, "__stdin"), bv.var("[&x0+%d]" % self.m.O[1], self.W))):
                self.bad("port", "makes %r the current port when given a string port" % self.glob(o, "__stdin"))
        if not n:
            self.bad("none", "never returns")

    def string_port(self):
        """an open string port is current: two ports in the list, the wanted one first or second"""
        W, P, O = self.W, self.P, self.m.O
        for pos, mate in ((0, -4), (1, -4), (0, -20), (1, -20)):
            for L in (0, 1, 4):
                for name, kind, step in (("read-byte", "number", 1), ("peek-byte", "number", 0), ("read-char", "character", 1), ("peek-char", "character", 0), ("current-input-port", None, 0),
                                         ("unread-byte", None, -1), ("unread-char", None, -1)):
                    if L == 0 and step == -1:
                        continue
                    def prep(E, st):
                        self.current(st)
                        st.mem["@__stdin"] = {T(W, 0): (4, T(32, -9))}
                        ports = ["&pa", "&pb"]
                        for k, x in enumerate(ports):
                            mine = k == pos
                            st.mem["&s" + x[2]] = {T(W, O[0]): (P, T(W, self.m.tags["TSTRING"])), T(W, O[1]): (P, T(W, L if mine else 3)), T(W, O[2]): (P, bv.var("&b" + x[2], W))}
                            st.mem[x] = {T(W, O[0]): (P, T(W, self.m.tags["TPORT"])), T(W, O[1]): (P, T(W, -9 if mine else mate)), T(W, O[2]): (P, bv.var("&s" + x[2], W))}
                        self.p.list(st, [bv.var(x, W) for x in ports], pre="&g")
                        st.mem["@g_ports"] = {T(W, 0): (P, bv.var("&g0", W))}
                        E.peel = 4
                    x = "ab"[pos]
                    n = 0
                    types = () if step >= 0 else (N,) if name == "unread-byte" else ("TCHAR",)
                    for o, calls, makes in self.run(name, types, prepare=prep):
                        if step == -1 and self.cond(o, self.V(0), -1) and not self.cond(o, self.V(0), 97):
                            continue
                        n += 1
                        self.out.count("arguments")
                        if o.kind != "ret" or calls:
                            self.bad("string port calls", "%s%s with a string port" % (o.kind, ", calling " + ", ".join(e.name for e in calls) if calls else ""))
                            continue
                        if step == -1:
                            pstr = o.state.mem["&p" + x].get(T(W, O[2]))
                            s = next((y for y in makes if pstr is not None and y.val == pstr[1]), None)
                            b = self.bytes_of(bv.var("&b" + x, W))
                            if s is None or s.name != "string" or s.args[0] != bv.sub(b, T(W, 1)) or not (s.args[1].isconst() and s.args[1].c == L + 1):
                                self.bad("string port rest", "leaves %s of a string of %d bytes" % (tuple(s.args[:2]) if s is not None else pstr and pstr[1], L))
                                continue
                            base, off = self.E.split(self.bytes_of(o.state.mem[s.val.t[0][0][1]][T(W, O[2])][1]))
                            got = o.state.mem.get(base, {}).get(off)
                            if got is None or not self.same(got[1], bv.trunc(self.V(0), 8)):
                                self.bad("string port byte", "puts back %r" % (got and got[1]))
                            continue
                        if kind is None:
                            if o.val != bv.var("&p" + x, W):
                                self.bad("string port", "answers %r, not the current string port" % o.val)
                            continue
                        e = self.made(o, makes)
                        if e is None or e.name != kind:
                            self.bad("string port result", "answers %r" % o.val)
                            continue
                        pstr = o.state.mem["&p" + x].get(T(W, O[2]))
                        other = o.state.mem.get("&p" + "ba"[pos], {}).get(T(W, O[2]))
                        if other is None or other[1] != bv.var("&s" + "ba"[pos], W):
                            self.bad("string port other", "changes another port")
                        if L == 0:
                            if vset.sgn(e.args[0].c, e.args[0].w) != -1 or e.args[0].t:
                                self.bad("string port end", "answers %r at the end of a string port" % e.args[0])
                            if pstr is None or pstr[1] != bv.var("&s" + x, W):
                                self.bad("string port end", "changes the port at its end")
                            continue
                        b = self.bytes_of(bv.var("&b" + x, W))
                        base, off = self.E.split(b)
                        byte = o.state.mem.get(base, {}).get(off)
                        if byte is None:
                            self.bad("string port byte", "does not look at the first byte of the string")
                            continue
                        for v in (0, 1, 97, 127, 128, 200, 255):
                            try:
                                got = vset.sgn(vset.term(e.args[0], {a[1]: v for a, _ in byte[1].t if a[0] == "v"}), e.args[0].w)
                            except vset.Unknown as u:
                                got = "something unknown (%s)" % u
                            if vset.holds(o.state, {a[1]: v for a, _ in byte[1].t if a[0] == "v"}) and got != v:
                                self.bad("string port byte", "answers %s for a byte %d in a string port" % (got, v))
                        if not step:
                            if pstr is None or pstr[1] != bv.var("&s" + x, W):
                                self.bad("string port peek", "changes the string of the port")
                            continue
                        s = next((y for y in makes if pstr is not None and y.val == pstr[1]), None)
                        if s is None or s.name != "string" or s.args[0] != bv.add(b, T(W, 1)) or not (s.args[1].isconst() and s.args[1].c == L - 1):
                            self.bad("string port rest", "leaves %s of a string of %d bytes" % (tuple(s.args[:2]) if s is not None else pstr and pstr[1], L))
                    if not n:
                        self.bad("none", "no path")
        # a new port becomes known, with a name of its own, and reads the string it was given
        n = 0
        for o, calls, makes in self.run("open-input-string", (S,)):
            n += o.kind == "ret"
            e = self.made(o, makes)
            if o.kind != "ret" or e is None or e.name != "port" or e.args[0] != bv.var("&x0", W):
                self.bad("result", "answers %r, not a port on the string" % o.val)
                continue
            g = self.glob(o, "g_ports")
            c = next((y for y in makes if y.val == g), None)
            if c is None or c.name != "pair" or c.args[0] != o.val or "g_ports" not in repr(c.args[1]):
                self.bad("list", "does not add the port to the list of ports")
