"""L11: buffered input hands out every byte of a file once and in order."""
from vt import abi, fin, lib, ll, report

SRC = ["mes/__buffered_read.c", "mes/fdgetc.c", "mes/fdungetc.c", "mes/fdgets.c", "stdio/fgetc.c", "stdio/getc.c", "stdio/ungetc.c", "stdio/fgets.c", "stdio/fread.c", "stdio/fseek.c",
       "stdio/ftell.c", "stdio/feof.c", "posix/buffered-read.c", "posix/write.c", "linux/lseek.c", "linux/_read.c", "linux/_open3.c", "linux/close.c", "linux/dup2.c", "string/memmove.c", "string/memcpy.c",
       "string/strncpy.c"]
FD = 1
POS = 3            # where in the file the program is
END = 9            # length of the file


def check(out):
    out.cov["explanation"] = (
        "The input layer is explored to a fixpoint over a finite abstract domain in which file contents are named bytes with unknown values. From every state of buffer and pushed-back byte (buffer sizes 0 to 3, every fill), "
        "each operation is evaluated against a kernel that may return fewer bytes, nothing or an error at every call. Afterwards the bytes handed out and the bytes still pending must together be the bytes pending before, in "
        "order; so by induction no history of operations loses, repeats or reorders input. Seeking, writing, closing, opening and dup2 must leave no stale byte behind.")
    for arch in ("x86_64", "x86"):
        Input(out, arch).decide()
    out.need("evaluations", 600)
    out.need("outcomes", 1000)


def tok(k, w=8, ext=""):
    return ("t", w, "byte %d" % k, ext)


class Input:
    def __init__(self, out, arch):
        self.out, self.arch = out, arch
        self.M = lib.linked(arch, [s for s in ["lib/" + s for s in SRC]])
        for f in ("read", "fgetc", "ungetc", "fgets", "fread", "fseek", "ftell", "lseek", "write", "close", "_open3", "dup2"):
            if f not in self.M.funcs or not self.M.funcs[f].blocks:
                raise report.Broken("the C library does not define %s" % f)
        self.P = self.M.ptr
        self.W = 8 * self.P
        t = [n for n in self.M.types if n.startswith("struct.") and "read_buffer" in n]
        if len(t) != 1 or "__read_cache" not in self.M.globals or "__ungetc_buf" not in self.M.globals:
            raise report.Broken("the read buffer's structure is not found")
        self.ty = ("named", t[0])
        st = self.M.resolve(self.ty)
        self.size = self.M.size(self.ty)
        arr = [k for k, x in enumerate(st[1]) if x[0] == "arr"]
        num = [k for k, x in enumerate(st[1]) if x[0] == "i"]
        if len(arr) != 1 or len(num) != 1:
            raise report.Broken("the read buffer is not one array and one count")
        self.o_str, self.o_size = self.M.field(self.ty, arr[0])[0], self.M.field(self.ty, num[0])[0]
        self.n_size = self.M.size(st[1][num[0]])
        self.room = self.M.size(st[1][arr[0]])

    def bad(self, what, msg):
        self.out.violation("%s %s" % (self.arch, what), msg)

    # -- states
    def memory(self, mx, k, un, fd=FD):
        """the program is at byte POS; k bytes are buffered, un: byte POS was pushed back"""
        m = {}
        at = POS + (1 if un else 0)
        b = fd * self.size
        m["@__read_cache", 0, self.P] = ("p", "cache", 0)
        m["@__ungetc_buf", 0, self.P] = ("p", "unget", 0)
        m["@__read_buffer_max", 0, 4] = fin.const(32, mx)
        m["cache", b + self.o_size, self.n_size] = fin.const(8 * self.n_size, k)
        for j in range(k):
            m["cache", b + self.o_str + mx - k + j, 1] = tok(at + j)
        m["unget", 4 * fd, 4] = tok(POS, 32, "z") if un else fin.const(32, -1)
        m["%kernel", 0, 1] = fin.const(8, at + k)
        return m

    def pending(self, m, mx, fd=FD):
        """-> list of bytes still to come up to the kernel's position, position; or a message"""
        m = dict(m)
        b = fd * self.size
        n = m.get(("cache", b + self.o_size, self.n_size))
        u = m.get(("unget", 4 * fd, 4))
        pos = m.get(("%kernel", 0, 1))
        if n is None or n[0] != "c" or not 0 <= fin.sval(n) <= mx:
            return "the buffer's count is %s" % (fin.sval(n) if n and n[0] == "c" else "unknown")
        n = fin.sval(n)
        l = []
        if u is None or u[0] not in "ct" or u[0] == "c" and fin.sval(u) >= 0:
            return "the pushed-back byte is unknown"
        if u[0] == "t":
            if u[3] != "z":
                return "the pushed-back byte is sign extended"
            l.append(u[2])
        for j in range(n):
            t = m.get(("cache", b + self.o_str + mx - n + j, 1))
            if t is None or t[0] != "t":
                return "the buffer has a byte that was not read at offset %d" % (mx - n + j)
            l.append(t[2])
        return l, pos[2]

    # -- the kernel
    def kread(self, E, f, i, buf, n, fd, mem, es):
        if fd is None or fd[0] != "c" or fin.sval(fd) != FD:
            self.bad("descriptor " + f.name, "%s:%s: %s reads from another descriptor" % (f.file, i.line, f.name))
            return []
        pos = mem["%kernel", 0, 1][2]
        r = [(fin.const(self.W, -1), mem, es)]
        if n is None or n[0] != "c" or n[2] > 64:
            self.bad("size " + f.name, "%s:%s: %s asks the kernel for %s bytes" % (f.file, i.line, f.name, n[2] if n and n[0] == "c" else "an unknown number of"))
            return []
        if buf is None or buf[0] != "p" or buf[2] is None:
            self.bad("buffer " + f.name, "%s:%s: %s reads to an unknown place" % (f.file, i.line, f.name))
            return []
        self.touch(f, i, "write", buf[1], buf[2], n[2])
        for k in range(0 if pos == END or n[2] == 0 else 1, min(n[2], END - pos) + 1):
            m = dict(mem)
            for j in range(k):
                E.store(m, ("p", buf[1], buf[2] + j), 1, tok(pos + j), es)
            m["%kernel", 0, 1] = fin.const(8, pos + k)
            r.append((fin.const(self.W, k), m, es))
        return r

    def sys3(self, E, f, i, av, mem, es):
        if av[0] is None or av[0][0] != "c":
            return [(None, mem, es)]
        nr = abi.name(self.arch, av[0][2])
        if nr == "read":
            return self.kread(E, f, i, av[2], av[3], av[1], mem, es)
        if nr == "lseek":
            if av[1] is None or av[1][0] != "c" or fin.sval(av[1]) != FD:
                self.bad("descriptor " + f.name, "%s:%s: %s seeks on another descriptor" % (f.file, i.line, f.name))
                return []
            off, wh = av[2], av[3]
            if not self.seekable:
                return [(fin.const(self.W, -1), mem, es)]
            if off is None or off[0] != "c" or wh is None or wh[0] != "c":
                self.bad("seek " + f.name, "%s:%s: %s seeks to an unknown place" % (f.file, i.line, f.name))
                return []
            base = {0: 0, 1: mem["%kernel", 0, 1][2], 2: END}.get(wh[2])
            to = None if base is None else base + fin.sval(off)
            if to is None or to < 0:
                return [(fin.const(self.W, -1), mem, es)]
            m = dict(mem)
            m["%kernel", 0, 1] = fin.const(8, to)
            return [(fin.const(self.W, to), m, es)]
        if nr in ("open", "openat"):
            m = dict(mem)
            m["%kernel", 0, 1] = fin.const(8, 0)
            return [(fin.const(self.W, self.opened), m, es), (fin.const(self.W, -1), mem, es)]
        return [(None, mem, es)]

    def sys2(self, E, f, i, av, mem, es):
        if av[0] is not None and av[0][0] == "c" and abi.name(self.arch, av[0][2]) in ("dup2", "dup3"):
            m = dict(mem)
            m["%kernel", 0, 1] = fin.const(8, 0)
            return [(fin.const(self.W, FD), m, es), (fin.const(self.W, -1), mem, es)]
        return [(None, mem, es)]

    def sys1(self, E, f, i, av, mem, es):
        return [(fin.const(self.W, 0), mem, es), (fin.const(self.W, -1), mem, es)]

    def touch(self, f, i, kind, region, off, n):
        lim = {"cache": 512 * self.size, "unget": 4 * 513, "buf": self.bufsize}.get(region)
        if lim is None:
            return
        if off is None or n is None:
            return
        if off < 0 or off + n > lim:
            self.bad("%s %s" % (region, f.name), "%s:%s: %s: %s %d bytes at offset %d of %s (%d bytes)" % (
                f.file, i.line, f.name, kind, n, off, {"cache": "the read buffers", "unget": "the pushed-back bytes", "buf": "the caller's buffer"}[region], lim))
        if region == "cache" and kind == "write":
            lo = FD * self.size
            if not (lo <= off and off + n <= lo + self.size):
                self.bad("other %s" % f.name, "%s:%s: %s writes to the buffer of another descriptor" % (f.file, i.line, f.name))

    def run(self, fn, args, mem):
        self.out.count("evaluations")

        def write(E, f, i, av, m, es):
            self.wrote.append(m["%kernel", 0, 1][2])
            return [(fin.const(self.W, 1), m, es), (fin.const(self.W, -5), m, es)]

        def zero(E, f, i, av, m, es):
            return [(fin.const(32, 0), m, es)]

        def none(E, f, i, av, m, es):
            return [(None, m, es)]
        models = {"_sys_call3": self.sys3, "_sys_call2": self.sys2, "_sys_call1": self.sys1, "_write": write, "__mes_debug": zero,
                  "eputs": none, "eputc": none, "itoa": none, "getenv": none, "assert_msg": none}
        E = fin.Fin(self.M, access=self.touch, models=models, depth=40, limit=300000)
        E.windows = {"cache": 600 * self.size, "unget": 2400, "buf": 100}
        F = self.M.funcs[fn]
        a = []
        for v, (ty, n) in zip(args, F.params):
            w = self.W if ty == "ptr" else ty[1]
            a.append(fin.const(w, v) if isinstance(v, int) else v[:1] + (w,) + v[2:] if v is not None and v[0] == "t" else v)
        try:
            r = E.call(fn, a, tuple(sorted(mem.items(), key=repr)))
        except fin.Limit as e:
            raise report.Broken("%s: %s" % (fn, e))
        self.out.count("states", E.steps)
        for v, m, es in r or ():
            self.out.count("outcomes")
            yield v, dict(m)

    def both(self, fn, args, mem):
        """on a file that can be positioned, and on one that cannot"""
        yield from self.run(fn, args, mem)
        self.seekable = False
        yield from self.run(fn, args, mem)
        self.seekable = True

    # -- what must hold
    def stream(self, where, before, after, got, m0, m):
        """got + what is pending after it = what was pending before, each followed by the rest of the file"""
        want, have = (b + ["byte %d" % k for k in range(p, END)] for b, p in (before, (got + after[0], after[1])))
        if have != want:
            lost = [x for x in want if x not in have]
            self.bad(where[0], "%s: %s: %s" % (where[1], where[2], "%s lost" % ", ".join(lost) if lost else "repeated or out of order: handed out %s, then %s" % (", ".join(got) or "nothing", ", ".join(after[0]) or "nothing")))

    def decide(self):
        self.bufsize, self.seekable, self.opened = 0, True, FD
        for mx in range(0, 4):
            for k in range(0, mx + 1):
                for un in (False, True):
                    self.at(mx, k, un)

    def desc(self, mx, k, un):
        return "with a buffer of %d bytes of which %d are unread%s" % (mx, k, " and a byte pushed back" if un else "")

    def at(self, mx, k, un):
        M = self.M
        m0 = self.memory(mx, k, un)
        before = self.pending(m0, mx)
        d = self.desc(mx, k, un)
        buf = ("p", "buf", 0)

        def after(fn, m):
            a = self.pending(m, mx)
            if isinstance(a, str):
                self.bad(fn, "%s: %s, %s" % (M.funcs[fn].file, a, d))
                return None
            return a

        def bytes_(m, n):
            l = []
            for j in range(n):
                t = m.get(("buf", j, 1))
                l.append(t[2] if t is not None and t[0] == "t" else "nothing at offset %d" % j)
            return l
        file = {fn: M.funcs[fn].file for fn in M.funcs}
        # read: the pushed-back byte stays with the stream functions
        if not un:
            for n in range(0, 5):
                self.bufsize = n
                for v, m in self.run("read", [FD, buf, n], m0):
                    a = after("read", m)
                    if a is None:
                        continue
                    r = fin.sval(v) if v is not None and v[0] == "c" else None
                    w = ("read", file["read"], "read of %d %s answers %s" % (n, d, r))
                    if r is None or not -1 <= r <= n:
                        self.bad("read result", "%s: %s" % w[1:])
                    elif r == -1:
                        self.stream(w, before, a, [], m0, m)
                    else:
                        if r == 0 and n and a[1] < END:
                            self.bad("read end", "%s: %s before the end of the file" % w[1:])
                        self.stream(w, before, a, bytes_(m, r), m0, m)
        self.bufsize = 0
        for fn in ("fgetc", "getc"):
            for v, m in self.run(fn, [FD], m0) if fn in M.funcs else ():
                a = after(fn, m)
                if a is None:
                    continue
                w = (fn, file["fdgetc"] if "fdgetc" in file else file[fn], "%s %s" % (fn, d))
                if v is not None and v[0] == "t" and v[3] == "z":
                    self.stream(w, before, a, [v[2]], m0, m)
                elif v is not None and v[0] == "c" and fin.sval(v) == -1:
                    self.stream(w, before, a, [], m0, m)
                else:
                    self.bad(fn + " result", "%s: %s answers neither a byte from 0 to 255 nor EOF" % w[1:])
        if not un:
            for v, m in self.run("ungetc", [tok(POS - 1, 32, "z"), FD], m0):
                a = after("ungetc", m)
                if a is not None and a != (["byte %d" % (POS - 1)] + before[0], before[1]):
                    self.bad("ungetc", "%s: after ungetc %s the next bytes are %s" % (file["fdungetc"], d, ", ".join(a[0]) or "the kernel's"))
                if v is None or v[0] != "t":
                    self.bad("ungetc result", "%s: ungetc does not answer the byte" % file["fdungetc"])
            for v, m in self.run("ungetc", [-1, FD], m0):
                a = after("ungetc", m)
                if a is not None and a != before:
                    self.bad("ungetc EOF", "%s: pushing back EOF changes the input" % file["fdungetc"])
        for v, m in self.run("feof", [FD], m0) if "feof" in M.funcs else ():
            a = after("feof", m)
            if a is not None:
                self.stream(("feof", file["feof"], "feof " + d), before, a, [], m0, m)
        for n in range(1, 4):
            self.bufsize = n
            for v, m in self.run("fread", [buf, 1, n, FD], m0):
                a = after("fread", m)
                if a is None:
                    continue
                r = fin.sval(v) if v is not None and v[0] == "c" else None
                w = ("fread", file["fread"], "fread of %d %s answers %s" % (n, d, r))
                if r is None or not 0 <= r <= n:
                    self.bad("fread result", "%s: %s" % w[1:])
                else:
                    self.stream(w, before, a, bytes_(m, r), m0, m)
            self.bufsize = 2 * n        # elements of more than one byte: the answer counts the complete ones
            for v, m in self.run("fread", [buf, 2, n, FD], m0) if n < 3 else ():
                a = after("fread", m)
                if a is None:
                    continue
                r = fin.sval(v) if v is not None and v[0] == "c" else None
                e = next((j for j in range(2 * n) if ("buf", j, 1) not in m), 2 * n)
                w = ("fread elements", file["fread"], "fread of %d elements of 2 bytes %s answers %s after reading %d bytes" % (n, d, r, e))
                if r is None or r != e // 2:
                    self.bad("fread elements", "%s: %s" % w[1:])
                else:
                    self.stream(w, before, a, bytes_(m, e), m0, m)
            self.bufsize = n
            for v, m in self.run("fgets", [buf, n, FD], m0):
                a = after("fgets", m)
                if a is None:
                    continue
                w = ("fgets", file["fdgets"], "fgets of %d %s" % (n, d))
                if v == buf:
                    e = [j for j in range(n) if (m.get(("buf", j, 1)) or "?")[0] == "c"]
                    if not e:
                        self.bad("fgets end", "%s: %s leaves no null byte" % w[1:])
                    else:
                        self.stream(w, before, a, bytes_(m, e[0]), m0, m)
                elif v is not None and v[0] == "c" and v[2] == 0:
                    self.stream(w, before, a, [], m0, m)
                else:
                    self.bad("fgets result", "%s: %s answers neither the buffer nor a null pointer" % w[1:])
        # positions
        self.bufsize = 0
        for fn, off, whence, to in (("fseek", 2, 0, 2), ("fseek", 0, 0, 0), ("lseek", 0, 0, 0), ("fseek", 1, 1, POS + 1), ("fseek", 0, 1, POS), ("fseek", -1, 2, END - 1), ("lseek", 2, 0, 2), ("lseek", 1, 1, None), ("lseek", -1, 2, END - 1), ("fseek", -1, 0, -1), ("lseek", -1, 0, -1), ("fseek", -9, 1, -1), ("lseek", -9, 1, -1)):
            if fn == "lseek" and un:
                continue
            for v, m in self.both(fn, [FD, off, whence], m0):
                a = after(fn, m)
                if a is None:
                    continue
                r = fin.sval(v) if v is not None and v[0] == "c" else None
                w = (fn, file[fn], "%s (%d, %s) %s" % (fn, off, ("SEEK_SET", "SEEK_CUR", "SEEK_END")[whence], d))
                if r == -1:
                    self.stream((w[0] + " failure", w[1], w[2] + " fails"), before, a, [], m0, m)
                    continue
                t = POS + 1 if to is None else to
                if r != (0 if fn == "fseek" else t) or a[0] != [] and a[0] != ["byte %d" % j for j in range(t, a[1])] or a[1] - len(a[0]) != t:
                    self.bad(fn, "%s: after %s, which answers %s, the next byte is %s, not byte %d" % (w[1], w[2], r, a[0][0] if a[0] else "byte %d" % a[1], t))
        for v, m in self.both("ftell", [FD], m0):
            a = after("ftell", m)
            if a is None:
                continue
            r = fin.sval(v) if v is not None and v[0] == "c" else None
            if r not in (-1, POS):
                self.bad("ftell", "%s: ftell %s answers %s at byte %d" % (file["ftell"], d, r, POS))
            self.stream(("ftell", file["ftell"], "ftell " + d), before, a, [], m0, m)
        # a seekable file: what is written goes where the program is
        if not un:
            self.wrote = []
            self.bufsize = 1
            for v, m in self.run("write", [FD, buf, 1], m0):
                a = after("write", m)
                if a is not None and a[0]:
                    self.bad("write", "%s: after a write %s buffered bytes are read again" % (file["write"], d))
            if not self.wrote or set(self.wrote) != {POS}:
                self.bad("write position", "%s: a write %s goes to byte %s, not %d" % (file["write"], d, ", ".join(map(str, sorted(set(self.wrote)))) or "nowhere", POS))
        # another file behind the descriptor
        self.bufsize = 0
        self.wrote = []
        for fn, args in (("close", [FD]), ("dup2", [0, FD]), ("_open3", [None, 0, 0])):
            fd = FD
            for v, m in self.run(fn, args, m0) if fn != "_open3" else self.reopen(mx, k, un):
                r = fin.sval(v) if v is not None and v[0] == "c" else None
                if r == -1 or r is None and fn != "close":
                    continue
                a = self.pending(m, mx) if fn != "_open3" else self.pending(m, mx, 3)
                if isinstance(a, str) or a[0]:
                    self.bad(fn, "%s: after %s %s, bytes of the old file are left: %s" % (file[fn], fn, d, a if isinstance(a, str) else ", ".join(a[0])))

    def reopen(self, mx, k, un):
        m0 = self.memory(mx, k, un, fd=3)
        self.opened = 3
        save = self.touch
        self.touch = lambda *a: None
        r = list(self.run("_open3", [None, 0, 0], m0))
        self.touch = save
        return r
