"""L06: functions that are given a size stay within it."""
from vt import fin, lib, ll, report

SIZES = list(range(0, 10)) + [15, 16, 17, 31, 33, 64]
SMALL = [0, 1, 2, 3, 4, 5, 8, 13]
STR = 2          # length of the string strncat appends to
# function -> parameters: "w"/"r" an object of exactly n bytes (written and read / only read), "n" the size,
# "s" any string, "f" a format, "t" a string of STR bytes with room for n + 1 more, "?" anything
SPEC = {
    "memcpy": ("wrn", SIZES), "memmove": ("wrn", SIZES), "memset": ("w?n", SIZES), "memcmp": ("rrn", SIZES), "memchr": ("r?n", SIZES),
    "bcopy": ("rwn", SIZES), "bzero": ("wn", SIZES), "bcmp": ("rrn", SIZES), "strncpy": ("wrn", SIZES), "strncat": ("trn", SIZES), "strncmp": ("rrn", SIZES),
    "__memcpy": ("wrn", SIZES), "__memmove": ("wrn", SIZES), "__memset": ("w?n", SIZES),
    "vsnprintf": ("wnf?", SMALL), "fgets": ("wn?", SMALL), "fdgets": ("wn?", SMALL),
}
TEXT = ("vsnprintf", "fgets", "fdgets")
NEED = ("memcpy", "memmove", "memset", "memcmp", "memchr", "strncpy", "strncat", "strncmp", "vsnprintf", "snprintf", "fgets")


def check(out):
    out.cov["explanation"] = (
        "Each function that takes a size is explored to a fixpoint over a finite abstract domain for a range of sizes, with unknown contents, formats and arguments (every condition on them goes both ways): every store "
        "and load through a pointer into an object it was given must lie within the size. snprintf must hand its size and destination to vsnprintf.")
    for arch in ("x86_64", "x86"):
        srcs = [s for s in lib.sources(arch) if s.split("/")[1] in ("string", "stdio", "mes", "ctype", "stdlib")]
        M = lib.linked(arch, [s for s in srcs if s != "lib/mes/div.c"])
        for name in NEED:
            if name not in M.funcs or not M.funcs[name].blocks:
                raise report.Broken("the C library does not define %s" % name)
        for name in sorted(SPEC):
            if name in M.funcs and M.funcs[name].blocks:
                function(out, M, arch, name)
        forward(out, M, arch)
        kernel(out, arch)
        terminated(out, M, arch)
        buffers(out, M, arch)
    out.need("functions", 2 * 14)
    out.need("accesses", 600)
    out.need("ends", 10)
    out.need("functions with a buffer", 1)


def function(out, M, arch, name):
    kinds, sizes = SPEC[name]
    F = M.funcs[name]
    if len(F.params) != len(kinds):
        raise report.Broken("%s has %d parameters, not %d" % (name, len(F.params), len(kinds)))
    out.count("functions")
    W = M.ptr * 8
    for n in sizes:
        ext, args, contents = {}, [], {}
        for k, (kind, (ty, pn)) in enumerate(zip(kinds, F.params)):
            w = {"ptr": W}.get(ty) or ty[1]
            r = "p%d" % k
            if kind in "wr":
                ext[r] = (0, n, kind)
                args.append(("p", r, 0))
            elif kind == "t":
                ext[r] = (0, STR + n + 1, "w")
                contents.update({(r, j, 1): fin.const(8, 97) for j in range(STR)})
                contents[(r, STR, 1)] = fin.const(8, 0)
                args.append(("p", r, 0))
            elif kind == "n":
                args.append(fin.const(w, n))
            else:
                args.append(None)
        sites = set()

        def access(f, i, kind, region, off, size):
            if region not in ext:
                return
            lo, hi, mode = ext[region]
            sites.add((f.name, i.line, kind))
            k = int(region[1:])
            what = "%s parameter %d (%s)" % (name, k + 1, F.params[k][1])
            if off is None or size is None:
                bad = "at an offset that the size does not bound"
            elif off < lo or off + size > hi:
                bad = "at offset %d%s" % (off, " (%d bytes)" % size if size > 1 else "")
            elif kind == "write" and mode == "r":
                bad = "although it is only read"
            else:
                return
            out.violation("%s %s %s %s" % (name, kind, f.name, region), "%s:%s: %s: %s of the object of %d bytes given with size %d as %s, %s" % (f.file, i.line, f.name, "a write" if kind == "write" else "a read", hi, n, what, bad))

        E = fin.Fin(M, access=access, contents=contents, models=MODELS, opaque=() if name not in TEXT else OPAQUE, blind=[r for r in ext if not any(k[0] == r for k in contents)], lim=fin.LIM if name not in TEXT else n + 2)
        try:
            r = E.call(name, args)
        except fin.Limit as e:
            raise report.Broken("%s: %s" % (name, e))
        out.count("states", E.steps)
        out.count("accesses", len(sites))
        if not r and r is not None:
            out.violation("%s never returns" % name, "%s (size %d) never returns" % (name, n))
        if name == "vsnprintf" and n and not any(f_k == "write" for _, _, f_k in sites):
            raise report.Broken("vsnprintf never writes")


OPAQUE = ("ntoab", "dtoab", "abtol", "strlen", "strupr", "eputs", "eputc", "fdgetc", "fgetc", "oputs", "itoa", "__mes_debug")
MODELS = {}


def forward(out, M, arch):
    """snprintf hands destination and size to vsnprintf unchanged"""
    F = M.funcs["snprintf"]
    got = []

    def model(E, f, i, av, mem, es):
        got.append((i.line, av))
        return [(None, mem, es)]
    for n in SMALL:
        del got[:]
        w = F.params[1][0][1]
        E = fin.Fin(M, models={"vsnprintf": model})
        E.call("snprintf", [("p", "p0", 0), fin.const(w, n), None])
        out.count("forwarded calls", len(got))
        if not got:
            raise report.Broken("snprintf does not call vsnprintf")
        for line, av in got:
            if av[0] != ("p", "p0", 0):
                out.violation("snprintf destination", "%s:%s: snprintf does not hand its destination to vsnprintf" % (F.file, line))
            if av[1] is None or av[1][0] != "c" or av[1][2] > n:
                out.violation("snprintf size", "%s:%s: snprintf of size %d hands on size %s" % (F.file, line, n, av[1][2] if av[1] and av[1][0] == "c" else "that is not its own"))


def terminated(out, M, arch):
    """vsnprintf leaves a null byte where the output ends, or in the last byte"""
    F = M.funcs["vsnprintf"]
    for n in (1, 2):
        E = fin.Fin(M, opaque=OPAQUE, lim=n + 2, zeros=["p0"])
        r = E.call("vsnprintf", [("p", "p0", 0), fin.const(F.params[1][0][1], n), None, None])
        for v, mem, es in r or ():
            out.count("ends")
            if v is None or v[0] == "c" and fin.sval(v) < 0:
                out.violation("vsnprintf result", "%s: vsnprintf (size %d) returns a number that is not the length of the output" % (F.file, n))
                continue
            at = min(v[2] if v[0] == "c" else n, n - 1)
            x = dict(mem).get(("p0", at, 1))
            if x is None or x[2] != 0:
                out.violation("vsnprintf end", "%s: after vsnprintf (size %d) with output of %s bytes there is no null byte at offset %d" % (F.file, n, v[2] if v[0] == "c" else "more", at))


class Beyond(Exception):
    pass


class Locals(fin.Fin):
    """remembers how big each local variable is"""

    def fresh(self, mem, region, i):
        self.sizes[region] = self.M.size(i.ty)
        if isinstance(i.ty, tuple) and i.ty[0] == "arr":
            self.blind.add(region)


def buffers(out, M, arch):
    """a function with a local array stays within it, whatever its input"""
    for name, F in sorted(M.funcs.items()):
        if not F.blocks:
            continue
        if not any(i.op == "alloca" and isinstance(i.ty, tuple) and i.ty[0] == "arr" for b in F.blocks.values() for i in b):
            continue
        callees = {i.a[0][1] for b in F.blocks.values() for i in b if i.op == "call" and i.a[0][0] == "g"}

        def access(f, i, kind, region, off, size):
            n = E.sizes.get(region)
            if n is None or off is None:
                return
            out.count("buffer accesses")
            if off < 0 or off + (size or 1) > n:
                out.violation("%s buffer" % name, "%s:%s: %s: %s at offset %d of its own buffer of %d bytes" % (f.file, i.line, name, "a write" if kind == "write" else "a read", off, n))
                raise Beyond
        size = max(M.size(i.ty) for b in F.blocks.values() for i in b if i.op == "alloca" and isinstance(i.ty, tuple) and i.ty[0] == "arr")
        # numbers are followed as far as the buffer is long, or, where that is too much, only pointers are
        for lim, limit in ((size + 4, 40000), (2, 400000)):
            E = Locals(M, access=access, opaque=tuple(callees), lim=lim, limit=limit)
            E.window = lambda r: size + 4
            E.sizes = {}
            try:
                E.call(name, [None] * len(F.params))
            except Beyond:
                pass
            except fin.Limit as e:
                if lim == 2:
                    raise report.Broken("%s: %s" % (name, e))
                continue
            break
        out.count("functions with a buffer")


def kernel(out, arch):
    """what the kernel is told to write lies in the caller's object, or in the function's own buffer"""
    for name, params in (("getcwd", "wn"), ("getcwd", "0n"), ("_getcwd", "wn"), ("readlink", "swn"), ("_read", "?wn")):
        src = [s for s in lib.sources(arch) if s.endswith(("/%s.c" % name, "/cast.c", "/_getcwd.c"))]
        M = lib.linked(arch, src)
        F = M.funcs.get(name)
        if F is None or not F.blocks:
            raise report.Broken("the C library does not define %s" % name)
        if len(F.params) != len(params):
            raise report.Broken("%s has %d parameters, not %d" % (name, len(F.params), len(params)))
        out.count("functions")
        marks = {M.size(g[0]) for g in M.globals.values() if g[0] != "ptr"}
        for G in M.funcs.values():
            for b in G.blocks.values() if G.blocks else ():
                for i in b:
                    if i.op == "icmp":
                        marks |= {a[1] for a in i.a if a[0] == "int"}
        for n in sorted({1, 2, 8, 64, 4095, 4096, 4097, 5000, 65536} | {m + d for m in marks if 0 < m < 1 << 20 for d in (-1, 0, 1, m // 2) if m + d > 0}):
            calls = []

            def sys(E, f, i, av, mem, es):
                for k, v in enumerate(av[1:]):
                    if v is not None and v[0] == "p":
                        calls.append(1)
                        size = next((x[2] for x in av[k + 2:] if x is not None and x[0] == "c"), None)
                        end = n if v[1] == "w" else M.size(M.globals[v[1][1:]][0]) if v[1][:1] == "@" else None
                        if v[1] == "w" or v[1][:1] == "@":
                            if v[2] is None or size is None or end is None or v[2] < 0 or v[2] + size > end:
                                out.violation("%s %s" % (name, f.name), "%s:%s: %s (size %d%s): the kernel may write %s bytes at offset %s of %s of %s bytes" % (
                                    f.file, i.line, name, n, ", no buffer" if "0" in params else "", size, v[2], "the given object" if v[1] == "w" else v[1], end))
                return [(None, mem, es)]
            args = []
            for c, (ty, pn) in zip(params, F.params):
                w = M.ptr * 8 if ty == "ptr" else ty[1]
                args.append(("p", "w", 0) if c == "w" else fin.const(w, n) if c == "n" else fin.const(w, 0) if c == "0" else None)
            E = fin.Fin(M, models={"_sys_call%d" % k: sys for k in range(1, 5)}, lim=2000000)
            E.window = lambda r: 2000000
            E.call(name, args)
            out.count("kernel writes", len(calls))
            if not calls:
                raise report.Broken("%s: no system call with the buffer" % name)
