"""L10: memory that was not obtained is never handed out or touched."""
from vt import fin, lib, ll, report

BASE = 256           # where the heap begins in its region, a multiple of every alignment
ALLOC = ("malloc", "calloc", "realloc")


def check(out):
    out.cov["explanation"] = (
        "malloc is evaluated over an abstract heap (pointers are offsets from an aligned start) for every alignment of the break, small sizes and sizes whose end wraps around, against a kernel that may grant or refuse: "
        "what is handed out must start at or after the end of every earlier block, end at or before the break the kernel granted, and be aligned; a refusal must give a null pointer, and the break never goes below memory "
        "handed out. calloc, realloc, strdup and alloca are evaluated against malloc's contract. Every library function that calls an allocator, directly or through one that passes its null pointer on, is explored with "
        "every allocation failing: no path may read or write through the null pointer.")
    for arch in ("x86_64", "x86"):
        srcs = [s for s in lib.sources(arch) if s.split("/")[1] in ("string", "stdio", "mes", "ctype", "stdlib", "posix", "linux", "dirent")]
        M = lib.linked(arch, [s for s in srcs if not s.endswith(("/div.c", "/mini-write.c", "/linux/read.c", "/crt1.c", "/crt0.c"))])
        for f in ALLOC + ("strdup", "setenv", "alloca", "sbrk"):
            if f not in M.funcs or not M.funcs[f].blocks:
                raise report.Broken("the C library does not define %s" % f)
        heap(out, M, arch)
        contract(out, M, arch)
        failing(out, M, arch)
    out.need("heap outcomes", 2000)
    out.need("contracts", 60)
    out.need("functions that allocate", 12)
    out.need("failing allocations", 12)


def isnull(v):
    return v is not None and v[0] == "c" and v[2] == 0


def heap(out, M, arch):
    W = M.ptr * 8
    F = M.funcs["malloc"]
    if "__brk" not in M.globals:
        raise report.Broken("malloc's break is not found")
    need = M.ptr
    consts = {abs(c) + d for c in constants(M, "malloc") for d in (-1, 0, 1)}
    sizes = sorted(set(range(0, 20)) | {32, 33, 100, 4095, 4096, 4097, 65536, 1 << 24} | {c for c in consts if 0 <= c < 1 << (W - 2)})
    for first in (True, False):
        for r in range(0, 16):
            for size in sizes + [-k for k in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33)]:
                def brk(E, f, i, av, mem, es):
                    a = av[0]
                    now = mem["%break", 0, 1]
                    if a is not None and (a[0] == "c" and a[2] == 0):
                        return [(now, mem, es)]
                    if a is None or a[0] != "p" or a[1] != "heap" or a[2] is None:
                        out.violation("%s malloc break" % arch, "%s:%s: malloc (%d) asks the kernel for a break that is not computed from the last one" % (f.file, i.line, size))
                        return []
                    m = dict(mem)
                    m["%break", 0, 1] = a
                    if a[2] < BASE:
                        return [(now, mem, es)]
                    return [(a, m, es), (now, mem, es)]
                start = BASE + 64 + r
                mem = {("@__brk", 0, M.ptr): fin.const(W, 0) if first else ("p", "heap", start), ("%break", 0, 1): ("p", "heap", start)}
                E = fin.Fin(M, models={"brk": brk}, lim=None)
                E.windows["heap"] = 1 << 62
                E.aligned["heap"] = 64
                res = E.call("malloc", [fin.const(W, size)], tuple(sorted(mem.items(), key=repr)))
                what = "malloc (%s%d) with the break at offset %d modulo 16%s" % ("SIZE_MAX + 1 " if size < 0 else "", size, r, ", the first call" if first else "")
                if not res:
                    out.violation("%s malloc ends" % arch, "%s: %s does not return" % (F.file, what))
                for v, m, es in res or ():
                    out.count("heap outcomes")
                    m = dict(m)
                    b, k = m.get(("@__brk", 0, M.ptr)), m.get(("%break", 0, 1))

                    def bad(key, msg):
                        out.violation("%s malloc %s" % (arch, key), "%s: %s %s" % (F.file, what, msg))
                    low = start if not first else None
                    if k[2] < start:
                        bad("shrinks", "lowers the break below memory already handed out")
                        continue
                    if isnull(v):
                        if b is not None and b[0] == "p" and (b[2] is None or b[2] < start) or b is None or b[0] == "c" and (b[2] or not first):
                            bad("forgets", "fails and forgets where the memory handed out ends")
                        continue
                    if v is None or v[0] != "p" or v[1] != "heap" or v[2] is None:
                        bad("result", "hands out something that is not computed from the break")
                    elif size < 0:
                        bad("wraps", "hands out a block that the address space does not hold")
                    elif v[2] < start:
                        bad("overlap", "hands out memory from offset %d before the end of earlier blocks" % (v[2] - start))
                    elif v[2] + size > k[2]:
                        bad("short", "hands out %d bytes of which the kernel granted %d" % (size, max(0, k[2] - v[2])))
                    elif v[2] % need:
                        bad("alignment", "hands out a block that is not aligned")
                    elif b is None or b[0] != "p" or b[2] is None or b[2] < v[2] + size:
                        bad("reuse", "leaves the block where the next one begins")


def constants(M, name):
    def walk(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "int":
            yield x[1]
        elif isinstance(x, (tuple, list)):
            for y in x:
                yield from walk(y)
    f = M.funcs[name]
    return {c for b in f.order for i in f.blocks[b] for c in walk(i.a)}


class Blocks(fin.Fin):
    """allocated blocks with extents; accesses checked, null pointers reported"""

    def __init__(self, M, out, key, what, fail=False, **kw):
        super().__init__(M, **kw)
        self.out, self.key, self.what, self.fail = out, key, what, fail
        self.extent = {}
        self.asked = []
        self.nulls = 0
        for a in ALLOC:
            self.models.setdefault(a, self.alloc)

    def alloc(self, E, f, i, av, mem, es):
        name = i.a[0][1]
        if self.fail:
            self.nulls += 1
            return [(fin.const(self.W, 0), mem, es)]
        n = av[0]
        if name == "calloc":
            n = fin.const(self.W, av[0][2] * av[1][2])
        if name == "realloc":
            n = av[1]
        self.asked.append(n)
        r = "block%d" % len(self.asked)
        self.extent[r] = n[2] if n is not None and n[0] == "c" else None
        self.windows[r] = 1 << 20
        return [(("p", r, 0), mem, es), (fin.const(self.W, 0), mem, es)]

    def shift(self, base, off):
        if off is None and isnull(base):
            return ("p", "%null", None)
        return super().shift(base, off)

    def touch(self, f, i, kind, p, n):
        if p is not None and (p[0] == "c" and p[2] < 4096 or p[0] == "p" and p[1] == "%null"):
            self.out.violation("%s null %s" % (self.key, f.name), "%s:%s: %s, when memory runs out: %s a null pointer" % (f.file, i.line, self.what, "a write through" if kind == "write" else "a read through"))
            return
        if p is not None and p[0] == "p" and p[1] in self.extent and not self.fail:
            e = self.extent[p[1]]
            if e is not None and (p[2] is None or n is None or p[2] < 0 or p[2] + n > e):
                self.out.violation("%s bounds %s" % (self.key, f.name), "%s:%s: %s: %s at offset %s of a block of %d bytes" % (f.file, i.line, self.what, kind, p[2], e))


def tok(k):
    return ("t", 8, "byte %d" % k, "")


def contract(out, M, arch):
    W = M.ptr * 8
    m = (1 << W) - 1
    half = 1 << (W // 2)

    def large(E, f, i, av, mem, es):
        return [(av[0], mem, es)] if av[2] is None or av[2][2] > 64 else None

    def go(name, args, mem, what):
        E = Blocks(M, out, "%s %s" % (arch, name), what, lim=None, opaque=("free",), models={"memset": large, "memcpy": large, "__memset": large})
        E.windows["old"] = 1 << 20
        out.count("contracts")
        r = E.call(name, args, tuple(sorted(mem.items(), key=repr)))
        if not r:
            out.violation("%s %s ends" % (arch, name), "%s: %s does not return" % (M.funcs[name].file, what))
        return E, [(v, dict(mm)) for v, mm, es in r or ()]
    # calloc
    for a, b in [(x, y) for x in range(0, 4) for y in range(0, 4)] + [(half, half), (half * 2, half // 2), (m, 2), (2, m), (m, m), (m // 3 + 1, 3), (3, m // 3 + 1), (m // 2 + 1, 2), (half // 2, half * 4)]:
        what = "calloc (%d, %d)" % (a, b)
        E, res = go("calloc", [fin.const(W, a), fin.const(W, b)], {}, what)
        for v, mem in res:
            if isnull(v):
                continue
            if v is None or v[0] != "p" or v[2] != 0 or v[1] not in E.extent:
                out.violation("%s calloc result" % arch, "%s: %s does not return the block" % (M.funcs["calloc"].file, what))
            elif E.extent[v[1]] is None or E.extent[v[1]] < a * b:
                out.violation("%s calloc size" % arch, "%s: %s hands out %s bytes" % (M.funcs["calloc"].file, what, E.extent[v[1]]))
            elif a * b < 64:
                for j in range(a * b):
                    x = mem.get((v[1], j, 1))
                    if not isnull(x):
                        out.violation("%s calloc zero" % arch, "%s: %s does not clear byte %d" % (M.funcs["calloc"].file, what, j))
    # realloc
    for n in (0, 1, 2, 3, 5, 8):
        for old in (True, False):
            what = "realloc (%s, %d)" % ("p" if old else "0", n)
            mem = {("old", j, 1): tok(j) for j in range(n)} if old else {}
            E, res = go("realloc", [("p", "old", 0) if old else fin.const(W, 0), fin.const(W, n)], mem, what)
            for v, mm in res:
                if isnull(v):
                    continue
                if v is None or v[0] != "p" or v[2] != 0 or v[1] not in E.extent or (E.extent[v[1]] or 0) < n:
                    out.violation("%s realloc result" % arch, "%s: %s does not return a block of the size asked for" % (M.funcs["realloc"].file, what))
                elif old:
                    for j in range(n):
                        if mm.get((v[1], j, 1)) != tok(j):
                            out.violation("%s realloc contents" % arch, "%s: %s does not keep byte %d" % (M.funcs["realloc"].file, what, j))
    # strdup
    for n in range(0, 5):
        what = "strdup of a string of %d bytes" % n
        s = [fin.const(8, 97 + j) for j in range(n)] + [fin.const(8, 0)]
        E, res = go("strdup", [("p", "old", 0)], {("old", j, 1): x for j, x in enumerate(s)}, what)
        for v, mm in res:
            if isnull(v):
                continue
            if v is None or v[0] != "p" or v[2] != 0 or v[1] not in E.extent or (E.extent[v[1]] or 0) < n + 1:
                out.violation("%s strdup result" % arch, "%s: %s does not return a block that holds it" % (M.funcs["strdup"].file, what))
            elif any(mm.get((v[1], j, 1)) != x for j, x in enumerate(s)):
                out.violation("%s strdup contents" % arch, "%s: %s is not a copy of it" % (M.funcs["strdup"].file, what))
    # alloca, sbrk
    for name in ("alloca", "sbrk"):
        for n in (1, 2, 3, 4, 7, 8, 40):
            what = "%s (%d)" % (name, n)
            E, res = go(name, [fin.const(W, n)], {}, what)
            for v, mm in res:
                if isnull(v) or v is not None and v[0] == "c" and v[2] == m and name == "sbrk":
                    continue
                if v is None or v[0] != "p" or v[1] not in E.extent or v[2] is None or v[2] < 0 or v[2] + n > (E.extent[v[1]] or 0):
                    out.violation("%s %s result" % (arch, name), "%s: %s does not return a block of that size" % (M.funcs[name].file, what))


def failing(out, M, arch):
    """every function that allocates, with every allocation failing"""
    allocs = set(ALLOC)
    done = set()
    todo = True
    while todo:
        todo = False
        for name in sorted(M.funcs):
            f = M.funcs[name]
            if not f.blocks or name in done or name in ALLOC:
                continue
            if not any(i.op == "call" and i.a[0][0] == "g" and i.a[0][1] in allocs for b in f.order for i in f.blocks[b]):
                continue
            done.add(name)
            todo = True
            out.count("functions that allocate")
            E = Blocks(M, out, "%s %s" % (arch, name), name, fail=True, depth=7)
            for a in allocs:
                E.models.setdefault(a, E.alloc)
            E.models.pop(name, None)
            W = M.ptr * 8
            try:
                r = E.call(name, [None] * len(f.params))
            except fin.Limit as e:
                if not out.viol:
                    raise report.Broken(str(e))
                r = None
            out.count("failing allocations", E.nulls)
            out.count("states", E.steps)
            if r and f.ret == "ptr" and any(isnull(v) for v, m, e in r):
                allocs.add(name)
                out.count("functions that pass the failure on")
