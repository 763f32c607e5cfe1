"""G06: the arena, the evaluator's stack and the text buffers are never overrun."""
import itertools
from vt import fin, ll, mesc, report

TYPES = range(0, 32)


def check(out):
    out.cov["explanation"] = (
        "Every function that moves the allocation pointer, or calls the block allocator, is explored over a finite abstract domain with the pointer at every distance from the end of a small arena and every request size: all "
        "stores must lie between the old and the new pointer and before the arena's end. The collector's copy is explored for every object type and size and every distance from the stack, frame pushes for every stack depth. "
        "Functions that accumulate text are explored with unknown input against a small limit, and the start-up and posix buffers with strings whose length is known but whose content is not.")
    for arch in ("x86_64", "x86"):
        Check(out, arch).decide()
    out.need("allocator states", 300)
    out.need("collector states", 300)
    out.need("stack states", 20)
    out.need("text buffer functions", 6)
    out.need("string buffer states", 100)


def walkg(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "g" and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from walkg(y)
    elif isinstance(x, list):
        for y in x:
            yield from walkg(y)


class Found(Exception):
    """one violation ends the exploration of a call"""


class Check:
    found = running = False

    def __init__(self, out, arch):
        self.out, self.arch = out, arch
        self.M = M = ll.interpreter(arch)
        self.P, self.W = M.ptr, M.ptr * 8
        for g in ("g_free", "g_cells", "ARENA_SIZE", "JAM_SIZE", "STACK_SIZE", "MAX_STRING", "g_stack", "g_stack_array", "g_buf"):
            if g not in M.globals:
                raise report.Broken("the interpreter has no global %s" % g)
        ty = [n for n in M.types if n == "struct.scm"]
        if not ty:
            raise report.Broken("struct scm is not found")
        self.cell = M.size(("named", "struct.scm"))
        self.refs = {}
        for n, f in M.funcs.items():
            for b in f.order:
                for i in f.blocks[b]:
                    for g in walkg(i.a):
                        self.refs.setdefault(g, set()).add(n)

    def g(self, name, v):
        n = self.M.size(self.M.globals[name][0])
        return ("@" + name, 0, n), fin.const(8 * n, v) if isinstance(v, int) else v

    def stores(self, g):
        r = set()
        for n, f in self.M.funcs.items():
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == "store" and i.a[1] == ("g", g):
                        r.add(n)
        return r

    def bad(self, fn, what, msg):
        f = self.M.funcs[fn]
        self.out.violation("%s %s" % (fn, what), "%s: %s: %s (%s)" % (f.file, fn, msg, self.arch))
        self.found = True
        if self.running:
            raise Found

    def fin(self, access, models=None, contents=None, **kw):
        def stop(E, f, i, av, mem, es):
            return []

        def ck(E, f, i, av, mem, es):
            return [] if av[0] is not None and av[0][0] == "c" and av[0][2] == 0 else [(None, mem, es)]

        def none(E, f, i, av, mem, es):
            return [(None, mem, es)]
        m = {"error": stop, "assert_msg": ck, "eputs": none, "display_error_": none, "write_error_": none, "itoa": none, "ltoa": none, "gc_stats_": none, "ntoab": none, "fdputs": none, "fdputc": none, "eputc": none,
             "getenv": none}
        m.update(models or {})
        kw.setdefault("lim", None)
        E = fin.Fin(self.M, access=access, models=m, contents=contents or {}, shared={"@" + g for g in self.M.globals}, **kw)
        return E

    def mem(self, **kw):
        return tuple(sorted((self.g(k, v) for k, v in kw.items()), key=repr))

    def run(self, E, fn, args, mem):
        F = self.M.funcs[fn]
        a = []
        for (ty, n), v in itertools.zip_longest(F.params, args):
            w = self.W if ty == "ptr" else ty[1]
            a.append(fin.const(w, v) if isinstance(v, int) else v)
        self.running = True
        try:
            return E.call(fn, a, mem) or ()
        except Found:
            return ()
        except fin.Limit as e:
            if self.found:
                return ()
            raise report.Broken("%s: %s" % (fn, e))
        finally:
            self.running = False

    def decide(self):
        self.arena()
        self.collector()
        self.stack()
        self.text()
        self.fixed()
        self.append()
        self.strings()

    # ------------------------------------------------------------ the arena
    def arena(self):
        A, c = 6, self.cell
        # the collector's own pointer moves are the next section's; init_* fill the fresh arena, before any program runs
        skip = ("gc_", "init_")
        movers = {f for f in self.stores("g_free") if not f.startswith(skip)}
        users = {n for n in self.refs.get("alloc", ()) if n != "alloc" and not n.startswith(skip)}
        named = [f for f in ("alloc", "make_cell", "make_pointer_cell", "make_value_cell", "make_bytes", "make_vector_", "make_struct") if f in self.M.funcs]
        if "alloc" not in named or len(named) < 3 or not movers:
            raise report.Broken("the allocators are not found")
        inner = self.reach(named)     # their helpers are explored where they are called
        roots = named + sorted(f for f in movers | users if f not in inner and f not in named)
        lo, ln, hi = self.fields()
        tp = self.pairtype()
        nil = ("p", "@cell_nil*", 0)
        cont = {("@cell_nil", 0, self.P): nil}
        cont["@cell_nil*", lo[0], lo[1]] = fin.const(8 * lo[1], mesc.constants(self.arch)["TSPECIAL"])
        for k in range(9):
            cont["list", k * 64 + lo[0], lo[1]] = fin.const(8 * lo[1], tp)
            cont["list", k * 64 + ln[0], ln[1]] = ("p", "elem", 0)
        for fn in roots:
            F = self.M.funcs[fn]
            ints = [k for k, (ty, n) in enumerate(F.params) if ty != "ptr"]
            sizes = [None]
            if ints and (fn in ("alloc", "make_vector_") or fn not in named):
                sizes = [0, 1, 2, 3, 5, 6, 7, 8, 100, (1 << (self.W - 1)) - 1] + ([-1, -2, -(1 << (self.W - 1))] if fn == "make_vector_" else [])
            elif ints and fn == "make_bytes":
                sizes = list(range(0, 40)) + [100, 1000]
            elif fn in users and len([1 for ty, n in F.params if ty == "ptr"]) > 1:
                sizes = list(range(0, 9))    # the length of a list
            for pos in range(0, A + 1):
                for n in sizes:
                    top = [0]
                    what = "%swith %d of %d cells in use" % ("size %s " % n if n is not None else "", pos, A)

                    def access(f, i, kind, region, off, size):
                        if region != "arena" or kind != "write":
                            return
                        if off is None or size is None:
                            self.bad(fn, "bounds", "line %s writes at an unknown place in the arena, %s" % (i.line, what))
                        elif off < (1 + pos) * c:
                            self.bad(fn, "overlap", "line %s writes over an object in use, %s" % (i.line, what))
                        elif off + size > (1 + A) * c:
                            self.bad(fn, "bounds", "line %s writes beyond the arena, %s" % (i.line, what))
                        else:
                            top[0] = max(top[0], off + size)
                    E = self.fin(access, models={"memcpy": self.memcpy, "vector_entry": self.unk}, contents=dict(cont), limit=20000)
                    E.windows.update({"arena": 1 << 70, "list": 1 << 30})
                    args = [None] * len(F.params)
                    if n is not None and not ints:
                        for k in range(9):
                            E.contents["list", k * 64 + hi[0], hi[1]] = ("p", "list", (k + 1) * 64) if k + 1 < n else nil
                        args = [("p", "list", 0) if n else nil for a in args]
                    for k in ints:
                        args[k] = n if k == ints[-1] or fn != "make_bytes" else None
                    self.out.count("allocator states")
                    free = ("p", "arena", (1 + pos) * c)
                    res = self.run(E, fn, args, self.mem(g_free=free, g_cells=("p", "arena", c), ARENA_SIZE=A, MAX_STRING=10))
                    for v, m, es in res:
                        m = dict(m)
                        nf = m.get(self.g("g_free", 0)[0])
                        if nf is None or nf[0] != "p" or nf[1] != "arena" or nf[2] is None:
                            if n is None and fn in users:
                                continue
                            self.bad(fn, "pointer", "the allocation pointer is lost, %s" % what)
                        elif nf[2] < top[0] or nf[2] < free[2]:
                            self.bad(fn, "pointer", "the allocation pointer does not pass what was written, %s" % what)
                        elif nf[2] > (1 + A) * c:
                            self.bad(fn, "limit", "hands out more than the arena has, %s" % what)
                        elif fn == "alloc" and (v != free or nf[2] != free[2] + n * c):
                            self.bad(fn, "result", "does not hand out the cells it reserves, %s" % what)
                        elif v is not None and v[0] == "p" and v[1] == "arena" and (v[2] is None or v[2] < free[2]):
                            self.bad(fn, "result", "hands out an object in use, %s" % what)

    def reach(self, fns):
        r, work = set(), list(fns)
        while work:
            f = self.M.funcs.get(work.pop())
            for b in f.order if f else ():
                for i in f.blocks[b]:
                    if i.op == "call" and i.a[0][0] == "g" and i.a[0][1] not in r:
                        r.add(i.a[0][1])
                        work.append(i.a[0][1])
        return r

    def unk(self, E, f, i, av, mem, es):
        return [(None, mem, es)]

    def memcpy(self, E, f, i, av, mem, es):
        n = av[2][2] if av[2] is not None and av[2][0] == "c" else None
        E.touch(f, i, "write", av[0], n)
        E.touch(f, i, "read", av[1], n)
        return [(av[0], mem, es)]

    # ------------------------------------------------------------ the collector
    def collector(self):
        A, J, S, c, P = 4, 2, 8, self.cell, self.P
        fn = "gc_copy"
        if fn not in self.M.funcs:
            raise report.Broken("gc_copy is not found")
        stack0 = (A + J) * c
        lo, ln, hi = self.fields()
        types = sorted(self.typecodes())
        for depth in (0, 3, S):
            end = stack0 + depth * P
            for pos in range(0, A + J + depth * P // c + 1):
                for t in types:
                    for n in (0, 1, 2, 3, 5, 16, 17, 40, 1000):
                        free = pos * c
                        if free > end:
                            continue
                        what = "an object of type %d and length %d, %d bytes before the stack" % (t, n, end - free)
                        top = [0]

                        def access(f, i, kind, region, off, size):
                            if region == "arena" and kind == "write":
                                if off is None or size is None:
                                    self.bad(fn, "bounds", "line %s writes at an unknown place: %s" % (i.line, what))
                                elif off < free:
                                    self.bad(fn, "overlap", "line %s writes over a copied object: %s" % (i.line, what))
                                elif off + size > end:
                                    self.bad(fn, "bounds", "line %s writes into the stack: %s" % (i.line, what))
                                else:
                                    top[0] = max(top[0], off + size)
                        cont = {("old", lo[0], lo[1]): fin.const(8 * lo[1], t), ("old", ln[0], ln[1]): fin.const(8 * ln[1], n), ("old", hi[0], hi[1]): ("p", "vec", 0)}
                        E = self.fin(access, models={"memcpy": self.memcpy}, contents=cont, limit=3000000)
                        E.windows.update({"arena": 1 << 40, "old": 1 << 40, "vec": 1 << 40})
                        self.out.count("collector states")
                        res = self.run(E, fn, [("p", "old", 0)], self.mem(g_free=("p", "arena", free), g_stack=depth, g_stack_array=("p", "arena", stack0), g_debug=0))
                        for v, m, es in res:
                            m = dict(m)
                            nf = m.get(self.g("g_free", 0)[0])
                            if nf is None or nf[0] != "p" or nf[1] != "arena" or nf[2] is None or nf[2] < top[0]:
                                self.bad(fn, "pointer", "the allocation pointer does not pass what was written: %s" % what)

    def fields(self):
        """type, car, cdr of a cell: (offset, size)"""
        ty = ("named", "struct.scm")
        st = self.M.resolve(ty)
        return [(self.M.field(ty, k)[0], self.M.size(st[1][k])) for k in range(3)]

    def typecodes(self):
        """the constants gc_copy compares types with, and one other"""
        r = {20}
        f = self.M.funcs["gc_copy"]
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == "icmp":
                    r |= {x[1] for x in i.a[1:] if x[0] == "int"}
                if i.op == "switch":
                    r |= {k for k, _ in i.a[2]}
        return {t for t in r if t > 0}

    # ------------------------------------------------------------ the stack
    def stack(self):
        S, P = 12, self.P
        fn = "gc_push_frame"
        for fn in ("gc_push_frame", "gc_pop_frame"):
            if fn not in self.M.funcs:
                raise report.Broken("%s is not found" % fn)
        for d in range(0, S + 1):
            what = "with %d words left" % d

            def access(f, i, kind, region, off, size):
                if region == "stack" and (off is None or off < 0 or off + size > S * P):
                    self.bad(fn, "bounds", "line %s: a %s outside the stack, %s" % (i.line, kind, what))
            for fn in ("gc_push_frame",):
                E = self.fin(access)
                E.windows["stack"] = 1 << 30
                self.out.count("stack states")
                for v, m, es in self.run(E, fn, [], self.mem(g_stack=d, g_stack_array=("p", "stack", 0), STACK_SIZE=S)):
                    k, _ = self.g("g_stack", 0)
                    x = dict(m).get(k)
                    if x is None or x[0] != "c" or fin.sval(x) < 0:
                        self.bad(fn, "depth", "the stack pointer passes the stack's end, %s" % what)
        for fn in sorted(self.stores("g_stack")):
            self.out.count("functions that move the stack pointer")

    # ------------------------------------------------------------ text
    def text(self):
        users = sorted(n for n in self.refs.get("g_buf", ()) if n not in ("gc_init",))
        if len(users) < 4:
            raise report.Broken("the functions that use the text buffer are not found")
        work = [f for f in users if f != "string_append"]
        done = set()
        while work:
            fn = work.pop(0)
            if fn in done or fn == "string_append":
                continue
            done.add(fn)
            self.out.count("text buffer functions")
            for mx in (2, 3, 5):
                lift = []

                def access(f, i, kind, region, off, size):
                    if region != "text" or kind != "write":
                        return
                    if off is None and self.callers(fn):
                        # the place comes from the callers: decided there
                        lift.append(1)
                        raise Found
                    if off is None or size is None or off < 0 or off + size > mx:
                        self.bad(fn, "text %s" % f.name, "%s:%s: a write at %s of the text buffer of %d bytes" % (f.file, i.line, "offset %d" % off if off is not None else "an unknown offset", mx))
                E = self.fin(access, models={"make_string": self.unk, "make_string0": self.unk, "cstring_to_symbol": self.unk, "readchar": self.unk, "peekchar": self.unk, "unreadchar": self.unk, "make_number": self.unk,
                                             "reader_read_character": self.unk, "reader_read_hex": self.unk, "reader_read_octal": self.unk, "reader_read_binary": self.unk, "car": self.unk, "cdr": self.unk, "isdigit": self.unk, "isspace": self.unk},
                             lim=mx + 3, blind=["text"], depth=4)
                E.windows["text"] = 100
                F = self.M.funcs[fn]
                self.run(E, fn, [None] * len(F.params), self.mem(g_buf=("p", "text", 0), MAX_STRING=mx, g_debug=0))
                self.out.count("states", E.steps)
                if lift:
                    work += sorted(self.callers(fn))
                    break

    def fixed(self):
        """blocks of a constant size that start-up obtains and keeps in a variable: the functions that write bytes in them"""
        own = {"__open_boot_buf", "__open_boot_file_name", "g_datadir", "__setenv_buf", "__execl_c_argv"}       # strings()
        n = 0
        for F in list(self.M.funcs.values()):
            d = {i.res: i for b in F.order for i in F.blocks[b] if i.res}
            for b in F.order:
                for i in F.blocks[b]:
                    if i.op != "store" or i.a[1][0] != "g" or i.a[0][0] != "l" or i.a[1][1] in own:
                        continue
                    c = d.get(i.a[0][1])
                    if c is None or c.op != "call" or c.a[0] != ("g", "malloc") or c.a[1][0][1][0] != "int" or c.a[1][0][1][1] > 64:
                        continue
                    g, size = i.a[1][1], c.a[1][0][1][1]
                    n += 1
                    for fn in sorted(self.refs.get(g, ())):
                        if fn == F.name:
                            continue

                        def access(f, i, kind, region, off, sz):
                            if region == "block" and (off is None or sz is None or off < 0 or off + sz > size):
                                self.bad(fn, "block %s" % g, "%s:%s: a %s at %s of the %d bytes of %s" % (f.file, i.line, kind, "offset %d" % off if off is not None else "an unknown offset", size, g))
                        E = self.fin(access, models={x: self.unk for x in ("readchar", "peekchar", "unreadchar", "make_number", "make_char", "make_string0", "make_string", "reader_read_hex", "reader_read_octal", "strcmp", "clock_gettime", "gettimeofday",
                                                                           "seconds_and_nanoseconds_to_long", "gc_", "gc_push_frame", "gc_pop_frame", "cons", "getenv", "gc_dump_arena")},
                                     lim=size + 3, blind=["block"], depth=4)
                        E.windows["block"] = 4096
                        self.out.count("text buffer functions")
                        self.run(E, fn, [None] * len(self.M.funcs[fn].params), self.mem(g_debug=0, **{g: ("p", "block", 0)}))
                        self.out.count("states", E.steps)
        if not n:
            raise report.Broken("no buffer of a fixed size is found")

    def callers(self, fn):
        """the functions that call fn, if its address is not used otherwise"""
        r = set()
        for n in self.refs.get(fn, ()):
            for b in self.M.funcs[n].order:
                for i in self.M.funcs[n].blocks[b]:
                    if fn in walkg(i.a[1:] if i.op == "call" else i.a):
                        return set()
                    if i.op == "call" and i.a[0] == ("g", fn):
                        r.add(n)
        return r - {fn}

    def append(self):
        """string_append: lists of up to three strings of every length"""
        fn = "string_append"
        if fn not in self.M.funcs:
            raise report.Broken("string_append is not found")
        lo, ln, hi = self.fields()
        c, mx = self.cell, 6
        ts = self.stringtype()
        nil = ("p", "@cell_nil*", 0)
        for lens in itertools.chain.from_iterable(itertools.product((0, 1, 2, 3, 5, 6, 7, 1 << 20), repeat=k) for k in (0, 1, 2, 3)):
            cont = {("@cell_nil", 0, self.P): nil, ("@cell_nil*", lo[0], lo[1]): fin.const(8 * lo[1], mesc.constants(self.arch)["TSPECIAL"])}
            for k, n in enumerate(lens):
                p, s = "pair%d" % k, "string%d" % k
                cont[p, ln[0], ln[1]] = ("p", s, 0)
                cont[p, hi[0], hi[1]] = ("p", "pair%d" % (k + 1), 0) if k + 1 < len(lens) else nil
                cont[s, lo[0], lo[1]] = fin.const(8 * lo[1], ts)
                cont[s, ln[0], ln[1]] = fin.const(8 * ln[1], n)
                cont[s, hi[0], hi[1]] = ("p", "bytes%d" % k, 0)

            def access(f, i, kind, region, off, size):
                if region == "text" and kind == "write" and (off is None or size is None or off < 0 or off + size > mx):
                    self.bad(fn, "text", "line %s: writes %s bytes at offset %s of the text buffer of %d bytes, appending strings of %s" % (i.line, size, off, mx, lens))

            def ms(E, f, i, av, mem, es):
                n = av[1]
                if n is None or n[0] != "c" or n[2] != sum(lens):
                    self.bad(fn, "length", "appending strings of %s makes one of %s" % (lens, n[2] if n is not None and n[0] == "c" else "unknown length"))
                return [(None, mem, es)]
            E = self.fin(access, models={"memcpy": self.memcpy, "make_string": ms}, contents=cont, blind=["text"])
            E.windows.update({"text": 1 << 40})
            self.out.count("string buffer states")
            self.run(E, fn, [("p", "pair0", 0) if lens else nil], self.mem(g_buf=("p", "text", 0), MAX_STRING=mx))

    def stringtype(self):
        """the type code make_string gives its result"""
        f = self.M.funcs.get("make_string")
        if f is None:
            raise report.Broken("make_string is not found")
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == "call" and i.a[0] == ("g", "make_pointer_cell") and i.a[1][0][1][0] == "int":
                    return i.a[1][0][1][1]
        raise report.Broken("the type of a string is not found")

    # ------------------------------------------------------------ strings of known length
    def strings(self):
        self.boot()
        self.setenv()
        self.execl()

    def libc(self, ext, env):
        """models over string lengths: mem[(region, 'len', 0)] = position of the null byte"""
        L = {}

        def length(E, mem, p):
            if p is None or p[0] != "p":
                return None
            if p[1][0] == "@":
                g = self.M.globals.get(p[1][1:])
                if g and g[1] and g[1][0] == "str":
                    b = bytes(g[1][1])
                    return b.index(0, p[2]) - p[2] if p[2] is not None and 0 in b[p[2]:] else None
            v = mem.get((p[1], -1, 0))
            return v - p[2] if v is not None and p[2] is not None and v >= p[2] else None

        def room(E, f, i, p, n, what):
            if p is None or p[0] != "p" or p[1] not in ext(E):
                return
            e = ext(E)[p[1]]
            if n is None or p[2] is None or p[2] < 0 or p[2] + n > e:
                self.bad(f.name, "buffer %s" % p[1], "%s:%s: %s needs %s bytes at offset %s of a buffer of %d (%s)" % (f.file, i.line, what, n if n is not None else "an unknown number of", p[2], e, self.what))

        def strcpy(E, f, i, av, mem, es):
            n = length(E, mem, av[1])
            room(E, f, i, av[0], n + 1 if n is not None else None, "strcpy")
            m = dict(mem)
            if av[0] is not None and av[0][0] == "p" and av[0][2] is not None and n is not None:
                m[av[0][1], -1, 0] = av[0][2] + n
            return [(av[0], m, es)]

        def strcat(E, f, i, av, mem, es):
            k, n = length(E, mem, av[0]), length(E, mem, av[1])
            room(E, f, i, av[0], k + n + 1 if None not in (k, n) else None, "strcat")
            m = dict(mem)
            if av[0] is not None and av[0][0] == "p" and None not in (k, n):
                m[av[0][1], -1, 0] = av[0][2] + k + n
            return [(av[0], m, es)]

        def strlen(E, f, i, av, mem, es):
            n = length(E, mem, av[0])
            return [(fin.const(self.W, n) if n is not None else None, mem, es)]

        def malloc(E, f, i, av, mem, es):
            E.blocks = getattr(E, "blocks", 0) + 1
            r = "block%d" % E.blocks
            ext(E)[r] = av[0][2] if av[0] is not None and av[0][0] == "c" else 0
            E.windows[r] = 1 << 40
            return [(("p", r, 0), mem, es)]

        def getenv(E, f, i, av, mem, es):
            if av[0] is not None and av[0][0] == "p" and av[0][1][0] == "@":
                g = self.M.globals.get(av[0][1][1:])
                name = bytes(g[1][1]).split(b"\0")[0].decode()
                if env.get(name) is not None:
                    return [(("p", "env " + name, 0), mem, es)]
                return [(fin.const(self.W, 0), mem, es)]
            return [(None, mem, es)]
        return {"strcpy": strcpy, "strcat": strcat, "strlen": strlen, "malloc": malloc, "getenv": getenv, "mes_open": self.opened}

    def opened(self, E, f, i, av, mem, es):
        return [(fin.const(32, -1), mem, es), (fin.const(32, 5), mem, es)]

    def boot(self):
        """init's buffers, then open_boot with environment values of every kind of length"""
        fn = "open_boot"
        if fn not in self.M.funcs or "init" not in self.M.funcs:
            raise report.Broken("open_boot and init are not found")
        ls = (None, 0, 100, 430, 500, 512, 1000, 1024, 3000)
        for env in itertools.product(ls, ls, (None, 0, 100, 1100)):
            names = ("MES_BOOT", "MES_PREFIX", "srcdest")
            self.what = ", ".join("%s of %d bytes" % (k, n) for k, n in zip(names, env) if n is not None) or "no environment"
            e = {}
            E = self.fin(lambda *a: None, lim=None)
            mod = self.libc(lambda E: e, dict(zip(names, env)))
            E.models.update(mod)

            def store(f, i, kind, region, off, size, f_=None):
                if region in e and kind == "write" and (off is None or off < 0 or off + size > e[region]):
                    self.bad(f.name, "buffer", "%s:%s: a write at offset %s of a buffer of %d bytes (%s)" % (f.file, i.line, off, e[region], self.what))
            E.access = store
            put = E.store

            def put0(mem, p, n, v, esc):
                put(mem, p, n, v, esc)
                if p is not None and p[0] == "p" and p[1] in e and p[2] is not None and n == 1:
                    mem[p[1], -1, 0] = p[2] if v is not None and v[0] == "c" and v[2] == 0 else None
            E.store = put0
            E.models["open_boot"] = lambda E, f, i, av, mem, es: stops.append((dict(mem), es)) or []
            stops = []
            mem = {("env " + k, -1, 0): n for k, n in zip(names, env) if n is not None}
            mem.update(dict([self.g("g_debug", 0)]))
            for k in mem:
                E.windows[k[0]] = 1 << 40
            E.models["atoi"] = self.unk
            E.models["memset"] = self.unk
            self.run(E, "init", [None], tuple(sorted(mem.items(), key=repr)))
            if not stops:
                if self.found:
                    return
                raise report.Broken("init does not reach open_boot")
            for m, es in stops:
                m = dict(m)
                E.models.pop("open_boot", None)
                self.out.count("string buffer states")
                self.run(E, fn, [], tuple(sorted(m.items(), key=repr)))

    def setenv(self):
        if "setenv_" not in self.M.funcs:
            raise report.Broken("setenv_ is not found")
        lo, ln, hi = self.fields()
        ts = self.stringtype()
        for n in (0, 1, 100, 1022, 1023, 1024, 1025, 5000):
            self.what = "a name of %d bytes" % n
            e = self.sizes()
            E = self.fin(lambda *a: None, lim=None)
            E.models.update(self.libc(lambda E: e, {}))
            mem = {}
            for o in ("a", "b"):
                E.contents.update({(o, lo[0], lo[1]): fin.const(8 * lo[1], ts), (o, ln[0], ln[1]): fin.const(8 * ln[1], n), (o, hi[0], hi[1]): ("p", o + "bytes", 0)})
                mem[o + "bytes", -1, 0] = n + 2 * self.P
                E.windows[o + "bytes"] = 1 << 30
            mem.update(self.buffers)
            self.out.count("string buffer states")
            self.run(E, "setenv_", [("p", "a", 0), ("p", "b", 0)], tuple(sorted(mem.items(), key=repr)))

    def sizes(self):
        """buffers that init allocates: region -> bytes; self.buffers: the globals that hold them"""
        e = {}
        E = self.fin(lambda *a: None, lim=None)
        E.models.update(self.libc(lambda E: e, {}))
        stops = []
        E.models["open_boot"] = lambda E, f, i, av, mem, es: stops.append(dict(mem)) or []
        E.models["atoi"] = E.models["memset"] = self.unk
        self.run(E, "init", [None], ())
        if not stops:
            raise report.Broken("init does not reach open_boot")
        self.buffers = {k: v for k, v in stops[0].items() if k[0][0] == "@" and v is not None and v[0] == "p"}
        return e

    def execl(self):
        fn = "execl_"
        if fn not in self.M.funcs:
            raise report.Broken("execl_ is not found")
        lo, ln, hi = self.fields()
        ts = self.stringtype()
        tp = self.pairtype()
        nil = ("p", "@cell_nil*", 0)
        for n in (0, 1, 3, 999, 1000, 1001, 1022, 1023, 1024, 1030):
            self.what = "%d arguments" % n
            e = self.sizes()

            def access(f, i, kind, region, off, size):
                if region in e and kind == "write" and (off is None or off < 0 or off + size > e[region]):
                    self.bad(f.name, "buffer", "%s:%s: a write at offset %s of a buffer of %d bytes (%s)" % (f.file, i.line, off, e[region], self.what))
            cont = {("@cell_nil", 0, self.P): nil, ("@cell_nil*", lo[0], lo[1]): fin.const(8 * lo[1], mesc.constants(self.arch)["TSPECIAL"])}
            for k in range(n):
                cont["list", k * 64 + ln[0], ln[1]] = ("p", "str", 0)
                cont["list", k * 64 + hi[0], hi[1]] = ("p", "list", (k + 1) * 64) if k + 1 < n else nil
                cont["list", k * 64 + lo[0], lo[1]] = fin.const(8 * lo[1], tp)
            cont.update({("str", lo[0], lo[1]): fin.const(8 * lo[1], ts), ("str", ln[0], ln[1]): fin.const(8 * ln[1], 3), ("str", hi[0], hi[1]): ("p", "strbytes", 0)})
            E = self.fin(access, contents=cont, lim=None, blind=list(e))
            E.models["execv"] = self.unk
            E.windows.update({"list": 1 << 40})
            E.windows.update({r: 1 << 40 for r in e})
            self.out.count("string buffer states")
            mem = dict(self.buffers)
            mem.update(dict([self.g("g_debug", 0)]))
            self.run(E, fn, [("p", "str", 0), ("p", "list", 0) if n else nil], tuple(sorted(mem.items(), key=repr)))

    def pairtype(self):
        f = self.M.funcs.get("cons")
        for b in f.order if f else ():
            for i in f.blocks[b]:
                if i.op == "call" and i.a[0] == ("g", "make_cell") and i.a[1][0][1][0] == "int":
                    return i.a[1][0][1][1]
        raise report.Broken("the type of a pair is not found")
