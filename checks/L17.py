"""L17: the environment and the search path."""
import itertools
import re
from vt import bv, cx, lib, objs, report, vset
from vt.bv import T

SRC = ["posix/getenv.c", "posix/setenv.c", "posix/unsetenv.c", "mes/search-path.c", "posix/execvp.c", "posix/execv.c"]
BYTES = (0, 61, 65, 66)
NAME = (65, 66)


def check(out):
    out.cov["explanation"] = (
        "getenv, setenv and unsetenv are evaluated abstractly on environments of up to three strings of unknown bytes and names and values of unknown bytes, with the array and the strings as objects of exactly their size and "
        "memory that runs out at any allocation. For every combination of representative bytes, on every path that admits it, the result and the whole environment afterwards must be the ones POSIX defines. search_path and "
        "execvp are evaluated on search paths of several forms with a kernel that finds the file or not at every probe: the probes must be the directories in order, and the first success is what is returned or executed.")
    for arch in lib.ARCH:
        srcs = ["lib/" + s for s in SRC] + [s for s in lib.sources(arch) if s.startswith("lib/string/")] + ["lib/mes/globals.c"]
        e = Env(out, arch, lib.linked(arch, srcs))
        e.environment()
        e.path()
    out.need("functions", 15)
    out.need("environments", 5000)
    out.need("probes", 50)


class Stop(Exception):
    pass


def name_of(s):
    return s[:s.index(61)] if 61 in s else None


class Env:
    def __init__(self, out, arch, M):
        self.out, self.arch, self.M, self.W, self.P = out, arch, M, 8 * M.ptr, M.ptr
        for f in ("getenv", "setenv", "unsetenv", "search_path", "execvp"):
            if f not in M.funcs or not M.funcs[f].blocks:
                raise report.Broken("%s: %s is not defined" % (arch, f))

    def bad(self, f, what, msg):
        self.out.violation("%s %s" % (f, what), "%s: %s (%s) %s" % (self.M.funcs[f].file, f, self.arch, msg))
        return True

    def engine(self, sizes, models):
        W = self.W
        E = objs.Engine(self.M, models=models, inline_depth=8, max_paths=20000)
        E.peel = 64
        wrong = []

        def deref(E, st, fn, i, addr, n, store):
            base, off = E.split(addr)
            if base is not None and base[:1] == "@":
                if base[1:] not in self.M.globals:
                    return
                size = self.M.size(self.M.globals[base[1:]][0])
            elif base is not None and base[:1] == "&" and "#" in base:
                return
            else:
                size = sizes.get(base) if base in sizes else st.x.get(("size", base))
            if size is None or off.t or not 0 <= vset.sgn(off.c, W) <= size - n:
                wrong.append("%s:%s: %s %s offset %s of %s" % (fn.file, i.line, fn.name, "writes" if store else "reads", repr(off) if off.t else vset.sgn(off.c, W),
                                                             "%s, of %s bytes" % (base[1:], size) if size is not None else "an unknown place"))
                raise Stop()
        E.on_deref = deref
        return E, wrong

    def malloc(self, E, st, f, i, av):
        if not av[0].isconst():
            raise report.Broken("%s:%s: a block of unknown size" % (f.file, i.line))
        s0 = st.clone()
        b = "^new%d" % E.tick(st)
        st.x = dict(st.x)
        st.x["size", b] = av[0].c
        st.mem[b] = {}
        s0.x = dict(s0.x, refused=True)
        return [cx.Out("ret", st, bv.var(b, self.W)), cx.Out("ret", s0, T(self.W, 0))]

    # ------------------------------------------------------------ the environment
    def environment(self):
        for f in ("getenv", "setenv", "unsetenv"):
            self.out.count("functions")
            for n, size, m in ((0, 0, 1), (1, 3, 1), (1, 4, 2), (2, 2, 1), (3, 2, 1)):
                for ov in ((0, 1) if f == "setenv" else (None,)):
                    if self.one(f, n, size, m, ov):
                        break

    def one(self, f, n, size, m, ov):
        """n strings of up to size bytes, a name of m"""
        W, P = self.W, self.P
        st = cx.State()
        sizes = {"&env": (n + 1) * P, "&name": m + 1, "&value": 2}
        st.mem["@environ"] = {T(W, 0): (P, bv.var("&env", W))}
        st.mem["&env"] = {T(W, k * P): (P, bv.var("&s%d" % k, W)) for k in range(n)}
        st.mem["&env"][T(W, n * P)] = (P, T(W, 0))
        names = []
        for k in range(n):
            sizes["&s%d" % k] = size + 1
            st.mem["&s%d" % k] = {T(W, j): (1, bv.var("s%d.%d" % (k, j), 8)) for j in range(size)}
            st.mem["&s%d" % k][T(W, size)] = (1, T(8, 0))
            names += ["s%d.%d" % (k, j) for j in range(size)]
        st.mem["&name"] = {T(W, j): (1, bv.var("n%d" % j, 8)) for j in range(m)}
        st.mem["&name"][T(W, m)] = (1, T(8, 0))
        for j in range(m):
            st.assume(cx.Engine.icmp(objs.Engine(self.M), st, "ne", bv.var("n%d" % j, 8), T(8, 0)), True)
        st.mem["&value"] = {T(W, 0): (1, bv.var("v", 8)), T(W, 1): (1, T(8, 0))}
        E, wrong = self.engine(sizes, {"malloc": self.malloc})
        args = [bv.var("&name", W)] + ([bv.var("&value", W), T(32, ov)] if f == "setenv" else [])
        try:
            outs = E.run(f, args, st)
        except Stop:
            return self.bad(f, "access", "with %d variables: %s" % (n, wrong[0]))
        except cx.Limit as e:
            raise report.Broken("%s: %s" % (f, e))
        names += ["n%d" % j for j in range(m)] + (["v"] if f == "setenv" else [])
        values = lambda x: NAME if x[0] == "n" else (0, 67) if x == "v" else BYTES if n < 3 else BYTES[1:3]
        seen = set()
        for o in outs:
            dom = [[v for v in values(x) if vset.holds(o.state, {x: v})] for x in names]
            for t in itertools.product(*dom):
                env = dict(zip(names, t))
                if not vset.holds(o.state, env):
                    continue
                seen.add(t)
                l = []
                for k in range(n):
                    b = [env["s%d.%d" % (k, j)] for j in range(size)] + [0]
                    l.append(b[:b.index(0)])
                nm = [env["n%d" % j] for j in range(m)]
                same = [k for k, s in enumerate(l) if name_of(s) == nm]
                if len(same) > 1:
                    continue
                self.out.count("environments")
                msg = self.judge(E, o, f, env, l, nm, same, ov)
                if msg:
                    return self.bad(f, "result", "of name %r%s in the environment %s %s" % (bytes(nm).decode(), "" if ov is None else ", overwrite %d," % ov, [bytes(s).decode() for s in l], msg))
        doms = [values(x) for x in names]
        for t in itertools.product(*doms):
            if t not in seen:
                return self.bad(f, "none", "does not return for %s" % dict(zip(names, t)))

    def text(self, E, st, p, env, limit=12):
        r = []
        base, off = E.split(p)
        if base is None or off.t:
            return None
        for k in range(limit):
            v = vset.term(E.load(st, bv.add(p, T(self.W, k)), 1), env)
            if v == 0:
                return r
            r.append(v)

    def judge(self, E, o, f, env, l, nm, same, ov):
        W, P = self.W, self.P
        if o.kind != "ret":
            return "stops (%s)" % o.kind
        st = o.state
        new = [("&s%d" % k, s) for k, s in enumerate(l)]
        try:
            if f == "getenv":
                want = T(W, 0) if not same else bv.add(bv.var("&s%d" % same[0], W), T(W, len(nm) + 1))
                if o.val != want:
                    return "is %r, not %r" % (o.val, want)
            if f == "unsetenv":
                new = [x for k, x in enumerate(new) if k not in same]
            if f == "setenv":
                r = vset.sgn(vset.term(o.val, env), o.val.w)
                if st.x.get("refused"):
                    if r != -1:
                        return "returns %d when memory runs out" % r
                else:
                    if r != 0:
                        return "returns %d" % r
                    e = (None, nm + [61] + ([env["v"]] if env["v"] else []))
                    if not same:
                        new.append(e)
                    elif ov:
                        new[same[0]] = e
            a = E.load(st, bv.var("@environ", W), P)
            base, off = E.split(a)
            if base is None or off.t or off.c:
                return "leaves environ pointing to an unknown place"
            for k, (b, s) in enumerate(new + [(0, None)]):
                p = E.load(st, bv.add(a, T(W, k * P)), P)
                if b == 0:
                    if p != T(W, 0):
                        return "leaves more than %d variables" % len(new)
                elif b is not None:
                    if p != bv.var(b, W) or self.text(E, st, p, env) != s:
                        return "changes the variable %r" % bytes(s).decode()
                else:
                    t = self.text(E, st, p, env)
                    if t != s:
                        return "makes the variable %r, not %r" % (bytes(t or []).decode("latin1"), bytes(s).decode())
        except vset.Unknown as u:
            return "has a result that depends on something else (%s)" % u
        except cx.Limit:
            return "has an unknown result"
        return None

    # ------------------------------------------------------------ the search path
    def path(self):
        for f in ("search_path", "execvp"):
            self.out.count("functions")
            for path in (None, "", "/bin", "/a:/bc/d", "/x/:y:/usr/local/bin", "/" + "l" * 300 + ":/ok", "/ok:/" + "l" * 300, "/b:", "/" + "l" * 249 + ":/ok", "/" + "l" * 250 + ":/ok"):
                for name in ("f", "a/b") if f == "execvp" else ("prog",):
                    if self.probe(f, path, name):
                        return

    def probe(self, f, path, name):
        W, P = self.W, self.P
        st = cx.State()
        sizes = {"&name": len(name) + 1, "&path": len(path or "") + 1, "&argv": 3 * P}
        for b, s in (("&name", name), ("&path", path or "")):
            st.mem[b] = {T(W, k): (1, T(8, ord(c))) for k, c in enumerate(s + "\0")}
        argv = bv.var("&argv", W)

        def getenv(E, st, fn, i, av):
            t = self.const(E, st, av[0])
            if t != "PATH":
                self.bad(f, "variable", "looks up the variable %r (line %s)" % (t, i.line))
                raise Stop()
            return [cx.Out("ret", st, T(W, 0) if path is None else bv.var("&path", W))]

        def access(E, st, fn, i, av):
            t = self.const(E, st, av[0])
            if t is None:
                raise report.Broken("%s:%s: access on an unknown text" % (fn.file, i.line))
            m = av[1]
            if not m.isconst() or m.c != 1:
                self.bad(f, "mode", "asks whether %r can be accessed with mode %r, not X_OK" % (t, m))
                raise Stop()
            self.out.count("probes")
            s0 = st.clone()
            st.x = dict(st.x, tried=st.x.get("tried", ()) + (t,), found=t)
            s0.x = dict(s0.x, tried=s0.x.get("tried", ()) + (t,))
            return [cx.Out("ret", st, T(E.tw(i.ty), 0)), cx.Out("ret", s0, T(E.tw(i.ty), -1))]

        def execve(E, st, fn, i, av):
            st.x = dict(st.x, ran=(self.const(E, st, av[0]), av[1] == argv, av[2] == E.load(st, E.gaddr("environ"), P)))
            return [cx.Out("ret", st, T(E.tw(i.ty), -1))]

        def quiet(E, st, fn, i, av):
            return [cx.Out("ret", st, T(E.tw(i.ty), 0) if i.ty != "void" else None)]
        E, wrong = self.engine(sizes, {"getenv": getenv, "access": access, "execve": execve, "__mes_debug": quiet, "eputs": quiet, "itoa": quiet})
        E.peel = 400
        args = [bv.var("&name", W)] + ([argv] if f == "execvp" else [])
        what = "for %r with the path %s" % (name, "unset" if path is None else repr(path if len(path) < 60 else re.sub("l{200,}", lambda m: "<%d letters>" % len(m.group()), path)))
        try:
            outs = E.run(f, args, st)
        except Stop:
            return self.bad(f, "access", "%s: %s" % (what, wrong[0])) if wrong else True
        except cx.Limit as e:
            raise report.Broken("%s %s: %s" % (f, what, e))
        dirs = [d for d in (path or "").split(":") if d]
        if any(len(d) + len(name) + 2 > 256 for d in dirs) and not any(len(t) > 250 for o in outs for t in o.state.x.get("tried", ())):
            dirs = [d for d in dirs if len(d) + len(name) + 2 <= 256]       # too long for the buffer: passed over
        want = [] if "/" in name else [d + "/" + name for d in dirs]
        n = 0
        for o in outs:
            tried = [t.replace("//", "/") for t in o.state.x.get("tried", ())]
            found = o.state.x.get("found")
            exp = [w.replace("//", "/") for w in want]
            if o.kind != "ret":
                return self.bad(f, "stop", "%s stops (%s)" % (what, o.kind))
            if tried != (exp if found is None else exp[:len(tried)]) or found is not None and found.replace("//", "/") != (tried or [None])[-1]:
                return self.bad(f, "order", "%s tries %s, not %s" % (what, tried, exp))
            n += 1
            if f == "search_path":
                if found is None:
                    ok = o.val == T(W, 0)
                else:
                    ok = self.const(E, o.state, o.val) == found
                if not ok:
                    return self.bad(f, "result", "%s returns %s after %s" % (what, self.const(E, o.state, o.val) if o.val.t else o.val, "finding " + found if found else "finding nothing"))
                continue
            ran = o.state.x.get("ran")
            run = name if "/" in name else found
            if run is None:
                e = E.load(o.state, E.gaddr("errno"), 4)
                if ran or not o.val.isconst() or vset.sgn(o.val.c, o.val.w) != -1 or e != T(32, 2):
                    return self.bad(f, "missing", "%s %s instead of failing with ENOENT" % (what, "runs %s" % ran[0] if ran else "returns %r with errno %r" % (o.val, e)))
            elif ran is None or ran[0] != run or not ran[1] or not ran[2]:
                return self.bad(f, "run", "%s %s" % (what, "does not run %s" % run if ran is None else "runs %s%s%s, not %s" % (ran[0], "" if ran[1] else " with other arguments", "" if ran[2] else " in another environment", run)))
        if n != (1 if not want else len(want) + 1):
            return self.bad(f, "probes", "%s has %d outcomes, expected one for every probe and one for none" % (what, n))

    def const(self, E, st, p):
        r = ""
        if E.split(p)[0] is None:
            return None
        for k in range(500):
            t = E.load(st, bv.add(p, T(self.W, k)), 1)
            if t.t:
                return None
            if not t.c & 255:
                return r
            r += chr(t.c & 255)
