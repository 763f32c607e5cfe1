"""L01: an error answer of the kernel becomes -1 and errno; any other answer is returned."""
import itertools
import os
from vt import bv, cx, lib, ll, report, stub, vset
from vt.bv import T
from checks import L02, L03

OPEN = {"__buffered_read_clear": lambda E, st, f, i, av: [cx.Out("ret", st, bv.const(E.W, 0))],
        "lseek": lambda E, st, f, i, av: [cx.Out("ret", st, bv.const(E.tw(i.ty), 0))]}


def check(out):
    out.cov["explanation"] = (
        "The result-converting functions of every variant are evaluated abstractly with the kernel's answer as an unknown word. The conditions of the paths are comparisons of that word with "
        "constants, so the outcome is decided on every region they separate: for answers -4095..-1 the result must be -1 and errno the negated answer, for answers from 0 the result must be the answer "
        "and errno may only be left alone or cleared. Every function that makes system calls is then evaluated with those functions inlined, for each combination of failing and succeeding calls: "
        "the first failure decides the result (-1, or the function's documented failure value) and errno.")
    for arch, cc in stub.VARIANTS:
        variant(out, arch, cc)
        wrappers(out, arch, cc)
    out.need("outcomes", 6 * 6 * 10)
    out.need("wrapper outcomes", 6 * 50 * 2)


NEVER_FAIL = {"getpid", "getppid", "getuid", "geteuid", "getgid", "getegid"}
# functions composed of others, with parameters and what they return when a call fails: -1, 0, or None where that is not said
MORE = {"open": -1, "_open2": -1, "raise": -1, "wait": -1, "execv": -1, "sleep": None, "getcwd": 0, "_getcwd": 0, "alarm": None, "signal": -1, "isatty": 0,
        "time": -1, "waitpid": -1, "sigprocmask": -1, "lseek": -1}
PROPER = {"getcwd", "_getcwd", "alarm", "isatty", "time", "signal"}        # what they return on success is not the answer itself


def wrappers(out, arch, cc):
    W = 64 if arch == "x86_64" else 32
    srcs = ["lib/linux/%s-mes-%s/syscall.c" % (arch, cc), "lib/mes/globals.c", "lib/mes/cast.c"]
    for d in ("linux", "posix"):
        for f in sorted(os.listdir(os.path.join(report.REPO, "lib", d))):
            if f.endswith(".c") and not (d == "posix" and f in ("buffered-read.c", "getopt.c", "write.c")) and not (cc == "mescc" and f == "signal.c"):
                srcs.append("lib/%s/%s" % (d, f))
    M = ll.compile_c(srcs, arch, defs=list(lib.DEFS) + (["-D__MESC__=1"] if cc == "mescc" else []), passes="mem2reg")

    def kern(E, st, f, i, av):
        n = len([e for e in st.events if e.kind == "sys"])
        v = bv.var("sysret#%d" % n, W)
        for a in av[1:]:
            base, off = E.split(a)
            if base is not None and base[:1] in "&@":
                E.havoc(st, base)
        st.events.append(cx.Event("sys", av[0], av[1:], i, f.name, val=v))
        return [cx.Out("ret", st, v)]
    quiet = lambda E, st, f, i, av: [cx.Out("ret", st, E.ret(st, i, "quiet"))]
    zero = lambda E, st, f, i, av: [cx.Out("ret", st, bv.const(E.tw(i.ty), 0))]
    models = {"__sys_call" + (str(k) if k else ""): kern for k in range(5)}
    models["__raise"] = kern
    for f in ("eputs", "eputc", "oputs", "itoa", "memcpy", "__ungetc_clear"):
        models[f] = quiet
    models["__mes_debug"] = zero
    models["__buffered_read_clear"] = lambda E, st, f, i, av: [cx.Out("ret", st, bv.var("skip#%d" % E.tick(st), E.tw(i.ty)))]
    todo = dict.fromkeys(L03.SIMPLE, -1)
    todo.update(MORE)
    for f in sorted(todo):
        if cc == "mescc" and f in ("signal", "alarm", "_lseek"):      # not compiled, empty, or absent there
            continue
        wrapper(out, arch, cc, cx.Engine(M, models=models, inline_depth=8), f, todo[f])


def wrapper(out, arch, cc, E, f, failed):
    F = E.M.funcs.get(f)
    if F is None or not F.blocks:
        raise report.Broken("%s (%s, %s) is not defined" % (f, arch, cc))
    W = E.W
    key = "%s-%s %s" % (arch, cc, f)
    who = "%s (%s, %s) in %s" % (f, arch, cc, F.file)
    try:
        outs = E.run(f, [bv.var("p%d" % k, E.tw(t)) for k, (t, _) in enumerate(F.params)], cx.State())
    except cx.Limit as e:
        raise report.Broken("%s: %s" % (who, e))
    for o in outs:
        calls = [e for e in o.state.events if e.kind == "sys"]
        names = [e.val.t[0][0][1] for e in calls]
        for ans in itertools.product([-4095, -38, -2, -1, 0, 1, 5], repeat=len(calls)):
            if f in NEVER_FAIL and min(ans) < 0 or f == "raise" and len(ans) > 1 and ans[0] < 0:
                continue
            if f == "brk" and W == 32 and min(ans) < 0:
                continue
            env = {n: v & ((1 << W) - 1) for n, v in zip(names, ans)}
            if not vset.holds(o.state, env):
                continue
            bad = [v for v in ans if v < 0]
            if f == "lseek" and len(ans) == 3 and ans[0] >= 0 and ans[1] < 0:        # the third puts the position back
                bad = bad[:1]
            out.count("wrapper outcomes")
            if o.kind != "ret" or o.val is None:
                out.violation("%s ends" % key, "%s does not return when the kernel answers %s" % (who, list(ans)))
                continue
            try:
                er = errno(o, env)
            except vset.Unknown as e:
                er = "something unknown (%s)" % e
            if bad:
                if er != -bad[0]:
                    out.violation("%s errno" % key, "%s leaves errno %s, not %d, when the kernel answers %s" % (who, "unset" if er is None else er, -bad[0], list(ans)))
                if failed is None:
                    continue
                try:
                    got = vset.sgn(vset.term(o.val, env), o.val.w)
                except vset.Unknown as e:
                    got = "something unknown (%s)" % e
                if got != failed:
                    out.violation("%s error result" % key, "%s returns %s, not %d, when the kernel answers %s" % (who, got, failed, list(ans)))
            else:
                if calls and er not in (None, 0):
                    out.violation("%s success errno" % key, "%s sets errno to %s when the kernel answers %s" % (who, er, list(ans)))
                if f in PROPER or not calls:
                    continue
                try:
                    got = vset.sgn(vset.term(o.val, env), o.val.w)
                except vset.Unknown as e:
                    got = "something unknown (%s)" % e
                if got != ans[-1]:
                    out.violation("%s success result" % key, "%s returns %s when the kernel answers %s" % (who, got, list(ans)))


def variant(out, arch, cc):
    ignored = lambda *a: None
    L = stub.Layer(arch, cc, stub.srcs(arch, cc) + ["lib/posix/write.c", "lib/mes/globals.c"], ignored, extra_models=OPEN)
    W = L.W
    fs = [("_sys_call" + (str(k) if k else ""), [bv.var("p%d" % j, W) for j in range(k + 1)]) for k in range(5)]
    fs.append(("write", [bv.var("filedes", 32), bv.var("buffer", W), bv.var("size", W)]))
    for f, av in fs:
        F = L.M.funcs.get(f)
        if F is None or not F.blocks:
            raise report.Broken("%s (%s, %s) is not defined" % (f, arch, cc))
        outs = L02.run(L, f, av, ("i", W))
        decide(out, L, f, outs, [str(a.t[0][0][1]) for a in av])


def sysname(outs):
    ns = set()
    for o in outs:
        for e in stub.kernel(o):
            ns.add(e)
    return ns


def atoms_of(t, acc):
    for a, k in t.t:
        walk(a, acc)


def walk(a, acc):
    if isinstance(a, T):
        acc["consts"].add(a.c)
        acc["consts"].add(-a.c)
        atoms_of(a, acc)
    elif isinstance(a, tuple):
        if len(a) >= 2 and a[0] == "v":
            acc["vars"].add(a[1])
        for x in a:
            if isinstance(x, (tuple, T)):
                walk(x, acc)


def decide(out, L, f, outs, params):
    who = "%s (%s, %s)" % (f, L.arch, L.cc)
    key = "%s-%s %s" % (L.arch, L.cc, f)
    W = L.W
    acc = {"consts": set(), "vars": set()}
    for o in outs:
        for a in o.state.facts:
            walk(a, acc)
        if o.val is not None:
            walk(o.val, acc)
        for k in o.state.mem.get("@errno", {}).values():
            walk(k[1], acc)
    names = {v for v in acc["vars"] if str(v).startswith("sysret")}
    if len(names) != 1:
        out.violation(key + " ignored", "%s: result and errno do not depend on the kernel's answer" % who)
        return
    r = names.pop()
    hi = (1 << (W - 1)) - 1
    vals = {-4095, -4094, -2049, -128, -38, -2, -1, 0, 1, 2, 127, 128, 255, 256, 4094, 4095, 4096, 65535, 65536, hi - 1, hi, hi // 2}
    if W == 64 and f != "write":
        vals |= {(1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 47}
    if f == "write" and W == 64:       # the kernel writes at most 0x7ffff000 bytes
        vals = {v for v in vals if v <= 0x7ffff000} | {0x7ffff000}
    for c in list(acc["consts"]):
        for d in (-1, 0, 1):
            v = vset.sgn(c + d, W)
            if -4095 <= v <= hi and not (f == "write" and v > 0x7ffff000):
                vals.add(v)
    for v in sorted(vals):
        env = {r: v & ((1 << W) - 1)}
        hit = [o for o in outs if vset.holds(o.state, env)]
        if not hit:
            raise report.Broken("%s: no path for the answer %d" % (who, v))
        for o in hit:
            out.count("outcomes")
            if o.kind != "ret" or o.val is None:
                out.violation("%s ends" % key, "%s: with answer %d the function does not return" % (who, v))
                continue
            try:
                got = vset.sgn(vset.term(o.val, env), o.val.w)
                er = errno(o, env)
            except vset.Unknown as e:
                out.violation("%s other" % key, "%s: with answer %d the outcome depends on something else than the answer: %s" % (who, v, e))
                continue
            if v < 0:
                if got != -1:
                    out.violation("%s error result" % key, "%s returns %d, not -1, when the kernel answers %d" % (who, got, v))
                if er != -v:
                    out.violation("%s errno" % key, "%s leaves errno %s, not %d, when the kernel answers %d" % (who, "unset" if er is None else er, -v, v))
            else:
                if got != v:
                    out.violation("%s success result" % key, "%s returns %d when the kernel answers %d" % (who, got, v))
                if er not in (None, 0):
                    out.violation("%s success errno" % key, "%s sets errno to %d when the kernel answers %d" % (who, er, v))


def errno(o, env):
    m = o.state.mem.get("@errno")
    if not m:
        return None
    for off, (n, t) in m.items():
        if off.isconst() and off.c == 0:
            return vset.sgn(vset.term(t, env), 32)
    return None
