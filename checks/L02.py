"""L02: call number and arguments reach the kernel's registers, on every architecture, for both compilers."""
from vt import abi, bv, cx, inlasm, report, stub
from vt.bv import T


def check(out):
    out.cov["explanation"] = (
        "The GCC stubs: every asm statement is assembled for every essentially different allocation of its operands to registers and memory that its constraints admit, decoded and executed "
        "abstractly; the MesCC stubs: their M1 text is encoded with the architecture's definitions, decoded and executed in the frame MesCC builds. At each kernel entry the registers of the "
        "kernel's ABI are compared with the function's parameters, the returned value with the kernel's result, and every other register with its value before.")
    for arch, cc in stub.VARIANTS:
        variant(out, arch, cc)
    out.need("kernel entries", 6 * 14)
    out.need("argument words", 6 * 30)


def variant(out, arch, cc):
    def bad(fn, line, msg):
        out.violation("%s-%s %s asm" % (arch, cc, fn), "%s (%s, %s): %s" % (fn, arch, cc, msg))
    L = stub.Layer(arch, cc, stub.srcs(arch, cc), bad)
    W = L.W
    for k in range(5):
        for pre in ("__sys_call", "_sys_call"):
            f = pre + (str(k) if k else "")
            if f not in L.M.funcs or not L.M.funcs[f].blocks:
                raise report.Broken("%s (%s, %s) is not defined" % (f, arch, cc))
            av = [bv.var("p%d" % j, W) for j in range(k + 1)]
            outs = run(L, f, av, ("i", W))
            for o in outs:
                if o.kind != "ret":
                    out.violation("%s-%s %s ends" % (arch, cc, f), "%s (%s, %s) does not return (%s)" % (f, arch, cc, o.kind))
                    continue
                one(out, L, f, o, av[0], [(a, W) for a in av[1:]])
                if pre == "__sys_call":
                    result(out, L, f, o)
    f = "_write"
    av = [bv.var("filedes", 32), bv.var("buffer", W), bv.var("size", W)]
    for o in run(L, f, av, ("i", W)):
        one(out, L, f, o, bv.const(W, abi.nr(arch, "write")), [(av[0], 32), (av[1], W), (av[2], W)])
        result(out, L, f, o)
    f = "_exit"
    av = [bv.var("code", 32)]
    for o in run(L, f, av, "void"):
        ev = stub.kernel(o)
        if len(ev) < 1:
            out.violation("%s-%s %s none" % (arch, cc, f), "%s (%s, %s) does not enter the kernel" % (f, arch, cc))
            continue
        nrs = [abi.nr(arch, "exit"), abi.nr(arch, "exit_group")]
        one(out, L, f, o, bv.const(W, nrs[1] if ev[0].args[0] == bv.const(W, nrs[1]) else nrs[0]), [(av[0], 32)], first=True)
    f = "__raise"
    av = [bv.var("signum", 32)]
    for o in run(L, f, av, ("i", 32)):
        raising(out, L, o, av[0])


def run(L, f, av, ret):
    try:
        return L.call(f, av, ret=ret)
    except cx.Limit as e:
        raise report.Broken("%s (%s, %s): %s" % (f, L.arch, L.cc, e))


def one(out, L, f, o, nr, args, first=False):
    who = "%s (%s, %s)" % (f, L.arch, L.cc)
    key = "%s-%s %s" % (L.arch, L.cc, f)
    ev = stub.kernel(o)
    if len(ev) != 1 and not (first and ev):
        out.violation(key + " entries", "%s enters the kernel %d times" % (who, len(ev)))
        return
    out.count("kernel entries")
    words(out, L, key, who, ev[0], nr, args)


def words(out, L, key, who, e, nr, args):
    names = [regname(L.arch, n) for n in inlasm.KERNEL[L.arch][1]]
    for av, how in e.extra:
        out.count("allocations")
        if not stub.same(av[0], nr):
            out.violation(key + " number", "%s: the call number in %s is %r, not %r (operands: %s)" % (who, names[0], av[0], nr, how))
        for k, (a, w) in enumerate(args):
            out.count("argument words")
            if not stub.same(av[1 + k], a, w):
                out.violation("%s argument %d" % (key, k + 1), "%s: %s holds %r where the kernel expects %r, argument %d (operands: %s)" % (who, names[1 + k], av[1 + k], a, k + 1, how))


def regname(arch, n):
    from vt import arm, x86
    return (arm.RN if arch == "arm" else x86.R64 if arch == "x86_64" else x86.R32)[n]


def sysresult(t):
    return len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1 and t.t[0][0][0] == "v" and str(t.t[0][0][1]).startswith("sysret")


def result(out, L, f, o):
    if o.kind != "ret" or o.val is None or not sysresult(o.val):
        out.violation("%s-%s %s result" % (L.arch, L.cc, f), "%s (%s, %s) does not return the kernel's result but %r" % (f, L.arch, L.cc, o.val))


def raising(out, L, o, sig):
    who = "__raise (%s, %s)" % (L.arch, L.cc)
    key = "%s-%s __raise" % (L.arch, L.cc)
    ev = stub.kernel(o)
    if o.kind != "ret" or len(ev) not in (1, 2):
        out.violation(key + " entries", "%s enters the kernel %d times (%s)" % (who, len(ev), o.kind))
        return
    out.count("kernel entries", len(ev))
    for e, n in zip(ev, ("getpid", "kill")):
        num = bv.const(L.W, abi.nr(L.arch, n))
        for av, how in e.extra:
            if not stub.same(av[0], num):
                out.violation(key + " number", "%s: the call number is %r where %s (%d) is expected" % (who, av[0], n, num.c))
    if len(ev) == 2:
        for av, how in ev[1].extra:
            out.count("argument words", 2)
            t = bv.trunc(av[1], 32)
            if "sysret" not in repr(t) or not stub.same(av[2], sig, 32):
                out.violation(key + " arguments", "%s: kill (%r, %r) instead of (the process, %r)" % (who, av[1], av[2], sig))
    if o.val is None or "sysret" not in repr(o.val):
        out.violation(key + " result", "%s returns %r" % (who, o.val))
