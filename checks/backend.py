"""M01-M03: every backend instruction against its specification."""
import copy
from vt import backend, bv, irspec, m1, report, x86
from vt.absint import Lin, AnalysisError, SchemeError, enumerate_paths, add, mul
from vt.scheme import S
from vt.sexp import Char, Kw, NIL, Pair, plist

GLOBAL = "G"


def operand(B, kind, i, ranges):
    """(argument for the emitter, operand for the specification)"""
    W = B.width
    v = "v%d" % i
    if kind == "value":
        ranges[v] = (-(1 << (W - 1)), (1 << W) - 1)
        return Lin.var(v), Lin.var(v)
    if kind == "case":
        ranges[v] = (-(1 << (W - 1)), (1 << W) - 1)
        return Lin.var(v), Lin.var(v)
    if kind == "mask":
        ranges[v] = (0, (1 << W) - 1)
        return Lin.var(v), Lin.var(v)
    if kind == "size":
        ranges[v] = (-(1 << 31) + 1, (1 << 31) - 1)
        return Lin.var(v), Lin.var(v)
    if kind == "one":
        ranges[v] = (-1, 1)
        return Lin.var(v), Lin.var(v)
    if kind == "step":
        ranges[v] = (0, 127)
        return Lin.var(v), Lin.var(v)
    if kind == "shift":
        ranges[v] = (0, W - 1)
        return Lin.var(v), Lin.var(v)
    if kind == "local":
        m = (1 << 30) // B.n
        ranges[v] = (-m, m)
        return Lin.var(v), Lin.var(v)
    if kind == "off":
        ranges[v] = (0, 1 << 29)
        return Lin.var(v), Lin.var(v)
    if kind == "args":
        ranges[v] = (0, 127)
        return Lin.var(v), Lin.var(v)
    if kind == "index":
        return 0, 0
    if kind == "zero":
        return 0, 0
    if kind == "addr":
        return plist([Kw("address"), "G"]), "G"
    if kind == "string":
        return plist([Kw("string"), "text"]), "_string_F_0"
    if kind == "function":
        return "callee", "callee"
    if kind == "label":
        return "L", "L"
    raise AssertionError(kind)


def variants(B, spec, cfg):
    """all operand lists: (emitter arguments, specification operands, ranges, name)"""
    out = [([], [], {}, "")]
    for i, k in enumerate(spec[1]):
        nxt = []
        for a, s, r, nm in out:
            if k == "signed":
                for b in (True, False):
                    nxt.append((a + [b], s + [b], dict(r), nm + (" signed" if b else " unsigned")))
            elif k == "register":
                for rg in B.regs[:2]:
                    nxt.append((a + [rg], s + [rg], dict(r), nm + " " + rg))
            elif k == "global":
                ty = B.I.apply(B.I.g[S("make-type")], [S("signed"), B.n, False])
                g = mkglobal(B, ty)
                nxt.append((a + [g], s + ["G"], dict(r), nm))
                nxt.append((a + [plist([Kw("address"), "G"])], s + ["G"], dict(r), nm + " by name"))
            elif k == "formals":
                for n in (0, 2):
                    nxt.append((a + [plist(["p"] * n)], s + [n], dict(r), nm))
            else:
                r = dict(r)
                x, y = operand(B, k, i, r)
                nxt.append((a + [x], s + [y], r, nm))
        out = nxt
    return out


def mkglobal(B, ty, name="G", value=NIL):
    return B.I.apply(B.I.g[S("make-global")], [name, ty, value, S("storage"), False])


def drop_below(s, sp):
    """stores below the final stack pointer are dead"""
    out = []
    for a, n, v in s.writes:
        d = bv.sub(a, sp)
        if d.isconst() and d.c < 0 and d.c + n <= 0:
            continue
        out.append((a, n, v))
    return out


def observe(s, c, B, live, conds):
    sp = s.r[B.SP]
    out = [("stack pointer", sp), ("frame pointer", s.r[B.BP])]
    for i in live:
        out.append(("register " + s.names[i], s.r[i]))
    ws = drop_below(s, sp)
    st = []
    for a, n, v in sorted(ws, key=lambda w: repr(w[0])):
        out.append(("address of a %d-byte store" % n, a))
        out.append(("value stored", v))
        st.append(("store", n))
    for e in s.events:
        if e[0] == "jcc":
            out.append(("jump condition", bv.trunc(e[1], 32) if e[1].w > 32 else e[1]))
            st.append(("jcc", e[2]))
        elif e[0] in ("call", "jmp"):
            if e[1][0] == "val":
                out.append((e[0] + " target", e[1][1]))
                st.append(e[0])
            else:
                st.append((e[0], e[1]))
            if e[0] == "call":
                out.append(("stack pointer at the call", e[2]))
        elif e[0] == "ret":
            out.append(("return address", e[1]))
            st.append("ret")
        elif e[0] == "runtime":
            pass
        else:
            st.append(e[0])
    for k, x in conds(s):
        out.append((k, bv.trunc(x, 32) if x.w > 32 else x))
    return out, st


def compare(got, want, live, c, B, conds_got, conds_want, cx):
    oa, sa = observe(got, c, B, live, conds_got)
    ob, sb = observe(want, c, B, live, conds_want)
    if sa != sb or [x[0] for x in oa] != [x[0] for x in ob]:
        return "performs %s; the instruction means %s" % (describe(got, B), describe(want, B))
    d = bv.differ([(x[1], y[1]) for x, y in zip(oa, ob)], cx)
    if d is None or d == "unknown":
        return d
    v, i, x, y = d
    return "%s is %s, must be %s" % (oa[i][0], oa[i][1], ob[i][1])


def describe(s, B):
    l = ["store of %d bytes at %s" % (n, a) for a, n, v in drop_below(s, s.r[B.SP])]
    l += [" ".join(str(x) for x in e[:2]) for e in s.events]
    return "; ".join(l) or "no store and no transfer"


def decide(cx, B, name, spec, limit_cfg=None):
    configs, kinds, eff, opt = spec
    rel = "module/mescc/%s/as.scm" % backend.ARCH[B.arch]["dir"]
    W = B.width
    for k in configs:
        c = irspec.Cfg(B, k)
        regs = ",".join(reversed(B.regs[:k])) or "-"
        for args, sargs, ranges, vn in variants(B, spec, c):
            key = "%s:%s%s[%d]" % (rel, name, vn, k)

            def go(path):
                def f():
                    info = B.info(k)
                    gl = NIL
                    if "string" in kinds:
                        nm = plist([Kw("string"), "text"])
                        ent = Pair(nm, mkglobal(B, "char", nm, plist([Char(x) for x in "text\0"])))
                        gl = plist([ent])
                    t = B.emit(info, name, args)
                    return B.text(info, t, gl)
                return B.call(path, f)
            try:
                paths = enumerate_paths(go, ranges)
            except AnalysisError as e:
                cx.count("undecided")
                cx.sample("undecided %s: %s" % (key, e))
                continue
            cx.count("instruction_variants")
            for path, lines, exc in paths:
                cx.count("paths")
                cond = path_text(path)
                pk = key + ((" if " + cond) if cond else "")
                if exc is not None:
                    cx.violation(key + ":error", "%s (%s registers %s): %s raised while emitting" % (name, cond or "always", regs, exc))
                    continue
                bcx = bv.Ctx(path=path, ranges={("addr", l): (0x1000, (1 << 31) - 1) for l in ("G", "_string_F_0")})
                fa, fb = bv.var("fa", W), bv.var("fb", W)
                init = ("sub", fa, fb)
                if opt.get("init") == "logic":
                    init = ("alogic", bv.var("fa", W)) if B.arch == "armv4" else ("logic", bv.var("fa", W))
                shown = " ; ".join(repr(l).strip('"').strip().replace("\\t", "") for l in lines if l not in ("", ":f"))[:300]
                try:
                    rinit = None
                    if opt.get("count"):
                        # a shift count outside 0..W-1 is undefined in C
                        bcx.ranges["count"] = (0, W - 1)
                        rinit = {B.regs[1]: bv.ideal("count", W)}
                    got = B.run(B.items(lines), bcx, flags=init, init=rinit)
                except (x86.Undecodable, m1.M1Error) as e:
                    cx.violation(key + ":" + str(e).split(" at ")[0][:60], "%s with registers %s%s: %s [%s]" % (name, regs, " if " + cond if cond else "", e, shown))
                    continue
                except AnalysisError as e:
                    cx.count("undecided")
                    cx.sample("undecided %s: %s" % (pk, e))
                    continue
                want = B.state(bcx, flags=init, init=rinit)
                c = irspec.Cfg(B, k)
                live = list(c.live)
                if name == "function-locals":
                    d = bv.sub(got.r[B.SP], want.r[B.SP])
                    if not d.isconst() or d.c > -(4 * 1025 + 20 * 4):
                        cx.violation(key, "function-locals reserves %s bytes" % (bv.neg(d),))
                    want.r[B.SP] = got.r[B.SP]
                else:
                    eff(want, c, *sargs)
                if name.startswith("call-"):
                    live = list(c.live)
                elif opt.get("retlive"):
                    r0 = B.reg(B.regs[0])
                    live = [B.reg(B.regs[0])] if name == "ret" else [c.r]
                for dname in opt.get("dead", ()):
                    i = getattr(c, dname)
                    if i in live:
                        live.remove(i)
                fl = opt.get("flags")
                if fl == "keep":
                    cs = irspec.CMP
                elif fl in ("keepz", "flip"):
                    cs = ("e",)
                else:
                    cs = fl or ()
                cg = lambda s: [("flag " + x, s.cond(x, W)) for x in cs]
                if fl == "flip":
                    want.flags = init
                    cw = lambda s: [("flag e", bv.sub(bv.const(W, 1), s.cond("e", W)))]
                else:
                    cw = cg
                res = compare(got, want, live, c, B, cg, cw, bcx)
                if res is None:
                    cx.count("paths_equal")
                elif res == "unknown":
                    cx.count("undecided")
                    cx.sample("undecided %s [%s]" % (pk, shown))
                else:
                    cx.violation(key, "%s with registers %s%s: %s [%s]" % (name, regs, " if " + cond if cond else "", res, shown))


def path_text(path):
    out = []
    for v in sorted(path.ranges):
        if isinstance(v, str) and v.startswith("v"):
            lo, hi = path.ranges[v]
            out.append("%d <= %s <= %d" % (lo, v, hi))
    return ", ".join(out)


def check_arch(cx, arch):
    B = backend.Backend(arch)
    n = 0
    for name in sorted(B.table):
        spec = irspec.SPEC.get(name)
        if spec is None:
            cx.count("instructions_without_specification")
            cx.sample("no specification: " + name)
            continue
        cx.count("instructions")
        decide(cx, B, name, spec)
    cx.need("instructions", 85)
    cx.need("paths_equal", 120)
    cx.cov["explanation"] = (
        "Every entry of the backend's instruction table is expanded by abstract evaluation of the emitter and of the M1 "
        "writer with symbolic operands; each feasible path's text is encoded with the architecture's M1 table, decoded and "
        "executed over bit-vector terms, and its effect on registers, memory, stack, flags and control is compared by "
        "normal form with the instruction's specification. A difference needs a witness valuation to count as a violation.")
