"""Each assembly mnemonic is defined as the machine instruction it names."""
import os
from vt import arm, bv, m1, mnem, x86, report


def x86_items(hexs, fields):
    it = list(m1.hexbytes(hexs))
    for k, n, v in fields:
        if k == "n":
            it += [("n", i, n, mnem._v(v)) for i in range(n)]
        else:
            it += [("r", i, n, v) for i in range(n)]
    return it


def x86_effect(insns, mode):
    s = x86.State(mode, mnem.CX)
    for i in insns:
        x86.step(s, i)
    return s


def observables(s):
    """list of (name, term) plus a structural part compared by equality"""
    out = [(n, r) for n, r in zip(s.names, s.r)]
    for i, (a, n, v) in enumerate(s.writes):
        out.append(("address of store %d" % i, a))
        out.append(("value of store %d" % i, v))
    for c in ("e", "b", "l", "be", "le", "s"):
        out.append(("condition " + c, s.cond(c)))
    struct = ([n for _, n, _ in s.writes],)
    for e in s.events:
        if e[0] == "jcc":
            out.append(("jump condition", e[1]))
            struct += (("jcc", e[2]),)
        elif e[0] in ("call", "jmp"):
            if e[1][0] == "val":
                out.append((e[0] + " target", e[1][1]))
                struct += ((e[0],),)
            else:
                struct += ((e[0], e[1]),)
        elif e[0] == "ret":
            out.append(("return address", e[1]))
            struct += (("ret",),)
        else:
            struct += ((e[0],),)
            for t in e[2]:
                out.append(("operand", t))
    return out, struct


def same(a, b):
    """None equal; 'unknown' undecided; else description of a difference"""
    oa, sa = observables(a)
    ob, sb = observables(b)
    if sa != sb or len(oa) != len(ob):
        return "different stores or control transfer: %s / %s" % (sa, sb)
    d = bv.differ([(x[1], y[1]) for x, y in zip(oa, ob)], mnem.CX)
    if d is None or d == "unknown":
        return d
    v, i, x, y = d
    return "%s is %s, the named instruction gives %s" % (oa[i][0], oa[i][1], ob[i][1])


def x86_table(cx, rel, mode):
    path = os.path.join(report.REPO, rel)
    defs, dups = m1.load(path)
    for name, l1, l2 in dups:
        cx.violation("%s:%s:duplicate" % (rel, name), "%s:%d: %s is defined again with other bytes (first at line %d)" % (rel, l2, name, l1))
    for name, (h, line) in sorted(defs.items()):
        if name.startswith("SYS_"):
            continue
        where = "%s:%d: %s = %s" % (rel, line, name, h)
        try:
            alts, fields = mnem.parse(name, mode)
        except mnem.NotNamed:
            cx.count("mnemonics_without_a_reading")
            cx.sample("unread: " + name)
            continue
        cx.count("mnemonics")
        try:
            st = x86.Stream(x86_items(h, fields), mnem.CX)
            got = []
            while st.more():
                got.append(x86.decode(st, mode))
            sg = x86_effect(got, mode)
        except (x86.Undecodable, m1.M1Error) as e:
            cx.violation("%s:%s" % (rel, name), where + ": does not decode: %s" % e)
            continue
        res = []
        for a in alts:
            res.append(same(sg, x86_effect([a], mode)))
        if None in res:
            cx.count("mnemonics_equal")
            continue
        if "unknown" in res:
            cx.count("mnemonics_undecided")
            continue
        cx.violation("%s:%s" % (rel, name), where + " decodes to %s: %s" % (got, res[0]))


def arm_table(cx, rel):
    path = os.path.join(report.REPO, rel)
    defs, dups = m1.load(path)
    for name, l1, l2 in dups:
        cx.violation("%s:%s:duplicate" % (rel, name), "%s:%d: %s is defined again with other bytes (first at line %d)" % (rel, l2, name, l1))
    acx = bv.Ctx(ranges={"I": (0, 255)})
    imm8 = bv.from_int(mnem._v("I"), 32)
    imm32 = bv.from_int(mnem._v("J"), 32)
    for name, (h, line) in sorted(defs.items()):
        if name.startswith("SYS_"):
            continue
        where = "%s:%d: %s = %s" % (rel, line, name, h)
        want = arm.State(acx)
        want.flags = init = ("sub", bv.var("fa", 32), bv.var("fb", 32))
        try:
            fields = arm.meaning(name, want, imm8, imm32)
        except arm.NotNamed:
            cx.count("mnemonics_without_a_reading")
            cx.sample("unread: " + name)
            continue
        cx.count("mnemonics")
        fs = sorted(set(fields))
        res = None
        try:
            items = list(m1.hexbytes(h))
            if "lab" in fs:
                items = [("s", i, 3, "L") for i in range(3)] + items
            if "pre" in fs:
                items = [("n", 0, 1, mnem._v("I"))] + items
            if "post" in fs:
                items = items + [("n", i, 4, mnem._v("J")) for i in range(4)]
            got = arm.run(items, acx, flags=init)
        except (x86.Undecodable, m1.M1Error) as e:
            cx.violation("%s:%s" % (rel, name), where + ": does not decode: %s" % e)
            continue
        res = arm_same(got, want, name)
        if res is None:
            cx.count("mnemonics_equal")
        elif res == "unknown":
            cx.count("mnemonics_undecided")
            cx.sample("undecided: " + name)
        else:
            cx.violation("%s:%s" % (rel, name), where + ": " + res)


def arm_same(a, b, name):
    """r9 is the documented scratch register; flags matter where the name is a comparison"""
    def obs(s):
        out = [(n, r) for n, r in zip(s.names, s.r) if n not in ("r9", "pc")]
        st = [n for _, n, _ in s.writes if True]
        for i, (x, n, v) in enumerate(s.writes):
            out.append(("address of store %d" % i, x))
            out.append(("value of store %d" % i, v))
        for e in s.events:
            if e[0] == "jcc":
                out.append(("jump condition", e[1]))
                st.append(("jcc", e[2]))
            elif e[0] in ("call", "jmp"):
                if e[1][0] == "val":
                    out.append((e[0] + " target", e[1][1]))
                    st.append(e[0])
                else:
                    st.append((e[0], e[1]))
            elif e[0] == "ret":
                out.append(("return address", e[1]))
                st.append("ret")
            else:
                st.append(e[0])
        return out, st
    cmpl = name.split("_")[0] in ("cmp", "cmn", "test")
    jumps = [e for e in b.events if e[0] in ("call", "jmp", "ret")]
    # stores of the scratch area below the stack pointer are not observable
    for s in (a, b):
        s.writes = [x for x in s.writes if not (s.below_stack(x[0]) is not None and s.below_stack(s.r[13]) is not None
                                                and s.below_stack(x[0]) < s.below_stack(s.r[13]))]
    oa, sa = obs(a)
    ob, sb = obs(b)
    if getattr(b, "mul", False):
        # both operand orders name the same product; it is delivered in the register the code generator uses
        alt = bv.mul(bv.var("r0", 32), bv.var("r1", 32))
        if sum(1 for n, r in oa if n in ("r0", "r1") and r == alt) == 1 and \
                all(r == bv.var(n, 32) for n, r in oa if n not in ("r0", "r1")):
            return None
    if sa != sb or len(oa) != len(ob):
        return "different stores or control transfer: %s / %s" % (sa, sb)
    pairs = [(x[0], x[1], y[1]) for x, y in zip(oa, ob)]
    if cmpl:
        if b.flags[0] == "cmn":
            b.flags = ("sub", b.flags[1], bv.neg(b.flags[2]))
            cond = ("e",)
        elif b.flags[0] == "alogic":
            cond = ("e", "s")
        else:
            cond = ("e", "b", "l", "be", "le")
        pairs += [("condition " + c, a.cond(c), b.cond(c)) for c in cond]
    d = bv.differ([(x[1], x[2]) for x in pairs], a.cx)
    if d is None or d == "unknown":
        return d
    v, i, x, y = d
    return "%s is %s, the named instruction gives %s" % pairs[i]


def check(cx):
    cx.cov["explanation"] = ("Every DEFINE of the three tables is decoded byte by byte; its abstract effect on registers, memory, "
                             "flags and control flow is put in normal form and compared with the effect of the instruction "
                             "that its spelling names.")
    x86_table(cx, "lib/x86-mes/x86.M1", 32)
    x86_table(cx, "lib/x86_64-mes/x86_64.M1", 64)
    arm_table(cx, "lib/arm-mes/arm.M1")
    cx.need("mnemonics", 560)
    if cx.counts.get("mnemonics_undecided", 0) > 20:
        raise report.Broken("too many undecided mnemonics")
