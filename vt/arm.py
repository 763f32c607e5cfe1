"""ARM (A32) subset: decoder and abstract execution over vt.bv terms.

A conditional instruction is executed as a selection between the new and the old
value.  PC-relative loads and branches inside the analysed bytes are followed."""
from . import bv
from .bv import T
from . import x86
from .x86 import Undecodable, flag
from .absint import Lin

RN = ["r%d" % i for i in range(11)] + ["fp", "r12", "sp", "lr", "pc"]
# condition -> x86 style name of the same comparison
COND = {0: "e", 1: "ne", 2: "ae", 3: "b", 4: "s", 5: "ns", 8: "a", 9: "be", 10: "ge", 11: "l", 12: "g", 13: "le"}
DP = ["and", "eor", "sub", "rsb", "add", "adc", "sbc", "rsc", "tst", "teq", "cmp", "cmn", "orr", "mov", "bic", "mvn"]


class State(x86.State):
    def __init__(self, cx, init=None):
        self.mode = 32
        self.cx = cx
        self.names = RN
        self.r = [bv.var(n, 32) for n in RN]
        if init:
            for k, v in init.items():
                self.r[RN.index(k)] = v
        self.sp0 = self.r[13]
        self.writes = []
        self.flags = ("init",)
        self.events = []
        self.stop = False
        self.ncall = 0
        self.calls = []

    def cond(self, c, w=32):
        f = self.flags
        if c in ("ne", "ae", "a", "ge", "g", "ns"):
            inv = {"ne": "e", "ae": "b", "a": "be", "ge": "l", "g": "le", "ns": "s"}[c]
            return bv.sub(bv.const(w, 1), self.cond(inv, w))
        if f[0] == "alogic":        # carry and overflow keep other values
            if c in ("e", "s"):
                return flag(("logic", f[1]), c, w, self.cx)
            return bv.boolean(w, "flag-" + c, *f)
        return flag(f, c, w, self.cx)


def ite(c, a, b):
    if c.isconst():
        return a if c.c else b
    if a == b:
        return a
    d = bv.sub(a, b)
    if d.isconst():
        return bv.add(b, bv.mulc(bv.trunc(c, a.w) if c.w > a.w else c, d.c))
    return bv.op("ite", a.w, c, a, b)


def word(items, i):
    w = items[i:i + 4]
    if len(w) < 4:
        raise Undecodable("instruction of %d bytes" % len(w))
    return w


def cbyte(x):
    if isinstance(x, int):
        return x
    if x[0] == "n" and isinstance(x[3], int):
        return x[3] >> (8 * x[1]) & 255
    return None


def data_word(w):
    """a data word -> T32"""
    if all(cbyte(x) is not None for x in w):
        return bv.const(32, sum(cbyte(x) << (8 * i) for i, x in enumerate(w)))
    if all(isinstance(x, tuple) and x[0] == "n" and x[1] == i and x[2] == 4 and x[3] == w[0][3] for i, x in enumerate(w)):
        return bv.from_int(w[0][3], 32)
    if all(isinstance(x, tuple) and x[0] == "a" and x[1] == i and x[3] == w[0][3] for i, x in enumerate(w)):
        return bv.ideal(("addr", w[0][3]), 32)
    raise Undecodable("data word %r" % (w,))


def run(items, cx, init=None, flags=None):
    s = State(cx, init)
    if flags:
        s.flags = flags
    pc = 0
    steps = 0
    s.insns = []
    s.data = set()
    while pc < len(items):
        if pc in s.data:
            raise Undecodable("execution reaches data at offset %d" % pc)
        if s.stop:
            raise Undecodable("unreachable bytes after an unconditional transfer")
        steps += 1
        if steps > 400:
            raise Undecodable("does not terminate")
        pc = step(s, items, pc)
    if pc > len(items):
        raise Undecodable("branch past the end of the sequence")
    s.n = steps
    return s


def reg(s, n, pc):
    if n == 15:
        raise Undecodable("pc as operand")
    return s.r[n]


def step(s, items, pc):
    w = word(items, pc)
    b = [cbyte(x) for x in w]
    cx = s.cx
    nxt = pc + 4
    if b[3] is None:
        raise Undecodable("operand field where an opcode byte is expected at offset %d" % pc)
    cond = b[3] >> 4
    top = b[3] & 15
    if cond == 15:
        raise Undecodable("unconditional space")
    if cond == 14:
        c = bv.const(32, 1)
    elif cond in COND:
        c = s.cond(COND[cond])
    else:
        raise Undecodable("condition %d" % cond)

    def put(n, v):
        s.r[n] = ite(c, v, s.r[n])

    # branches
    if top in (10, 11):
        link = top == 11
        if all(isinstance(x, tuple) and x[0] == "s" and x[1] == i and x[3] == w[0][3] for i, x in enumerate(w[:3])):
            lab = ("lab", w[0][3])
            if link:
                if cond != 14:
                    raise Undecodable("conditional call")
                call(s, lab)
            elif cond == 14:
                s.events.append(("jmp", lab))
                s.stop = True
            else:
                s.events.append(("jcc", c, lab))
            return nxt
        if None in b[:3]:
            raise Undecodable("branch operand")
        off = b[0] | b[1] << 8 | b[2] << 16
        if off & 0x800000:
            off -= 1 << 24
        tgt = pc + 8 + 4 * off
        if link or cond != 14 or tgt < 0 or tgt > len(items):
            raise Undecodable("branch to offset %d" % tgt)
        for p in range(pc + 4, tgt, 4):
            s.data.add(p)
        if tgt <= pc:
            raise Undecodable("backward branch")
        return tgt
    if None in b[1:]:
        raise Undecodable("operand field inside an opcode")
    imm8 = b[0] if b[0] is not None else None
    rn, rd = b[2] & 15, b[1] >> 4
    if top in (0, 1) and b[0] is None or top in (6, 7) and b[0] is None:
        raise Undecodable("operand field inside an opcode")
    full = ((b[0] or 0) | b[1] << 8 | b[2] << 16 | b[3] << 24) & 0x0fffffff

    def imm(x, bits=8):
        if imm8 is not None:
            return bv.const(32, imm8)
        x = w[0]
        if x[0] != "n" or x[1] != 0 or x[2] != 1:
            raise Undecodable("operand field %r" % (x,))
        return bv.ext(bv.from_int(x[3], 8), 32, False, cx)

    # misc
    if full & 0x0ffffff0 == 0x012fff30:          # blx
        if cond != 14:
            raise Undecodable("conditional call")
        call(s, ("val", s.r[full & 15]))
        return nxt
    if full & 0x0ffffff0 == 0x012fff10:          # bx
        s.events.append(("jmp", ("val", s.r[full & 15])))
        s.stop = True
        return nxt
    if top == 15:
        if imm8 is None:
            raise Undecodable("swi operand")
        s.events.append(("swi", tuple(s.r), ()))
        s.r[0] = bv.var("sysret", 32)
        return nxt
    if full & 0x0fffffff == 0x0320f003:
        s.events.append(("hlt", tuple(s.r), ()))
        return nxt
    # multiplies
    if top in (0,) and b[0] & 0xf0 == 0x90:
        k = b[2] >> 4
        rm, rs = b[0] & 15, b[1] & 15
        if k in (0, 1):       # mul rd=rn field
            put(b[2] & 15, bv.mul(s.r[rm], s.r[rs]))
            if k == 1:
                s.flags = ("alogic", s.r[b[2] & 15])
            return nxt
        if k in (8, 12):      # umull/smull rdlo=rd rdhi=rn
            x, y = s.r[rm], s.r[rs]
            lo = bv.mul(x, y)
            if repr(y) < repr(x):
                x, y = y, x
            hi = bv.op("mulhi" if k == 8 else "imulhi", 32, x, y)
            put(rd, lo)
            put(rn, hi)
            return nxt
        raise Undecodable("multiply %08x" % full)
    # halfword / signed byte transfers
    if top in (0, 1) and b[0] & 0x90 == 0x90 and b[0] & 0x60:
        P, U, I, W, L = top & 1, b[2] >> 7 & 1, b[2] >> 6 & 1, b[2] >> 5 & 1, b[2] >> 4 & 1
        sh = b[0] >> 5 & 3
        if not I:
            off = s.r[b[0] & 15]
        else:
            off = bv.const(32, (b[1] & 15) << 4 | b[0] & 15)
        transfer(s, rd, rn, off, P, U, W, L, 2 if sh & 1 else 1, signed=sh >= 2, c=c, put=put, pc=pc, items=items)
        return nxt
    if top in (4, 5):
        # single data transfer, immediate offset
        P, U, B, W, L = top & 1, b[2] >> 7, b[2] >> 6 & 1, b[2] >> 5 & 1, b[2] >> 4 & 1
        off = bv.add(imm(0), bv.const(32, (b[1] & 15) << 8))
        transfer(s, rd, rn, off, P, U, W, L, 1 if B else 4, False, c, put, pc, items)
        return nxt
    if top in (6, 7) and not b[0] & 0x10:
        raise Undecodable("register offset transfer %08x" % full)
    if top in (6, 7) and full & 0x0ff003f0 in (0x06a00070, 0x06b00070, 0x06e00070, 0x06f00070) and full & 0x000f0000 == 0x000f0000:
        n = 8 if full & 0x00100000 == 0 else 16
        sg = not full & 0x00400000
        put(rd, bv.ext(bv.trunc(s.r[b[0] & 15], n), 32, sg, cx))
        return nxt
    if top in (8, 9):
        # stmdb/ldmia sp!
        P, U, W, L = top & 1, b[2] >> 7, b[2] >> 5 & 1, b[2] >> 4 & 1
        regs = [i for i in range(16) if (b[0] | b[1] << 8) >> i & 1]
        if rn != 13 or not W or cond != 14:
            raise Undecodable("block transfer %08x" % full)
        if not L and P and not U:
            for i in reversed(regs):
                s.r[13] = bv.add(s.r[13], bv.const(32, -4))
                s.store(s.r[13], 4, s.r[i])
            return nxt
        if L and not P and U:
            for i in regs:
                v = s.load(s.r[13], 4)
                s.r[13] = bv.add(s.r[13], bv.const(32, 4))
                if i == 15:
                    s.events.append(("ret", v))
                    s.stop = True
                else:
                    s.r[i] = v
            return nxt
        raise Undecodable("block transfer %08x" % full)
    if top in (0, 1, 2, 3):
        o = DP[(b[3] & 1) << 3 | b[2] >> 5]
        S = b[2] >> 4 & 1
        if o in ("tst", "teq", "cmp", "cmn") and not S:
            raise Undecodable("%08x" % full)
        a = s.r[rn] if rn != 15 else bv.add(bv.var("pc", 32), bv.const(32, pc + 8))
        if top >= 2:
            rot = 2 * (b[1] & 15)
            v = imm(0)
            if rot:
                if not v.isconst():
                    # value << (32-rot), valid while no bits wrap
                    if rot < 8:
                        raise Undecodable("rotated operand field")
                    v = bv.mulc(v, 1 << (32 - rot))
                else:
                    x = v.c & 255
                    v = bv.const(32, x >> rot | x << (32 - rot))
        else:
            rm = b[0] & 15
            v = s.r[rm] if rm != 15 else bv.add(bv.var("pc", 32), bv.const(32, pc + 8))
            ty = ["shl", "shr", "sar", "ror"][b[0] >> 5 & 3]
            if b[0] & 0x10:
                if b[0] & 0x80:
                    raise Undecodable("%08x" % full)
                cnt = bv.trunc(s.r[b[1] & 15], 8)
                if ty == "ror":
                    raise Undecodable("ror")
                if not cnt.isconst():
                    cnt = bv.ext(cnt, 8, False, cx)
                v = bv.shift(ty, v, cnt, 32)
            else:
                n = b[1] << 1 & 0x1e | b[0] >> 7
                if n:
                    if ty == "ror":
                        raise Undecodable("ror")
                    v = bv.shift(ty, v, bv.const(8, n), 32)
                elif ty != "shl":
                    raise Undecodable("shift by 32")
        if o in ("and", "tst"):
            r = bv.bitop("and", [a, v], 32, cx)
            f = ("alogic", r)
        elif o in ("eor", "teq"):
            r = bv.bitop("xor", [a, v], 32, cx)
            f = ("alogic", r)
        elif o in ("sub", "cmp"):
            r = bv.sub(a, v)
            f = ("sub", a, v)
        elif o == "rsb":
            r = bv.sub(v, a)
            f = ("sub", v, a)
        elif o == "add":
            r = bv.add(a, v)
            f = ("res", r, "add", a, v)
        elif o == "cmn":
            r = bv.add(a, v)
            g = bv.irange(v, cx)
            if g is not None and (0 < g[0] and g[1] < 1 << 31):
                f = ("sub", a, bv.neg(v))
            else:
                f = ("res", r, "cmn", a, v)
        elif o == "orr":
            r = bv.bitop("or", [a, v], 32, cx)
            f = ("alogic", r)
        elif o == "mov":
            r = v
            f = ("alogic", r)
        elif o == "bic":
            r = bv.bitop("and", [a, bv.bnot(v)], 32, cx)
            f = ("alogic", r)
        elif o == "mvn":
            r = bv.bnot(v)
            f = ("alogic", r)
        else:
            raise Undecodable("%s" % o)
        if S:
            if cond != 14:
                f = ("condflags",) + f
            s.flags = f
        if o not in ("tst", "teq", "cmp", "cmn"):
            if rd == 15:
                if o != "mov" or cond != 14:
                    raise Undecodable("write to pc")
                s.events.append(("ret" if top < 2 and b[0] & 15 == 14 else "jmp", v if top < 2 and b[0] & 15 == 14 else ("val", v)))
                s.stop = True
            else:
                put(rd, r)
        return nxt
    raise Undecodable("%08x" % full)


def transfer(s, rd, rn, off, P, U, W, L, n, signed, c, put, pc, items):
    if not U:
        off = bv.neg(off)
    if not c.isconst():
        raise Undecodable("conditional memory access")
    if rn == 15:
        a = None
        if not off.isconst() or not P or W or not L or n != 4:
            raise Undecodable("pc-relative access")
        t = pc + 8 + off.c
        if t < 0 or t + 4 > len(items) or t % 4:
            raise Undecodable("pc-relative load from offset %d" % t)
        s.data.add(t)
        v = data_word(items[t:t + 4])
        s.r[rd] = v
        return
    base = s.r[rn]
    a = bv.add(base, off) if P else base
    if L:
        v = s.load(a, n)
        if n < 4:
            v = bv.ext(v, 32, signed, s.cx)
    elif rd == 15:
        raise Undecodable("store of pc")
    else:
        v = bv.trunc(s.r[rd], 8 * n)
    wb = W or not P
    if wb:
        if rn == rd and L:
            raise Undecodable("writeback to loaded register")
        s.r[rn] = bv.add(base, off)
    if L:
        if rd == 15:
            s.events.append(("jmp", ("val", v)))
            s.stop = True
        else:
            s.r[rd] = v
    else:
        s.store(a, n, v)


def call(s, tgt):
    s.ncall += 1
    s.events.append(("call", tgt, s.r[13], tuple(s.writes)))
    s.calls.append((tgt, tuple(s.r), tuple(s.writes)))
    ws = tuple(s.writes)
    s.r = [x if i in (11, 13) else bv.var("%s'%d" % (n, s.ncall), 32) for i, (n, x) in enumerate(zip(RN, s.r))]
    if tgt[0] == "lab" and tgt[1] in ("__mesabi_idiv", "__mesabi_imod", "__mesabi_uldiv"):
        name = tgt[1]
        a, d = s.load(s.r[13], 4), s.load(bv.add(s.r[13], bv.const(32, 4)), 4)
        if name == "__mesabi_idiv":
            s.r[0] = bv.op("sdiv", 32, a, d)
        elif name == "__mesabi_imod":
            s.r[0] = bv.op("srem", 32, a, d)
        else:
            s.r[0] = bv.op("udiv", 32, a, d)
            rp = s.load(bv.add(s.r[13], bv.const(32, 8)), 4)
            if not (rp.isconst() and rp.c == 0):
                s.store(rp, 4, bv.op("urem", 32, a, d))
        s.events[-1] = ("runtime", name)
    s.flags = ("aftercall", s.ncall)


# ---------------------------------------------------------------- meaning of the table's spellings
import re


class NotNamed(Exception):
    pass


def rnum(x):
    x = x.lstrip("*")
    if not x.startswith("%"):
        return None
    x = x[1:]
    x = {"ebp": "fp", "esp": "sp", "r13": "sp", "r11": "fp"}.get(x, x)
    return RN.index(x) if x in RN else None


CCN = {"eq": "e", "ne": "ne", "cs": "ae", "cc": "b", "hi": "a", "ls": "be", "ge": "ge", "lt": "l", "gt": "g", "le": "le"}


def meaning(name, s, imm8, imm32):
    """apply the instruction named by `name` to state s.  Returns the list of operand
    fields: 'pre' (one byte before the code), 'post' (four bytes after), 'lab'."""
    m = re.fullmatch("([a-z0-9]+?)_*(?:(?<=_)(.*))?", name)
    if not m:
        raise NotNamed(name)
    op, ops = m[1], m[2]
    fields = []
    names = [x for x in re.split(",(?![^(]*\\))", ops)] if ops else []

    def val(x):
        if x == "$i8":
            fields.append("pre")
            return imm8
        if x == "$i32":
            fields.append("post")
            return imm32
        if re.fullmatch("\\$?\\d+", x):
            return bv.const(32, int(x.lstrip("$")))
        n = rnum(x)
        if n is not None:
            return s.r[n]
        return s.load(addr(x), 4)

    def addr(x):
        if x == "0x32":
            fields.append("post")
            return imm32
        mm = re.fullmatch("(0x32)?\\((%\\w+)(?:,([+-]?)#\\$i8)?\\)", x)
        if not mm:
            raise NotNamed(name)
        b = rnum(mm[2])
        if b is None:
            raise NotNamed(name)
        a = s.r[b]
        if mm[1]:
            fields.append("post")
            a = bv.add(a, imm32)
        elif x.endswith("#$i8)"):
            fields.append("pre")
            a = bv.add(a, imm8) if mm[3] != "-" else bv.sub(a, imm8)
        return a

    def dst(x, v, n=4):
        r = rnum(x)
        if r is not None:
            s.r[r] = v
        else:
            s.store(addr(x), n, bv.trunc(v, 8 * n))

    if name in ("b", "bl") or op[0] == "j" and not ops and op[1:] in ("a", "ae", "b", "be", "e", "g", "ge", "l", "le", "ne"):
        if name == "b":
            s.events.append(("jmp", ("lab", "L")))
            s.stop = True
        elif name == "bl":
            call(s, ("lab", "L"))
        else:
            s.events.append(("jcc", s.cond(op[1:]), ("lab", "L")))
        return ["lab"]
    if name in ("nop",):
        return []
    if name == "ret":
        v = s.load(s.r[13], 4)
        s.r[14] = v
        s.r[13] = bv.add(s.r[13], bv.const(32, 4))
        s.events.append(("ret", v))
        s.stop = True
        return []
    if name == "swi____$0":
        s.events.append(("swi", tuple(s.r), ()))
        s.r[0] = bv.var("sysret", 32)
        return []
    if name == "wfi":
        s.events.append(("hlt", tuple(s.r), ()))
        return []
    mc = re.fullmatch("mov(eq|ne|cs|cc|hi|ls|ge|lt|gt|le)", op)
    if mc:
        r = rnum(names[0])
        v = val(names[1])
        s.r[r] = ite(s.cond(CCN[mc[1]]), v, s.r[r])
        return fields
    if op in ("asr", "lsl", "lsr"):
        r, a, c = names
        cnt = val(c)
        cnt = bv.ext(bv.trunc(cnt, 8), 8, False, s.cx)
        s.r[rnum(r)] = bv.shift({"asr": "sar", "lsl": "shl", "lsr": "shr"}[op], val(a), cnt, 32)
        return fields
    if op in ("sxtb", "sxth", "uxtb", "uxth"):
        s.r[rnum(names[0])] = bv.ext(bv.trunc(val(names[1]), 8 if op[3] == "b" else 16), 32, op[0] == "s", s.cx)
        return fields
    if op in ("ldr", "ldrsb", "ldrsh", "ldrb", "ldrh"):
        n = {"ldr": 4, "ldrsb": 1, "ldrsh": 2, "ldrb": 1, "ldrh": 2}[op]
        a = addr(names[1])
        s.r[rnum(names[0])] = bv.ext(s.load(a, n), 32, "s" in op, s.cx)
        return fields
    if op in ("str", "strb", "strh"):
        n = {"str": 4, "strb": 1, "strh": 2}[op]
        s.store(addr(names[1]), n, bv.trunc(s.r[rnum(names[0])], 8 * n))
        return fields
    if op == "mvn":
        s.r[rnum(names[0])] = bv.bnot(val(names[1]))
        return fields
    if op == "add" and len(names) == 4 and names[3] == "lsl#2":
        s.r[rnum(names[0])] = bv.add(val(names[1]), bv.mulc(val(names[2]), 4))
        return fields
    if op in ("add", "sub") and len(names) == 2 and names[1] == "$i8":
        names = [names[1], names[0]]
    if op == "push":
        v = val(names[0])
        s.r[13] = bv.add(s.r[13], bv.const(32, -4))
        s.store(s.r[13], 4, v)
        return fields
    if op == "pop":
        v = s.load(s.r[13], 4)
        s.r[13] = bv.add(s.r[13], bv.const(32, 4))
        s.r[rnum(names[0])] = v
        return fields
    if op == "call":
        call(s, ("val", val(names[0])))
        return fields
    if op == "jmp":
        s.events.append(("jmp", ("val", val(names[0]))))
        s.stop = True
        return fields
    if op == "not":
        s.r[rnum(names[0])] = bv.bnot(val(names[0]))
        return fields
    if op in ("cmp", "cmn", "test"):
        v, a = val(names[0]), val(names[1])
        if op == "cmp":
            s.flags = ("sub", a, v)
        elif op == "cmn":
            s.flags = ("cmn", a, v)
        else:
            s.flags = ("alogic", bv.bitop("and", [a, v], 32, s.cx))
        return fields
    if op in ("mov", "movb", "movw"):
        dst(names[1], val(names[0]), {"mov": 4, "movw": 2, "movb": 1}[op])
        return fields
    if op == "xchg":
        a, b = val(names[0]), val(names[1])
        dst(names[1], a)
        dst(names[0], b)
        return fields
    if op in ("add", "sub", "and", "or", "xor", "mul"):
        if op == "mul":
            s.mul = True
        v = val(names[0])
        if rnum(names[1]) is None:
            ad = addr(names[1])
            a = s.load(ad, 4)
        else:
            ad = None
            a = s.r[rnum(names[1])]
        r = {"add": lambda: bv.add(a, v), "sub": lambda: bv.sub(a, v), "mul": lambda: bv.mul(a, v),
             "and": lambda: bv.bitop("and", [a, v], 32, s.cx), "or": lambda: bv.bitop("or", [a, v], 32, s.cx),
             "xor": lambda: bv.bitop("xor", [a, v], 32, s.cx)}[op]()
        if ad is not None:
            s.store(ad, 4, r)
        else:
            s.r[rnum(names[1])] = r
        return fields
    raise NotNamed(name)
