"""Meaning of an x86 mnemonic of the M1 tables, read from its spelling
(AT&T operand order, width from the register names or the suffix)."""
import re
from . import bv
from .x86 import R64, R32, CC

R16 = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"]
R8 = ["al", "cl", "dl", "bl"]
R8X = ["spl", "bpl", "sil", "dil"]


def reg(n):
    if n in R64:
        return ("r", R64.index(n), 64)
    if n in R32:
        return ("r", R32.index(n), 32)
    if n in R16:
        return ("r", R16.index(n), 16)
    if n in R8:
        return ("r", R8.index(n), 8)
    if n in R8X:
        return ("r", 4 + R8X.index(n), 8)
    if n in ("ah", "ch", "dh", "bh"):
        return ("rh", ["ah", "ch", "dh", "bh"].index(n), 8)
    m = re.fullmatch("r(\\d+)([bwd])", n)
    if m:
        return ("r", int(m[1]), {"b": 8, "w": 16, "d": 32}[m[2]])
    return None


class NotNamed(Exception):
    """spelling that does not name one instruction"""


def parse(name, mode):
    """-> (list of acceptable instructions, fields); fields: list of ('n'|'r', nbytes, var) in
    encoding order; operands refer to ideal integer var names"""
    m = re.fullmatch("([a-z]+?)(32|8)?_*(?:(?<=_)(.*))?", name)
    if not m:
        raise NotNamed(name)
    op, jw, ops = m[1], m[2], m[3]
    names = [x for x in re.split(",(?![^(]*\\))", ops)] if ops else []
    fields = []
    if jw:
        k = int(jw) // 8
        if op == "call":
            return [("call", mode, [("lab", "L")])], [("r", k, "L")]
        if op == "jmp":
            return [("jmp", mode, [("lab", "L")])], [("r", k, "L")]
        if op[0] == "j" and op[1:] in CC:
            return [(op, mode, [("lab", "L")])], [("r", k, "L")]
        raise NotNamed(name)
    if not names:
        if op in ("cqto", "cltd"):
            return [("cwd", 64 if op == "cqto" else 32, [])], []
        if op in ("hlt", "lahf", "sahf", "nop", "ret", "leave", "syscall"):
            return [(op, mode, [])], []
        if op == "int":
            return [("int", 8, [("i", bv.from_int(_v("I"), 8))])], [("n", 1, "I")]
        raise NotNamed(name)
    o = []
    disp = imm = None
    for n in names:
        star = n.startswith("*")
        if star:
            n = n[1:]
        if n.startswith("%"):
            r = reg(n[1:])
            if r is None:
                raise NotNamed(name)
            o.append(r)
        elif re.fullmatch("\\$i(8|16|32|64)", n) or n in ("$0x32", "$8"):
            w = {"$0x32": 32, "$8": 8}.get(n) or int(n[2:])
            o.append(("imm", w, "I"))
            imm = ("n", w // 8, "I")
        elif n.startswith("$0x"):
            o.append(("const", int(n[1:], 16)))
        else:
            mm = re.fullmatch("(0x8|0x32)?(?:\\(%(\\w+)\\))?", n)
            if not mm:
                raise NotNamed(name)
            b = reg(mm[2]) if mm[2] else None
            if mm[1]:
                k = 4 if mm[1] == "0x32" else 1
                disp = ("n", k, "D")
            o.append(("mem", b[1] if b else None, "D" if mm[1] else None, 8 * k if mm[1] else 0))
    fields = [x for x in (disp, imm) if x]
    # widths
    suffix = None
    base = op
    for b in ("add", "and", "cmp", "mov", "or", "sub", "test", "xor", "xchg", "push", "pop", "mul", "div", "idiv", "not", "shl", "shr", "lea"):
        if op == b:
            break
        if op[:-1] == b and op[-1] in "bwlq":
            base, suffix = b, {"b": 8, "w": 16, "l": 32, "q": 64}[op[-1]]
            break
    mz = re.fullmatch("mov([sz])([bwl])([wlq])", op)
    regs = [x for x in o if x[0] in ("r", "rh")]
    mem = [x for x in o if x[0] == "mem"]

    def resolve(x, w):
        k = x[0]
        if k == "imm":
            t = bv.from_int(_v(x[2]), x[1])
            return ("i", bv.ext(t, w, True, CX) if w > x[1] else bv.trunc(t, w))
        if k == "const":
            return ("i", bv.const(w, x[1]))
        if k == "mem":
            d = bv.const(mode, 0)
            if x[2]:
                d = bv.ext(bv.from_int(_v(x[2]), x[3]), mode, True, CX)
            return ("m", x[1], None, 0, d, w)
        return x

    if op == "int":
        return [("int", 8, [resolve(o[0], 8)])], fields
    if op == "addw" and imm:             # the tables write the 16-bit immediate of addw as $i8
        o = [("imm", 16, "I") if x[0] == "imm" else x for x in o]
        imm = ("n", 2, "I")
        fields = [x for x in (disp, imm) if x]
    if mz or op == "movz":
        sg, a, b = (mz[1] == "s", mz[2], mz[3]) if mz else (False, "b", "q" if mode == 64 else "l")
        wa, wb = {"b": 8, "w": 16, "l": 32, "q": 64}[a], {"w": 16, "l": 32, "q": 64}[b]
        src, dst = o
        if src[0] == "r" and src[2] != wa or dst[0] != "r" or dst[2] != wb:
            raise NotNamed(name)
        return [("movsx" if sg else "movzx", wb, [dst, resolve(src, wa)])], fields
    if op.startswith("set") and op[3:] in CC:
        return [(op, 8, [o[0]])], fields
    if base in ("call", "jmp"):
        return [(base, mode, [resolve(o[0], mode)])], fields
    if base in ("push", "pop"):
        return [(base, mode, [resolve(o[0], mode)])], fields
    if base in ("mul", "div", "idiv", "not"):
        if o[0][0] != "r":
            raise NotNamed(name)
        return [(base, o[0][2], [o[0]])], fields
    if base in ("shl", "shr"):
        if o[0] == ("r", 1, 8):
            return [(base, o[1][2], [o[1], o[0]])], fields
        return [(base, o[1][2], [o[1], resolve(o[0], 8)])], fields
    if base == "lea":
        return [("lea", o[1][2], [o[1], resolve(o[0], o[1][2])])], fields
    if base not in ("add", "and", "cmp", "mov", "or", "sub", "test", "xor", "xchg"):
        raise NotNamed(name)
    src, dst = o
    if dst[0] in ("imm", "const"):       # sub____%esp,$i32: destination first
        src, dst = dst, src
    if dst[0] in ("r", "rh") and src[0] in ("r", "rh"):
        if dst[2] == src[2]:
            ws = [dst[2]]
        elif base == "mov" and src[2] == 32 and dst[2] == 64:
            return [("mov", 32, [("r", dst[1], 32), src])], fields
        else:
            raise NotNamed(name)
    elif regs:
        ws = [regs[0][2]]
        if suffix and suffix != ws[0]:
            ws = [suffix]
        if base == "mov" and src[0] == "imm" and src[1] == 8:
            # an 8-bit immediate move exists for the low byte only
            ws = [8]
            dst = ("r", dst[1], 8)
        if src[0] == "mem" and dst[0] == "r" and dst[2] == 32 and mode == 64:
            ws = [32]
    elif suffix:
        ws = [suffix]
    else:
        ws = [32, 64] if mode == 64 else [32]
    return [(base, w, [resolve(dst, w), resolve(src, w)]) for w in ws], fields


from .absint import Lin


def _v(n):
    return Lin.var(n)


CX = bv.Ctx(ranges={"I": (-128, 127), "D": (-128, 127)})
