"""x86 / x86-64 subset: decoder from byte streams (vt.m1) and the effect of each
instruction on an abstract machine state over vt.bv terms."""
from . import absint, bv
from .bv import T

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
R32 = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"]
CC = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"]


class Undecodable(Exception):
    pass


class Stream:
    def __init__(self, items, cx):
        self.s = items
        self.i = 0
        self.cx = cx

    def more(self):
        return self.i < len(self.s)

    def byte(self):
        if self.i >= len(self.s):
            raise Undecodable("truncated instruction")
        x = self.s[self.i]
        self.i += 1
        if isinstance(x, int):
            return x
        if x[0] == "n" and isinstance(x[3], int):
            return x[3] >> (8 * x[1]) & 255
        raise Undecodable("operand field where an opcode byte is expected (%r)" % (x,))

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def imm(self, n):
        """n-byte field -> T(8n) or ('lab', kind, name)"""
        x = self.peek()
        if x is None:
            raise Undecodable("missing operand field of %d bytes" % n)
        if isinstance(x, tuple) and x[0] in ("a", "r", "s"):
            k = x[2]
            f = self.s[self.i:self.i + k]
            if len(f) < k or any(not isinstance(y, tuple) or y[0] != x[0] or y[1] != j or y[3] != x[3] for j, y in enumerate(f)):
                raise Undecodable("misaligned address field")
            if k > n:
                raise Undecodable("address field of %d bytes in a %d-byte operand" % (k, n))
            self.i += k
            if k == n:
                return ("lab", x[0], x[3])
            if x[0] == "a":
                lo = bv.ext(bv.ideal(("addr", x[3]), 8 * k), 8 * n, False, self.cx)
                hi = self.imm(n - k)
                if isinstance(hi, tuple):
                    raise Undecodable("mixed address field")
                return bv.add(lo, bv.mulc(bv.ext(hi, 8 * n, False, self.cx), 1 << (8 * k)))
            raise Undecodable("relative field of %d bytes in a %d-byte operand" % (k, n))
        if isinstance(x, tuple) and x[0] == "n" and not isinstance(x[3], int):
            k = x[2]
            f = self.s[self.i:self.i + k]
            if x[1] != 0 or len(f) < k or k > n or \
                    any(not isinstance(y, tuple) or y[0] != "n" or y[1] != j or y[2] != k or y[3] != x[3] for j, y in enumerate(f)):
                raise Undecodable("%d-byte number in a %d-byte operand" % (k, n))
            self.i += k
            v = bv.from_int(x[3], 8 * k, self.cx)
            if k == n:
                return v
            y = self.peek()
            if isinstance(y, tuple) and y[0] == "n" and y[2] == n - k and self.cx is not None and self.cx.path is not None:
                # two numbers: join over the ideal integers
                hi = self.imm(n - k)
                lo = self.cx.path.mod(x[3], 1 << (8 * k))
                return bv.from_int(absint.add(lo, absint.mul(y[3], 1 << (8 * k))), 8 * n, self.cx)
            hi = self.imm(n - k)
            if isinstance(hi, tuple):
                raise Undecodable("mixed field")
            # join before truncation: low + 2^8k * high over the ideal integers when both are known
            lo = bv.ext(v, 8 * n, False, self.cx)
            return bv.add(lo, bv.mulc(bv.ext(hi, 8 * n, False, self.cx), 1 << (8 * k)))
        # concrete bytes
        r = 0
        for j in range(n):
            y = self.peek()
            if isinstance(y, tuple) and (y[0] != "n" or not isinstance(y[3], int)):
                if j in (1, 2, 4):
                    lo = bv.const(8 * n, r)
                    hi = self.imm(n - j)
                    if isinstance(hi, tuple):
                        raise Undecodable("mixed field")
                    return bv.add(lo, bv.mulc(bv.ext(hi, 8 * n, False, self.cx), 1 << (8 * j)))
                raise Undecodable("mixed field")
            r |= self.byte() << (8 * j)
        return bv.const(8 * n, r)


def decode(st, mode):
    """one instruction -> (op, width, operands)"""
    opsize = False
    rex = 0
    b = st.byte()
    while True:
        if b == 0x66:
            opsize = True
            b = st.byte()
        elif mode == 64 and 0x40 <= b <= 0x4f:
            rex = b
            b = st.byte()
            if b == 0x66 or 0x40 <= b <= 0x4f:
                raise Undecodable("misplaced prefix")
            break
        else:
            break
    W = 64 if rex & 8 else 16 if opsize else 32
    native = mode

    def greg(n, w):
        if w == 8:
            if mode == 64 and rex:
                return ("r", n, 8)
            if n >= 4 and n < 8:
                return ("rh", n - 4, 8)
        return ("r", n, w)

    def disp(n):
        d = st.imm(n)
        if isinstance(d, tuple):
            if n == 4 and d[1] == "a":
                return bv.ext(bv.ideal(("addr", d[2]), 32), native, True, st.cx)
            raise Undecodable("relative label as displacement")
        return bv.ext(d, native, True, st.cx)

    def modrm(w):
        m = st.byte()
        mod, reg, rm = m >> 6, m >> 3 & 7, m & 7
        reg |= (rex & 4) << 1
        if mod == 3:
            return greg(rm | (rex & 1) << 3, w), reg
        base = rm | (rex & 1) << 3
        idx = None
        sc = 0
        if rm == 4:
            s = st.byte()
            sc, i, base = s >> 6, s >> 3 & 7, s & 7
            i |= (rex & 2) << 2
            if i != 4:
                idx = i
            if base == 5 and mod == 0:
                base = None
            else:
                base |= (rex & 1) << 3
            if base is None:
                return ("m", None, idx, sc, disp(4), w), reg
        elif rm == 5 and mod == 0:
            if mode == 64:
                raise Undecodable("rip-relative operand")
            return ("m", None, None, 0, disp(4), w), reg
        d = disp(1) if mod == 1 else disp(4) if mod == 2 else bv.const(native, 0)
        return ("m", base, idx, sc, d, w), reg

    def immz(w):
        n = 2 if w == 16 else 4
        v = st.imm(n)
        if isinstance(v, tuple):
            if v[1] == "a" and n == 4:
                v = bv.ideal(("addr", v[2]), 32)
            else:
                raise Undecodable("relative label as immediate")
        return ("i", bv.ext(v, w, True, st.cx) if w > 8 * n else v)

    def imm8(w):
        v = st.imm(1)
        if isinstance(v, tuple):
            raise Undecodable("label as 8-bit immediate")
        return ("i", bv.ext(v, w, True, st.cx))

    def rel(n):
        v = st.imm(n)
        if isinstance(v, tuple):
            if v[1] != "r":
                raise Undecodable("absolute address as branch displacement")
            return ("lab", v[2])
        return ("rel", v)

    ALU = ["add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"]
    if b < 0x40 and b & 7 < 6:
        o = ALU[b >> 3]
        k = b & 7
        w = 8 if k in (0, 2, 4) else W
        if k < 2:
            rm, reg = modrm(w)
            return o, w, [rm, greg(reg, w)]
        if k < 4:
            rm, reg = modrm(w)
            return o, w, [greg(reg, w), rm]
        return o, w, [greg(0, w), imm8(8) if w == 8 else immz(w)]
    if mode == 32 and 0x40 <= b < 0x50:
        return ("inc" if b < 0x48 else "dec"), W, [greg(b & 7, W)]
    if 0x50 <= b < 0x60:
        if opsize:
            raise Undecodable("16-bit push/pop")
        return ("push" if b < 0x58 else "pop"), native, [greg(b & 7 | (rex & 1) << 3, native)]
    if b == 0x68:
        return "push", native, [immz(native)]
    if b == 0x6a:
        return "push", native, [imm8(native)]
    if 0x70 <= b < 0x80:
        return "j" + CC[b & 15], native, [rel(1)]
    if b in (0x80, 0x81, 0x83):
        w = 8 if b == 0x80 else W
        rm, reg = modrm(w)
        return ALU[reg & 7], w, [rm, imm8(w) if b != 0x81 else immz(w)]
    if b in (0x84, 0x85):
        w = 8 if b == 0x84 else W
        rm, reg = modrm(w)
        return "test", w, [rm, greg(reg, w)]
    if b in (0x86, 0x87):
        w = 8 if b == 0x86 else W
        rm, reg = modrm(w)
        return "xchg", w, [rm, greg(reg, w)]
    if 0x88 <= b <= 0x8b:
        w = W if b & 1 else 8
        rm, reg = modrm(w)
        return "mov", w, [rm, greg(reg, w)] if b < 0x8a else [greg(reg, w), rm]
    if b == 0x63 and mode == 64:
        rm, reg = modrm(32)
        return "movsx", W, [greg(reg, W), rm]
    if b == 0x8d:
        rm, reg = modrm(W)
        if rm[0] != "m":
            raise Undecodable("lea of a register")
        return "lea", W, [greg(reg, W), rm]
    if b == 0x8f:
        rm, reg = modrm(native)
        return "pop", native, [rm]
    if b == 0x90 and not rex & 1:
        return "nop", native, []
    if 0x90 <= b < 0x98:
        return "xchg", W, [greg(b & 7 | (rex & 1) << 3, W), greg(0, W)]
    if b == 0x98:
        return "cbw", W, []
    if b == 0x99:
        return "cwd", W, []
    if b == 0x9e:
        return "sahf", 8, []
    if b == 0x9f:
        return "lahf", 8, []
    if 0xa0 <= b <= 0xa3:
        w = W if b & 1 else 8
        n = native // 8
        v = st.imm(n)
        if isinstance(v, tuple):
            if v[1] != "a":
                raise Undecodable("relative label as address")
            v = bv.ideal(("addr", v[2]), native)
        m = ("m", None, None, 0, v, w)
        return "mov", w, [greg(0, w), m] if b < 0xa2 else [m, greg(0, w)]
    if b in (0xa8, 0xa9):
        w = W if b & 1 else 8
        return "test", w, [greg(0, w), imm8(8) if w == 8 else immz(w)]
    if 0xb0 <= b < 0xb8:
        return "mov", 8, [greg(b & 7 | (rex & 1) << 3, 8), imm8(8)]
    if 0xb8 <= b < 0xc0:
        r = greg(b & 7 | (rex & 1) << 3, W)
        if W == 64:
            v = st.imm(8)
            if isinstance(v, tuple):
                raise Undecodable("relative label as immediate")
            return "mov", W, [r, ("i", v)]
        return "mov", W, [r, immz(W)]
    if b in (0xc0, 0xc1, 0xd0, 0xd1, 0xd2, 0xd3):
        w = W if b & 1 else 8
        rm, reg = modrm(w)
        o = ["rol", "ror", "rcl", "rcr", "shl", "shr", "shl", "sar"][reg & 7]
        cnt = imm8(8) if b < 0xd0 else ("i", bv.const(8, 1)) if b < 0xd2 else ("r", 1, 8)
        return o, w, [rm, cnt]
    if b == 0xc3:
        return "ret", native, []
    if b in (0xc6, 0xc7):
        w = W if b & 1 else 8
        rm, reg = modrm(w)
        if reg & 7:
            raise Undecodable("c7 /%d" % (reg & 7))
        return "mov", w, [rm, imm8(8) if w == 8 else immz(w)]
    if b == 0xc9:
        return "leave", native, []
    if b == 0xcd:
        v = st.imm(1)
        return "int", 8, [("i", v)]
    if b == 0xe8:
        return "call", native, [rel(4)]
    if b == 0xe9:
        return "jmp", native, [rel(4)]
    if b == 0xeb:
        return "jmp", native, [rel(1)]
    if b == 0xf4:
        return "hlt", native, []
    if b in (0xf6, 0xf7):
        w = W if b & 1 else 8
        rm, reg = modrm(w)
        k = reg & 7
        if k < 2:
            return "test", w, [rm, imm8(8) if w == 8 else immz(w)]
        return ["", "", "not", "neg", "mul", "imul", "div", "idiv"][k], w, [rm]
    if b in (0xfe, 0xff):
        w = W if b & 1 else 8
        k_w = w
        save = st.i
        rm, reg = modrm(w)
        k = reg & 7
        if k < 2:
            return ["inc", "dec"][k], w, [rm]
        if b == 0xfe:
            raise Undecodable("fe /%d" % k)
        st.i = save
        rm, reg = modrm(native)
        if k in (2, 4):
            return ("call" if k == 2 else "jmp"), native, [rm]
        if k == 6:
            return "push", native, [rm]
        raise Undecodable("ff /%d" % k)
    if b == 0x0f:
        b = st.byte()
        if b == 0x05 and mode == 64:
            return "syscall", native, []
        if 0x80 <= b < 0x90:
            return "j" + CC[b & 15], native, [rel(4)]
        if 0x90 <= b < 0xa0:
            rm, reg = modrm(8)
            return "set" + CC[b & 15], 8, [rm]
        if b == 0xaf:
            rm, reg = modrm(W)
            return "imul", W, [greg(reg, W), rm]
        if b in (0xb6, 0xb7, 0xbe, 0xbf):
            rm, reg = modrm(16 if b & 1 else 8)
            return ("movzx" if b < 0xb8 else "movsx"), W, [greg(reg, W), rm]
        if 0x40 <= b < 0x50:
            rm, reg = modrm(W)
            return "cmov" + CC[b & 15], W, [greg(reg, W), rm]
        raise Undecodable("opcode 0f %02x" % b)
    raise Undecodable("opcode %02x" % b)


class State:
    """registers, memory writes, flags, and the event that ended straight-line flow"""
    def __init__(self, mode, cx, init=None):
        self.mode = mode
        self.cx = cx
        names = R64 if mode == 64 else R32
        self.names = names
        self.r = [bv.var(n, mode) for n in names]
        if init:
            for k, v in init.items():
                self.r[names.index(k)] = v
        self.sp0 = self.r[4]
        self.writes = []       # (addr, nbytes, value)
        self.flags = ("init",)
        self.events = []       # ('call', target, sp), ('jmp', target), ('jcc', cond, label), ('ret',), ('sys', ...)
        self.stop = False
        self.ncall = 0
        self.calls = []        # (target, registers, writes) at each call

    # -- registers
    def get(self, o):
        k = o[0]
        if k == "r":
            return bv.trunc(self.r[o[1]], o[2])
        if k == "rh":
            x = self.r[o[1]]
            if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0][0] == "op" and x.t[0][0][1] == "insh":
                return x.t[0][0][4]
            return bv.op("gethi", 8, x)
        if k == "i":
            return o[1]
        if k == "m":
            return self.load(self.ea(o), o[5] // 8)
        raise AssertionError(o)

    def put(self, o, v):
        k = o[0]
        if k == "r":
            n, w = o[1], o[2]
            if w == self.mode:
                self.r[n] = v
            elif w == 32 and self.mode == 64:
                self.r[n] = bv.ext(v, 64, False, self.cx)
            else:
                self.r[n] = self.insert(self.r[n], v)
        elif k == "rh":
            x = self.r[o[1]]
            if len(x.t) == 1 and x.c == 0 and x.t[0][0][0] == "op" and x.t[0][0][1] == "insh":
                x = x.t[0][0][3]
            self.r[o[1]] = bv.op("insh", self.mode, x, v)
        elif k == "m":
            self.store(self.ea(o), o[5] // 8, v)
        else:
            raise Undecodable("store to immediate")

    def insert(self, x, v):
        """low part of x replaced by v: ext(v) + (x with low part cleared)"""
        while len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0][0] == "op" and x.t[0][0][1] == "ins" and x.t[0][0][4].w <= v.w:
            x = x.t[0][0][3]
        if not x.t and not v.t:
            m = (1 << v.w) - 1
            return bv.const(self.mode, (x.c & ~m) | (v.c & m))
        z = bv.sub(x, bv.ext(bv.trunc(x, v.w), self.mode, False, self.cx))
        if z.isconst():
            return bv.add(z, bv.ext(v, self.mode, False, self.cx))
        if bv.trunc(x, v.w) == v:
            return x
        return bv.op("ins", self.mode, x, v)

    def ea(self, o):
        _, base, idx, sc, d, w = o
        a = d
        if base is not None:
            a = bv.add(a, self.r[base])
        if idx is not None:
            a = bv.add(a, bv.mulc(self.r[idx], 1 << sc))
        return a

    # -- memory
    def below_stack(self, addr):
        """constant distance of addr from the initial stack pointer, if known"""
        d = bv.sub(addr, self.sp0)
        return d.c if d.isconst() else None

    def disjoint(self, a, n, b, m):
        d = bv.sub(a, b)
        r = bv.irange(d, self.cx)
        if r is not None and d.w == self.mode and abs(r[0]) < 1 << (d.w - 1) and abs(r[1]) < 1 << (d.w - 1):
            if r[0] >= m or r[1] <= -n:
                return True
        x, y = self.below_stack(a), self.below_stack(b)
        # the area below the stack pointer at entry belongs to this instruction sequence alone
        if x is not None and x < 0 and y is None and x + n <= 0:
            return True
        if y is not None and y < 0 and x is None and y + m <= 0:
            return True
        return False

    def load(self, a, n):
        ws = list(self.writes)
        while ws:
            b, m, v = ws[-1]
            if b == a and m == n:
                return v
            if b == a and m > n:
                return bv.trunc(v, 8 * n)
            if self.disjoint(a, n, b, m):
                ws.pop()
                continue
            break
        # drop writes that cannot affect the value
        ws = tuple(x for x in ws if not self.disjoint(a, n, x[0], x[1]))
        return T(8 * n, 0, ((("ld", n, a, ws), 1),))

    def store(self, a, n, v):
        keep = []
        for b, m, x in self.writes:
            if b == a and m <= n:
                continue
            keep.append((b, m, x))
        # a store that restores the value already there is no change
        self.writes = keep
        if v == self.load(a, n) and not any(not self.disjoint(a, n, b, m) for b, m, _ in keep):
            return
        self.writes = keep + [(a, n, v)]

    def push(self, v):
        n = self.mode // 8
        self.r[4] = bv.add(self.r[4], bv.const(self.mode, -n))
        self.store(self.r[4], n, v)

    def pop(self):
        n = self.mode // 8
        v = self.load(self.r[4], n)
        self.r[4] = bv.add(self.r[4], bv.const(self.mode, n))
        return v

    # -- flags
    def cond(self, c, w=64):
        """0/1 term"""
        f = self.flags
        if c in ("ne", "ae", "a", "ge", "g", "no", "ns", "np"):
            inv = {"ne": "e", "ae": "b", "a": "be", "ge": "l", "g": "le", "no": "o", "ns": "s", "np": "p"}[c]
            return bv.sub(bv.const(w, 1), self.cond(inv, w))
        return flag(f, c, w, self.cx)


def flag(f, c, w, cx):
    if f[0] == "zflip":
        if c == "e":
            return bv.sub(bv.const(w, 1), flag(f[1], "e", w, cx))
        if c in ("b", "l", "s", "o", "p"):
            return flag(f[1], c, w, cx)
        if c == "be":
            return bor(flag(f, "b", w, cx), flag(f, "e", w, cx))
        if c == "le":
            return bor(flag(f, "l", w, cx), flag(f, "e", w, cx))
    if f[0] == "sub":
        a, b = f[1], f[2]
        if c == "e":
            return bv.iszero(bv.sub(a, b), w, cx)
        if c == "b":
            return bv.less(a, b, False, w, cx)
        if c == "be":
            return bv.sub(bv.const(w, 1), bv.less(b, a, False, w, cx))
        if c == "l":
            return bv.less(a, b, True, w, cx)
        if c == "le":
            return bv.sub(bv.const(w, 1), bv.less(b, a, True, w, cx))
        if c == "s":
            return bv.less(bv.sub(a, b), bv.const(a.w, 0), True, w, cx)
    if f[0] == "logic":
        r = f[1]
        z = bv.const(r.w, 0)
        if c == "e":
            return bv.iszero(r, w, cx)
        if c in ("b", "o"):
            return bv.const(w, 0)
        if c == "be":
            return bv.iszero(r, w, cx)
        if c in ("l", "s"):
            return bv.less(r, z, True, w, cx)
        if c == "le":
            return bv.sub(bv.const(w, 1), bv.less(z, r, True, w, cx))
    if f[0] == "res":      # result known, carry/overflow not a plain comparison
        r = f[1]
        if c == "e":
            return bv.iszero(r, w, cx)
        if c == "s":
            return bv.less(r, bv.const(r.w, 0), True, w, cx)
    return bv.boolean(w, "flag-" + c, *[x for x in f])


def bor(a, b):
    if a == b:
        return a
    if a.isconst() and a.c == 0:
        return b
    if b.isconst() and b.c == 0:
        return a
    return bv.boolean(a.w, "or", a, b)


def step(s, ins):
    op, w, o = ins
    cx = s.cx
    if op in ("add", "or", "and", "sub", "xor", "cmp", "test"):
        a, b = s.get(o[0]), s.get(o[1])
        if op == "add":
            r = bv.add(a, b)
            s.flags = ("add", a, b) if False else ("res", r, "add", a, b)
        elif op in ("sub", "cmp"):
            r = bv.sub(a, b)
            s.flags = ("sub", a, b)
        else:
            n = "and" if op == "test" else op
            r = bv.bitop(n, [a, b], w, cx)
            s.flags = ("logic", r)
        if op not in ("cmp", "test"):
            s.put(o[0], r)
    elif op in ("adc", "sbb"):
        r = bv.op(op, w, s.get(o[0]), s.get(o[1]), s.cond("b", w))
        s.flags = ("res", r, op)
        s.put(o[0], r)
    elif op in ("inc", "dec"):
        r = bv.add(s.get(o[0]), bv.const(w, 1 if op == "inc" else -1))
        s.flags = ("res", r, op)
        s.put(o[0], r)
    elif op == "not":
        s.put(o[0], bv.bnot(s.get(o[0])))
    elif op == "neg":
        a = s.get(o[0])
        s.flags = ("sub", bv.const(w, 0), a)
        s.put(o[0], bv.neg(a))
    elif op == "mov":
        s.put(o[0], s.get(o[1]))
    elif op in ("movzx", "movsx"):
        s.put(o[0], bv.ext(s.get(o[1]), w, op == "movsx", cx))
    elif op == "lea":
        s.put(o[0], bv.trunc(s.ea(o[1]), w))
    elif op == "xchg":
        a, b = s.get(o[0]), s.get(o[1])
        # memory operand address must be computed before the register changes
        if o[0][0] == "m":
            s.put(o[0], b)
            s.put(o[1], a)
        else:
            s.put(o[1], a)
            s.put(o[0], b)
    elif op == "push":
        v = s.get(o[0])
        s.push(v)
    elif op == "pop":
        v = s.pop()
        s.put(o[0], v)
    elif op == "leave":
        s.r[4] = s.r[5]
        s.r[5] = s.pop()
    elif op in ("shl", "shr", "sar"):
        a = s.get(o[0])
        c = s.get(o[1])
        k = 6 if w == 64 else 5
        cnt = bv.trunc(c, k)
        if cnt.isconst():
            cnt = bv.const(8, cnt.c & ((1 << k) - 1))
        else:
            cnt = bv.ext(cnt, 8, False, cx)
        r = bv.shift(op, a, cnt, w)
        s.flags = ("res", r, op) if cnt.isconst() and cnt.c else s.flags if cnt.isconst() else ("shiftflags", r, cnt)
        s.put(o[0], r)
    elif op in ("mul", "imul"):
        if len(o) == 2:
            r = bv.mul(s.get(o[0]), s.get(o[1]))
            s.put(o[0], r)
        else:
            a = s.get(("r", 0, w))
            b = s.get(o[0])
            if w == 8:
                raise Undecodable("8-bit multiply")
            s.put(("r", 0, w), bv.mul(a, b))
            x, y = (a, b) if repr(a) <= repr(b) else (b, a)
            s.put(("r", 2, w), bv.op(op + "hi", w, x, y))
        s.flags = ("mulflags", s.r[0])
    elif op in ("div", "idiv"):
        d = s.get(o[0])
        lo, hi = s.get(("r", 0, w)), s.get(("r", 2, w))
        if op == "div" and hi.isconst() and hi.c == 0:
            q, r = bv.op("udiv", w, lo, d), bv.op("urem", w, lo, d)
        elif op == "idiv" and hi == signfill(lo):
            q, r = bv.op("sdiv", w, lo, d), bv.op("srem", w, lo, d)
        else:
            q, r = bv.op(op + "q", w, hi, lo, d), bv.op(op + "r", w, hi, lo, d)
        s.put(("r", 0, w), q)
        s.put(("r", 2, w), r)
        s.flags = ("divflags", q)
    elif op == "cwd":
        s.put(("r", 2, w), signfill(s.get(("r", 0, w))))
    elif op == "cbw":
        s.put(("r", 0, w), bv.ext(bv.trunc(s.r[0], w // 2), w, True, cx))
    elif op.startswith("set"):
        s.put(o[0], s.cond(op[3:], 8))
    elif op.startswith("cmov"):
        c = s.cond(op[4:], w)
        s.put(o[0], bv.op("ite", w, c, s.get(o[1]), s.get(o[0])))
    elif op == "lahf":
        s.put(("rh", 0, 8), bv.op("flagbyte", 8, *fl(s.flags)))
    elif op == "sahf":
        h = s.get(("rh", 0, 8))
        s.flags = unflag(h, s.flags)
    elif op == "nop":
        pass
    elif op == "call":
        s.ncall += 1
        tgt = o[0] if o[0][0] in ("lab", "rel") else ("val", s.get(o[0]))
        s.events.append(("call", tgt, s.r[4], tuple(s.writes)))
        s.calls.append((tgt, tuple(s.r), tuple(s.writes)))
        # the callee returns with rsp and rbp as at the call, everything else changed
        s.r = [x if i in (4, 5) else bv.var("%s'%d" % (n, s.ncall), s.mode)
               for i, (n, x) in enumerate(zip(s.names, s.r))]
        s.flags = ("aftercall", s.ncall)
    elif op == "jmp":
        tgt = o[0] if o[0][0] in ("lab", "rel") else ("val", s.get(o[0]))
        s.events.append(("jmp", tgt))
        s.stop = True
    elif op == "ret":
        v = s.pop()
        s.events.append(("ret", v))
        s.stop = True
    elif op[0] == "j":
        s.events.append(("jcc", s.cond(op[1:]), o[0]))
    elif op in ("syscall", "hlt", "int"):
        s.events.append((op, tuple(s.r), tuple(s.get(x) for x in o)))
        s.r[0] = bv.var("sysret", s.mode)
        if op == "syscall":
            s.r[1] = bv.var("rcx'", 64)
            s.r[11] = bv.var("r11'", 64)
    else:
        raise Undecodable("no semantics for %s" % op)


def signfill(x):
    if x.isconst():
        return bv.const(x.w, -1 if x.c < 0 else 0)
    return bv.op("signfill", x.w, x)


def fl(f):
    return [("flags",) + tuple(f)]


def unflag(h, cur):
    """flags after sahf with ah = h"""
    flip = False
    t = h
    if len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1 and t.t[0][0][0] == "op" and t.t[0][0][1] == "xor":
        args = t.t[0][0][3:]
        if len(args) == 2 and args[1].isconst() and args[1].c & 0xff == 0x40:
            flip = True
            t = args[0]
    if len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1 and t.t[0][0][0] == "op" and t.t[0][0][1] == "flagbyte":
        f = tuple(t.t[0][0][3][1:])
        if f[0] == "logic" and cur[0] == "logic" or f == cur or (f[0] == "sub" and cur[0] == "logic"):
            return ("zflip", f) if flip else f
        return ("zflip", f) if flip else f
    return ("sahf", h)


def run(items, mode, cx, init=None, flags=None):
    st = Stream(items, cx)
    s = State(mode, cx, init)
    if flags:
        s.flags = flags
    n = 0
    s.insns = []
    while st.more():
        if s.stop:
            raise Undecodable("unreachable bytes after an unconditional transfer")
        ins = decode(st, mode)
        s.insns.append(ins)
        step(s, ins)
        n += 1
    s.n = n
    return s
