"""What each MesCC intermediate instruction means (the reference the backends are
compared with).  A specification transforms a machine state; the target registers
are r (top of the allocation), r1 (same, when two are allocated) and r0 (below it).

Entry: name -> (configs, operand kinds, effect, options)
 configs   numbers of allocated registers the compiler issues it with
 effect    function(s, c, *operands)
 options   dead: registers whose final value is not relied upon ('r', 'r0', 'r1', 'all')
           flags: None (not relied upon) | 'keep' | 'keepz' | list of conditions set by the effect
           init: flags at entry ('sub' default, 'logic')
Operand kinds: see Ops below."""
from . import bv
from .bv import T

CMP = ("e", "b", "l", "be", "le")


class Cfg:
    """register names of one configuration"""
    def __init__(self, B, nalloc):
        self.B = B
        self.n = B.n
        self.W = B.width
        self.nalloc = nalloc
        al = list(reversed(B.regs[:nalloc])) or [B.regs[0]]
        self.r = B.reg(al[0])
        self.r1 = self.r
        self.r0 = B.reg(al[1]) if nalloc > 1 else None
        self.live = [B.reg(x) for x in B.regs[:nalloc]]

    def const(self, v):
        return bv.const(self.W, v)

    def val(self, v, cx, w=None):
        return bv.from_int(v, w or self.W, cx)


def R(field, f):
    """effect assigning f(s, c, *ops) to the register c.<field>"""
    def eff(s, c, *ops):
        s.r[getattr(c, field)] = f(s, c, *ops)
    return eff


def addr(s, c, label):
    w = 32
    return bv.ext(bv.ideal(("addr", label), w), c.W, True, s.cx) if c.W > 32 else bv.ideal(("addr", label), 32)


def local(s, c, n, off=0):
    from .absint import add, mul
    e = add(mul(n, -c.n), off)
    return bv.add(s.r[c.B.BP], c.val(e, s.cx))


def ext(s, c, x, signed):
    return bv.ext(x, c.W, signed, s.cx)


def setf(fl):
    def eff(s, c, *ops):
        s.flags = fl(s, c, *ops)
    return eff


def mem_add(n):
    def eff(s, c, v):
        m = n or c.n
        a = s.r[c.r]
        s.store(a, m, bv.add(s.load(a, m), c.val(v, s.cx, 8 * m)))
    return eff


def at_add(where, n=None):
    def eff(s, c, x, v):
        m = n or c.n
        a = where(s, c, x)
        s.store(a, m, bv.add(s.load(a, m), c.val(v, s.cx, 8 * m)))
    return eff


def store(where, n=None):
    def eff(s, c, *ops):
        m = n or c.n
        s.store(where(s, c, *ops), m, bv.trunc(s.r[c.r], 8 * m))
    return eff


def copy_mem(n):
    def eff(s, c):
        m = n or c.n
        s.store(s.r[c.r1], m, s.load(s.r[c.r0], m))
    return eff


def r0_to_mem(n):
    def eff(s, c):
        m = n or c.n
        s.store(s.r[c.r1], m, bv.trunc(s.r[c.r0], 8 * m))
    return eff


def load_r(n):
    return R("r", lambda s, c: ext(s, c, s.load(s.r[c.r], n or c.n), False))


def conv(n, signed):
    return R("r", lambda s, c: ext(s, c, bv.trunc(s.r[c.r], 8 * n), signed))


def cond_r(cc):
    return R("r", lambda s, c: s.cond(cc, c.W))


def jcc(cc):
    def eff(s, c, label):
        s.events.append(("jcc", s.cond(cc), ("lab", label)))
    return eff


def jmp(s, c, label):
    s.events.append(("jmp", ("lab", label)))
    s.stop = True


def jbyte(s, c, label):
    x = bv.trunc(s.r[c.r], 8)
    s.events.append(("jcc", bv.iszero(x, c.W, s.cx), ("lab", label)))


def push(s, c, v):
    s.r[c.B.SP] = bv.add(s.r[c.B.SP], c.const(-c.n))
    s.store(s.r[c.B.SP], c.n, v)


def pop(s, c):
    v = s.load(s.r[c.B.SP], c.n)
    s.r[c.B.SP] = bv.add(s.r[c.B.SP], c.const(c.n))
    return v


def callspec(target):
    def eff(s, c, *ops):
        from .absint import mul
        tgt = target(s, c, *ops)
        n = ops[-1]
        ops = ops[:-1]
        s.ncall += 1
        s.events.append(("call", tgt, s.r[c.B.SP], tuple(s.writes)))
        keep = (c.B.SP, c.B.BP)
        s.r = [x if i in keep else bv.var("%s'%d" % (nm, s.ncall), c.W) for i, (nm, x) in enumerate(zip(s.names, s.r))]
        s.r[c.B.SP] = bv.add(s.r[c.B.SP], c.val(mul(n, c.n), s.cx))
        c.live = [c.B.reg(c.B.regs[0])]
    return eff


def preamble(s, c, formals):
    if c.B.arch == "armv4":
        push(s, c, s.r[14])
    push(s, c, s.r[c.B.BP])
    s.r[c.B.BP] = s.r[c.B.SP]


def ret(s, c):
    sp = s.r[c.B.BP]
    s.r[c.B.SP] = sp
    s.r[c.B.BP] = pop(s, c)
    v = pop(s, c)
    s.events.append(("ret", v))
    s.stop = True


def binop(f):
    return R("r0", f)


def shift(kind):
    def f(s, c):
        cnt = bv.trunc(s.r[c.r1], 8)
        # counts outside 0..width-1 are undefined in C
        return bv.shift(kind, s.r[c.r0], bv.ext(cnt, 8, False, s.cx), c.W)
    return R("r0", f)


def divop(which):
    def eff(s, c, signed):
        a, b = s.r[c.r0], s.r[c.r1]
        s.r[c.r0] = bv.op(("s" if signed else "u") + which, c.W, a, b)
    return eff


def swap(s, c):
    s.r[c.r0], s.r[c.r1] = s.r[c.r1], s.r[c.r0]


def swap_stack(reg):
    def eff(s, c):
        a = s.r[c.B.SP]
        i = getattr(c, reg)
        v = s.load(a, c.n)
        s.store(a, c.n, s.r[i])
        s.r[i] = v
    return eff


def assign(dst, src):
    def eff(s, c):
        s.r[getattr(c, dst)] = s.r[getattr(c, src)]
    return eff


def setreg(field):
    def eff(s, c, name):
        i = c.B.reg(name)
        if field == "push":
            push(s, c, s.r[i])
        else:
            s.r[i] = pop(s, c)
    return eff


def zero_flags(s, c):
    s.flags = ("logic", s.r[c.r]) if c.B.arch != "armv4" else ("alogic", s.r[c.r])


def cmp_value(s, c, v):
    s.flags = ("sub", s.r[c.r], c.val(v, s.cx))


def sub_op(s, c):
    a, b = s.r[c.r0], s.r[c.r1]
    s.r[c.r0] = bv.sub(a, b)
    s.flags = ("sub", a, b)


def ret_to_r(s, c):
    s.r[c.r] = s.r[c.B.reg(c.B.regs[0])]


ALL = (0, 1, 2)
SPEC = {
    # name: (configs, operands, effect, options)
    "value->r": ((1, 2), ("value",), R("r", lambda s, c, v: c.val(v, s.cx)), {}),
    "value->r0": ((2,), ("zero",), R("r0", lambda s, c, v: c.val(v, s.cx)), {}),
    "label->r": ((1, 2), ("addr",), R("r", addr), {}),
    "local-ptr->r": ((1, 2), ("local",), R("r", local), {}),
    "local->r": ((1, 2), ("local",), R("r", lambda s, c, n: s.load(local(s, c, n), c.n)), {}),
    "label-mem->r": ((1, 2), ("addr",), R("r", lambda s, c, l: s.load(addr(s, c, l), c.n)), {}),
    "r->local": ((1, 2), ("local",), store(local), {}),
    "r->local+n": ((1, 2), ("local", "off"), store(local), {}),
    "byte-r->local+n": ((1, 2), ("local", "off"), store(local, 1), {}),
    "word-r->local+n": ((1, 2), ("local", "off"), store(local, 2), {}),
    "long-r->local+n": ((1, 2), ("local", "off"), store(local, 4), {}),
    "r->label": ((1, 2), ("global",), store(addr), {}),
    "r->byte-label": ((1, 2), ("global",), store(addr, 1), {}),
    "r->word-label": ((1, 2), ("global",), store(addr, 2), {}),
    "r->long-label": ((1, 2), ("global",), store(addr, 4), {}),
    "local-add": ((1, 2), ("local", "size"), at_add(local), {}),
    "label-mem-add": ((1, 2), ("addr", "size"), at_add(addr), {}),
    "byte-label-mem-add": ((1, 2), ("addr", "one"), at_add(addr, 1), {}),
    "word-label-mem-add": ((1, 2), ("addr", "one"), at_add(addr, 2), {}),
    "long-mem-add": ((1, 2), ("addr", "one"), at_add(addr, 4), {}),
    "r-mem-add": ((1, 2), ("size",), mem_add(None), {"dead": ("r",)}),
    "r-byte-mem-add": ((1, 2), ("one",), mem_add(1), {"dead": ("r",)}),
    "r-word-mem-add": ((1, 2), ("one",), mem_add(2), {"dead": ("r",)}),
    "r-long-mem-add": ((1, 2), ("one",), mem_add(4), {"dead": ("r",)}),
    "mem->r": ((1, 2), (), load_r(None), {}),
    "byte-mem->r": ((1, 2), (), load_r(1), {}),
    "word-mem->r": ((1, 2), (), load_r(2), {}),
    "long-mem->r": ((1, 2), (), load_r(4), {}),
    "r0->r1-mem": ((2,), (), r0_to_mem(None), {}),
    "byte-r0->r1-mem": ((2,), (), r0_to_mem(1), {}),
    "word-r0->r1-mem": ((2,), (), r0_to_mem(2), {}),
    "long-r0->r1-mem": ((2,), (), r0_to_mem(4), {}),
    "quad-r0->r1-mem": ((2,), (), r0_to_mem(8), {}),
    "r0-mem->r1-mem": ((2,), (), copy_mem(None), {}),
    "byte-r0-mem->r1-mem": ((2,), (), copy_mem(1), {}),
    "word-r0-mem->r1-mem": ((2,), (), copy_mem(2), {}),
    "long-r0-mem->r1-mem": ((2,), (), copy_mem(4), {}),
    "byte-r": ((1, 2), (), conv(1, False), {}),
    "byte-signed-r": ((1, 2), (), conv(1, True), {}),
    "word-r": ((1, 2), (), conv(2, False), {}),
    "word-signed-r": ((1, 2), (), conv(2, True), {}),
    "long-r": ((1, 2), (), conv(4, False), {}),
    "long-signed-r": ((1, 2), (), conv(4, True), {}),
    "r+value": ((1, 2), ("value",), R("r", lambda s, c, v: bv.add(s.r[c.r], c.val(v, s.cx))), {}),
    "r0+value": ((2,), ("step",), R("r0", lambda s, c, v: bv.add(s.r[c.r0], c.val(v, s.cx))), {}),
    "r+r": ((1, 2), (), R("r", lambda s, c: bv.mulc(s.r[c.r], 2)), {}),
    "r-and": ((2,), ("mask",), R("r", lambda s, c, v: bv.bitop("and", [s.r[c.r], c.val(v, s.cx)], c.W, s.cx)), {}),
    "shl-r": ((1, 2), ("shift",), R("r", lambda s, c, n: shl_const(s, c, n)), {}),
    "not-r": ((1, 2), (), R("r", lambda s, c: bv.bnot(s.r[c.r])), {}),
    "r0+r1": ((2,), (), binop(lambda s, c: bv.add(s.r[c.r0], s.r[c.r1])), {"dead": ("r1",)}),
    "r0-r1": ((2,), (), sub_op, {"dead": ("r1",), "flags": CMP}),
    "r0*r1": ((2,), (), binop(lambda s, c: bv.mul(s.r[c.r0], s.r[c.r1])), {"dead": ("r1",)}),
    "r0/r1": ((2,), ("signed",), divop("div"), {"dead": ("r1",)}),
    "r0%r1": ((2,), ("signed",), divop("rem"), {"dead": ("r1",)}),
    "r0-and-r1": ((2,), (), binop(lambda s, c: bv.bitop("and", [s.r[c.r0], s.r[c.r1]], c.W, s.cx)), {"dead": ("r1",)}),
    "r0-or-r1": ((2,), (), binop(lambda s, c: bv.bitop("or", [s.r[c.r0], s.r[c.r1]], c.W, s.cx)), {"dead": ("r1",)}),
    "r0-xor-r1": ((2,), (), binop(lambda s, c: bv.bitop("xor", [s.r[c.r0], s.r[c.r1]], c.W, s.cx)), {"dead": ("r1",)}),
    "r0<<r1": ((2,), (), shift("shl"), {"dead": ("r1",), "count": True}),
    "r0>>r1": ((2,), (), shift("shr"), {"dead": ("r1",), "count": True}),
    "r0->r1": ((2,), (), assign("r1", "r0"), {"flags": "keep"}),
    "r1->r0": ((2,), (), assign("r0", "r1"), {"flags": "keep"}),
    "push-r0": ((2,), (), lambda s, c: push(s, c, s.r[c.r0]), {}),
    "pop-r0": ((2,), (), R("r0", pop), {"flags": "keep"}),
    "r2->r0": ((2,), (), R("r0", lambda s, c: s.load(s.r[c.B.SP], c.n)), {}),
    "swap-r0-r1": ((2,), (), swap, {}),
    "swap-r1-stack": ((2,), (), swap_stack("r0"), {}),
    "swap-r-stack": ((1, 2), (), swap_stack("r"), {}),
    "push-register": ((1, 2), ("register",), setreg("push"), {}),
    "pop-register": ((1, 2), ("register",), setreg("pop"), {}),
    "r->arg": ((1, 2), ("index",), lambda s, c, i: push(s, c, s.r[c.r]), {"dead": ("r",)}),
    "label->arg": ((1, 2), ("string", "index"), lambda s, c, l, i: push(s, c, addr(s, c, l)), {"dead": ("r",)}),
    "call-label": ((0, 1, 2), ("function", "args"), callspec(lambda s, c, l, n: ("lab", l)), {}),
    "call-r": ((1,), ("args",), callspec(lambda s, c, n: ("val", s.r[c.r])), {}),
    "return->r": ((1, 2), (), ret_to_r, {"retlive": True}),
    "test-r": (ALL, (), zero_flags, {"flags": ("e",)}),
    "r-zero?": (ALL, (), zero_flags, {"flags": ("e",)}),
    "r-cmp-value": ((1, 2), ("case",), cmp_value, {"flags": ("e",)}),
    "zf->r": ((1, 2), (), cond_r("e"), {"flags": "keepz"}),
    "r-negate": ((1, 2), (), cond_r("e"), {}),
    "xor-zf": ((1, 2), (), lambda s, c: setattr(s, "flags", ("not", s.flags)), {"dead": ("r",), "flags": "flip", "init": "logic"}),
    "g?->r": ((1, 2), (), cond_r("g"), {}),
    "ge?->r": ((1, 2), (), cond_r("ge"), {}),
    "l?->r": ((1, 2), (), cond_r("l"), {}),
    "le?->r": ((1, 2), (), cond_r("le"), {}),
    "a?->r": ((1, 2), (), cond_r("a"), {}),
    "ae?->r": ((1, 2), (), cond_r("ae"), {}),
    "b?->r": ((1, 2), (), cond_r("b"), {}),
    "be?->r": ((1, 2), (), cond_r("be"), {}),
    "jump": (ALL, ("label",), jmp, {}),
    "jump-z": (ALL, ("label",), jcc("e"), {"flags": "keepz"}),
    "jump-nz": (ALL, ("label",), jcc("ne"), {"flags": "keepz"}),
    "jump-byte-z": ((1, 2), ("label",), jbyte, {"dead": ("r",)}),
    "jump-g": (ALL, ("label",), jcc("g"), {}),
    "jump-ge": (ALL, ("label",), jcc("ge"), {}),
    "jump-l": (ALL, ("label",), jcc("l"), {}),
    "jump-le": (ALL, ("label",), jcc("le"), {}),
    "jump-a": (ALL, ("label",), jcc("a"), {}),
    "jump-ae": (ALL, ("label",), jcc("ae"), {}),
    "jump-b": (ALL, ("label",), jcc("b"), {}),
    "jump-be": (ALL, ("label",), jcc("be"), {}),
    "function-preamble": ((0,), ("formals",), preamble, {}),
    "function-locals": ((0,), (), None, {}),
    "ret": ((0,), (), ret, {"dead": (), "retlive": True}),
    "nop": (ALL, (), lambda s, c: None, {}),
}


def shl_const(s, c, n):
    cnt = c.val(n, s.cx, 8)
    return bv.shift("shl", s.r[c.r], bv.ext(cnt, 8, False, s.cx), c.W)
