"""Inline assembly of the C library, as the machine executes it.

GCC style statements are assembled (clang, per target) once for every way the
compiler may allocate the operands, decoded from the bytes and executed abstractly;
MesCC style statements are M1 text, encoded with the architecture's definitions.
A system call becomes Event("kernel", arch, [number, arg1, ...])."""
import itertools, os, re, shutil, subprocess, tempfile
from . import arm, bv, ll, m1, report, x86
from .bv import T
from .cx import Event, Out
from .x86 import Undecodable

N64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
SUB32 = {"rax": "eax", "rcx": "ecx", "rdx": "edx", "rbx": "ebx", "rsi": "esi", "rdi": "edi", "rbp": "ebp", "rsp": "esp"}
ABBR = {"ax": 0, "cx": 1, "dx": 2, "bx": 3, "sp": 4, "bp": 5, "si": 6, "di": 7}
POOL = {"x86_64": [3, 1, 2, 6, 7, 0, 8, 9, 10, 11, 12, 13, 14, 15], "x86": [3, 6, 7, 1, 2, 0], "arm": [4, 5, 6, 8, 9, 10, 0, 1, 2, 3, 7, 12, 14]}
# registers of a system call in the kernel's order (number first) and the result register
KERNEL = {"x86_64": ("syscall", [0, 7, 6, 2, 10, 8, 9]), "x86": ("int", [0, 3, 1, 2, 6, 7, 5]), "arm": ("swi", [7, 0, 1, 2, 3, 4, 5])}


class Bad(Exception):
    """the statement does not do what its constraints promise: (message)"""


def regnum(arch, name):
    n = name.strip("%{}").lower()
    if arch == "arm":
        n = {"r11": "fp", "r13": "sp", "r14": "lr", "r15": "pc", "sl": "r10", "ip": "r12", "sb": "r9", "r12": "r12"}.get(n, n)
        return arm.RN.index(n) if n in arm.RN else None
    if n in ABBR:
        return ABBR[n]
    if n[:1] in ("e", "r") and n[1:] in ABBR:
        return ABBR[n[1:]]
    m = re.fullmatch(r"r(\d+)[dwb]?", n)
    if m and arch == "x86_64":
        return int(m.group(1))
    return {"al": 0, "cl": 1, "dl": 2, "bl": 3}.get(n)


def regname(arch, n, width):
    if arch == "arm":
        return arm.RN[n]
    if arch == "x86":
        return "%" + SUB32[N64[n]]
    if width <= 32:
        return "%" + (N64[n] + "d" if n >= 8 else SUB32[N64[n]])
    return "%" + N64[n]


def constraints(arch, text):
    """-> outputs [(kinds, fixed, early)], inputs [(kinds, fixed, tied)], clobbers, memory clobbered"""
    outs, ins, clob, mem = [], [], set(), False
    for c in split(text):
        if c.startswith("~"):
            n = c[2:-1]
            if n == "memory":
                mem = True
                continue
            r = regnum(arch, n)
            if r is not None:
                clob.add(r)
            continue
        o = c.startswith("=")
        c = c.lstrip("=")
        early = "&" in c
        c = c.replace("&", "")
        ind = c.startswith("*")
        c = c.lstrip("*")
        m = re.fullmatch(r"\{(\w+)\}", c)
        fixed = regnum(arch, m.group(1)) if m else None
        tied = int(c) if c.isdigit() else None
        kinds = "" if m or tied is not None else "".join(sorted(set(c)))
        if not m and tied is None and not (set(kinds) & set("rmginX")):
            raise report.Broken("asm constraint %r" % c)
        if o and not ind:
            outs.append((kinds, fixed, early))
        elif o:
            outs.append((kinds + "*", fixed, early))
        else:
            ins.append((kinds + ("*" if ind else ""), fixed, tied))
    return outs, ins, clob, mem


def split(text):
    out, d, cur = [], 0, ""
    for ch in text:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += {"{": 1, "}": -1}.get(ch, 0)
        cur += ch
    if cur:
        out.append(cur)
    return out


def allocations(arch, outs, ins, clob):
    """every essentially different assignment: one input in a register and the rest in memory, all in
    memory, all in registers; the output apart and sharing a register with each input"""
    pool = [r for r in POOL[arch] if r not in clob and r not in [f for _, f, _ in outs + ins if f is not None]]
    regable = [i for i, (k, f, t) in enumerate(ins) if set(k) & set("rgX")]
    memable = [i for i, (k, f, t) in enumerate(ins) if set(k) & set("mgX")]
    plans = []
    if set(regable) <= set(memable):
        plans.append(set())
        plans += [{i} for i in regable]
    must = set(i for i in regable if i not in memable)
    if must:
        plans.append(must)
        plans += [must | {i} for i in regable if i not in must]
    if len(regable) <= len(pool):
        plans.append(set(regable))
    seen = set()
    for inreg in plans:
        if len(inreg) > len(pool):
            continue
        a_in = {}
        free = list(pool)
        for i, (k, f, t) in enumerate(ins):
            if f is not None:
                a_in[i] = ("r", f)
            elif i in inreg:
                a_in[i] = ("r", free.pop(0))
            elif t is None:
                a_in[i] = ("m", i)
        choices = []
        for j, (k, f, early) in enumerate(outs):
            if f is not None:
                choices.append([("r", f)])
                continue
            c = []
            if set(k) & set("rgX"):
                if free:
                    c.append(("r", free[j % len(free)]))
                if not early:
                    c += [a for i, a in sorted(a_in.items()) if a[0] == "r" and ins[i][1] is None]
                    c += [("r", r) for r in sorted(clob) if False]
            if set(k) & set("mgX"):
                c.append(("m", 20 + j))
            choices.append(c)
        for co in itertools.product(*choices):
            if len(set(co)) < len(co):
                continue
            full = dict(a_in)
            for i, (k, f, t) in enumerate(ins):
                if t is not None:
                    full[i] = co[t]
            key = (tuple(co), tuple(sorted(full.items())))
            if key not in seen:
                seen.add(key)
                yield co, full
    if not seen:
        raise Bad("the operands cannot all be allocated: every register is taken by a clobber")


def slot(arch, i):
    return -64 - 16 * i


def place(arch, p, width):
    if p[0] == "r":
        return regname(arch, p[1], width)
    return "%d(%s)" % (slot(arch, p[1]), "%rbp" if arch == "x86_64" else "%ebp") if arch != "arm" else "[fp, #%d]" % slot(arch, p[1])


def subst(arch, tmpl, names, widths):
    out, i = "", 0
    while i < len(tmpl):
        ch = tmpl[i]
        if ch != "$":
            out += ch
            i += 1
            continue
        if tmpl.startswith("$$", i):
            out += "$"
            i += 2
            continue
        m = re.match(r"\$(\d+)|\$\{(\d+)(?::(\w+))?\}", tmpl[i:])
        if not m:
            m2 = re.match(r"\$\{:\w+\}|\$\(|\$\||\$\)", tmpl[i:])
            if m2:
                i += m2.end()
                continue
            raise report.Broken("asm template %r" % tmpl)
        k = int(m.group(1) or m.group(2))
        p = names[k]
        w = widths[k]
        if m.group(3):
            w = {"q": 64, "k": 32}.get(m.group(3)) or w
        out += place(arch, p, w)
        i += m.end()
    return out


_cache = {}


def assemble(arch, texts):
    """list of texts -> list of byte lists (None: the assembler rejects it, with the message)"""
    key = (arch, tuple(texts))
    if key in _cache:
        return _cache[key]
    if arch == "arm":        # the GNU assembler takes $ for #
        texts = [re.sub(r"\$(?=-?\d)", "#", t) for t in texts]
    d = tempfile.mkdtemp(prefix="vas")
    try:
        def go(ts):
            s = os.path.join(d, "a.s")
            with open(s, "w") as f:
                f.write(".text\n")
                for i, t in ts:
                    f.write("Mark%d:\n%s\n" % (i, t))
                f.write("MarkEnd:\n")
            r = subprocess.run(["clang", "--target=" + ll.TARGET[arch], "-c", s, "-o", s + ".o"], capture_output=True, text=True)
            if r.returncode:
                return None, r.stderr
            subprocess.run([ll.LLVM + "llvm-objcopy", "-O", "binary", "-j", ".text", s + ".o", s + ".bin"], check=True, capture_output=True)
            b = open(s + ".bin", "rb").read()
            nm = subprocess.run([ll.LLVM + "llvm-nm", s + ".o"], check=True, capture_output=True, text=True).stdout
            off = {x.split()[-1]: int(x.split()[0], 16) for x in nm.splitlines() if "Mark" in x}
            marks = ["Mark%d" % i for i, _ in ts] + ["MarkEnd"]
            b = list(b)
            for line in subprocess.run([ll.LLVM + "llvm-readobj", "-r", s + ".o"], check=True, capture_output=True, text=True).stdout.splitlines():
                f = line.split()          # 0xOFFSET TYPE SYMBOL ADDEND
                if len(f) >= 3 and f[0].startswith("0x") and f[1].startswith("R_"):
                    o, sym = int(f[0], 16), f[2]
                    if f[1] in ("R_X86_64_PLT32", "R_X86_64_PC32", "R_386_PC32", "R_386_PLT32"):
                        b[o:o + 4] = [("r", k, 4, sym) for k in range(4)]
                    elif f[1] in ("R_ARM_CALL", "R_ARM_JUMP24"):
                        b[o:o + 3] = [("s", k, 3, sym) for k in range(3)]
                    elif f[1] in ("R_386_32", "R_X86_64_32", "R_X86_64_32S", "R_ARM_ABS32"):
                        b[o:o + 4] = [("a", k, 4, sym) for k in range(4)]
                    else:
                        raise report.Broken("relocation %s in an asm statement" % f[1])
            return [b[off[a]:off[z]] for a, z in zip(marks, marks[1:])], None
        ts = list(enumerate(texts))
        r, err = go(ts)
        if r is None:
            r = []
            for t in ts:
                x, err = go([t])
                r.append(x[0] if x is not None else "\n".join(l for l in err.splitlines() if "error" in l)[:300])
        _cache[key] = r
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(arch, items, st, regs=None, writes=(), names=None):
    """run bytes from a machine state; regs: number -> T"""
    W = 64 if arch == "x86_64" else 32
    if arch == "arm":
        s = arm.State(st)
    else:
        s = x86.State(W, st)
    for n, v in (regs or {}).items():
        s.r[n] = v
    s.writes = list(writes)
    s.init = list(s.r)
    s.insns = []
    if arch == "arm":
        s.data = set()
        pc = n = 0
        while pc < len(items):
            if s.stop:
                raise Undecodable("code after an unconditional transfer")
            n += 1
            if n > 400:
                raise Undecodable("does not terminate")
            pc = arm.step(s, items, pc)
    else:
        stream = x86.Stream(items, st)
        while stream.more():
            if s.stop:
                raise Undecodable("code after an unconditional transfer")
            ins = x86.decode(stream, W)
            s.insns.append(ins)
            x86.step(s, ins)
            if s.events and s.events[-1][0] == "jcc":
                raise Undecodable("conditional jump")
    return s


def gcc(arch, tmpl, cons, av, widths_out, st):
    """-> [(outputs, machine state)] for each allocation; raises Bad"""
    outs, ins, clob, mem = constraints(arch, cons)
    widths_out = list(widths_out)
    for j, (k, f, e) in enumerate(outs):
        if "*" in k:
            widths_out.insert(j, 64 if arch == "x86_64" else 32)
    if len(ins) != len(av):
        raise report.Broken("asm operands: %s for %d values" % (cons, len(av)))
    W = 64 if arch == "x86_64" else 32
    plans = list(allocations(arch, outs, ins, clob))
    texts = []
    for co, ci in plans:
        names = list(co) + [ci[i] for i in range(len(ins))]
        texts.append(subst(arch, tmpl, names, list(widths_out) + [a.w for a in av]))
    codes = assemble(arch, texts)
    fp = 11 if arch == "arm" else 5
    sp = 13 if arch == "arm" else 4
    base = bv.var(arm.RN[11] if arch == "arm" else x86.R64[5] if W == 64 else x86.R32[5], W)
    res = []
    for (co, ci), code, text in zip(plans, codes, texts):
        what = ", ".join(place(arch, ci[i], a.w) for i, a in enumerate(av))
        if isinstance(code, str):
            raise Bad("with the operands in %s the statement cannot be assembled: %s" % (what or "-", code.strip()))
        regs, writes = {}, []
        for i, a in enumerate(av):
            p = ci[i]
            if p[0] == "r":
                # the upper half of a register that holds a narrower operand is not defined
                regs[p[1]] = a if a.w == W else T(W, 0, ((("op", "ins", W, bv.var("upper#%d" % i, W), a), 1),))
            else:
                writes.append((bv.add(base, bv.const(W, slot(arch, p[1]))), a.w // 8, a))
        try:
            s = execute(arch, code, st, regs, writes)
        except Undecodable as e:
            raise report.Broken("asm %r: %s" % (text, e))
        outregs = {p[1] for p in co if p[0] == "r"}
        if not s.stop:
            for n in range(len(s.r)):
                if arch == "arm" and n == 15:
                    continue
                if n not in clob and n not in outregs and s.r[n] != s.init[n]:
                    raise Bad("register %s is changed but neither an output nor declared as clobbered" % (arm.RN[n] if arch == "arm" else x86.R64[n] if W == 64 else x86.R32[n]))
            for a, n, v in s.writes:
                if (a, n) in [(x[0], x[1]) for x in writes] or any(p[0] == "m" and a == bv.add(base, bv.const(W, slot(arch, p[1]))) for p in co):
                    continue
                if not mem:
                    raise Bad("memory at %r is written but \"memory\" is not declared as clobbered" % (a,))
        vals = []
        for p, w in zip(co, widths_out):
            v = s.r[p[1]] if p[0] == "r" else s.load(bv.add(base, bv.const(W, slot(arch, p[1]))), w // 8)
            vals.append(bv.trunc(v, w) if v.w > w else v)
        res.append((vals, s, what))
    return res


def kernel_args(arch, ev):
    kind, order = KERNEL[arch]
    if ev[0] != kind:
        raise Bad("%s is not how %s enters the kernel" % (ev[0], arch))
    if kind == "int" and not (ev[2][0].isconst() and ev[2][0].c & 255 == 0x80):
        raise Bad("interrupt %r" % (ev[2][0],))
    return [ev[1][n] for n in order]


def model(arch, bad):
    """engine model for GCC style statements; bad(fn, line, message) reports"""
    def m(E, st, f, i, av, callee):
        tys = [] if i.ty == "void" else [i.ty]
        if tys and tys[0] != "ptr" and tys[0][0] != "i":
            raise report.Broken("asm with several outputs in %s" % f.name)
        ws = [E.tw(t) for t in tys]
        ind = [j for j, c in enumerate(split(callee[2])) if c.startswith("=*")]
        ptrs, av = av[:len(ind)], av[len(ind):]
        try:
            rs = gcc(arch, callee[1], callee[2], av, ws, st)
        except Bad as e:
            bad(f.name, i.line, str(e))
            return [Out("ret", st, E.ret(st, i, "asm"))]
        sysret = "sysret#%d" % E.tick(st)
        W = 64 if arch == "x86_64" else 32

        def ren(t):
            return rename(t, "sysret", sysret)
        runs = []
        for vals, s, what in rs:
            evs = []
            for e in s.events:
                if e[0] in ("syscall", "int", "swi"):
                    try:
                        evs.append(("kernel", [ren(x) for x in kernel_args(arch, e)]))
                    except Bad as x:
                        bad(f.name, i.line, str(x))
                else:
                    evs.append(e)
            runs.append((evs, [ren(v) for v in vals], s, what))
        if len({tuple(e[0] for e in r[0]) for r in runs}) > 1 or len({tuple(r[1]) for r in runs}) > 1:
            bad(f.name, i.line, "the effect depends on the allocation of the operands: " + "; ".join("(%s) %r %r" % (r[3], r[0], r[1]) for r in runs[:3]))
        evs, vals, s0, _ = runs[0]
        for k, e in enumerate(evs):
            if e[0] == "kernel":
                # extra: the arguments under each allocation
                st.events.append(Event("kernel", arch, e[1], i, f.name, extra=[(r[0][k][1], r[3]) for r in runs if k < len(r[0]) and r[0][k][0] == "kernel"]))
            else:
                st.events.append(Event("machine", e[0], list(e[1:]), i, f.name, extra=s0))
        if s0.stop:
            return [Out("exit", st, info=("asm", s0, i))]
        for j, p in zip(ind, ptrs):
            E.store(st, p, vals[j].w // 8, vals[j])
        vals = [v for j, v in enumerate(vals) if j not in ind]
        return [Out("ret", st, vals[0] if vals else None)]
    return m


def junk(t):
    """a register as it was: nothing put there"""
    return len(t.t) == 1 and t.c == 0 and t.t[0][0][0] == "v" and t.t[0][0][1] in JUNK


JUNK = set(x86.R64) | set(x86.R32) | set(arm.RN)


def rename(t, old, new):
    """atom v(old) -> v(new), recursively"""
    def at(a):
        if not isinstance(a, tuple):
            return rename(a, old, new) if isinstance(a, T) else a
        if a[0] == "v" and a[1] == old:
            return (a[0], new) + a[2:]
        return tuple(at(x) for x in a)
    return T(t.w, t.c, tuple((at(a), k) for a, k in t.t))


# ---------------------------------------------------------------- MesCC
M1DEF = {"x86_64": "lib/x86_64-mes/x86_64.M1", "x86": "lib/x86-mes/x86.M1", "arm": "lib/arm-mes/arm.M1"}
_defs = {}


def defs(arch):
    if arch not in _defs:
        _defs[arch] = m1.load(os.path.join(report.REPO, M1DEF[arch]))[0]
    return _defs[arch]


def mescc_code(arch, lines, syms):
    """M1 lines -> items, symbolic constants (SYS_write) replaced by syms"""
    out = []
    for l in lines:
        toks = []
        for t in l.split():
            toks.append(t)
        out.append(" ".join(syms.get(t, t) for t in toks))
    return m1.encode(out, defs(arch))


def param_addr(arch, k):
    W = 64 if arch == "x86_64" else 32
    fp = bv.var({"x86_64": "rbp", "x86": "ebp", "arm": "fp"}[arch], W)
    return bv.add(fp, bv.const(W, {"x86_64": 16 + 8 * k, "x86": 8 + 4 * k, "arm": 8 + 4 * k}[arch]))


def asm_only(F):
    """the asm statements of a function that does nothing else (its parameters are read from the frame by the code), or None"""
    if not F.blocks:
        return None
    lines = []
    for b in F.order:
        for i in F.blocks[b]:
            if i.op == "call" and i.a[0][0] == "asm":
                if i.a[1]:
                    return None
                lines.append((i.a[0][1].replace("$$", "$"), i))
            elif i.op == "call" and i.a[0][0] == "g" and i.a[0][1].startswith("llvm.dbg"):
                pass
            elif i.op == "ret":
                if i.a and i.a[0][0] not in ("undef", "poison"):
                    return None
            elif i.op in ("alloca", "unreachable"):
                pass
            else:
                return None
    return lines or None


def mescc_run(arch, lines, nparams, st):
    """execute the function's own code in its frame; loads from parameter slots become par#k"""
    try:
        items = mescc_code(arch, [l for l, _ in lines], {})
        s = execute(arch, items, st)
    except m1.M1Error as e:
        raise Bad("cannot be assembled: %s" % e)
    W = 64 if arch == "x86_64" else 32
    slots = {}
    for k in range(8):
        slots[param_addr(arch, k)] = k

    def at(a):
        if a[0] == "ld" and a[2] in slots and a[1] * 8 == W and all(st_disjoint(s, a[2], a[1], w) for w in a[3]):
            return ("v", "par#%d" % slots[a[2]])
        return a
    return s, lambda t: mapatoms(t, at)


def st_disjoint(s, a, n, w):
    return s.disjoint(a, n, w[0], w[1])


def mapatoms(t, f):
    r = T(t.w, t.c)
    for a, k in t.t:
        b = f(a)
        if b is a and len(a) > 3 and a[0] == "op":
            b = a[:3] + tuple(mapatoms(x, f) if isinstance(x, T) else x for x in a[3:])
        r = bv.add(r, bv.mulc(T(t.w, 0, ((b, 1),)), k))
    return r


class Line:
    def __init__(self, line):
        self.line, self.file = line, None


def text_functions(src, arch, defs):
    """function -> asm statements, for a source only MesCC accepts: every body must be asm statements"""
    r = subprocess.run(["clang", "-E", "-P", "-w"] + ll.flags(arch) + ["-nostdinc"] + list(defs) + [os.path.join(report.REPO, src)], capture_output=True, text=True)
    if r.returncode:
        raise report.Broken("clang -E %s: %s" % (src, r.stderr[-300:]))
    res = {}
    for m in re.finditer(r"\b(\w+)\s*\(([^(){};]*)\)\s*\{", r.stdout):
        if m.group(1) in ("if", "while", "for", "switch"):
            continue
        body, d, k = "", 1, m.end()
        while d and k < len(r.stdout):
            c = r.stdout[k]
            if c == '"':
                e = re.compile(r'"(?:[^"\\]|\\.)*"').match(r.stdout, k).end()
                body += r.stdout[k:e]
                k = e
                continue
            d += {"{": 1, "}": -1}.get(c, 0)
            body += c if d else ""
            k += 1
        lines = []
        rest = body.strip()
        while rest:
            s = re.match(r'(?:__asm__|asm)\s*\(((?:\s*"(?:[^"\\]|\\.)*")+)\s*\)\s*;\s*|;\s*', rest)
            if not s:
                raise report.Broken("%s: %s is more than asm statements: %r" % (src, m.group(1), rest[:80]))
            if s.group(1):
                lines.append(("".join(x.encode().decode("unicode_escape") for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s.group(1))), Line(0)))
            rest = rest[s.end():]
        res[m.group(1)] = lines
    return res


def mescc_models(arch, M, bad, text=None):
    """models for the assembly functions of a MesCC variant"""
    models = {}
    for n, F in list(M.funcs.items()) + [(n, None) for n in text or {}]:
        lines = asm_only(F) if F is not None else text[n]
        if not lines:
            continue

        def m(E, st, f, i, av, n=n, F=F, lines=lines):
            W = 64 if arch == "x86_64" else 32
            try:
                s, sub = mescc_run(arch, lines, len(av), st)
            except Bad as e:
                bad(n, lines[0][1].line, str(e))
                return [Out("ret", st, E.ret(st, i, n))]
            sysret = "sysret#%d" % E.tick(st)
            par = {"par#%d" % k: a if a.w == W else bv.ext(a, W, True, st) for k, a in enumerate(av)}

            def ren(t):
                t = sub(t)

                def at(a):
                    return a
                r = T(t.w, t.c)
                for a, k in t.t:
                    x = par.get(a[1]) if a[0] == "v" else None
                    if x is None and a[0] == "v" and a[1] == "sysret":
                        x = T(W, 0, ((("v", sysret), 1),))
                    if x is None:
                        x = T(t.w, 0, ((a, 1),))
                    r = bv.add(r, bv.mulc(x if x.w == t.w else bv.trunc(x, t.w), k))
                return r
            fp, sp = (11, 13) if arch == "arm" else (5, 4)
            for e in s.events:
                if e[0] in ("syscall", "int", "swi"):
                    try:
                        args = [ren(x) for x in kernel_args(arch, e)]
                        st.events.append(Event("kernel", arch, args, lines[0][1], n, extra=[(args, "frame")]))
                    except Bad as x:
                        bad(n, lines[0][1].line, str(x))
                else:
                    st.events.append(Event("machine", e[0], list(e[1:]), lines[0][1], n, extra=s))
            if not s.stop:
                if s.r[fp] != s.init[fp]:
                    bad(n, lines[0][1].line, "the frame pointer is changed")
                for a, nb, v in s.writes:
                    bad(n, lines[0][1].line, "memory at %r is written" % (a,))
            if i.ty == "void":
                return [Out("ret", st, None)]
            v = ren(s.r[0])
            w = E.tw(i.ty)
            return [Out("ret", st, bv.trunc(v, w) if v.w > w else v)]
        models[n] = m
    return models
