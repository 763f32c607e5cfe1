"""LLVM IR reader: compiles C sources of /repo with clang (code generation only,
nothing is run), promotes locals to SSA, and parses the textual IR."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import report

LLVM = "/usr/lib/llvm-18/bin/"
HERE = os.path.dirname(os.path.abspath(__file__))
CFG = os.path.join(os.path.dirname(HERE), "support", "include")

TARGET = {"x86_64": "x86_64-linux-gnu", "x86": "i386-linux-gnu", "arm": "armv7-linux-gnueabihf"}


class IRError(Exception):
    pass


# ------------------------------------------------------------------ types
# ('i', n) 'ptr' 'void' 'float' 'double' 'x86_fp80' 'fp128' ('arr', n, t) ('struct', [t], packed) ('named', n) ('fn',..)
class Func:
    __slots__ = ("name", "ret", "params", "blocks", "order", "file", "line", "attrs", "vararg", "link", "pnames", "_x")

    def __repr__(self):
        return "<%s>" % self.name


class Inst:
    __slots__ = ("op", "res", "ty", "a", "line", "file", "scope", "flags")

    def __repr__(self):
        return "%s=%s %s %r" % (self.res, self.op, self.ty, self.a)


TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|([@%]"(?:[^"\\]|\\.)*")|([@%!#][-\w.$]*)|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d+(?:e[-+]?\d+)?)|(-?\d+)|(\.\.\.)|([\w.$]+)|(.))''')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            break
        i = m.end()
        t = m.group(0).strip()
        if t:
            if t == ";":
                break
            out.append(t)
    return out


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "returned", "immarg",
               "inreg", "nest", "nofree", "allocalign", "allocptr", "swiftself"}


class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        t = self.next()
        if t != x:
            raise IRError("expected %r got %r in %s" % (x, t, " ".join(self.t)))

    def type(self):
        t = self.next()
        if t == "[":
            n = int(self.next())
            self.want("x")
            e = self.type()
            self.want("]")
            r = ("arr", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                l = []
                while self.peek() != "}":
                    l.append(self.type())
                    self.eat(",")
                self.next()
                self.want(">")
                r = ("struct", tuple(l), True)
            else:
                n = int(self.next())
                self.want("x")
                e = self.type()
                self.want(">")
                r = ("vec", n, e)
        elif t == "{":
            l = []
            while self.peek() != "}":
                l.append(self.type())
                self.eat(",")
            self.next()
            r = ("struct", tuple(l), False)
        elif t[0] == "%":
            r = ("named", t[1:].strip('"'))
        elif re.match(r"i\d+$", t):
            r = ("i", int(t[1:]))
        else:
            r = t
        while self.peek() == "(" and self.fn_ok:
            self.next()
            l = []
            va = False
            while self.peek() != ")":
                if self.eat("..."):
                    va = True
                else:
                    l.append(self.type())
                    self.attrs()
                self.eat(",")
            self.next()
            r = ("fn", r, tuple(l), va)
        return r
    fn_ok = False

    def attrs(self):
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                self.next()
            elif p in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "range", "memory"):
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        x = self.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.next()
            else:
                return

    def value(self, ty):
        """('l',name) ('g',name) ('int',v) ('null',) ('undef',) ('zero',) ('float',s) ('ce',op,...) ('agg',[...]) ('str',bytes) ('asm',..)"""
        t = self.next()
        if t[0] == "%":
            return ("l", t[1:].strip('"'))
        if t[0] == "@":
            return ("g", t[1:].strip('"'))
        if t == "null":
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t == "true":
            return ("int", 1)
        if t == "false":
            return ("int", 0)
        if t == "none":
            return ("null",)
        if t[:2] == 'c"':
            b = t[2:-1].encode("latin1")
            b = re.sub(rb"\\(\\|[0-9A-Fa-f]{2})", lambda m: b"\\" if m.group(1) == b"\\" else bytes([int(m.group(1), 16)]), b)
            return ("str", b)
        if re.match(r"-?\d+$", t):
            if ty in ("float", "double", "x86_fp80", "fp128"):
                return ("float", t)
            return ("int", int(t))
        if t.startswith("0x") or re.match(r"-?\d+\.", t):
            return ("float", t)
        if t in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[t]
            pk = False
            if t == "<" and self.peek() == "{":
                self.next()
                close = "}"
                pk = True
            l = []
            while self.peek() != close:
                et = self.type()
                l.append((et, self.value(et)))
                self.eat(",")
            self.next()
            if pk:
                self.want(">")
            return ("agg", l)
        if t == "getelementptr":
            while self.peek() in ("inbounds", "inrange", "nuw", "nusw"):
                self.next()
            self.want("(")
            bt = self.type()
            self.want(",")
            l = []
            while True:
                et = self.type()
                l.append((et, self.value(et)))
                if not self.eat(","):
                    break
            self.want(")")
            return ("ce", "getelementptr", bt, l)
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
            self.want("(")
            et = self.type()
            v = self.value(et)
            self.want("to")
            tt = self.type()
            self.want(")")
            return ("ce", t, et, v, tt)
        if t in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "icmp"):
            pred = None
            while self.peek() != "(":
                pred = self.next()
            self.want("(")
            et = self.type()
            x = self.value(et)
            self.want(",")
            et2 = self.type()
            y = self.value(et2)
            self.want(")")
            return ("ce", t, et, x, y, pred)
        if t in ("blockaddress", "dso_local_equivalent", "no_cfi"):
            self.want("(")
            while self.next() != ")":
                pass
            return ("undef",)
        raise IRError("value %r in %s" % (t, " ".join(self.t)[:300]))


BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul",
          "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "ptrtoint", "inttoptr", "bitcast",
         "addrspacecast"}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}      # name -> (type, init value or None, constant?)
        self.funcs = {}
        self.decls = {}        # name -> (ret, params, vararg)
        self.ptr = 8
        self.i64align = 8
        self.triple = ""
        self.md = {}
        self.asm = []

    # ---- layout
    def size(self, t):
        return self.layout(t)[0]

    def align(self, t):
        return self.layout(t)[1]

    def layout(self, t):
        if t == "ptr":
            return self.ptr, self.ptr
        if t == "float":
            return 4, 4
        if t == "double":
            return 8, (4 if self.triple.startswith("i386") else 8)
        if t == "x86_fp80":
            return (12, 4) if self.triple.startswith("i386") else (16, 16)
        if t == "fp128":
            return 16, 16
        if t[0] == "i":
            n = max(1, (t[1] + 7) // 8)
            s = 1
            while s < n:
                s *= 2
            a = min(s, self.i64align if s >= 8 else s)
            return s, a
        if t[0] == "arr":
            s, a = self.layout(t[2])
            return s * t[1], a
        if t[0] == "vec":
            s, a = self.layout(t[2])
            return s * t[1], s * t[1]
        if t[0] == "named":
            return self.layout(self.types[t[1]])
        if t[0] == "struct":
            o, al = 0, 1
            for x in t[1]:
                s, a = self.layout(x)
                if t[2]:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        raise IRError("layout of %r" % (t,))

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == "named":
            t = self.types[t[1]]
        return t

    def field(self, t, i):
        t = self.resolve(t)
        o = 0
        for k, x in enumerate(t[1]):
            s, a = self.layout(x)
            if t[2]:
                a = 1
            o = (o + a - 1) // a * a
            if k == i:
                return o, x
            o += s
        raise IRError("field")


DL = re.compile(r'^target datalayout = "(.*)"')


def parse(text, mod=None):
    M = mod or Module()
    md = {}
    lines = text.split("\n")
    i = 0
    n = len(lines)
    defs = []
    while i < n:
        l = lines[i]
        if l.startswith("define "):
            j = i
            while lines[j] != "}":
                j += 1
            defs.append((i, j))
            i = j + 1
            continue
        if l.startswith("!"):
            m = re.match(r"(!\d+) = (?:distinct )?(!DI\w+)\((.*)\)$", l)
            if m:
                md[m.group(1)] = (m.group(2)[1:], m.group(3))
            else:
                m = re.match(r"(!\d+) = (?:distinct )?!\{(.*)\}$", l)
                if m:
                    md[m.group(1)] = ("tuple", m.group(2))
        elif l.startswith("%"):
            m = re.match(r'%("?[^"]*?"?) = type (.*)$', l)
            if m:
                nm = m.group(1).strip('"')
                if m.group(2) == "opaque":
                    M.types[nm] = ("struct", (), False)
                else:
                    M.types[nm] = P(tokenize(m.group(2))).type()
        elif l.startswith("@"):
            parse_global(M, l)
        elif l.startswith("declare"):
            parse_decl(M, l)
        elif l.startswith("target triple"):
            M.triple = l.split('"')[1]
        elif l.startswith("target datalayout"):
            d = l.split('"')[1].split("-")
            M.ptr = 8
            M.i64align = 8
            for x in d:
                if x.startswith("p:"):
                    M.ptr = int(x.split(":")[1]) // 8
                if x.startswith("i64:"):
                    M.i64align = int(x.split(":")[1]) // 8
        elif l.startswith("module asm"):
            M.asm.append(l.split('"', 1)[1].rsplit('"', 1)[0])
        i += 1
    M.md = md
    cache = {}

    def field(s, name):
        m = re.search(name + r": (\"[^\"]*\"|[^,)]+)", s)
        return m.group(1).strip('"') if m else None

    def fileof(scope):
        k = 0
        while scope and k < 30:
            if scope not in md:
                return None
            kind, body = md[scope]
            f = field(body, "file")
            if f and f in md:
                return field(md[f][1], "filename")
            scope = field(body, "scope")
            k += 1
        return None

    def loc(ref):
        if ref in cache:
            return cache[ref]
        r = (None, 0)
        if ref in md and md[ref][0] == "DILocation":
            b = md[ref][1]
            r = (fileof(field(b, "scope")), int(field(b, "line") or 0))
        cache[ref] = r
        return r
    for a, b in defs:
        f = parse_func(M, lines[a:b], md, loc, fileof, field)
        M.funcs[f.name] = f
    return M


def parse_global(M, l):
    m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
    name, rest = m.group(1).strip('"'), m.group(2)
    if " alias " in " " + rest or rest.startswith("alias"):
        return
    p = P(tokenize(rest))
    ext = False
    link = "external"
    while p.peek() not in ("global", "constant"):
        t = p.next()
        if t in ("external", "extern_weak"):
            ext = True
        if t in ("internal", "private", "common", "weak", "linkonce_odr"):
            link = t
        if t is None:
            return
    const = p.next() == "constant"
    ty = p.type()
    val = None
    if not ext and p.peek() not in (None, ","):
        val = p.value(ty)
    M.globals[name] = (ty, val, const, link)


def parse_decl(M, l):
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\((.*)\)', l)
    if m:
        M.decls[m.group(1).strip('"')] = l


SKIP_RET = {"dso_local", "internal", "private", "weak", "linkonce_odr", "hidden", "local_unnamed_addr", "unnamed_addr", "fastcc",
            "dso_preemptable", "available_externally", "external"}


def parse_func(M, lines, md, loc, fileof, field):
    head = lines[0]
    p = P(tokenize(head))
    p.next()
    f = Func()
    f.link = "external"
    while p.peek() in SKIP_RET or p.peek() in PARAM_ATTRS:
        t = p.next()
        if t in ("internal", "private"):
            f.link = t
    p.attrs()
    f.ret = p.type()
    while p.peek()[0] != "@":
        p.next()
    f.name = p.next()[1:].strip('"')
    p.want("(")
    f.params = []
    f.vararg = False
    while p.peek() != ")":
        if p.eat("..."):
            f.vararg = True
        else:
            t = p.type()
            p.attrs()
            f.params.append((t, p.next()[1:]))
        p.eat(",")
    f.file, f.line = None, 0
    m = re.search(r"!dbg (!\d+)", head)
    if m and m.group(1) in md:
        f.file = fileof(m.group(1))
        f.line = int(field(md[m.group(1)][1], "line") or 0)
    f.attrs = re.findall(r"#\d+", head)
    f.blocks, f.order = {}, []
    f._x = {}
    f.pnames = None
    cur = None
    k = 1
    first = str(len(f.params)) if all(re.match(r"\d+$", q) for _, q in f.params) else None
    while k < len(lines):
        l = lines[k]
        k += 1
        if not l.strip():
            continue
        m = re.match(r'^("?[-\w.$]+"?):', l)
        if m:
            cur = m.group(1).strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = "entry" if first is None else first
            f.blocks[cur] = []
            f.order.append(cur)
        s = l.strip()
        if "switch " in s and s.endswith("["):
            while not lines[k].strip().startswith("]"):
                s += " " + lines[k].strip()
                k += 1
            s += " ]" + lines[k].strip()[1:]
            k += 1
        if "@llvm.dbg." in s:
            continue
        f.blocks[cur].append(parse_inst(M, s, loc))
    return f


def parse_inst(M, s, loc):
    m = re.search(r", !dbg (!\d+)", s)
    x = Inst()
    x.file, x.line = None, 0
    if m:
        x.file, x.line = loc(m.group(1))
        s = s[:m.start()] + s[m.end():]
    s = re.sub(r", !\w[\w.]* ![\w]+", "", s)
    s = re.sub(r"(?:, )?!srcloc !\d+|!srcloc !\d+", "", s)
    p = P(tokenize(s))
    x.res = None
    x.flags = ()
    if p.peek(1) == "=" and p.peek()[0] == "%":
        x.res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    x.op = op
    fl = []
    if op in BINOPS:
        while p.peek() in ("nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "disjoint", "reassoc", "afn"):
            fl.append(p.next())
        x.ty = p.type()
        a = p.value(x.ty)
        p.want(",")
        b = p.value(x.ty)
        x.a = (a, b)
    elif op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.want("to")
        x.ty = p.type()
        x.a = (t, v)
    elif op == "fneg":
        x.ty = p.type()
        x.a = (p.value(x.ty),)
    elif op == "icmp" or op == "fcmp":
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "samesign"):
            p.next()
        pred = p.next()
        x.ty = p.type()
        a = p.value(x.ty)
        p.want(",")
        b = p.value(x.ty)
        x.a = (pred, a, b)
    elif op == "alloca":
        x.ty = p.type()
        cnt = ("int", 1)
        while p.eat(","):
            if p.peek() == "align":
                p.next(); p.next()
            else:
                t = p.type()
                cnt = p.value(t)
        x.a = (cnt,)
    elif op == "load":
        p.eat("volatile")
        x.ty = p.type()
        p.want(",")
        t = p.type()
        x.a = (p.value(t),)
    elif op == "store":
        p.eat("volatile")
        x.ty = p.type()
        v = p.value(x.ty)
        p.want(",")
        t = p.type()
        x.a = (v, p.value(t))
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        x.ty = p.type()
        p.want(",")
        t = p.type()
        base = p.value(t)
        idx = []
        while p.eat(","):
            t = p.type()
            idx.append((t, p.value(t)))
        x.a = (base, idx)
    elif op == "br":
        if p.peek() == "label":
            p.next()
            x.a = (p.next()[1:].strip('"'),)
        else:
            p.type()
            c = p.value(("i", 1))
            p.want(","); p.want("label")
            a = p.next()[1:].strip('"')
            p.want(","); p.want("label")
            b = p.next()[1:].strip('"')
            x.a = (c, a, b)
        x.ty = "void"
    elif op == "switch":
        x.ty = p.type()
        v = p.value(x.ty)
        p.want(","); p.want("label")
        d = p.next()[1:].strip('"')
        p.want("[")
        cs = []
        while p.peek() != "]":
            t = p.type()
            c = p.value(t)
            p.want(","); p.want("label")
            cs.append((c[1], p.next()[1:].strip('"')))
        x.a = (v, d, cs)
    elif op == "ret":
        x.ty = p.type()
        x.a = (p.value(x.ty),) if x.ty != "void" else ()
    elif op == "unreachable":
        x.ty, x.a = "void", ()
    elif op == "phi":
        while p.peek() in ("fast", "nnan", "ninf", "nsz"):
            p.next()
        x.ty = p.type()
        l = []
        while True:
            p.want("[")
            v = p.value(x.ty)
            p.want(",")
            l.append((v, p.next()[1:].strip('"')))
            p.want("]")
            if not p.eat(","):
                break
        x.a = tuple(l)
    elif op == "select":
        t = p.type()
        c = p.value(t)
        p.want(",")
        x.ty = p.type()
        a = p.value(x.ty)
        p.want(",")
        p.type()
        b = p.value(x.ty)
        x.a = (c, a, b)
    elif op == "call":
        while p.peek() in SKIP_RET or p.peek() in PARAM_ATTRS or p.peek() in ("ccc", "fast"):
            p.next()
        p.attrs()
        p.fn_ok = True
        x.ty = p.type()
        p.fn_ok = False
        if isinstance(x.ty, tuple) and x.ty[0] == "fn":
            x.ty = x.ty[1]
        if p.peek() == "asm":
            p.next()
            fl2 = []
            while p.peek()[0] != '"':
                fl2.append(p.next())
            tmpl = p.next()[1:-1]
            p.want(",")
            cons = p.next()[1:-1]
            callee = ("asm", unesc(tmpl), unesc(cons))
        else:
            callee = p.value("ptr")
        p.want("(")
        args = []
        while p.peek() != ")":
            t = p.type()
            if t == "metadata":
                while p.peek() not in (",", ")"):
                    p.next()
                v = ("undef",)
            else:
                p.attrs()
                v = p.value(t)
            args.append((t, v))
            p.eat(",")
        x.a = (callee, args)
    elif op in ("extractvalue", "insertvalue"):
        t = p.type()
        v = p.value(t)
        if op == "insertvalue":
            p.want(",")
            t2 = p.type()
            v2 = p.value(t2)
            x.ty = t
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        if op == "extractvalue":
            x.ty = M.resolve(t)
            x.a = (t, v, idx)
        else:
            x.a = (t, v, t2, v2, idx)
    elif op == "freeze":
        x.ty = p.type()
        x.a = (p.value(x.ty),)
    elif op == "va_arg":
        t = p.type()
        v = p.value(t)
        p.want(",")
        x.ty = p.type()
        x.a = (v,)
    else:
        raise IRError("instruction %s" % s)
    x.flags = tuple(fl)
    return x


def unesc(s):
    return re.sub(r"\\(\\|[0-9A-Fa-f]{2})", lambda m: "\\" if m.group(1) == "\\" else chr(int(m.group(1), 16)), s)


# ------------------------------------------------------------------ compilation
INTERP = "builtins cc core display eval-apply gc globals hash lib math mes module posix reader stack string struct symbol vector".split()

BASE = ["-S", "-emit-llvm", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-stack-protector", "-nostdinc", "-fno-builtin", "-w",
        "-fno-discard-value-names", "-std=gnu11", "-Wno-implicit-function-declaration", "-Wno-int-conversion",
        "-Wno-incompatible-function-pointer-types", "-DHAVE_CONFIG_H=1"]


def flags(arch, kernel="linux"):
    r = report.REPO
    return ["--target=" + TARGET[arch], "-I" + r + "/lib", "-I" + r + "/include", "-I%s/include/%s/%s" % (r, kernel, arch), "-I" + CFG]


def compile_c(srcs, arch="x86_64", defs=(), link=True, passes="sroa", extra=(), edit=None):
    """srcs: paths relative to /repo (or absolute).  One linked Module, or a dict src -> Module."""
    d = tempfile.mkdtemp(prefix="vll")
    try:
        def one(i_src):
            i, s = i_src
            path = s if s.startswith("/") else os.path.join(report.REPO, s)
            if not os.path.exists(path):
                raise report.Broken("source file %s is missing" % s)
            out = os.path.join(d, "%d.ll" % i)
            r = subprocess.run(["clang"] + BASE + flags(arch) + list(defs) + list(extra) + [path, "-o", out], capture_output=True, text=True,
                               cwd=report.REPO)
            if r.returncode:
                raise report.Broken("clang cannot compile %s for %s:\n%s" % (s, arch, r.stderr[-1500:]))
            if edit:
                s = open(out).read()
                open(out, "w").write(edit(s))
            if not link:
                o2 = out[:-3] + ".opt.ll"
                subprocess.run([LLVM + "opt", "-S", "-passes=" + passes, out, "-o", o2], check=True, capture_output=True)
                return parse(open(o2).read())
            return out
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, enumerate(srcs)))
        if not link:
            return dict(zip(srcs, outs))
        o = os.path.join(d, "all.ll")
        r = subprocess.run([LLVM + "llvm-link", "-S"] + outs + ["-o", o], capture_output=True, text=True)
        if r.returncode:
            raise report.Broken("llvm-link: " + r.stderr[-800:])
        o2 = os.path.join(d, "opt.ll")
        subprocess.run([LLVM + "opt", "-S", "-passes=" + passes, o, "-o", o2], check=True, capture_output=True)
        return parse(open(o2).read())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def interpreter(arch="x86_64"):
    return compile_c(["src/%s.c" % x for x in INTERP], arch)
