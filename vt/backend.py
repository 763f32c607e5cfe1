"""A MesCC backend under abstract evaluation: instruction -> machine code of every path."""
import os
from . import scheme, absint, m1, x86, arm, bv, report
from .absint import Lin, AnalysisError, SchemeError
from .scheme import S, Rec
from .sexp import Kw, NIL, Pair, plist, pl

ARCH = {
    "x86_64": dict(dir="x86_64", info="x86_64-info", m1="lib/x86_64-mes/x86_64.M1", width=64, prop="M01"),
    "i386": dict(dir="i386", info="x86-info", m1="lib/x86-mes/x86.M1", width=32, prop="M02"),
    "armv4": dict(dir="armv4", info="armv4-info", m1="lib/arm-mes/arm.M1", width=32, prop="M03"),
}


def files(arch):
    d = "module/mescc/" + ARCH[arch]["dir"]
    return ["module/mescc/info.scm", "module/mescc/bytevectors.scm", "module/mescc/as.scm",
            d + "/as.scm", d + "/info.scm", "module/mescc/M1.scm"]


class Backend:
    def __init__(self, arch, extra=()):
        self.arch = arch
        a = ARCH[arch]
        self.width = a["width"]
        self.n = self.width // 8
        self.I = scheme.Interp()
        for f in list(files(arch)) + list(extra):
            p = os.path.join(report.REPO, f)
            if not os.path.exists(p):
                raise report.Broken("missing " + f)
            self.I.load(p, f)
        self.defs, _ = m1.load(os.path.join(report.REPO, a["m1"]))
        g = self.I.g
        self.base = self.I.apply(g[S(a["info"])], [])
        self.regs = pl(self.I.apply(g[S(".registers")], [self.base]))
        if len(self.regs) < 3:
            raise report.Broken("%s: register list" % arch)
        self.table = {}
        for e in pl(self.I.apply(g[S(".instructions")], [self.base])):
            self.table.setdefault(e.car.name, e.cdr)

    def clone(self, info, **kw):
        args = [info]
        for k, v in kw.items():
            args += [Kw(k), v]
        return self.I.apply(self.I.g[S("clone")], args)

    def info(self, nalloc):
        """compiler state with nalloc registers allocated, in allocation order"""
        al = list(reversed(self.regs[:nalloc]))
        return self.clone(self.base, allocated=plist(al), registers=plist(self.regs[nalloc:]))

    def call(self, path, fn):
        self.I.path = path
        self.I.out = []
        self.I.depth = 0
        return fn()

    def emit(self, info, instr, args):
        """list of text entries (as `as` returns)"""
        return self.I.apply(self.I.g[S("as")], [info, S(instr)] + list(args))

    def text(self, info, instr_lines, globals_=NIL):
        """M1 lines the writer prints for a function with these instructions"""
        g = self.I.g
        fn = self.I.apply(g[S("make-function")], ["f", False, plist([instr_lines])])
        info = self.clone(info, functions=plist([Pair("f", fn)]), globals=globals_)
        self.I.out = []
        self.I.apply(g[S("info->M1")], ["F", info])
        out = absint.sstr(self.I.out)
        self.I.out = []
        return split_lines(out)

    def items(self, lines):
        ls = []
        for l in lines:
            t = m1.tokens(l)
            if not t:
                continue
            if isinstance(t[0][0], str) and t[0][0].startswith(":") and len(t) == 1:
                if t[0] == [":f"]:
                    continue
                if isinstance(t[0][0], str) and t[0][0].startswith(":_string_"):
                    break
                raise AnalysisError("label in instruction text %r" % (t,))
            if isinstance(t[0][0], str) and t[0][0].startswith("#"):
                continue
            ls.append(l)
        return m1.encode(ls, self.defs)

    def run(self, items, cx, flags=None, init=None):
        if self.arch == "armv4":
            return arm.run(items, cx, flags=flags, init=init)
        return x86.run(items, self.width, cx, flags=flags, init=init)

    def state(self, cx, flags=None, init=None):
        s = arm.State(cx, init) if self.arch == "armv4" else x86.State(self.width, cx, init)
        if flags:
            s.flags = flags
        return s

    @property
    def SP(self):
        return 13 if self.arch == "armv4" else 4

    @property
    def BP(self):
        return 11 if self.arch == "armv4" else 5

    def reg(self, name):
        names = arm.RN if self.arch == "armv4" else x86.R64 if self.width == 64 else x86.R32
        return names.index(name)


def split_lines(s):
    """split str|SStr at newlines"""
    parts = s.p if isinstance(s, absint.SStr) else (s,)
    out, cur = [], []
    for p in parts:
        if isinstance(p, str):
            bits = p.split("\n")
            for i, b in enumerate(bits):
                if i:
                    out.append(absint.sstr(cur))
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    if cur:
        out.append(absint.sstr(cur))
    return out
