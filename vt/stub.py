"""The system call layer of each architecture and compiler variant, ready for evaluation."""
import os
from . import abi, bv, cx, inlasm, lib, ll, report
from .bv import T

VARIANTS = [(a, c) for a in lib.ARCH for c in ("gcc", "mescc")]
FILES = ["syscall", "syscall-internal", "_write", "_exit"]


class Layer:
    """one variant: functions, models, and a call interface"""
    def __init__(self, arch, cc, srcs, bad, extra_models=None, depth=8):
        self.arch, self.cc = arch, cc
        self.W = 64 if arch == "x86_64" else 32
        defs = list(lib.DEFS) + (["-D__MESC__=1", "-U__GNUC__"] if cc == "mescc" else [])
        self.text = {}
        if cc == "mescc":        # their definitions do not agree with the headers' declarations, which MesCC does not mind
            for s in [s for s in srcs if s.endswith(("/_write.c", "/_exit.c"))]:
                self.text.update(inlasm.text_functions(s, arch, defs))
            srcs = [s for s in srcs if not s.endswith(("/_write.c", "/_exit.c"))]
        self.M = ll.compile_c(srcs, arch, defs=defs, passes="sroa")
        self.models = {}
        if cc == "gcc":
            self.models["asm"] = inlasm.model(arch, bad)
        else:
            self.models.update(inlasm.mescc_models(arch, self.M, bad, self.text))
        self.models.update(extra_models or {})
        self.E = cx.Engine(self.M, models=self.models, inline_depth=depth)

    def call(self, name, av, ret=None, st=None):
        F = self.M.funcs.get(name)
        st = st or cx.State()
        if F is None and name not in self.models:
            raise report.Broken("%s (%s, %s) is not defined" % (name, self.arch, self.cc))
        if name in self.models:
            i = Inst(F.ret if ret is None else ret)
            return self.models[name](self.E, st, F, i, av)
        return self.E.run(name, av, st)


class Inst:
    op = "call"

    def __init__(self, ty):
        self.ty, self.line, self.file, self.res = ty, 0, None, None


def srcs(arch, cc, names=FILES):
    return ["lib/linux/%s-mes-%s/%s.c" % (arch, cc, n) for n in names]


def kernel(o):
    return [e for e in o.state.events if e.kind == "kernel"]


def same(t, want, w=None):
    """t carries want (in its low w bits)"""
    w = w or want.w
    if t.w < w:
        return False
    a, b = bv.trunc(t, w) if t.w > w else t, bv.trunc(want, w) if want.w > w else want
    return a == b
