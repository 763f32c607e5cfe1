"""The C library (lib/**/*.c) per architecture."""
import os
from . import ll, report

DIRS = ["ctype", "dirent", "math", "mes", "posix", "stdio", "stdlib", "string", "linux"]
ARCH = ["x86_64", "x86", "arm"]


def sources(arch, stub=False):
    r = []
    for d in DIRS + (["stub"] if stub else []) + ["linux/%s-mes-gcc" % arch, "%s-mes-gcc" % arch]:
        p = os.path.join(report.REPO, "lib", d)
        if os.path.isdir(p):
            r += ["lib/%s/%s" % (d, f) for f in sorted(os.listdir(p)) if f.endswith(".c")]
    return r


DEFS = ["-USYSTEM_LIBC", "-DSYSTEM_LIBC=0"]


def modules(arch, srcs=None, passes="sroa", edit=None):
    """source -> Module"""
    return ll.compile_c(sources(arch) if srcs is None else srcs, arch, defs=DEFS, link=False, passes=passes, edit=edit)


def linked(arch, srcs, passes="sroa"):
    return ll.compile_c(srcs, arch, defs=DEFS, link=True, passes=passes)
