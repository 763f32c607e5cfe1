"""Linux ABI facts: system call numbers (support/syscalls.txt)."""
import os
from . import report

COL = {"x86": 1, "x86_64": 2, "arm": 3}
_t = None


def table():
    global _t
    if _t is None:
        _t = {}
        for l in open(os.path.join(report.V, "support", "syscalls.txt")):
            f = l.split()
            if f and not l.startswith("#"):
                _t[f[0]] = f
    return _t


def nr(arch, name):
    f = table().get(name)
    return None if f is None or f[COL[arch]] == "-" else int(f[COL[arch]])


def name(arch, n):
    for k, f in table().items():
        if f[COL[arch]] == str(n):
            return k
    return "number %d" % n
