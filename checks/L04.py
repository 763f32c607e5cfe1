"""L04: system-call numbers, constants and structures have the values and layout of the Linux kernel's interface."""
import os, re, shutil, subprocess, tempfile
from vt import abi, lib, ll, report

SKIP = ("m2", "gnu", "mach", "mes")


def lines(name):
    with open(os.path.join(report.V, "support", name)) as f:
        for l in f:
            l = l.split("#")[0].split()
            if l:
                yield l


def check(out):
    out.cov["explanation"] = (
        "Each header is compiled per architecture, with the layout rules of the C ABI and with MesCC's (no padding); the value of every macro that names a system call or a constant of the kernel's interface, "
        "and the offset and size of every field of every structure that the kernel reads or fills, is taken from the compiled header and compared with the kernel's table (support/syscalls.txt, kernel_consts.txt, "
        "kernel_structs.txt). The CONSTANT lines that M2-Planet reads and the SYS_ definitions of the assembler files are compared with the same table.")
    consts = {}
    for n, v, *arm in lines("kernel_consts.txt"):
        consts[n] = (int(v), int(arm[0] if arm else v))
    W = Witness(out, consts)
    for arch in lib.ARCH:
        for flavour in ("gcc", "mescc"):
            W.macros(arch, flavour)
            W.layout(arch, flavour)
    W.comments()
    W.m1()
    out.need("system call numbers", 3 * 40)
    out.need("constants", 3 * 100)
    out.need("fields", 3 * 60)


class Witness:
    def __init__(self, out, consts):
        self.out, self.consts = out, consts
        inc = os.path.join(report.REPO, "include")
        self.headers = sorted(f for d in ("", "sys") for f in (os.path.join(d, x) for x in os.listdir(os.path.join(inc, d))) if f.endswith(".h"))

    def cc(self, arch, flavour, src, *more):
        d = tempfile.mkdtemp(prefix="abi")
        try:
            p = os.path.join(d, "w.c")
            with open(p, "w") as f:
                f.write(src)
            o = os.path.join(d, "o")
            args = ["clang"] + [a for a in ll.BASE if more == () or a not in ("-S", "-emit-llvm")] + ll.flags(arch) + lib.DEFS
            args += ["-D__MESC__=1", "-fpack-struct"] if flavour == "mescc" else []
            args += list(more) + [p, "-o", o]
            r = subprocess.run(args, capture_output=True, text=True, cwd=report.REPO)
            return (open(o).read() if r.returncode == 0 else None), r.stderr
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def want(self, arch, n):
        if n.startswith("SYS_"):
            return abi.nr(arch, n[4:])
        if n in self.consts:
            return self.consts[n][arch == "arm"]
        return None

    def compare(self, arch, n, v, where):
        w = self.want(arch, n)
        if w is None:
            if n.startswith("SYS_"):
                self.out.violation("%s %s" % (arch, n), "%s: %s is %d, but %s has no such system call" % (where, n, v, arch))
            return
        self.out.count("system call numbers" if n.startswith("SYS_") else "constants")
        if v != w and (v ^ w) & 0xffffffff:
            self.out.violation("%s %s" % (arch, n), "%s: %s is %d, the kernel's value on %s is %d%s" % (
                where, n, v, arch, w, " (%d is %s)" % (v, abi.name(arch, v)) if n.startswith("SYS_") else ""))

    def macros(self, arch, flavour):
        hs = [(h, "#include <%s>\n" % h) for h in self.headers]
        hs.append(("linux/%s/syscall.h" % arch, '#include <linux/%s/syscall.h>\n' % arch))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: self.header(arch, flavour, *x), hs))

    def header(self, arch, flavour, h, src):
        m, err = self.cc(arch, flavour, src, "-E", "-dM")
        if m is None:
            if h.startswith("linux/"):
                raise report.Broken("clang cannot preprocess %s for %s: %s" % (h, arch, err[-800:]))
            return
        names = [n for n in re.findall(r"^#define (\w+) \S", m, re.M) if n.startswith("SYS_") or n in self.consts]
        if not names:
            return
        base = "#include <sys/types.h>\n" + src if not h.startswith("linux/") else src
        t, err = self.cc(arch, flavour, base + "".join("long long v_%s = (long long) (%s);\n" % (n, n) for n in names))
        if t is None:
            raise report.Broken("clang cannot evaluate the constants of %s for %s: %s" % (h, arch, err[-800:]))
        got = dict(re.findall(r"^@v_(\w+) = .*?global i64 (-?\d+)", t, re.M))
        for n in names:
            if n not in got:
                raise report.Broken("no value for %s in %s" % (n, h))
            self.compare(arch, n, int(got[n]), "include/" + h)

    def layout(self, arch, flavour):
        by, types = [], []
        cur = None
        for l in lines("kernel_structs.txt"):
            if l[0] == "struct":
                cur = None
                if arch in l[3].split(","):
                    cur = (l[1], l[2], int(l[4]), [])
                    by.append(cur)
            elif l[0] == "type":
                if arch in l[3].split(","):
                    types.append((l[1], l[2], int(l[4])))
            elif cur:
                cur[3].append((int(l[0]), int(l[1]), l[2:]))
        for name, h, size, fields in by:
            inc = '#include "%s"\n' % (os.path.join(report.REPO, h[3:]) if h.startswith("../") else h)
            pick = []
            err = ""
            for o, n, alts in fields:
                for a in alts:
                    if len(alts) == 1 or self.cc(arch, flavour, "%sint x = __builtin_offsetof (struct %s, %s);\n" % (inc, name, a))[0]:
                        pick.append((o, n, a))
                        break
                else:
                    raise report.Broken("struct %s has none of the fields %s" % (name, ", ".join(alts)))
            src = inc + "unsigned long s = sizeof (struct %s);\n" % name
            for k, (o, n, a) in enumerate(pick):
                src += "unsigned long o_%d = __builtin_offsetof (struct %s, %s), z_%d = sizeof (((struct %s *) 0)->%s);\n" % (k, name, a, k, name, a)
            t, err = self.cc(arch, flavour, src)
            if t is None:
                raise report.Broken("clang cannot lay out struct %s of %s for %s: %s" % (name, h, arch, err[-800:]))
            got = {n: int(v) for n, v in re.findall(r"^@(s|[oz]_\d+) = .*?global i\d+ (\d+)", t, re.M)}
            self.out.count("structures")
            where = os.path.normpath("include/" + h)
            if got["s"] < size:
                self.out.violation("%s %s size" % (arch, name), "%s (%s, %s): struct %s has %d bytes, the kernel uses %d" % (where, arch, flavour, name, got["s"], size))
            for k, (o, n, a) in enumerate(pick):
                self.out.count("fields")
                if (got["o_%d" % k], got["z_%d" % k]) != (o, n):
                    self.out.violation("%s %s %s" % (arch, name, a), "%s (%s, %s): field %s of struct %s is %d bytes at offset %d, the kernel's is %d bytes at offset %d" % (
                        where, arch, flavour, a, name, got["z_%d" % k], got["o_%d" % k], n, o))
        for name, h, size in types:
            t, err = self.cc(arch, flavour, "#include <%s>\nunsigned long s = sizeof (%s);\n" % (h, name))
            if t is None:
                raise report.Broken("clang cannot size %s of %s for %s: %s" % (name, h, arch, err[-800:]))
            s = int(re.search(r"^@s = .*?global i\d+ (\d+)", t, re.M).group(1))
            self.out.count("fields")
            if s != size:
                self.out.violation("%s %s size" % (arch, name), "include/%s (%s, %s): %s has %d bytes, the kernel's has %d" % (h, arch, flavour, name, s, size))

    def comments(self):
        inc = os.path.join(report.REPO, "include")
        for d, _, fs in sorted(os.walk(inc)):
            rel = os.path.relpath(d, report.REPO)
            for f in sorted(fs):
                if not f.endswith(".h") or rel.startswith(("include/gnu", "include/mach")):
                    continue
                text = open(os.path.join(d, f), errors="replace").read()
                arch = [os.path.basename(d)] if os.path.basename(d) in lib.ARCH else lib.ARCH
                for n, v in re.findall(r"^\s*//\s*CONSTANT\s+(\w+)\s+(\S+)", text, re.M):
                    try:
                        v = int(v, 8) if re.fullmatch(r"0[0-7]+", v) else int(v.strip("()"), 0)
                    except ValueError:
                        continue
                    for a in arch:
                        if n.startswith("SYS_") or n in self.consts:
                            self.out.count("CONSTANT lines")
                            self.compare(a, n, v, os.path.join(rel, f) + ", CONSTANT line")

    def m1(self):
        for a in lib.ARCH:
            d = os.path.join(report.REPO, "lib", a + "-mes")
            for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
                if f.endswith(".M1"):
                    for n, v in re.findall(r"^DEFINE\s+(SYS_\w+)\s+([0-9a-fA-F]+)\s*$", open(os.path.join(d, f)).read(), re.M):
                        self.out.count("assembler definitions")
                        self.compare(a, n, int.from_bytes(bytes.fromhex(v), "little"), "lib/%s-mes/%s" % (a, f))
