"""L05: character classification and case mapping."""
import os
from vt import bv, cx, lib, report, vset
from vt.bv import T

UP, LO, DI = set(range(65, 91)), set(range(97, 123)), set(range(48, 58))
SP = {9, 10, 11, 12, 13, 32}
CLASS = {
    "isupper": UP, "islower": LO, "isalpha": UP | LO, "isdigit": DI, "isalnum": UP | LO | DI,
    "isxdigit": DI | set(range(65, 71)) | set(range(97, 103)), "isspace": SP, "iscntrl": set(range(32)) | {127},
    "isprint": set(range(32, 127)), "isgraph": set(range(33, 127)), "ispunct": set(range(33, 127)) - UP - LO - DI,
    "isascii": set(range(128)),
}
MAP = {"toupper": {c: c - 32 for c in LO}, "tolower": {c: c + 32 for c in UP}}
BASE = {2: set(range(48, 50)), 8: set(range(48, 56)), 10: DI, 16: CLASS["isxdigit"], 0: set(), 7: set()}


def check(out):
    out.cov["explanation"] = (
        "Every function of lib/ctype is evaluated abstractly on an int of unknown value, on every architecture; each path is a set of values with one result term. The union of "
        "the sets must be EOF and all byte values, and the result on each must be the one of the C locale (true/false for the classes, the exact value for the mappings).")
    for arch in lib.ARCH:
        srcs = [s for s in lib.sources(arch) if s.startswith("lib/ctype/")]
        M = lib.linked(arch, srcs)
        for n in list(CLASS) + list(MAP) + ["isnumber"]:
            if n not in M.funcs:
                raise report.Broken("%s not found in lib/ctype" % n)
        for f in sorted(M.funcs):
            F = M.funcs[f]
            if not F.blocks:
                continue
            if f not in CLASS and f not in MAP and f != "isnumber":
                continue
            out.count("functions")
            for base in (sorted(BASE) if f == "isnumber" else [None]):
                one(out, M, arch, f, base)
    out.need("functions", 36)
    out.need("values", 257 * 36)


def one(out, M, arch, f, base):
    E = cx.Engine(M, inline_depth=8)
    c = bv.var("c", 32)
    try:
        outs = E.run(f, [c] + ([T(32, base)] if base is not None else []), cx.State())
    except cx.Limit as e:
        raise report.Broken("%s: %s" % (f, e))
    file = M.funcs[f].file or "lib/ctype/%s.c" % f
    left = set(range(-1, 256))
    if any(vset.opaque(o.state, ["c"]) for o in outs):
        work = [(o, [v]) for v in sorted(left) for o in construn(M, f, v, base)]
    else:
        work = [(o, left) for o in outs]
    for o, dom in work:
        S = [v for v in sorted(dom) if v in left and vset.holds(o.state, {"c": v})]
        left -= set(S)
        for v in S:
            out.count("values")
            if o.kind != "ret" or o.val is None:
                out.violation("%s %d" % (f, v), "%s (%s) does not return a value for %d (%s)" % (f, arch, v, o.kind))
                continue
            try:
                got = vset.sgn(vset.term(o.val, {"c": v}), o.val.w)
            except vset.Unknown as e:
                got = const(M, f, v, base)
            if got is None:
                out.violation("%s depends" % f, "%s (%s): the result for %d depends on more than the argument " % (f, arch, v))
                continue
            if f in MAP:
                want = MAP[f].get(v, v)
                if got != want:
                    out.violation("%s %d" % (f, v), "%s (%s) in %s maps %d to %d, not %d" % (f, arch, file, v, got, want))
            else:
                want = v in (BASE[base] if f == "isnumber" else CLASS[f])
                if bool(got) != want:
                    out.violation("%s %d %s" % (f, v, base), "%s%s (%s) in %s answers %s for %d" % (f, "" if base is None else " in base %d" % base, arch, file, bool(got), v))
    for v in sorted(left)[:1]:
        out.violation("%s unanswered" % f, "%s (%s) has no path for %d" % (f, arch, v))


def construn(M, f, v, base):
    """the paths for one value, by constant propagation (table look-ups)"""
    E = cx.Engine(M, inline_depth=8)
    try:
        return E.run(f, [T(32, v)] + ([T(32, base)] if base is not None else []), cx.State())
    except cx.Limit:
        raise report.Broken("%s of %d" % (f, v))


def const(M, f, v, base):
    outs = construn(M, f, v, base)
    if len(outs) == 1 and outs[0].kind == "ret" and outs[0].val is not None and outs[0].val.isconst():
        return vset.sgn(outs[0].val.c, outs[0].val.w)
