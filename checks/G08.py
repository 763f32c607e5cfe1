"""G08: primitives reject operands of the wrong type."""
from vt import bv, cx, mesc, prim, report
from vt.bv import T

A = None                       # any object
N, S, Y, K, C, V, R, P, L = "TNUMBER", "TSTRING", "TSYMBOL", "TKEYWORD", "TCHAR", "TVECTOR", "TSTRUCT", "TPAIR", "nil"

# accepted operand types, one row per accepted combination; a name stands for one type, None for every type
SPEC = {
    "car": [(P,)], "cdr": [(P,)], "set-car!": [(P, A)], "set-cdr!": [(P, A)],
    "vector-length": [(V,)], "vector-ref": [(V, N)], "vector-set!": [(V, N, A)], "vector->list": [(V,)],
    "make-vector": [(N,), (N, A)], "list->vector": [(P,), (L,)],
    "struct-length": [(R,)], "struct-ref": [(R, N)], "struct-set!": [(R, N, A)],
    "string-length": [(S,)], "string-ref": [(S, N)], "string-append": [(), (S,), (S, S)], "string=?": [(S, S), (K, K)],
    "string->symbol": [(S,)], "make-symbol": [(S,)], "list->string": [(P,), (L,)],
    "string->list": [(S,), (Y,), (K,), ("TSPECIAL",)],     # display.mes takes the text of symbols, keywords and specials this way
    "symbol->string": [(Y,)], "symbol->keyword": [(Y,)], "keyword->string": [(K,)],
    "char->integer": [(C,)], "integer->char": [(N,)],
    "hash-ref": [(R, S, A)], "hash-set!": [(R, S, A)],
    "hashq-ref": [(R, Y, A), (R, "TSPECIAL", A)], "hashq-set!": [(R, Y, A), (R, "TSPECIAL", A)],
    "hashq-get-handle": [(R, Y, A), (R, "TSPECIAL", A)],
    "+": [(N,), (N, N), (N, N, N)], "*": [(N,), (N, N), (N, N, N)], "-": [(N,), (N, N), (N, N, N)], "/": [(N,), (N, N), (N, N, N)],
    "<": [(N, N)], ">": [(N, N)], "=": [(N, N)],           # longer chains: G10
    "logand": [(N,), (N, N), (N, N, N)], "logior": [(N,), (N, N), (N, N, N)], "logxor": [(N,), (N, N), (N, N, N)],
    "lognot": [(N,)], "modulo": [(N, N)], "ash": [(N, N)],
    "append2": [(P, A), (L, A)], "append-reverse": [(P, A), (L, A)], "core:reverse!": [(P, A), (L, A)],
    "builtin-name": [(R,)], "builtin-arity": [(R,)], "stack-length": [(R,)], "stack-ref": [(R, N)],
    "unread-byte": [(N,)], "unread-char": [(C,)], "write-char": [(C,), (N,)], "write-byte": [(N,), (C,)],
    "getenv": [(S,)], "setenv": [(S, S)], "access?": [(S, N)], "open-input-file": [(S,)], "open-input-string": [(S,)],
    "open-output-file": [(S,)], "set-current-output-port": [(N,)], "set-current-error-port": [(N,)],
    "chmod": [(S, N)], "isatty?": [(N,)], "execl": [(S, L), (S, P)], "core:waitpid": [(N, N)], "dup": [(N,)], "dup2": [(N, N)], "delete-file": [(S,)],
}
# operands that are lists: the accepted type of the elements
ELEMENTS = {"list->string": ((), C), "execl": ((S,), S)}
# types an object reachable from Scheme can have
NOT_OBJECTS = {"TBROKEN_HEART", "TREF"}


def check(out):
    p = prim.Prims()
    m = p.m
    types = [t for t in m.tags if t not in NOT_OBJECTS]
    out.cov["explanation"] = (
        "The function of every primitive in the table is evaluated abstractly on operands of each of the %d object types, one operand "
        "deviating at a time from each accepted combination. With an operand of a type that is not accepted, no path may return, and no "
        "path may dereference a pointer taken from that operand, write to it, or pass it to the C library, before it fails. With accepted types some path returns." % len(types))
    for name, rows in SPEC.items():
        if name not in p.reg:
            raise report.Broken("%s is not registered" % name)
        out.count("primitives")
        done = set()
        for row in rows:
            ok = run(out, p, name, row, None)
            if not ok:
                out.violation("unusable %s %s" % (name, key(row)), "%s (%s) returns for no operands of the types %s" % (name, p.reg[name][1], key(row)))
            for k in range(len(row)):
                if row[k] is None:
                    continue
                for t in types + [L]:
                    r2 = row[:k] + (t,) + row[k + 1:]
                    if r2 in done or accepted(rows, r2):
                        continue
                    done.add(r2)
                    run(out, p, name, r2, k)
    for name, (pre, t) in ELEMENTS.items():
        if not run(out, p, name, pre + ("L:" + t,), None):
            out.violation("unusable %s list" % name, "%s returns for no list of %s" % (name, t))
        for u in types:
            if u != t:
                run(out, p, name, pre + ("L:" + u,), len(pre))
                run(out, p, name, pre + ("L:%s,%s" % (t, u),), len(pre))
    out.need("primitives", 70)
    out.need("rejections decided", 1500)
    out.cov["primitives without a required operand type, or outside the table"] = sorted(n for n in p.reg if n not in SPEC)


def key(row):
    return ",".join(x or "any" for x in row) or "none"


def accepted(rows, r):
    for row in rows:
        if len(row) == len(r) and all(a is None or a == b or (a == "TSPECIAL" and b == L) for a, b in zip(row, r)):
            return True
    return False


def run(out, p, name, row, bad):
    """bad: index of the operand of a type that is not accepted"""
    m = p.m
    fn = p.reg[name][1]
    uses = []
    own = "&x%d" % bad if bad is not None else None
    if bad is not None and row[bad].startswith("L:"):
        own += "efgh"[row[bad].count(",")]
    if bad is not None and row[bad] == L:
        own = "^cell_nil"

    def deref(E, st, f, i, addr, n, wr):
        if own is None:
            return
        base, off = E.split(addr)
        if base is None:
            return
        if base == own and wr:
            uses.append((f.name, i.line, "writes to the operand"))
        elif base != own and base.startswith("[" + own + "+"):
            uses.append((f.name, i.line, "follows a pointer taken from the operand"))

    def ext(fname):
        def g(E, st, f, i, av):
            if own is not None:
                for a in av:
                    if any(x[0] == "v" and (x[1] == own or x[1].startswith("[" + own + "+")) for x, _ in a.t):
                        uses.append((f.name, i.line, "passes it to %s" % fname))
            return [cx.Out("ret", st, E.ret(st, i, fname))]
        return g
    E = p.engine(models={"gc_check": prim.silent, "module_ref": prim.silent, "hash_ref": prim.silent, "hash_set_x": prim.silent})
    E.on_deref = deref
    E.peel = 5 if p.reg[name][0] == -1 else 3 if row and row[-1] and row[-1][:2] == "L:" else 2
    E.default_ext = ext
    for x in ("memcpy", "memcmp", "strcpy", "strlen", "open", "access", "getenv", "setenv", "chmod", "isatty", "execv", "dup", "dup2", "unlink", "write", "mes_open", "waitpid"):
        if x not in m.M.funcs:
            E.models[x] = ext(x)
    for x in ("mes_open", "hash_cstring"):
        E.models[x] = ext(x)
    try:
        outs = p.run(E, name, row)
    except cx.Limit as e:
        raise report.Broken("%s with %s: %s" % (name, key(row), e))
    rets = [o for o in outs if o.kind == "ret"]
    if bad is None:
        out.count("acceptances decided")
        return bool(rets)
    out.count("rejections decided")
    out.count("failing paths", len(outs) - len(rets))
    what = "operand %d of type %s" % (bad + 1, "empty list" if row[bad] == L else row[bad])
    if rets:
        out.violation("accepts %s %d %s" % (name, bad + 1, row[bad]), "%s (%s) returns with %s (others: %s): the type is not checked on that path" % (name, fn, what, key(row)))
    for f, line, w in uses:
        out.violation("uses %s %d %s" % (name, bad + 1, row[bad]), "%s: with %s, %s (line %s) %s before failing" % (name, what, f, line, w))
    return True
