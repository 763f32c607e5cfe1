"""G04: the evaluator's transition relation: every saved resume point is dispatched, nothing but the frame survives, and each
transition saves, restores and continues as the evaluator's specification (support/eval_apply.spec) says."""
import os, pprint, re, sys
from vt import bv, cx, evalm, lit, mesc, report
from vt.bv import T

SPEC = os.path.join(report.V, "support", "eval_apply.spec")
REGS = evalm.REGS


def extract(m):
    E, f, head, disp, env0 = evalm.build(m)
    # registers and heap cells are named by how they were reached, not by how many stores precede
    E.disturbed = lambda *a: 0
    E.ownhits = lambda *a: 0
    E.separate = lambda *a: True

    def on_store(st, base, off, n, val):
        if base is None or base[:2] not in ("@R",):
            st.x["stores"] = tuple(x for x in st.x.get("stores", ()) if x[:2] != (base, off)) + ((base, off, n, val),)
    E.store_hook = on_store
    inv = {}
    for g, t in disp.items():
        inv.setdefault(t, []).append(g)
    return E, f, head, disp, env0, inv


def canon(s):
    """loop counters numbered by appearance, stale locals anonymous"""
    order = {}

    def f(n):
        def g(mm):
            return order.setdefault(mm.group(0), "k#%d" % len(order))
        n = re.sub(r"\{?k:[A-Za-z0-9_.]+:[A-Za-z0-9_.]+:\d+\}?", g, n)
        return re.sub(r"\bk:[A-Za-z0-9_.:]+", g, n)
    return f


def transitions(m, E, f, head, disp, env0, inv, out=None):
    """label (constant) -> list of paths"""
    tab = {}
    assertb = max(inv, key=lambda t: len(inv[t]))
    names = {t: min(gs) for t, gs in inv.items() if t != assertb}
    names["dispatch"] = "dispatch"
    for t in sorted(inv, key=str):
        if t == assertb or t == "return":
            continue
        try:
            ss = evalm.steps(E, f, head, disp, env0, t)
        except cx.Limit as e:
            raise report.Broken("eval_apply at %s: %s" % (t, e))
        rows = []
        for to, st, en, x in ss:
            fn = canon(st)
            txt = lambda v: lit.rename(v, fn)
            if to in ("assert", "error"):
                nxt = "fail"
            elif to == "loop":
                nxt = "loop"
            elif to == "ret":
                nxt = "ret"
            elif to == "unreachable":
                continue
            else:
                nxt = names.get(to, to)
            guards = [(txt(a), bool(v)) for a, v in st.facts.items()]
            if not compat(m, E, guards, ()):
                continue
            regs = {}
            for r in REGS:
                regs[r] = txt(E.load(st.clone(), bv.var("@" + r, m.W), m.P, "ptr"))
            ev = []
            for e in st.events:
                if e.kind in ("push", "pop", "effect"):
                    ev.append((e.kind, e.name, [txt(a) for a in e.args], e.line))
                elif e.kind == "fail":
                    ev.append(("fail", e.name, [], e.line))
            stores = []
            for b, o, n, v in st.x.get("stores", ()):
                stores.append((fn(b) if b else b, txt(o), n, txt(v)))
            rows.append(dict(to=nxt, guards=guards, regs=regs, ev=ev, stores=stores))
        tab[names[t]] = rows
    return tab


def compat(m, E, p, q):
    """can both guard sets hold at once?"""
    st = cx.State()
    for a, v in p:
        if not st.assume(T(1, 0, ((a, 1),)), v):
            return False
    for a, v in q:
        if not st.assume(T(1, 0, ((a, 1),)), v):
            return False
    # one term equal to two different constants, or (in)equality by difference of special objects
    eqs = [a[2] for a, v in st.facts.items() if v and a[0] == "b" and a[1] == "zero"]
    for i, x in enumerate(eqs):
        for y in eqs[i + 1:]:
            for d in (bv.sub(x, y), bv.add(x, y)) if x.w == y.w else ():
                if not d.t and d.c != 0:
                    return False
                if len(d.t) == 2 and d.c == 0 and all(a[0] == "v" and a[1][:1] == "^" for a, k in d.t) and sorted(k for _, k in d.t) == [-1, 1]:
                    return False
    # a value that is a special object has that object's type
    for x in eqs:
        if x.w != m.W or x.c or len(x.t) != 2 or sorted(k for _, k in x.t) != [-1, 1]:
            continue
        for (a, _), (b, _) in (x.t, x.t[::-1]):
            t = m.special.get(b[1][1:], (None,))[0] if b[0] == "v" and b[1][:1] == "^" else None
            if t is None:
                continue
            ty = E.load(st.clone(), bv.add(T(m.W, 0, ((a, 1),)), T(m.W, m.O[0])), m.P, "i%d" % m.W)
            if st.decide(bv.iszero(bv.sub(ty, T(m.W, t)), 1, st)) is False:
                return False
            for y in eqs:
                for d in (bv.sub(ty, y), bv.add(ty, y)) if y.w == m.W else ():
                    if not d.t and d.c not in (t, t - (1 << m.W)) and d.c != t:
                        return False
    return True


def sig(row):
    """what a path does; of a path back to a loop, the stores of one iteration (the others are in the paths that leave it)"""
    return (row["to"], tuple(sorted(row["regs"].items())) if row["to"] not in ("fail", "loop") else None,
            tuple((k, n, tuple(a)) for k, n, a, _ in row["ev"]),
            tuple(sorted((x for x in row["stores"] if row["to"] != "loop" or "k#" in repr(x[1])), key=repr)) if row["to"] != "fail" else None)


def describe(row):
    s = "to %s" % row["to"]
    if row["to"] not in ("fail", "loop"):
        s += " with " + ", ".join("%s=%s" % (r, evalm.show(v)) for r, v in sorted(row["regs"].items()) if evalm.show(v) != "([@%s])" % r)
    for k, n, a, *_ in row["ev"]:
        s += "; %s %s(%s)" % (k, n, ", ".join(evalm.show(x) for x in a))
    for b, o, n, v in row["stores"]:
        s += "; %s+%s := %s" % (b, evalm.show(o), evalm.show(v))
    return s


def load():
    d = eval(open(SPEC).read(), {"__builtins__": {}}, {})
    r = {}
    for l, rows in d.items():
        r[l] = []
        for x in rows:
            r[l].append(dict(to=x["to"], guards=[(lit.dec(a), v) for a, v in x["guards"]],
                             regs={k: lit.dec(v) for k, v in x["regs"].items()},
                             ev=[(k, n, [lit.dec(y) for y in a], 0) for k, n, a in x["ev"]],
                             stores=[(b, lit.dec(o), n, lit.dec(v)) for b, o, n, v in x["stores"]]))
    return r


def save(tab):
    d = {}
    for l, rows in tab.items():
        d[l] = [dict(to=x["to"], guards=[(lit.enc(a), v) for a, v in x["guards"]],
                     regs={k: lit.enc(v) for k, v in x["regs"].items()},
                     ev=[(k, n, [lit.enc(y) for y in a]) for k, n, a, _ in x["ev"]],
                     stores=[(b, lit.enc(o), n, lit.enc(v)) for b, o, n, v in x["stores"]]) for x in rows]
    with open(SPEC, "w") as f:
        f.write("# eval_apply: for every resume point, each path to the next one: condition, registers, frames, effects, stores\n")
        f.write(pprint.pformat(d, width=220) + "\n")


def stale_in(x):
    return re.findall(r"stale:%?([A-Za-z0-9_.]+)", repr(x))


def check(out):
    m = mesc.Mes()
    E, f, head, disp, env0, inv = extract(m)
    assertb = max(inv, key=lambda t: len(inv[t]))
    out.cov["explanation"] = (
        "The state machine of eval_apply is recovered from LLVM IR by abstract evaluation: the resume points are the constants its "
        "dispatcher recognises, the transitions every path from one resume point to the next with the frames it pushes and pops "
        "(helpers evaluated with it). Rules: (1) every constant saved as resume point is dispatched; (2) no transition reads a C local set before a nested evaluation; (3) for every combination of conditions, "
        "registers, frames, effects, heap stores and successor are those of the transition table support/eval_apply.spec.")
    # (1) saved resume points
    pushed = set()
    tab = transitions(m, E, f, head, disp, env0, inv)
    where = {}
    for l, rows in tab.items():
        for r in rows:
            for k, n, a, line in r["ev"]:
                if k == "push":
                    pushed.add(a[3])
                    where.setdefault(a[3], (l, line))
    own = [g for g in disp if g.startswith("cell_vm_") and disp[g] != assertb]
    out.count("resume points dispatched", len(own))
    out.count("transitions", sum(len(r) for r in tab.values()))
    for v in pushed:
        nm = evalm.show(v).strip("()")
        if nm == "[@R3]":
            continue
        if not nm.startswith("^"):
            out.violation("resume-unknown %s" % nm, "eval_apply (src/eval-apply.c:%s, from %s): saves the resume point %s, which is not a special object" % (where[v][1], where[v][0], nm))
            continue
        if disp.get(nm[1:], assertb) == assertb:
            out.violation("resume-undispatched %s" % nm[1:], "eval_apply (src/eval-apply.c:%s, from %s): saves the resume point %s, which the dispatcher does not recognise" % (where[v][1], where[v][0], nm[1:]))
        out.count("saved resume points")
    other(out, m, disp, assertb)
    # (2) locals
    for l, rows in tab.items():
        for r in rows:
            for n in stale_in((r["regs"], r["ev"], r["stores"], r["guards"])):
                n = re.sub(r"\.\d+$", "", n)
                out.violation("stale %s %s" % (l, n), "eval_apply resumed at %s uses the C variable %s with the value it had before the nested evaluation" % (l, n))
    # (3) table
    spec = load()
    for l in spec:
        if l not in tab:
            out.violation("gone %s" % l, "eval_apply: the dispatcher does not recognise the resume point %s" % l)
    for l, rows in tab.items():
        if l not in spec:
            # a resume point the table does not know: nothing to compare with
            out.count("resume points without table entry")
            continue
        for r in rows:
            n = 0
            for s in spec[l]:
                if (s["to"] == "loop") != (r["to"] == "loop"):
                    continue
                if not compat(m, E, s["guards"], r["guards"]):
                    continue
                n += 1
                out.count("path pairs compared")
                if sig(s) != sig(r):
                    line = next((x[3] for x in reversed(r["ev"]) if x[3]), 0)
                    out.violation("transition %s -> %s" % (l, r["to"]),
                                  "eval_apply at %s (near src/eval-apply.c:%s), when %s:\n it goes %s\n specified: %s" % (
                                      l, line, ", ".join("%s%s" % ("" if v else "not ", bv.rep(a)) for a, v in r["guards"]) or "always", describe(r), describe(s)))
            if not n and r["to"] != "loop":
                out.violation("extra %s -> %s" % (l, r["to"]), "eval_apply at %s: path not in the table: %s" % (l, describe(r)))
    from checks import G02
    G02.symmetry(m, out, {})
    out.sample(dict(from_="cell_vm_evlis2", paths=[describe(r) for r in tab.get("cell_vm_evlis2", ())]))
    out.sample(dict(from_="cell_vm_if_expr", paths=[describe(r) for r in tab.get("cell_vm_if_expr", ())]))
    out.need("resume points dispatched", 25)
    out.need("saved resume points", 20)
    out.need("transitions", 90)
    out.assume.append("helpers (cons, pairlis, append2, module_ref, ...) are taken by name")


def other(out, m, disp, assertb):
    """constants stored in R3, or passed as resume point, outside eval_apply"""
    M = m.M
    for n, fn in M.funcs.items():
        if n == "eval_apply":
            continue
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op == "store" and i.a[1] == ("g", "R3"):
                    v = i.a[0]
                    src = None
                    if v[0] == "l" or v[0] == "r":
                        for bb in fn.order:
                            for j in fn.blocks[bb]:
                                if j.res == v[1] and j.op == "load" and j.a[0][0] == "g":
                                    src = j.a[0][1]
                    if src and src in m.special:
                        out.count("resume points set outside eval_apply")
                        if disp.get(src, assertb) == assertb:
                            out.violation("resume-undispatched %s %s" % (n, src), "%s (src/%s:%s): starts evaluation at %s, which the dispatcher does not recognise" % (n, getattr(fn, "file", ""), i.line, src))
                if i.op == "call":
                    for a in i.a[1] if isinstance(i.a[1], (list, tuple)) else ():
                        pass


if __name__ == "__main__":
    m = mesc.Mes()
    save(transitions(m, *extract(m)))
