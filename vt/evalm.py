"""Transitions of the evaluator's state machine (eval_apply): from every label to the next,
with frames pushed and popped symbolically."""
from . import bv, cx, mesc, report
from .bv import T

REGS = ("R0", "R1", "R2", "R3")

# helpers with a meaning of their own: named results, recorded effects
PURE = {"cons", "make_closure_", "make_macro", "make_variable_", "pairlis", "append2", "assq", "module_variable", "module_ref",
        "macro_get_handle", "get_macro", "assert_defined", "builtin_p", "builtin_arity", "cdr", "car", "vector_ref_",
        "open_input_file", "current_input_port", "acons"}
EFFECT = {"set_cdr_x", "set_car_x", "set_env_x", "macro_set_x", "module_define_x", "expand_variable", "apply_builtin", "check_formals",
          "check_apply", "gc_check", "set_current_input_port", "read_input_file_env", "vector_set_x_", "make_vector_", "make_continuation"}
IGNORE = {"eputs", "display_error_", "module_printer", "write_error_"}


class Step:
    """one path from a label to the next label"""
    def __init__(self, label, to, state, regs, frames, pops, effects, stores, kind="goto"):
        self.label, self.to, self.state, self.regs, self.frames, self.pops = label, to, state, regs, frames, pops
        self.effects, self.stores, self.kind = effects, stores, kind


def build(m):
    M = m.M
    if "eval_apply" not in M.funcs:
        raise report.Broken("eval_apply not found")
    f = M.funcs["eval_apply"]
    W, P = m.W, m.P

    def pure(nm):
        def g(E, st, fn, i, av):
            v = bv.var("%s(%s)" % (nm, ", ".join(map(show, av))), E.tw(i.ty))
            E.ptratoms.add(v.t[0][0][1])
            return [cx.Out("ret", st, v)]
        return g

    def effect(nm):
        def g(E, st, fn, i, av):
            r = None
            if i.ty != "void":
                r = bv.var("%s(%s)" % (nm, ", ".join(map(show, av))), E.tw(i.ty))
                E.ptratoms.add(r.t[0][0][1])
            st.events.append(cx.Event("effect", nm, av, i, fn.name, r))
            return [cx.Out("ret", st, r)]
        return g

    def ignore(E, st, fn, i, av):
        return [cx.Out("ret", st, None if i.ty == "void" else E.ret(st, i, "text"))]

    def push(E, st, fn, i, av):
        fr = tuple(E.load(st, bv.var("@" + r, W), P, "ptr") for r in REGS)
        st.events.append(cx.Event("push", "frame", list(fr), i, fn.name))
        return [cx.Out("ret", st, None)]

    def pop(E, st, fn, i, av):
        n = 0
        fr = None
        for e in reversed(st.events):
            if e.kind == "pop":
                n += 1
            elif e.kind == "push":
                if n == 0:
                    fr = e.args
                    break
                n -= 1
        if fr is None:
            k = sum(1 for e in st.events if e.kind == "pop" and e.extra)
            fr = [bv.var("frame%s.%s" % (k or "", r), W) for r in REGS]
            for x in fr:
                E.ptratoms.add(x.t[0][0][1])
            st.events.append(cx.Event("pop", "outer", [], i, fn.name, extra=True))
        else:
            st.events.append(cx.Event("pop", "own", [], i, fn.name, extra=False))
        for r, v in zip(REGS, fr):
            st.mem["@" + r] = {T(W, 0): (P, v)}
        return [cx.Out("ret", st, None)]
    models = {n: pure(n) for n in PURE if n in M.funcs}
    models.update({n: effect(n) for n in EFFECT if n in M.funcs})
    models.update({n: ignore for n in IGNORE})
    models.update({"gc_push_frame": push, "gc_pop_frame": pop})
    E = m.engine(models=models)
    base_hook = E.init_hook

    def hook(E, st, base, off, n, ty):
        if base == "@g_debug":
            return T(8 * n, 0)
        return base_hook(E, st, base, off, n, ty)
    E.init_hook = hook
    head = None
    preds = {}
    for b in f.order:
        for s in cx.succs(f.blocks[b][-1]):
            preds.setdefault(s, []).append(b)
    # the dispatcher: the block that compares R3; found from the function entry
    cur = f.order[0]
    while True:
        ss = cx.succs(f.blocks[cur][-1])
        if len(preds.get(cur, ())) > 1 or len(ss) != 1:
            head = cur
            break
        cur = ss[0]
    E.maxp = 0
    # dispatch: run from head with R3 = each special object
    res = {}
    targets = set()
    env0 = start_env(E, f)

    def leave_region(targets):
        return set(f.order) - set(targets)
    disp = {}
    heads = E.loopinfo(f)
    sub = {b for b in f.order}
    # blocks reached from the dispatcher comparing R3 only
    for g in sorted(m.special):
        st = cx.State()
        st.mem["@R3"] = {T(W, 0): (P, bv.var("^" + g, W))}
        t = follow(E, f, dict(env0), st, head)
        disp[g] = t
    return E, f, head, disp, env0


def start_env(E, f):
    env = {}
    for b in f.order:
        for i in f.blocks[b]:
            if i.res is not None and i.ty != "void":
                try:
                    env[i.res] = bv.var("stale:%s" % i.res, E.tw(i.ty))
                    if i.ty == "ptr":
                        E.ptratoms.add("stale:%s" % i.res)
                except cx.Limit:
                    pass
    return env


def follow(E, f, env, st, head):
    """the block the dispatcher goes to: the first block outside the chain of comparisons of R3"""
    cur, prev = head, None
    for _ in range(1000):
        b = f.blocks[cur]
        e = dict(env)
        # a block of the chain holds only loads of R3 and special objects, one comparison and a branch
        for i in b:
            if i.op == "phi":
                continue
            if i.op == "load":
                e[i.res] = E.load(st, E.val(e, i.a[0], "ptr"), E.M.size(i.ty), i.ty)
            elif i.op == "icmp":
                e[i.res] = E.icmp(st, i.a[0], E.val(e, i.a[1], i.ty), E.val(e, i.a[2], i.ty))
            elif i.op == "br":
                if len(i.a) == 1:
                    nxt = i.a[0]
                else:
                    d = st.decide(E.val(e, i.a[0], ("i", 1)))
                    if d is None:
                        return cur
                    nxt = i.a[1] if d else i.a[2]
                break
            elif i.op == "ret":
                return "return"
            else:
                return cur
        else:
            return cur
        env = e
        chain = [i for i in f.blocks[nxt] if i.op != "phi"]
        if len(i.a) == 3 and nxt == i.a[1]:
            # taken: the label follows, possibly through empty blocks
            while len(f.blocks[nxt]) == 1 and f.blocks[nxt][0].op == "br" and len(f.blocks[nxt][0].a) == 1:
                nxt = f.blocks[nxt][0].a[0]
            nn = [i for i in f.blocks[nxt] if i.op != "phi"]
            if nn and nn[-1].op == "ret":
                return "return"
            return nxt
        prev, cur = cur, nxt
    raise report.Broken("dispatcher of eval_apply not understood")


def show(t):
    """short text of a term"""
    if not t.t:
        return str(t.c)
    s = repr(t)
    return s.rsplit(":", 1)[0] if s.endswith(":%d" % t.w) else s


def steps(E, f, head, disp, env0, label):
    """all paths from the block label to the next label"""
    cuts = {b for b in disp.values() if b != "return"} | {head}
    # a label whose code runs straight back to the dispatcher (vm_return) is no place of its own
    for b in list(cuts - {head}):
        c = b
        while c != head:
            ss = cx.succs(f.blocks[c][-1])
            if len(ss) != 1:
                break
            c = ss[0]
        else:
            cuts.discard(b)
    region = set(f.order) - cuts
    E.loops.pop(f.name, None)
    E.loops[f.name] = {h: b for h, b in E.loopinfo(f).items() if not (b & cuts)}
    st = cx.State()
    env = dict(env0)
    for i in f.blocks[label]:
        if i.op == "phi":
            env[("phi", i.res)] = env0[i.res]
    outs, exits = E.explore(f, env, st, label, None, 0, "eval_apply", region, None)
    r = []
    for en, s, b, p in exits:
        r.append((("dispatch" if b == head else b), s, en, p))
    for o in outs:
        r.append((o.kind, o.state, None, o))
    return r
