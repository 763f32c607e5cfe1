"""vt.cx for small objects of known size: pointers into one object compare as offsets, words are their bytes side by side."""
from . import bv, cx, vset
from .bv import T


class Engine(cx.Engine):
    """addresses in one array compare as their offsets: no array wraps round the address space"""

    def icmp(self, st, pred, a, b):
        if pred[0] == "u" and a.w == self.W:
            (p, x), (q, y) = self.split(a), self.split(b)
            if p == q and self.named(p) and not x.t and not y.t:
                x, y = vset.sgn(x.c, self.W), vset.sgn(y.c, self.W)
                return T(1, int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]))
        if pred in ("eq", "ne") and a.w == self.W:
            for p, q in ((a, b), (b, a)):
                if not q.t and not q.c and self.named(self.split(p)[0]):
                    return T(1, int(pred == "ne"))
        return cx.Engine.icmp(self, st, pred, a, b)

    words = {}
    parts = {}

    def load(self, st, addr, n, ty=None):
        """a word of an array is its bytes side by side"""
        base, off = self.split(addr)
        if n in (2, 4, 8) and not off.t and self.named(base) and st.mem.get(base):
            l = [st.mem[base].get(T(self.W, off.c + k)) for k in range(n)]
            if all(x is not None and x[0] == 1 for x in l):
                l = [x[1] for x in l]
                if not any(x.t for x in l):
                    return T(8 * n, sum((x.c & 255) << 8 * k for k, x in enumerate(l)))
                p = [self.parts.get(x.t[0][0][1]) if len(x.t) == 1 and not x.c and x.t[0][0][0] == "v" else None for x in l]
                if p[1] is not None and p[1:] == [(p[1][0], k, n) for k in range(1, n)] and l[0] == bv.trunc(p[1][0], 8):
                    return p[1][0]
                name = "word%r" % (l,)
                self.words[name] = l
                return bv.var(name, 8 * n)
        if n == 1 and not off.t and self.named(base) and st.mem.get(base) and T(self.W, off.c) not in st.mem[base] or n == 1 and not off.t and st.mem.get(base, {}).get(off, (1,))[0] > 1:
            for o, (m, v) in st.mem[base].items():
                if not o.t and o.c <= off.c < o.c + m and v.t:
                    if off.c == o.c:
                        return bv.trunc(v, 8)
                    name = "part%d of %r" % (off.c - o.c, v)
                    self.parts[name] = (v, off.c - o.c, m)
                    return bv.var(name, 8)
        return cx.Engine.load(self, st, addr, n, ty)

    def store(self, st, addr, n, val):
        l = None
        if n in (2, 4, 8) and val is not None and self.named(self.split(addr)[0]) and not val.t:
            l = [T(8, val.c >> 8 * k & 255) for k in range(n)]
        elif n in (2, 4, 8) and val is not None and not val.c and len(val.t) == 1 and val.t[0][1] == 1 and val.t[0][0][0] == "v":
            l = self.words.get(val.t[0][0][1])
        if l is None or self.split(addr)[1].t:
            return cx.Engine.store(self, st, addr, n, val)
        for k, x in enumerate(l):
            cx.Engine.store(self, st, bv.add(addr, T(self.W, k)), 1, x)
