"""M1 assembler level: DEFINE tables and the byte stream a line of text stands for.

A stream is a list of items: an int (one byte), ('n', i, k, value) byte i of the
k-byte little-endian number value (int or Lin), ('a', i, 4, label) byte i of the
absolute address of label, ('r', i, k, label) byte i of the k-byte label - (address
after the field), ('s', i, 3, label) byte i of the ARM word displacement."""
import re
from .absint import AnalysisError, SStr, Lin


class M1Error(Exception):
    """text the assembler rejects"""


def load(path):
    """{name: (hex string, line)}; also returns duplicate definitions"""
    d, dups = {}, []
    for n, l in enumerate(open(path, encoding="utf-8"), 1):
        s = l.split("#", 1)[0] if not l.startswith("DEFINE") else l
        f = s.split()
        if len(f) >= 3 and f[0] == "DEFINE":
            if f[1] in d and d[f[1]][0].lower() != f[2].lower():
                dups.append((f[1], d[f[1]][1], n))
            d[f[1]] = (f[2], n)
    return d, dups


def hexbytes(h):
    if len(h) % 2 or not re.fullmatch("[0-9a-fA-F]*", h):
        raise M1Error("malformed definition %r" % h)
    return list(bytes.fromhex(h))


def tokens(text):
    """split a line (str or SStr) at blanks; tokens are str or SStr"""
    parts = text.p if isinstance(text, SStr) else (text,)
    out, cur = [], []
    for p in parts:
        if isinstance(p, str):
            i = 0
            buf = ""
            for ch in p:
                if ch in " \t\n":
                    if buf:
                        cur.append(buf)
                        buf = ""
                    if cur:
                        out.append(cur)
                        cur = []
                else:
                    buf += ch
            if buf:
                cur.append(buf)
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return out


SIG = {"!": 1, "@": 2, "%": 4, "&": 4, "~": 3, "$": 2}


def number(s):
    neg = False
    t = s
    if t.startswith("-"):
        neg, t = True, t[1:]
    if t.startswith("0x"):
        t = t[2:]
        if t.startswith("-"):
            neg, t = not neg, t[1:]
        if not re.fullmatch("[0-9a-fA-F]+", t):
            return None
        v = int(t, 16)
    elif re.fullmatch("[0-9]+", t):
        v = int(t, 8) if len(t) > 1 and t[0] == "0" else int(t)
    else:
        return None
    return -v if neg else v


class Label(str):
    pass


def encode(lines, defs):
    """lines: list of (str|SStr) -> stream.  Raises M1Error naming an undefined mnemonic."""
    out = []
    for line in lines:
        for tok in tokens(line):
            enc_token(tok, defs, out)
    return out


def enc_token(tok, defs, out):
    if len(tok) == 1 and isinstance(tok[0], str):
        s = tok[0]
        if s in defs:
            out.extend(hexbytes(defs[s][0]))
            return
        if s == "<":
            return
        if s.startswith("^"):
            s = s[1:]
        if s[:1] in SIG and len(s) > 1:
            k = SIG[s[0]]
            v = number(s[1:])
            if v is not None:
                if s[0] == "~":
                    raise M1Error("number with ~: " + s)
                out.extend(("n", i, k, v) for i in range(k))
                return
            put_label(s[0], k, s[1:], out)
            return
        if s.startswith("'") and s.endswith("'"):
            out.extend(hexbytes(s[1:-1]))
            return
        if re.fullmatch("[0-9A-Fa-f]+", s) and len(s) % 2 == 0:
            # hex2 text passes through M1 only when quoted; a bare word is an undefined macro
            raise M1Error("undefined mnemonic %s" % s)
        raise M1Error("undefined mnemonic %s" % s)
    # symbolic token
    first = tok[0]
    if not isinstance(first, str):
        raise AnalysisError("token starts with a symbolic part: %r" % (tok,))
    if first.startswith("^"):
        first = first[1:]
    sig = first[:1]
    if sig not in SIG:
        raise AnalysisError("symbolic mnemonic %r" % (tok,))
    k = SIG[sig]
    rest = [first[1:]] + list(tok[1:])
    rest = [x for x in rest if x != ""]
    if len(rest) == 2 and rest[0] in ("0x", "0x0") and rest[1][0] == "num" and rest[1][2] == 16:
        out.extend(("n", i, k, rest[1][1]) for i in range(k))
        return
    if len(rest) == 2 and rest[0] in ("0x-", "-0x") and rest[1][0] == "num" and rest[1][2] == 16:
        from .absint import neg
        out.extend(("n", i, k, neg(rest[1][1])) for i in range(k))
        return
    if len(rest) == 1 and rest[0][0] == "num" and rest[0][2] == 10:
        out.extend(("n", i, k, rest[0][1]) for i in range(k))
        return
    if any(not isinstance(x, str) and x[0] == "num" for x in rest) and not any(not isinstance(x, str) and x[0] == "sym" for x in rest):
        if isinstance(rest[0], str) and (rest[0][0].isalpha() or rest[0][0] == "_"):
            put_label(sig, k, "".join(x if isinstance(x, str) else "{%r}" % (x[1],) for x in rest), out)
            return
        raise AnalysisError("number format %r" % (tok,))
    put_label(sig, k, "".join(x if isinstance(x, str) else "{%s}" % (x[1],) for x in rest), out)


def put_label(sig, k, name, out):
    kind = {"&": "a", "%": "r", "!": "r", "@": "r", "~": "s", "$": "a"}[sig]
    out.extend((kind, i, k, name) for i in range(k))
