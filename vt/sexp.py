"""S-expression reader (Guile/Mes surface syntax), with source positions."""


class Sym:
    __slots__ = ("name",)
    table = {}

    def __new__(cls, name):
        s = cls.table.get(name)
        if s is None:
            s = object.__new__(cls)
            s.name = name
            cls.table[name] = s
        return s

    def __repr__(self):
        return self.name

    def __reduce__(self):
        return (Sym, (self.name,))


class Kw:
    __slots__ = ("name",)
    table = {}

    def __new__(cls, name):
        s = cls.table.get(name)
        if s is None:
            s = object.__new__(cls)
            s.name = name
            cls.table[name] = s
        return s

    def __repr__(self):
        return "#:" + self.name


class Char:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(("ch", self.c))

    def __repr__(self):
        return "#\\" + self.c


class _Nil:
    def __repr__(self):
        return "()"

    def __iter__(self):
        return iter(())


NIL = _Nil()


class Pair:
    __slots__ = ("car", "cdr", "line", "file")

    def __init__(self, car, cdr, line=None, file=None):
        self.car = car
        self.cdr = cdr
        self.line = line
        self.file = file

    def __iter__(self):
        x = self
        while isinstance(x, Pair):
            yield x.car
            x = x.cdr

    def __repr__(self):
        return write(self)


class Vec(list):
    pass


class _Unspec:
    def __repr__(self):
        return "#<unspecified>"


UNSPEC = _Unspec()


def lst(*xs):
    return plist(xs)


def plist(xs, tail=NIL):
    r = tail
    for x in reversed(list(xs)):
        r = Pair(x, r)
    return r


def pl(x):
    """scheme list -> python list (must be proper)"""
    r = []
    while isinstance(x, Pair):
        r.append(x.car)
        x = x.cdr
    if x is not NIL:
        raise ValueError("improper list")
    return r


def write(x):
    if isinstance(x, Pair):
        out = []
        while isinstance(x, Pair):
            out.append(write(x.car))
            x = x.cdr
        if x is not NIL:
            out.append(".")
            out.append(write(x))
        return "(" + " ".join(out) + ")"
    if x is True:
        return "#t"
    if x is False:
        return "#f"
    if isinstance(x, str):
        return '"' + x + '"'
    return repr(x)


class ReadError(Exception):
    pass


CHARNAMES = {"space": " ", "newline": "\n", "nl": "\n", "tab": "\t", "nul": "\0", "null": "\0",
             "return": "\r", "page": "\f", "vtab": "\v", "alarm": "\a", "backspace": "\b",
             "escape": "\x1b", "esc": "\x1b", "delete": "\x7f", "rubout": "\x7f", "linefeed": "\n"}
DELIM = set(" \t\r\n\f()[]\";'`,")

EOF = object()


class Reader:
    def __init__(self, text, file="?"):
        self.s = text
        self.i = 0
        self.file = file
        self.line = 1

    def _skip(self):
        s = self.s
        n = len(s)
        while self.i < n:
            c = s[self.i]
            if c == "\n":
                self.line += 1
                self.i += 1
            elif c in " \t\r\f":
                self.i += 1
            elif c == ";":
                while self.i < n and s[self.i] != "\n":
                    self.i += 1
            elif s.startswith("#|", self.i) or s.startswith("#!", self.i):
                e = s.find("|#" if s[self.i + 1] == "|" else "!#", self.i + 2)
                if e < 0:
                    e = n - 2
                self.line += s.count("\n", self.i, e)
                self.i = e + 2
            elif s.startswith("#;", self.i):
                self.i += 2
                self.read()
            else:
                return

    def read(self):
        self._skip()
        s = self.s
        if self.i >= len(s):
            return EOF
        c = s[self.i]
        line = self.line
        if c in "([":
            self.i += 1
            items = []
            tail = NIL
            lines = []
            while True:
                self._skip()
                if self.i >= len(s):
                    raise ReadError("%s:%d: unterminated list" % (self.file, line))
                if s[self.i] in ")]":
                    self.i += 1
                    break
                if s[self.i] == "." and self.i + 1 < len(s) and s[self.i + 1] in DELIM:
                    self.i += 1
                    tail = self.read()
                    continue
                lines.append(self.line)
                items.append(self.read())
            r = tail
            for x, l in zip(reversed(items), reversed(lines)):
                r = Pair(x, r, l, self.file)
            if isinstance(r, Pair):
                r.line = line
            return r
        if c in ")]":
            raise ReadError("%s:%d: unexpected )" % (self.file, self.line))
        if c == "'":
            self.i += 1
            return self._q("quote", line)
        if c == "`":
            self.i += 1
            return self._q("quasiquote", line)
        if c == ",":
            if s.startswith(",@", self.i):
                self.i += 2
                return self._q("unquote-splicing", line)
            self.i += 1
            return self._q("unquote", line)
        if c == '"':
            return self._string()
        if c == "#":
            d = s[self.i + 1]
            if d == "\\":
                j = self.i + 3
                while j < len(s) and s[j] not in DELIM:
                    j += 1
                tok = s[self.i + 2:j]
                self.i = j
                if tok == "\n":
                    self.line += 1
                if len(tok) == 1:
                    return Char(tok)
                if tok in CHARNAMES:
                    return Char(CHARNAMES[tok])
                if tok.startswith("x") and len(tok) > 1:
                    try:
                        return Char(chr(int(tok[1:], 16)))
                    except ValueError:
                        pass
                try:
                    return Char(chr(int(tok, 8)))
                except ValueError:
                    pass
                raise ReadError("%s:%d: char %r" % (self.file, self.line, tok))
            if d == ":":
                self.i += 2
                return Kw(self._tok())
            if d == "(":
                self.i += 1
                return Vec(pl(self.read()))
            if d in "'`,":
                n = {"'": "syntax", "`": "quasisyntax", ",": "unsyntax"}[d]
                self.i += 2
                if d == "," and s[self.i] == "@":
                    self.i += 1
                    n = "unsyntax-splicing"
                return self._q(n, line)
            if d in "tf":
                t = self._tok()
                if t in ("#t", "#true"):
                    return True
                if t in ("#f", "#false"):
                    return False
                raise ReadError("%s:%d: %s" % (self.file, self.line, t))
            if d in "xbdo":
                t = self._tok()
                return int(t[2:], {"x": 16, "b": 2, "d": 10, "o": 8}[d])
            t = self._tok()
            return Sym(t)
        t = self._tok()
        try:
            return int(t)
        except ValueError:
            pass
        try:
            if any(ch.isdigit() for ch in t) and t[0] in "0123456789+-.":
                return float(t)
        except ValueError:
            pass
        return Sym(t)

    def _tok(self):
        j = self.i
        s = self.s
        while j < len(s) and s[j] not in DELIM:
            if s[j] == "#" and s[j:j + 2] == "#|":
                break
            j += 1
        t = s[self.i:j]
        if not t:
            raise ReadError("%s:%d: empty token at %r" % (self.file, self.line, s[self.i:self.i + 10]))
        self.i = j
        if t[0] == "|" and t[-1] == "|" and len(t) > 1:
            t = t[1:-1]
        return t

    def _q(self, name, line):
        x = self.read()
        return Pair(Sym(name), Pair(x, NIL, line, self.file), line, self.file)

    def _string(self):
        s = self.s
        j = self.i + 1
        out = []
        esc = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "0": "\0",
               "e": "\x1b"}
        while s[j] != '"':
            if s[j] == "\\":
                j += 1
                if s[j] == "x":
                    k = j + 1
                    h = ""
                    while len(h) < 2 and s[k] in "0123456789abcdefABCDEF":
                        h += s[k]
                        k += 1
                    out.append(chr(int(h, 16)) if h else "x")
                    j = k
                    continue
                if s[j] == "\n":
                    self.line += 1
                    j += 1
                    while s[j] in " \t":
                        j += 1
                    continue
                out.append(esc.get(s[j], s[j]))
                j += 1
                continue
            if s[j] == "\n":
                self.line += 1
            out.append(s[j])
            j += 1
        self.i = j + 1
        return "".join(out)


def read_all(text, file="?"):
    r = Reader(text, file)
    out = []
    while True:
        x = r.read()
        if x is EOF:
            return out
        out.append(x)


def read_file(path, rel=None):
    with open(path, encoding="latin-1" if False else "utf-8", errors="surrogateescape") as f:
        return read_all(f.read(), rel or path)
