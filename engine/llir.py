"""Reader for textual LLVM IR (LLVM 18, opaque pointers)."""
import re

TOK = re.compile(r'''\s*(?:(;[^\n]*)|(c"[^"]*")|(%"[^"]*"|@"[^"]*"|"[^"]*")|([%@!][-a-zA-Z$._0-9]+)|(\.\.\.)|([-]?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)|([a-zA-Z$._][-a-zA-Z$._0-9]*)|(<\{|\}>|.))''')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            break
        pos = m.end()
        if m.group(1):
            continue
        t = m.group(0).strip()
        if t:
            if t[0] in "%@" and len(t) > 1 and t[1] == '"':
                t = t[0] + t[2:-1]
            out.append(t)
    return out


# types: ('i', n) ('ptr',) ('void',) ('arr', n, t) ('st', packed, [t]) ('vec', n, t) ('fp', bytes)
PTR = ("ptr",)


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        assert y == x, (x, y, self.t)

    def is_type(self):
        x = self.peek()
        return bool(re.match(r"i[0-9]+$", x)) or x in ("ptr", "void", "[", "{", "<{", "<", "float", "double", "metadata", "label", "token") or (x[0:1] == "%" and x[1:] in self.mod.types)

    def type(self):
        x = self.next()
        if re.match(r"i[0-9]+$", x):
            t = ("i", int(x[1:]))
        elif x == "ptr":
            t = PTR
        elif x == "void":
            t = ("void",)
        elif x == "metadata":
            t = ("metadata",)
        elif x == "float":
            t = ("fp", 4)
        elif x == "double":
            t = ("fp", 8)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "{":
            es = []
            while not self.eat("}"):
                es.append(self.type())
                self.eat(",")
            t = ("st", False, tuple(es))
        elif x == "<{":
            es = []
            while not self.eat("}>"):
                es.append(self.type())
                self.eat(",")
            t = ("st", True, tuple(es))
        elif x == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = ("vec", n, e)
        elif x[0] == "%" and x[1:] in self.mod.types:
            t = self.mod.types[x[1:]]
            if type(t) is str:
                t = ("st", False, ()) if t == "opaque" else P(tokenize(t), self.mod).type()
                self.mod.types[x[1:]] = t
        else:
            raise SyntaxError("type? %s in %s" % (x, self.t[max(0, self.i - 5):self.i + 5]))
        return t

    def skip_attrs(self):
        """parameter / return attributes"""
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
                if x == "align":
                    if self.peek() == "(":
                        self.paren()
                    else:
                        self.i += 1
                elif self.peek() == "(" and x in ATTR_PAREN:
                    self.paren()
            elif x.startswith('"') and not x.startswith("c"):
                self.i += 1
                if self.eat("="):
                    self.i += 1
            elif x == "#":
                self.i += 2
            else:
                return

    def paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def value(self, ty):
        """('r', name) | ('c', int) | ('g', name) | ('u',) | ('z',) | ('agg', [(ty, v)]) | ('str', bytes) | ('ce', op, ...)"""
        x = self.next()
        if x[0] == "%":
            return ("r", x[1:])
        if x[0] == "@":
            return ("g", x[1:])
        if x == "true":
            return ("c", 1)
        if x == "false" or x == "null":
            return ("c", 0)
        if x in ("undef", "poison"):
            return ("u",)
        if x == "zeroinitializer":
            return ("z",)
        if x == "none":
            return ("z",)
        if x.startswith('c"'):
            return ("str", unescape(x[2:-1]))
        if x in ("[", "{", "<{", "<"):
            close = {"[": "]", "{": "}", "<{": "}>", "<": ">"}[x]
            es = []
            while not self.eat(close):
                t = self.type()
                es.append((t, self.value(t)))
                self.eat(",")
            return ("agg", es)
        if re.match(r"-?[0-9]+$", x):
            return ("c", int(x))
        if ty[0] == "fp":
            return ("c", 0)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            args = []
            while True:
                t = self.type()
                args.append((t, self.value(t)))
                if self.eat(")"):
                    break
                self.expect(",")
            return ("ce", "gep", bt, args)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ce", x, t, v, t2)
        if x in ("add", "sub", "xor"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            self.type()
            b = self.value(t)
            self.expect(")")
            return ("ce", x, t, a, b)
        raise SyntaxError("value? %s in %s" % (x, self.t[max(0, self.i - 6):self.i + 6]))


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode("latin-1")
    while i < len(b):
        if b[i] == 0x5C:
            if b[i + 1] == 0x5C:
                out.append(0x5C)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


ATTRS = set("noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg byval sret align dereferenceable dereferenceable_or_null immarg returned swiftself nofree nest allocptr allocalign inalloca preallocated elementtype range captures writable dead_on_unwind initializes nofpclass".split())
ATTR_PAREN = set("byval sret align dereferenceable dereferenceable_or_null inalloca preallocated elementtype range captures initializes nofpclass".split())


class Fn:
    __slots__ = ("name", "params", "blocks", "order", "lines", "compiled", "ret", "dbg")


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.decl = set()
        self.md = {}
        self.aliases = {}
        with open(path, encoding="latin-1") as f:
            self.read(f)

    def read(self, f):
        cur = None
        for line in f:
            line = line.rstrip("\n")
            if cur is not None:
                if line == "}":
                    cur = None
                else:
                    if line:
                        cur.lines.append(line)
                continue
            if not line or line[0] == ";":
                continue
            c = line[0]
            if c == "@":
                self.glob(line)
            elif c == "%":
                m = re.match(r'(%"[^"]*"|%[-\w$.]+) = type (.*)', line)
                name = m.group(1)[1:].strip('"')
                self.types[name] = m.group(2)
            elif line.startswith("define"):
                fn = Fn()
                fn.lines = []
                fn.compiled = None
                self.header(line, fn)
                self.fns[fn.name] = fn
                cur = fn
            elif line.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
                self.decl.add(m.group(1).strip('"'))
            elif c == "!":
                k = line.find(" = ")
                if k > 0:
                    self.md[line[1:k]] = line[k + 3:]

    def glob(self, line):
        m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', line)
        name = m.group(1).strip('"')
        rest = m.group(2)
        mm = re.match(r"(.*?)\b(global|constant|alias)\s+(.*)", rest)
        kind = mm.group(2)
        if kind == "alias":
            t = re.search(r'@("[^"]*"|[-\w$.]+)\s*$', rest)
            self.aliases[name] = t.group(1).strip('"')
            return
        p = P(tokenize(mm.group(3)), self)
        ty = p.type()
        init = None
        if "external" in mm.group(1):
            init = ("z",)
        else:
            init = p.value(ty)
        al = 1
        m2 = re.search(r", align (\d+)", mm.group(3))
        if m2:
            al = int(m2.group(1))
        self.globals[name] = (ty, init, kind == "constant", al)

    def header(self, line, fn):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
        fn.name = m.group(1).strip('"')
        p = P(tokenize(line[m.end() - 1:]), self)
        pre = P(tokenize(line[:m.start()]), self)
        fn.ret = None
        p.expect("(")
        fn.params = []
        while not p.eat(")"):
            if p.eat("..."):
                continue
            t = p.type()
            p.skip_attrs()
            nm = None
            if p.peek()[0:1] == "%":
                nm = p.next()[1:]
            fn.params.append((t, nm))
            p.eat(",")
        m = re.search(r"!dbg !(\d+)", line)
        fn.dbg = m.group(1) if m else None


def sizeof(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        if t[1] <= 64:
            p = 1
            while p < n:
                p *= 2
            return p
        return (n + 15) // 16 * 16 if t[1] > 64 else n
    if k == "ptr":
        return 8
    if k == "arr":
        return t[1] * sizeof(t[2])
    if k == "vec":
        return t[1] * sizeof(t[2])
    if k == "fp":
        return t[1]
    if k == "st":
        return layout(t)[0]
    raise TypeError(t)


def alignof(t):
    k = t[0]
    if k == "i":
        return min(sizeof(t), 16)
    if k == "ptr":
        return 8
    if k in ("arr",):
        return alignof(t[2])
    if k == "vec":
        return sizeof(t)
    if k == "fp":
        return t[1]
    if k == "st":
        return 1 if t[1] else max([alignof(x) for x in t[2]] or [1])
    raise TypeError(t)


_lay = {}


def layout(t):
    r = _lay.get(t)
    if r is None:
        off = 0
        offs = []
        for x in t[2]:
            if not t[1]:
                a = alignof(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += sizeof(x)
        if not t[1]:
            a = alignof(t)
            off = (off + a - 1) // a * a
        r = _lay[t] = (off, offs)
    return r
