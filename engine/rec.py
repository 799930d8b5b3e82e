"""rec.py: symbolic evaluation of circuits recorded from the recursion code (see hx/rec).

A circuit is operations over targets plus constraints, as the real builder code made them. Every
target becomes a value over z3: a list of (guard, linear form modulo P) with exclusive guards, so
selects, flags and products with small-range factors stay exact. Hashes are uninterpreted functions
of their inputs; range-checked splits get bits or bounded parts.
"""
import itertools
import z3

P = (1 << 64) - (1 << 32) + 1
INV2 = (P + 1) // 2
T, F = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    pass


class Lin:
    """const + sum coef * atom modulo P; atoms are indices into World.atoms."""
    __slots__ = ("c", "k", "key")

    def __init__(s, c, k=()):
        s.c = c % P
        s.k = tuple(sorted((a, v % P) for a, v in k if v % P))
        s.key = (s.c, s.k)

    def comb(s, x, o, y):
        d = {}
        for l, m in ((s, x), (o, y)):
            for a, v in l.k:
                d[a] = d.get(a, 0) + v * m
        return Lin(s.c * x + o.c * y, d.items())


def sgn(v):
    v %= P
    return v - P if v > P // 2 else v


class World:
    """z3 side shared by the circuit and its specification."""

    def __init__(self):
        self.atoms, self.index, self.defs, self.fns, self.apps, self.n = [], {}, [], {}, [], 0

    def name(self, s):
        self.n += 1
        return "%s!%d" % (s, self.n)

    def atom(self, e, lo=0, hi=P - 1):
        k = e.get_id()
        if k not in self.index:
            self.index[k] = len(self.atoms)
            self.atoms.append((e, lo, hi))
            self.defs += [e >= lo, e <= hi]
        return [(T, Lin(0, [(self.index[k], 1)]))]

    def int(self, name, lo=0, hi=P - 1):
        return self.atom(z3.Int(name), lo, hi)

    def const(self, c):
        return [(T, Lin(c))]

    def bool(self, b):
        return self.norm([(b, Lin(1)), (z3.Not(b), Lin(0))])

    def norm(self, cases):
        d = {}
        for g, l in cases:
            if z3.is_false(g):
                continue
            if l.key in d:
                g0 = d[l.key][0]
                d[l.key] = (T if z3.is_true(g0) or z3.is_true(g) else z3.Or(g0, g), l)
            else:
                d[l.key] = (g, l)
        if len(d) == 1:
            return [(T, next(iter(d.values()))[1])]
        out = []
        for g, l in d.values():
            g = z3.simplify(g)
            if not z3.is_false(g):
                out.append((g, l))
        if len(out) > 300:
            raise Unsupported("value with %d cases" % len(out))
        return out

    def both(self, g, h):
        return h if z3.is_true(g) else g if z3.is_true(h) else z3.And(g, h)

    def lift(self, a, b, f):
        return self.norm([(self.both(g, h), f(x, y)) for g, x in a for h, y in b])

    def comb(self, a, x, b, y):
        return self.lift(a, b, lambda l, m: l.comb(x, m, y))

    def mul(self, a, b):
        def f(l, m):
            if not l.k:
                return m.comb(l.c, Lin(0), 0)
            if not m.k:
                return l.comb(m.c, Lin(0), 0)
            raise Unsupported("product of two unbounded values")
        try:
            return self.lift(a, b, f)
        except Unsupported:
            pass
        # split a factor with a small range into its values
        for x, y in ((a, b), (b, a)):
            x = self.small(x)
            if x is not None:
                return self.lift(x, y, f)
        raise Unsupported("product of two unbounded values")

    def small(self, v):
        out = []
        for g, l in v:
            if not l.k:
                out.append((g, l))
                continue
            lo, hi, e = self.range(l)
            if hi - lo > 16:
                return None
            out += [(self.both(g, e == x), Lin(x)) for x in range(lo, hi + 1)]
        return self.norm(out)

    def range(self, l):
        lo = hi = c = sgn(l.c)
        e = z3.IntVal(c)
        for a, v in l.k:
            x, al, ah = self.atoms[a]
            v = sgn(v)
            e = e + v * x
            lo += min(v * al, v * ah)
            hi += max(v * al, v * ah)
        return lo, hi, e

    def zero(self, l):
        """l = 0 modulo P"""
        if not l.k:
            return z3.BoolVal(l.c == 0)
        best = None
        for m in (1, 2, 4, 8, 16, 256):
            for q in (m, pow(m, P - 2, P)):
                c = l.comb(q, Lin(0), 0)
                w = sum(abs(sgn(v)) for _, v in c.k)
                if best is None or w < best[0]:
                    best = (w, c)
        lo, hi, e = self.range(best[1])
        ks = range(-((-lo) // P), hi // P + 1)
        if len(ks) > 64:
            return e % P == 0
        return z3.Or([e == k * P for k in ks]) if ks else F

    def eq(self, a, b):
        d = [(g, x) for g, x in self.lift(a, b, lambda l, m: l.comb(1, m, -1))]
        return z3.simplify(z3.Or([self.both(g, self.zero(l)) for g, l in d]))

    def is1(self, v):
        return self.eq(v, self.const(1))

    def is01(self, v):
        return z3.Or(self.eq(v, self.const(0)), self.is1(v))

    def ite(self, c, a, b):
        return self.norm([(self.both(c, g), l) for g, l in a] + [(self.both(z3.Not(c), g), l) for g, l in b])

    def canon(self, v):
        """The value as an integer in [0, P)."""
        if len(v) > 1 or v[0][1].k and (v[0][1].c or len(v[0][1].k) > 1 or v[0][1].k[0][1] != 1):
            key = tuple((g.get_id(), l.key) for g, l in v)
            if key not in self.index:
                r = self.int(self.name("r"))
                self.defs.append(self.eq(v, r))
                self.index[key] = (self.atoms[r[0][1].k[0][0]][0], v)
            return self.index[key][0]
        l = v[0][1]
        return self.atoms[l.k[0][0]][0] if l.k else z3.IntVal(l.c)

    def hash(self, xs):
        a = [self.canon(x) for x in xs]
        out = []
        for k in range(4):
            f = self.fns.setdefault((len(a), k), z3.Function("H%d_%d" % (len(a), k), *([z3.IntSort()] * (len(a) + 1))))
            out.append(self.atom(f(*a)))
        self.apps.append((a, [self.atoms[o[0][1].k[0][0]][0] for o in out]))
        return out


class Circuit:
    """Values and constraints of one recorded circuit."""

    def __init__(self, w, d, assume_bool=(), canonical=False):
        self.w, self.d, self.rec, self.canonical = w, d, d["rec"], canonical
        self.vals, self.virt, self.bits = {}, {}, {}
        self.cons = []       # (description, z3 formula)
        cons = self.rec["cons"]
        self.asserted = {c[1] for c in cons if c[0] == "b"}
        who = {}
        for n, ts in d.get("names", {}).items():
            for k, t in enumerate(ts):
                who.setdefault(t, n if len(ts) == 1 else "%s.%d" % (n, k))
        self.who = who
        isbool = {d["names"][n][0] for n in assume_bool} | self.asserted
        for i in range(self.rec["nvirt"]):
            t = -1 - i
            n = who.get(t, "virtual%d" % i)
            self.vals[t] = w.bool(z3.Bool(n)) if t in isbool else w.int(n)
            self.virt[t] = (z3.Bool(n) if t in isbool else z3.Int(n))
        for k, c in enumerate(cons):
            what = "constraint %d %s" % (k, c)
            if c[0] == "=":
                self.cons.append((what, w.eq(self.val(c[1]), self.val(c[2]))))
            elif c[0] == "b":
                self.val(c[1])
            elif c[0] == "n":
                self.cons.append((what, z3.Not(w.eq(self.val(c[1]), w.const(0)))))
            elif c[0] == "r":
                if c[2] < 64:
                    self.cons.append((what, w.canon(self.val(c[1])) < (1 << c[2])))
        self.verifies = [dict(v, value=[self.val(t) for t in v["verifier"]]) for v in self.rec["verifies"]]

    def named(self, n):
        return [self.val(t) for t in self.d["names"][n]]

    def val(self, t):
        # deep circuits: evaluate operands first, without recursion
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.vals:
                stack.pop()
                continue
            need = [y for y in self.operands(self.rec["ops"][x]) if y not in self.vals]
            if need:
                stack += need
                continue
            v = self.compute(x, self.rec["ops"][x])
            if x in self.asserted:
                b = z3.Bool("bool!%d" % x)
                self.w.defs.append(b == self.w.is1(v))
                self.cons.insert(0, ("wire %d is a boolean" % x, self.w.is01(v)))
                v = self.w.bool(b)
            self.vals[x] = v
            stack.pop()
        return self.vals[t]

    @staticmethod
    def operands(o):
        return {"c": lambda: [], "a": lambda: [o[2], o[3], o[5]], "s": lambda: o[1:4], "=": lambda: o[1:3], "h": lambda: o[1], "o": lambda: [o[1]],
                "i": lambda: [o[1]], "b": lambda: [o[1]], "lo": lambda: [o[1]], "hi": lambda: [o[1]]}[o[0]]()

    def getbits(self, t, n):
        """The n bits of a target constrained to n bits."""
        if (t, n) not in self.bits:
            w, v = self.w, self.vals[t]
            if all(not l.k and l.c < 1 << n for _, l in v):
                self.bits[t, n] = [z3.simplify(z3.Or([g for g, l in v if l.c >> k & 1])) for k in range(n)]
            else:
                bs = [z3.Bool("bit!%d!%d!%d" % (t, n, k)) for k in range(n)]
                x = w.canon(v)
                w.defs.append(z3.Implies(x < (1 << n), x == z3.Sum([z3.If(b, 1 << k, 0) for k, b in enumerate(bs)])))
                self.bits[t, n] = bs
        return self.bits[t, n]

    def frombits(self, bs):
        w, v = self.w, self.w.const(0)
        for k, b in enumerate(bs):
            v = w.comb(v, 1, w.bool(b), 1 << k)
        return v

    def split(self, t, n, m, key):
        """Low n bits and the rest of a target of m bits; with m = 64 only modulo P."""
        if ("split", key) in self.bits:
            return self.bits["split", key]
        w = self.w
        if m <= 8:
            bs = self.getbits(t, m)
            r = self.frombits(bs[:n]), self.frombits(bs[n:])
        else:
            lo, hi = w.int("lo!%s!%d" % (key, t), 0, (1 << n) - 1), w.int("hi!%s!%d" % (key, t), 0, (1 << (m - n)) - 1)
            a = w.canon(self.vals[t])
            whole = w.canon_int(lo) + (1 << n) * w.canon_int(hi)
            if m < 64 or self.canonical:
                w.defs.append(z3.Implies(a < (1 << m), a == whole))
            else:
                w.defs.append(z3.Or(a == whole, a + P == whole))
            r = lo, hi
        self.bits["split", key] = r
        return r

    def compute(self, x, o):
        w, v = self.w, self.vals
        k = o[0]
        if k == "c":
            return w.const(int(o[1]))
        if k == "a":
            p = w.const(0) if int(o[1]) == 0 else w.mul(v[o[2]], v[o[3]])
            return w.comb(p, int(o[1]), v[o[5]], int(o[4]))
        if k == "s":
            # y + b * (x - y)
            b = v[o[1]]
            if all(not l.k and l.c in (0, 1) for _, l in b):
                c = z3.simplify(z3.Or([g for g, l in b if l.c == 1]))
                return w.ite(c, v[o[2]], v[o[3]])
            d = w.comb(v[o[2]], 1, v[o[3]], -1)
            return w.comb(w.mul(b, d), 1, v[o[3]], 1)
        if k == "=":
            return w.bool(w.eq(v[o[1]], v[o[2]]))
        if k == "h":
            return w.hash([v[y] for y in o[1]])
        if k == "o":
            return v[o[1]][o[2]]
        if k == "i":
            s = w.small(v[o[1]])
            if s is None:
                raise Unsupported("inverse of an unbounded value")
            return w.norm([(g, Lin(pow(l.c, P - 2, P))) for g, l in s])
        if k == "b":
            return w.bool(self.getbits(o[1], o[3])[o[2]])
        if k in ("lo", "hi"):
            return self.split(o[1], o[2], o[3], o[4])[k == "hi"]
        raise Unsupported(k)


def canon_int(self, v):
    return self.atoms[v[0][1].k[0][0]][0]


World.canon_int = canon_int
