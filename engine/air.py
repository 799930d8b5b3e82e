"""air.py: solver-based reasoning over the algebraic constraints of /repo/circuits.

hx-air runs the real constraint code over symbolic field elements and prints the expression DAG.
Here a set of constraints (each "expression = 0 in the Goldilocks field") and lookup facts is turned
into linear integer arithmetic with explicit quotients of p and decided by z3:

* a product constraint holds iff one of its factors vanishes (a field has no zero divisors);
* a factor is a linear form over columns, over 0/1-columns times columns (if-then-else), and over
  opaque products of two or more columns, each with the facts about products that are used
  (zero factors, exact bounds when both factors are bounded);
* a linear form vanishes mod p iff it is q*p for an integer q (bounded by interval arithmetic).

A refutation over the opaque products holds for the real ones. A model is re-solved with factors of
the products fixed to concrete values, and only an assignment that satisfies the real constraints,
evaluated by the real code (hx-air eval), counts as a counterexample.
"""
import json, re, subprocess, time, itertools, random
import z3

P = 2**64 - 2**32 + 1
U32 = 2**32 - 1


def sgn(c):
    c %= P
    return c if c <= P // 2 else c - P


class Air:
    def __init__(self, path_or_obj, binary=None):
        d = self.d = json.load(open(path_or_obj)) if isinstance(path_or_obj, str) else path_or_obj
        self.N = d["nodes"]
        self.binary = binary
        self.tables = d["tables"]
        self.names, self.index = {}, {}
        for t, T in self.tables.items():
            ids = self.view_names(T["view"])
            self.names[t] = [ids[i] for i in T["l"]]
            self.index[t] = {n: k for k, n in enumerate(self.names[t])}
        # node id -> (table, row, column name)
        self.var = {}
        for i, n in enumerate(self.N):
            if n[0] == "v":
                p = n[1].rsplit(".", 2)
                if len(p) == 3 and p[0] in self.tables and p[2].isdigit():
                    t, r, k = p[0], p[1], int(p[2])
                    if r == "pi":
                        self.var[i] = "pi.%d" % k
                    elif k < len(self.names[t]):
                        self.var[i] = self.names[t][k] + ("'" if r == "n" else "")
                    else:
                        self.var[i] = n[1]
                else:
                    self.var[i] = n[1]

    @staticmethod
    def view_names(s):
        tok = re.findall(r"[A-Za-z_][A-Za-z_0-9]*|[{}\[\],:()]", s)
        ids, i = {}, 0

        def val(path):
            nonlocal i
            x = tok[i]
            if re.fullmatch(r"s\d+", x):
                ids[int(x[1:])] = path
                i += 1
                return
            if x == "[":
                i += 1
                k = 0
                while tok[i] != "]":
                    val("%s[%d]" % (path, k))
                    k += 1
                    if tok[i] == ",":
                        i += 1
                i += 1
                return
            i += 1
            if i < len(tok) and tok[i] == "(":
                i += 1
                k = 0
                while tok[i] != ")":
                    val("%s.%d" % (path, k) if path else str(k))
                    k += 1
                    if tok[i] == ",":
                        i += 1
                i += 1
                return
            if i >= len(tok) or tok[i] != "{":
                return          # unit struct / PhantomData
            i += 1
            while tok[i] != "}":
                f = tok[i]
                i += 1
                assert tok[i] == ":"
                i += 1
                val(path + "." + f if path else f)
                if tok[i] == ",":
                    i += 1
            i += 1
        val("")
        return ids

    # ---- evaluation / printing
    def eval(self, i, env, memo=None):
        """Concrete value of node i mod p; env: column name -> int."""
        memo = {} if memo is None else memo
        st = [i]
        while st:
            k = st[-1]
            if k in memo:
                st.pop()
                continue
            n = self.N[k]
            if n[0] == "c":
                memo[k] = int(n[1]) % P
            elif n[0] == "v":
                memo[k] = env[self.var[k]] % P
            else:
                ch = n[1:] if n[0] != "f" else n[2]
                todo = [c for c in ch if c not in memo]
                if todo:
                    st += todo
                    continue
                a = [memo[c] for c in ch]
                memo[k] = {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "~": lambda: -a[0], "i": lambda: pow(a[0], P - 2, P)}[n[0]]() % P
            st.pop()
        return memo[i]

    def show(self, i, depth=0):
        n = self.N[i]
        if n[0] == "c":
            return str(sgn(int(n[1])))
        if n[0] == "v":
            return self.var[i]
        if n[0] in "+-*":
            return "(%s %s %s)" % (self.show(n[1]), n[0], self.show(n[2]))
        if n[0] == "~":
            return "-%s" % self.show(n[1])
        return str(n)

    def vars_of(self, i):
        seen, out, st = set(), set(), [i]
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            n = self.N[k]
            if n[0] == "v":
                out.add(self.var[k])
            elif n[0] in "+-*=":
                st += n[1:3]
            elif n[0] in "~i":
                st.append(n[1])
            elif n[0] == "f":
                st += n[2]
        return out

    # ---- polynomials: {sorted tuple of variable names: coefficient mod p}
    def poly(self, i, env, memo):
        """Expanded polynomial of node i with the columns in env replaced by constants."""
        if i in memo:
            return memo[i]
        n = self.N[i]
        k = n[0]
        if k == "c":
            c = int(n[1]) % P
            r = {(): c} if c else {}
        elif k == "v":
            v = self.var[i]
            if v in env:
                x = env[v]
                r = ({(): x % P} if x % P else {}) if isinstance(x, int) else {(x,): 1}
            else:
                r = {(v,): 1}
        elif k in "+-":
            r = padd(self.poly(n[1], env, memo), self.poly(n[2], env, memo), 1 if k == "+" else -1)
        elif k == "~":
            r = pscale(self.poly(n[1], env, memo), -1)
        elif k == "*":
            r = pmul(self.poly(n[1], env, memo), self.poly(n[2], env, memo))
        else:
            raise NotImplementedError("node %r" % (n,))
        memo[i] = r
        return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + s * c) % P
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pscale(a, c):
    c %= P
    return {m: x * c % P for m, x in a.items()} if c else {}


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            x = (r.get(m, 0) + c1 * c2) % P
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r


class Lim(Exception):
    pass


class Ctx:
    """One decision problem: a row (or two) of a table under an assignment of selector columns."""

    def __init__(self, air, env=None, stats=None):
        self.air, self.env = air, dict(env or {})
        self.memo = {}
        self.dom = {}            # column -> (lo, hi), canonical residues
        self.z = {}
        self.cons = []           # z3 assertions
        self.atoms = {}          # opaque product -> z3 var
        self.boolean = set()
        self.fresh = 0
        self.parts = []          # node ids of constraints used (for the replay)
        self.stats = stats if stats is not None else {}
        self.prods = []          # list of (var, polyA, polyB)
        self.assertions = 0

    # -- variables
    def bound(self, name, lo, hi):
        """Lookup fact: the column is a canonical residue in lo..=hi."""
        a, b = self.dom.get(name, (0, P - 1))
        self.dom[name] = (max(a, lo), min(b, hi))
        if self.dom[name] == (0, 1):
            self.boolean.add(name)

    def v(self, name):
        if name in self.env:
            return z3.IntVal(self.env[name])
        if name not in self.z:
            x = self.z[name] = z3.Int(name)
            lo, hi = self.dom.get(name, (0, P - 1))
            self.cons.append(z3.And(x >= lo, x <= hi))
        return self.z[name]

    def new(self, lo, hi, hint="k"):
        self.fresh += 1
        x = z3.Int("%s!%d" % (hint, self.fresh))
        self.cons.append(z3.And(x >= lo, x <= hi))
        return x

    # -- polynomials with product atoms
    def isbool(self, m):
        return all(x in self.boolean for x in m)

    def P(self, i):
        """Polynomial of node i; products of two forms with several non-boolean terms stay opaque."""
        memo = self.memo
        if i in memo:
            return memo[i]
        n = self.air.N[i]
        k = n[0]
        if k in "cv":
            r = self.air.poly(i, self.env, {})
        elif k in "+-":
            r = padd(self.P(n[1]), self.P(n[2]), 1 if k == "+" else -1)
        elif k == "~":
            r = pscale(self.P(n[1]), -1)
        elif k == "*":
            r = self.mul(self.P(n[1]), self.P(n[2]))
        else:
            raise NotImplementedError("node %r" % (n,))
        memo[i] = r
        return r

    def mul(self, a, b):
        na = [m for m in a if not self.isbool(m)]
        nb = [m for m in b if not self.isbool(m)]
        if not na or not nb or (len(na) == 1 and len(nb) == 1):
            r = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    bs = sorted({x for x in m1 + m2 if x in self.boolean})
                    m = tuple(bs + sorted(x for x in m1 + m2 if x not in self.boolean))
                    x = (r.get(m, 0) + c1 * c2) % P
                    if x:
                        r[m] = x
                    else:
                        r.pop(m, None)
            return r
        return {(self.prod(a, b),): 1}

    def prod(self, a, b):
        """Opaque product of two forms, as a pseudo column."""
        ka, kb = sorted([tuple(sorted(a.items())), tuple(sorted(b.items()))])
        key = "prod%d" % (hash((ka, kb)) & 0xffffffffffff)
        if key not in self.atoms:
            self.atoms[key] = (dict(ka), dict(kb))
            self.prods.append(key)
        return key

    def rng(self, m):
        lo, hi = 1, 1
        for x in m:
            l, h = self.dom.get(x, (0, P - 1)) if x not in self.atoms else (0, P - 1)
            lo, hi = lo * l, hi * h
        return lo, hi

    def mono(self, m):
        """z3 term congruent to monomial m, and its interval."""
        bs = [x for x in m if x in self.boolean]
        rest = tuple(x for x in m if x not in self.boolean)
        if not rest:
            t, (lo, hi) = z3.IntVal(1), (1, 1)
        elif len(rest) == 1:
            t, (lo, hi) = self.v(rest[0]), self.rng(rest)
        else:
            key = "*".join(rest)
            lo, hi = self.rng(rest)
            small = hi < 2**130 and all(self.dom.get(x, (0, P - 1))[1] < 2**40 for x in rest)
            if not small:
                lo, hi = 0, P - 1
            if key not in self.z:
                t = self.z[key] = z3.Int(key)
                self.cons.append(z3.And(t >= lo, t <= hi))
                self.prods.append(rest)
                for x in rest:
                    self.cons.append(z3.Implies(self.v(x) == 0, t == 0))
                # a zero product has a zero factor
                self.cons.append(z3.Implies(t == 0, z3.Or([self.v(x) == 0 for x in rest])))
                if len(rest) == 2:
                    x, y = rest
                    for a, b in ((x, y), (y, x)):
                        self.cons.append(z3.Implies(self.v(a) == 1, t == self.v(b)))
                        if small:
                            for K in (2, 2**31, 2**32 - 1):
                                self.cons.append(z3.Implies(self.v(a) == K, t == K * self.v(b)))
                            self.cons.append(z3.Implies(self.v(a) >= 1, t >= self.v(b)))
                            la, ha = self.dom.get(a, (0, P - 1))
                            self.cons.append(t <= ha * self.v(b))
                            self.cons.append(t >= la * self.v(b))
            t = self.z[key]
        if bs:
            t = z3.If(z3.And([self.v(x) == 1 for x in bs]), t, z3.IntVal(0))
            lo, hi = min(lo, 0), max(hi, 0)
        return t, lo, hi

    def form(self, p):
        """Integer form of polynomial p with balanced coefficients: (z3 term, lo, hi)."""
        t, lo, hi = [], 0, 0
        for m, c in sorted(p.items()):
            c = sgn(c)
            x, l, h = self.mono(m)
            t.append(c * x)
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        return (z3.Sum(t) if t else z3.IntVal(0)), lo, hi

    def zero(self, p):
        """z3 formula: p vanishes in the field."""
        if not p:
            return z3.BoolVal(True)
        # scaling by the inverse of a coefficient can shrink the range: try unit-leading versions
        best = None
        cands = {1}
        for m, c in p.items():
            if m and m != ():
                cands.add(pow(c, P - 2, P))
        for c in list(cands)[:12]:
            q = pscale(p, c)
            lo = hi = 0
            for m, k in q.items():
                k = sgn(k)
                bs = [x for x in m if x in self.boolean]
                l, h = self.rng(tuple(x for x in m if x not in self.boolean))
                if len([x for x in m if x not in self.boolean]) > 1 and not all(self.dom.get(x, (0, P - 1))[1] < 2**40 for x in m):
                    l, h = 0, P - 1
                if bs:
                    l, h = min(l, 0), max(h, 0)
                lo += min(k * l, k * h)
                hi += max(k * l, k * h)
            if best is None or hi - lo < best[0]:
                best = (hi - lo, q)
        t, lo, hi = self.form(best[1])
        qlo, qhi = -((-lo) // P), hi // P
        if qlo > qhi:
            return z3.BoolVal(False)
        if qlo == qhi:
            return t == qlo * P
        if qhi - qlo <= 3:
            return z3.Or([t == k * P for k in range(qlo, qhi + 1)])
        q = self.new(qlo, qhi, "q")
        return t == q * P

    def split(self, p):
        """p = c + v * rest for a column v: (c, v, rest), or None."""
        ms = [m for m in p if m]
        if not ms:
            return None
        for v in ms[0]:
            if v not in self.boolean and v not in self.atoms and all(v in m for m in ms) and any(len(m) > 1 for m in ms):
                rest = {}
                for m in ms:
                    k = list(m)
                    k.remove(v)
                    rest[tuple(k)] = p[m]
                return p.get((), 0), v, rest
        return None

    def vanishes(self, p):
        """zero(p), using that the field has no zero divisors."""
        s = self.split(p)
        if s is None:
            return self.zero(p)
        c, v, rest = s
        if c == 0:
            return z3.Or(self.zero({(v,): 1}), self.vanishes(rest))
        return z3.And(self.zero(p), self.v(v) != 0, self.notzero(rest))

    def notzero(self, p):
        """z3 formula: p does not vanish in the field."""
        if not p:
            return z3.BoolVal(False)
        t, lo, hi = self.form(p)
        qlo, qhi = -((-lo) // P), hi // P
        if qhi - qlo <= 3:
            return z3.And([t != k * P for k in range(qlo, qhi + 1)])
        q = self.new(lo // P, hi // P, "q")
        r = t - q * P
        return z3.And(r >= 1, r <= P - 1)

    def factors(self, i):
        n = self.air.N[i]
        if n[0] == "*":
            return self.factors(n[1]) + self.factors(n[2])
        if n[0] == "~":
            return self.factors(n[1])
        return [i]

    def holds(self, i):
        """z3 formula: the constraint (node i) is satisfied."""
        fs = []
        for f in self.factors(i):
            p = self.P(f)
            if not p:
                return z3.BoolVal(True)
            if set(p) == {()}:
                continue
            fs.append(p)
        uniq = []
        for p in fs:
            if p not in uniq:
                uniq.append(p)
        return z3.Or([self.vanishes(p) for p in uniq]) if uniq else z3.BoolVal(False)

    def require(self, f, why=None):
        self.cons.append(f)

    def residue(self, p):
        """z3 term: canonical residue of the form (fresh variable in 0..p-1 congruent to it)."""
        t, lo, hi = self.form(p)
        if lo >= 0 and hi < P:
            return t
        r = self.new(0, P - 1, "r")
        q = self.new(lo // P, hi // P, "q")
        self.cons.append(t == r + q * P)
        return r

    def learn_booleans(self, nodes):
        """Columns x with a constraint x*(1-x)=0 are 0/1."""
        for i in nodes:
            fs = [self.air.poly(f, self.env, {}) for f in self.factors(i)]
            fs = [f for f in fs if set(f) != {()}]
            if len(fs) == 2:
                for a, b in (fs, fs[::-1]):
                    if len(a) == 1 and list(a)[0] != () and len(list(a)[0]) == 1:
                        x = list(a)[0][0]
                        c = a[(x,)]
                        if padd(pscale(b, c), {(): c, (x,): -c % P}, -1) == {} or padd(pscale(b, c), {(): -c % P, (x,): c}, -1) == {}:
                            self.bound(x, 0, 1)

    def finish_products(self):
        """Facts about opaque products of forms: a zero factor gives zero; a zero product has a zero factor."""
        for key in list(self.prods):
            if isinstance(key, str) and key in self.z and not getattr(self, "_done_" + key, False):
                a, b = self.atoms[key]
                za, zb = self.zero(a), self.zero(b)
                self.cons.append((self.v(key) == 0) == z3.Or(za, zb))
                setattr(self, "_done_" + key, True)

    def solve(self, extra, timeout=60):
        self.finish_products()
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(*self.cons)
        s.add(*extra)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats["queries"] = self.stats.get("queries", 0) + 1
        self.stats["solver_s"] = self.stats.get("solver_s", 0) + dt
        self.stats["max_query_s"] = max(self.stats.get("max_query_s", 0), dt)
        return r, (s.model() if r == z3.sat else None)
