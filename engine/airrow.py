"""airrow.py: row-level proof obligations over the circuits' tables (uses air.py)."""
import random, time
import z3
from air import Air, Ctx, P, U32, sgn, padd, pscale, pmul


class Fact:
    """A lookup fact of one row: the tuple is in the looked table (when cond holds)."""
    def __init__(self, role, cols, cond=None):
        self.role, self.cols, self.cond = role, cols, cond


def role_of(air, lk):
    looked = [e for e in lk if is_looked(air, e)]
    names = {e[0] for e in looked}
    n = len(lk[0][1])
    for key, r in (("RangeCheck", "u32"), ("RangeCheckU8", "u8"), ("Xor", "xor"), ("Bitshift", "shift"), ("ProgramMult", "rom"), ("Program", "program"), ("HalfWordMemory", "half"), ("FullWordMemory", "full"),
                   ("Register", "reg"), ("CpuSkeleton", "skeleton"), ("TapeCommitments", "commit")):
        if key in names:
            return r
    if "Memory" in names:
        return "mem" if n == 5 else "init"
    if "Cpu" in names:
        return "storage" if n == 4 else "sponge"
    if "Poseidon2Sponge" in names:
        return "perm" if n > 20 else "outbytes"
    return "?" + ",".join(sorted(names))


def is_looked(air, e):
    p = air.poly(e[2], {}, {})
    return bool(p) and all(sgn(c) < 0 for c in p.values())


def lookups_of(air, table):
    """(role, columns, filter node) of every entry where the table looks something up."""
    out = []
    for lk in air.d["lookups"]:
        r = role_of(air, lk)
        for e in lk:
            if e[0] == table and not is_looked(air, e):
                out.append((r, e[1], e[2]))
    return out


class Row:
    """Columns of one table (local row, next row primed) under env, with constraints and facts."""

    def __init__(self, air, table, env, kinds=("always",), stats=None, dom=None, roles=None, extra_nodes=()):
        self.air, self.table, self.env, self.kinds = air, table, dict(env), kinds
        self.stats = stats
        self.nodes = [n for k, n in air.tables[table]["native"] if k in kinds]
        self.dom = dict(dom or {})
        self.facts, self.lemmas = [], []
        for r, cols, f in lookups_of(air, table):
            if roles is not None and r not in roles:
                continue
            p = air.poly(f, self.env, {})
            if not p:
                continue
            self.facts.append((r, cols, f, p))

    def live(self, extra=None):
        """Constraints that do not vanish under env: (node, variables)."""
        env = dict(self.env, **(extra or {}))
        out = []
        for n in self.nodes:
            c = Ctx(self.air, env)
            fs = [self.air.poly(f, env, {}) for f in c.factors(n)]
            if any(not f for f in fs):
                continue
            vs = {v for f in fs for m in f for v in m}
            out.append((n, vs))
        return out

    def ctx(self, nodes, extra=None):
        c = Ctx(self.air, dict(self.env, **(extra or {})), self.stats)
        for x, (lo, hi) in self.dom.items():
            if x not in c.env:
                c.bound(x, lo, hi)
        c.learn_booleans(nodes)
        c.xors, c.shifts, c.emits, c.roms = [], [], [], []
        pend = []
        for r, cols, f, _ in self.facts:
            p = self.air.poly(f, c.env, {})
            if not p:
                continue
            uncond = set(p) == {()} and p[()] == 1
            if r in ("u32", "u8"):
                hi = U32 if r == "u32" else 255
                q = self.air.poly(cols[0], c.env, {})
                if uncond and len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1:
                    c.bound(list(q)[0][0], 0, hi)
                    continue
                pend.append((p, uncond, q, hi))
            elif r == "xor":
                c.xors.append((p, uncond, [self.air.poly(x, c.env, {}) for x in cols]))
                if uncond:
                    for x in c.xors[-1][2]:
                        if len(x) == 1 and list(x.values()) == [1] and len(list(x)[0]) == 1:
                            c.bound(list(x)[0][0], 0, U32)
            elif r == "shift":
                c.shifts.append((p, uncond, [self.air.poly(x, c.env, {}) for x in cols]))
                if uncond:
                    for x, hi in zip(c.shifts[-1][2], (31, 2**31)):
                        if len(x) == 1 and list(x.values()) == [1] and len(list(x)[0]) == 1:
                            c.bound(list(x)[0][0], 0 if hi == 31 else 1, hi)
            else:
                c.emits.append((r, p, uncond, cols))
        for p, uncond, q, hi in pend:
            t = c.new(0, hi, "u")
            qq = {m: k for m, k in q.items()}
            tn = str(t)
            c.z[tn] = t
            c.dom[tn] = (0, hi)
            f = c.zero(padd(qq, {(tn,): 1}, -1))
            c.require(f if uncond else z3.Implies(c.notzero(p), f))
        c.ands = []
        for p, uncond, (a, b, o) in c.xors:
            A = c.new(0, U32, "and")
            c.z[str(A)] = A
            c.dom[str(A)] = (0, U32)
            ta, tb = c.residue(a), c.residue(b)
            fs = [c.zero(padd(padd(padd(a, b), o, -1), {(str(A),): 2}, -1)), A <= ta, A <= tb, ta <= U32, tb <= U32, c.residue(o) <= U32]
            # and with a mask of k ones is the remainder modulo 2^k (lemma checked by and_lemma)
            for k in (5, 8, 16):
                q1, q2 = c.new(0, U32, "d"), c.new(0, U32, "d")
                fs += [z3.Implies(tb == 2**k - 1, z3.And(ta == q1 * 2**k + A, A < 2**k)), z3.Implies(ta == 2**k - 1, z3.And(tb == q2 * 2**k + A, A < 2**k))]
            c.require(z3.And(fs) if uncond else z3.Implies(c.notzero(p), z3.And(fs)))
            c.ands.append((ta, tb, c.residue(o), A))
        for n in nodes:
            c.require(c.holds(n))
        return c

    def cone(self, seeds, hops):
        live = self.live()
        if hops is None:
            return [n for n, _ in live]
        cur, chosen = set(seeds), []
        for _ in range(hops):
            new = set()
            for n, vs in live:
                if n not in chosen and vs & cur:
                    chosen.append(n)
                    new |= vs
            cur |= new
        # 0/1 columns stay 0/1
        for n, vs in live:
            if n not in chosen and len(vs) == 1 and vs <= cur:
                chosen.append(n)
        return chosen


# ---- concrete checks
def conc_row(row, vals):
    """Do the values satisfy every constraint and lookup fact (evaluated on the real expressions)?"""
    air = row.air
    memo = {}
    for n in row.nodes:
        if air.eval(n, vals, memo):
            return "constraint %s" % air.show(n)[:200]
    for x, (lo, hi) in row.dom.items():
        if not lo <= vals[x] <= hi:
            return "range of %s" % x
    for r, cols, f, _ in row.facts:
        fv = air.eval(f, vals, memo)
        if fv == 0:
            continue
        t = [air.eval(c, vals, memo) for c in cols]
        if r == "u32" and t[0] > U32 or r == "u8" and t[0] > 255:
            return "range check %s" % air.show(cols[0])
        if r == "xor" and not (t[0] <= U32 and t[1] <= U32 and t[0] ^ t[1] == t[2]):
            return "xor"
        if r == "shift" and not (t[0] < 32 and t[1] == 1 << t[0]):
            return "shift"
    return None


class Outcome(dict):
    pass


def prove(row, name, seeds, goal, conc_goal, inputs=(), assume=None, budget=60, hops=(1, 2, 3, None), pin=None, conc_assume=None, tries=10):
    """Proves goal(ctx) for every row; goal/assume take a Ctx and return z3 formulas.
    conc_goal(vals): does the goal hold for concrete columns? Returns dict(ok=..., viol=vals or None, why)."""
    t0 = time.time()
    air = row.air
    for h in hops:
        nodes = row.cone(seeds, h)
        c = row.ctx(nodes)
        ex = [assume(c)] if assume else []
        g = goal(c)
        r, m = c.solve(ex + [z3.Not(g)], timeout=budget if h is None else budget / 3)
        if r == z3.unsat:
            return dict(ok=True, hops=h, nodes=len(nodes), s=time.time() - t0)
    if r == z3.unknown:
        why = "solver gave no answer"
    else:
        why = "spurious"
    allc = air.names[row.table]
    cols = set(allc)
    primed = any(v.endswith("'") for n in row.nodes for v in air.vars_of(n)) or any(v.endswith("'") for _, cs, f, _ in row.facts for x in list(cs) + [f] for v in air.vars_of(x))
    if primed:
        cols |= {x + "'" for x in allc}
    for n in row.nodes:
        cols |= {v for v in air.vars_of(n)}
    rnd = random.Random(1)
    special = [0, 1, 2, 3, 5, 31, 32, 255, 256, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 2, 7]

    def values(m, c, base):
        vals = {}
        for x in cols:
            if x in c.env:
                vals[x] = c.env[x] % P
            elif m is not None and x in c.z:
                v = m.eval(c.z[x], model_completion=True).as_long()
                vals[x] = v % P
            else:
                lo, hi = c.dom.get(x, (0, P - 1))
                vals[x] = lo
        for x in c.z:
            if x.startswith("rom.") and m is not None:
                vals[x] = m.eval(c.z[x], model_completion=True).as_long()
        return vals

    def good(vals):
        e = conc_row(row, vals)
        if e:
            return e
        if conc_assume and not conc_assume(vals):
            return "assumption"
        if conc_goal(vals):
            return "goal holds"
        return None

    def attempt(extra, tm=20):
        c = row.ctx([n for n, _ in row.live(extra)], extra)
        # constants that violate a constraint are refuted by holds() = False
        ex = [assume(c)] if assume else []
        g = goal(c)
        r, m = c.solve(ex + [z3.Not(g)], timeout=tm)
        return c, r, m

    last = [why]
    deadline = time.time() + max(40, budget)
    count = [0]

    def propagate(env):
        """Solves constraints with one unknown column that occurs linearly."""
        env = dict(env)
        while True:
            full = dict(row.env, **env)
            new = {}
            for n in row.nodes:
                c_ = Ctx(air, full)
                fs = [air.poly(f, full, {}) for f in c_.factors(n)]
                if any(not f for f in fs):
                    continue
                fs = [f for f in fs if set(f) != {()}]
                if not fs:
                    return None
                if len(fs) == 1:
                    f = fs[0]
                    vs = {v for mo in f for v in mo}
                    if len(vs) == 1 and all(len(mo) <= 1 for mo in f):
                        x = vs.pop()
                        if x not in new and x in cols:
                            new[x] = (-f.get((), 0) * pow(f[(x,)], P - 2, P)) % P
            if not new:
                return env
            env.update(new)

    def search(env, depth):
        if time.time() > deadline or count[0] > 150:
            return None
        env = propagate(env)
        if env is None:
            return None
        count[0] += 1
        c, r, m = attempt(env)
        if r != z3.sat:
            last[0] = "fixing gave %s" % r
            return None
        vals = values(m, c, None)
        e = good(vals)
        if e is None:
            return vals
        last[0] = e
        nl = {x for pr in c.prods for x in (pr if isinstance(pr, tuple) else [v for f in c.atoms[pr] for mo in f for v in mo])}
        nl = [x for x in nl if x in cols and x not in c.env]
        if not nl or depth > 14:
            rest = [x for x in cols if x not in c.env and x in c.z]
            return None
        unb = {x for x in nl if c.dom.get(x, (0, P - 1)) == (0, P - 1)}
        nl.sort(key=lambda x: (x not in inputs, x in unb, x))
        x = nl[0]
        lo, hi = c.dom.get(x, (0, P - 1))
        for v in dict.fromkeys([vals[x], 0, 1, 2, 2**32 - 1, 2**31]):
            if lo <= v <= hi:
                r = search(dict(env, **{x: v}), depth + 1)
                if r is not None:
                    return r
                if time.time() > deadline or count[0] > 150:
                    return None
        return None

    for k in range(tries):
        if time.time() > deadline:
            break
        count[0] = 0
        start = {}
        if k:
            for x in inputs:
                if x in row.env:
                    continue
                lo, hi = row.dom.get(x, (0, P - 1))
                v = rnd.choice(special) if rnd.random() < .7 else rnd.randrange(2**32)
                start[x] = v if lo <= v <= hi else rnd.randint(lo, hi)
            for x in inputs:
                if x in start and rnd.random() < .45:
                    del start[x]
        vals = search(start, 0)
        if vals is not None:
            return dict(ok=False, viol=vals, s=time.time() - t0)
    return dict(ok=None, why="%s; last: %s" % (why, last[0]), s=time.time() - t0)
