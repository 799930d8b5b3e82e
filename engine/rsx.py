"""Path-forking symbolic executor for LLVM IR produced from the real Rust code.

Every input is an SMT variable; a path forks where both outcomes of a branch are
satisfiable; each `rsx_check` is discharged by asking the solver for a
counterexample under the path condition.
"""
import bisect, re, sys, time, json, os
import z3
import terms as t
from terms import T
import llir
from llir import sizeof, layout, P, tokenize

SH = 34
MID = 1 << 33
FNB = (1 << 29) << SH  # function addresses


class NeedFork(Exception):
    def __init__(self, c):
        self.c = c


class PathEnd(Exception):
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg


class Obj:
    __slots__ = ("data", "own", "ro", "name")


class Frame:
    __slots__ = ("fn", "R", "code", "ip", "blk", "ret", "allocas", "visits")


class State:
    __slots__ = ("stack", "mem", "own", "pc", "known", "model", "inputs", "ufs", "nid", "mode", "covers", "nsym", "tr")

    def clone(self):
        s = State()
        s.stack = []
        for f in self.stack:
            g = Frame()
            g.fn = f.fn
            g.R = f.R[:]
            g.code = f.code
            g.ip = f.ip
            g.blk = f.blk
            g.ret = f.ret
            g.allocas = f.allocas[:]
            g.visits = dict(f.visits)
            s.stack.append(g)
        s.mem = dict(self.mem)
        s.own = object()
        self.own = object()
        s.pc = self.pc[:]
        s.known = dict(self.known)
        s.model = self.model
        s.inputs = self.inputs[:]
        s.ufs = self.ufs[:]
        s.nid = self.nid
        s.mode = self.mode
        s.covers = set(self.covers)
        s.nsym = self.nsym
        s.tr = self.tr[:]
        return s


class Model:
    def __init__(self, zm=None):
        self.memo = {}
        self.zm = zm
        self.vals = {}
        self.fns = set()
        self.ufm = {}
        if zm is not None:
            for d in zm.decls():
                if d.arity() == 0:
                    v = zm[d]
                    self.vals[d.name()] = v.as_long() if z3.is_bv_value(v) else (1 if z3.is_true(v) else 0)
                else:
                    self.fns.add(d.name())

    def ev(self, x):
        if type(x) is int:
            return x
        return t.evaluate(x, lambda v: self.vals.get(v.a[0], 0), self.memo, self.uf)

    def uf(self, x):
        name, idx, args = x.a
        av = tuple(self.ev(a) for a in args)
        k = (name, idx, av)
        r = self.ufm.get(k)
        if r is None:
            key = (name, idx, len(args))
            fname = "uf_%s_%d_%d" % key
            if fname in self.fns:
                f = t._ufs[key]
                r = self.zm.eval(f(*[z3.BitVecVal(v, 64) for v in av]), True).as_long()
            else:
                h = 0xcbf29ce484222325
                for v in (hash(name) & 0xffff, idx) + av:
                    h = ((h ^ (v & t.mask(64))) * 0x9E3779B97F4A7C15 + 0x7f4a7c15) & t.mask(64)
                    h ^= h >> 29
                r = (h % 0xffffffff00000001) & t.mask(x.w)
            self.ufm[k] = r
        return r


class Solver:
    def __init__(self, stats, hard_timeout=120):
        self.s = z3.SolverFor("QF_UFBV") if False else z3.Solver()
        self.s.set("timeout", 4000)
        self.cur = []
        self.stats = stats
        self.hard = hard_timeout
        self.cache = {}

    def query(self, pc, extra):
        """sat model / None (unsat) / 'unknown'"""
        key = (tuple(sorted(c.n for c in pc)), extra.n if type(extra) is T else extra)
        if key in self.cache:
            self.stats["cached"] = self.stats.get("cached", 0) + 1
            return self.cache[key]
        t0 = time.time()
        i = 0
        cur = self.cur
        n = min(len(cur), len(pc))
        while i < n and cur[i] is pc[i]:
            i += 1
        if len(cur) > i:
            self.s.pop(len(cur) - i)
            del cur[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(t.zb(c))
            cur.append(c)
        self.s.push()
        self.s.add(t.zb(extra))
        r = self.s.check()
        res = None
        if r == z3.sat:
            res = Model(self.s.model())
        elif r == z3.unknown:
            res = "unknown"
        self.s.pop()
        if res == "unknown":
            res = self.hard_query(pc, extra)
        self.stats["queries"] += 1
        dt = time.time() - t0
        self.stats["solver_s"] += dt
        if dt > self.stats["max_query_s"]:
            self.stats["max_query_s"] = dt
        self.cache[key] = res
        return res

    def hard_query(self, pc, extra):
        self.stats["hard"] += 1
        # relevant constraints only (shared variables)
        cons = [t.zb(c) for c in pc] + [t.zb(extra)]
        for tac in ("qfbv", "smt"):
            s = z3.Then("simplify", "solve-eqs", "elim-uncnstr", "reduce-bv-size", "simplify", "max-bv-sharing", "ackermannize_bv", "bit-blast", "sat").solver() if tac == "qfbv" else z3.Solver()
            s.set("timeout", self.hard * 1000)
            for c in cons:
                s.add(c)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                return None
            if r == z3.sat:
                try:
                    return Model(s.model())
                except z3.Z3Exception:
                    pass
        return "unknown"


PANIC = re.compile(r"core9panicking|core6option13(unwrap|expect)_failed|core6result13unwrap_failed|slice_(start|end)_index|slice5index\d*slice_|handle_alloc_error|raw_vec12handle_error|raw_vec17capacity_overflow|begin_panic|rust_panic|panic_access_error|core4cell\d+panic_|copy_from_slice17len_mismatch_fail|len_mismatch_fail|panic_already|core3str16slice_error_fail|panic_in_cleanup|vec6remove13assert_failed|swap_remove13assert_failed|vec6insert13assert_failed|split_off13assert_failed|split_at|array_chunks|clone_from_slice")
NOOP = re.compile(r"llvm\.(lifetime|dbg|experimental\.noalias|assume|donothing|prefetch|invariant|var\.annotation|stacksave|stackrestore)|__rust_no_alloc_shim")


class Engine:
    def __init__(self, mod, max_paths=200000, max_instr=50_000_000, deadline=None, max_visits=20000, hard_timeout=120, max_viol=4):
        self.m = mod
        self.stats = dict(queries=0, solver_s=0.0, max_query_s=0.0, hard=0, paths=0, instrs=0, forks=0)
        self.solver = Solver(self.stats, hard_timeout)
        self.work = []
        self.viol = []
        self.incon = []
        self.covers = set()
        self.discharged = {}
        self.trivial = {}
        self.ends = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.gaddr = {}
        self.gmem = {}
        self.seen_blocks = set()
        self.dbg = set()
        self.max_paths = max_paths
        self.max_instr = max_instr
        self.deadline = deadline
        self.max_visits = max_visits
        self.max_viol = max_viol
        self.panicked = set()
        self.must_panic = False
        self.hooks = {}
        self.gid = 1
        self.samples = []

    # ------------------------------------------------------------ globals
    def fn_address(self, name):
        a = self.fnaddr.get(name)
        if a is None:
            a = FNB + 16 * (len(self.fnaddr) + 1)
            self.fnaddr[name] = a
            self.addrfn[a] = name
        return a

    def global_address(self, name):
        name = self.m.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.m.fns or name in self.m.decl:
            return self.fn_address(name)
        ty, init, const, al = self.m.globals[name]
        self.gid += 1
        a = (self.gid << SH) + MID
        self.gaddr[name] = a
        o = Obj()
        o.own = None
        o.ro = const
        o.name = name
        o.data = [0] * sizeof(ty)
        self.init(o.data, 0, ty, init)
        self.gmem[self.gid] = o
        return a

    def init(self, d, off, ty, v):
        k = v[0]
        if k in ("z",):
            return
        if k == "u":
            n = sizeof(ty)
            d[off:off + n] = [None] * n
            return
        if k == "str":
            d[off:off + len(v[1])] = list(v[1])
            return
        if k == "agg":
            if ty[0] == "st":
                offs = layout(ty)[1]
                for (o, (et, ev)) in zip(offs, v[1]):
                    self.init(d, off + o, et, ev)
            else:
                sz = sizeof(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init(d, off + i * sz, et, ev)
            return
        n = sizeof(ty)
        c = self.const(ty, v)
        d[off:off + n] = list((c & t.mask(8 * n)).to_bytes(n, "little"))

    def const(self, ty, v):
        k = v[0]
        if k == "c":
            if ty[0] == "i":
                return v[1] & t.mask(ty[1])
            return v[1] & t.mask(64)
        if k == "g":
            return self.global_address(v[1])
        if k in ("u", "z"):
            if ty[0] == "st":
                return tuple(self.const(x, v) for x in ty[2])
            if ty[0] in ("arr", "vec"):
                return tuple(self.const(ty[2], v) for _ in range(ty[1]))
            return 0
        if k == "agg":
            return tuple(self.const(et, ev) for (et, ev) in v[1])
        if k == "str":
            return tuple(v[1])
        if k == "ce":
            if v[1] == "gep":
                bt, args = v[2], v[3]
                base = self.const(*args[0])
                return (base + self.gep_const(bt, [self.const(a, b) for (a, b) in args[1:]], [a for (a, b) in args[1:]])) & t.mask(64)
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.const(v[2], v[3])
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            w = v[2][1]
            return {"add": a + b, "sub": a - b, "xor": a ^ b}[v[1]] & t.mask(w)
        raise NotImplementedError(v)

    def gep_const(self, bt, idx, tys):
        off = t.sgn(idx[0], tys[0][1]) * sizeof(bt)
        ty = bt
        for i, it in zip(idx[1:], tys[1:]):
            if ty[0] == "st":
                off += layout(ty)[1][i]
                ty = ty[2][i]
            else:
                ty = ty[2]
                off += t.sgn(i, it[1]) * sizeof(ty)
        return off

    # ------------------------------------------------------------ memory
    def new(self, S, size, name="heap"):
        S.nid += 1
        o = Obj()
        o.data = [None] * size
        o.own = S.own
        o.ro = False
        o.name = name
        S.mem[S.nid] = o
        return (S.nid << SH) + MID

    def split(self, S, addr):
        """address -> (object id, offset int|T)"""
        if type(addr) is int:
            return addr >> SH, (addr & ((1 << SH) - 1)) - MID
        x = addr
        if x.op == "ite":
            raise NeedFork(x.a[0])
        if x.op == "add" and type(x.a[1]) is int:
            c = x.a[1]
            i = c >> SH
            if i:
                off = t.add(x.a[0], (c - ((i << SH) + MID)) & t.mask(64), 64)
                return i, off
        if x.op == "cat":
            c = 0
            ps = []
            for (pw, v) in x.a:
                k = v if type(v) is int else 0
                c = (c << pw) | k
                ps.append((pw, 0 if type(v) is int else v))
            i = c >> SH
            if i:
                return i, t.add(t.cat(ps), (c - ((i << SH) + MID)) & t.mask(64), 64)
        # base hidden in an ite / variable sum: case split on its value
        f = self.find_ite(addr)
        if f is not None and f not in S.known:
            raise NeedFork(f)
        return self.split(S, self.conc(S, addr))

    def find_ite(self, x):
        st = [x]
        while st:
            y = st.pop()
            if type(y) is int:
                continue
            if y.op == "ite":
                return y.a[0]
            if y.op in ("add", "neg"):
                st.extend(y.a)
        return None

    def obj(self, S, i):
        o = S.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
            if o is None:
                raise PathEnd("memory", "access to no object (id %d)" % i)
        return o

    def wobj(self, S, i):
        o = self.obj(S, i)
        if o.own is not S.own:
            if o.ro:
                raise PathEnd("memory", "write to constant")
            n = Obj()
            n.data = o.data[:]
            n.own = S.own
            n.ro = False
            n.name = o.name
            S.mem[i] = n
            return n
        return o

    def known(self, S, x):
        """simplify an ite by the facts of this path"""
        while type(x) is not int and x.op == "ite":
            k = S.known.get(x.a[0])
            if k is None:
                break
            x = x.a[1] if k else x.a[2]
        return x

    def raddr(self, S, a):
        if type(a) is int:
            return a
        k = S.known
        if not k:
            return a
        b = self.resolve(S, a)
        return b

    def resolve(self, S, x):
        if type(x) is int:
            return x
        v = S.known.get(("val", x))
        if v is not None:
            return v
        if x.op == "ite":
            c = S.known.get(x.a[0])
            if c is not None:
                return self.resolve(S, x.a[1] if c else x.a[2])
            return x
        if x.op == "add":
            return t.add(self.resolve(S, x.a[0]), self.resolve(S, x.a[1]), 64)
        if x.op == "neg":
            return t.neg(self.resolve(S, x.a[0]), 64)
        return x

    def pmax(self, S, x, step):
        """upper bound of x on this path"""
        um = t.umax(x)
        if um // step <= 40:
            return um
        k = S.known.get(("ub", x))
        if k is not None:
            return k
        lo, hi = S.model.ev(x), um  # invariant: max in [lo, hi]
        if hi > 1 << 20:
            r = self.solver.query(S.pc, t.ult(1 << 20, x, 64))
            if r is not None:
                S.known[("ub", x)] = um
                return um
            hi = 1 << 20
        while lo < hi:
            mid = (lo + hi) // 2
            r = self.solver.query(S.pc, t.ult(mid, x, 64))
            if r is None:
                hi = mid
            elif type(r) is str:
                break
            else:
                lo = max(mid + 1, r.ev(x))
        S.known[("ub", x)] = hi
        return hi

    def cands(self, S, off, size, n):
        al = t.align_of(off if type(off) is not int else 0)
        step = 1 << min(al, 12)
        if off.op == "add" and type(off.a[1]) is int:
            st2 = 1 << min(t.align_of(off.a[0]), 12)
            if st2 > step:
                base = off.a[1] % st2
                cs = list(range(base, size - n + 1, st2))
            else:
                cs = list(range(0, size - n + 1, step))
            um = self.pmax(S, off.a[0], step)
            lo = off.a[1]
            if lo < (1 << 62):
                cs = [c for c in cs if lo <= c <= lo + um]
        else:
            um = self.pmax(S, off, step)
            cs = list(range(0, min(size - n, um) + 1, step))
        if len(cs) > 520:
            cs = [self.conc(S, off)]
        k = t.ule(off, size - n, 64) if size >= n else 0
        if k != 1 and S.known.get(k) != 1:
            r = self.solver.query(S.pc, t.not_(k))
            if r is not None:
                if r == "unknown":
                    raise PathEnd("unknown", "bounds query")
                S.model = r
                raise PathEnd("memory", "symbolic access out of bounds")
            S.known[k] = 1
        return cs

    def load(self, S, addr, ty):
        k = ty[0]
        if k == "st":
            offs = layout(ty)[1]
            return tuple(self.load(S, t.add(addr, o, 64), x) for o, x in zip(offs, ty[2]))
        if k == "arr":
            sz = sizeof(ty[2])
            return tuple(self.load(S, t.add(addr, i * sz, 64), ty[2]) for i in range(ty[1]))
        if k == "i":
            w = ty[1]
            n = (w + 7) // 8
        elif k == "ptr":
            w = 64
            n = 8
        else:
            raise PathEnd("unsupported", "load of %r" % (ty,))
        addr = self.raddr(S, addr)
        i, off = self.split(S, addr)
        o = self.obj(S, i)
        d = o.data
        if type(off) is int:
            if off < 0 or off + n > len(d):
                raise PathEnd("memory", "load out of bounds: %s+%d (%d bytes of %d)" % (o.name, off, n, len(d)))
            v = rd(d, off, n)
        else:
            cs = self.cands(S, off, len(d), n)
            if not cs:
                raise PathEnd("memory", "no candidate")
            v = rd(d, cs[0], n)
            for c in cs[1:]:
                v = t.ite(t.eq(off, c, 64), rd(d, c, n), v, 8 * n)
        if w != 8 * n:
            v = t.ext(v, 0, w)
        return v

    def store(self, S, addr, ty, v):
        k = ty[0]
        if k == "st":
            for o, x, e in zip(layout(ty)[1], ty[2], v):
                self.store(S, t.add(addr, o, 64), x, e)
            return
        if k == "arr":
            sz = sizeof(ty[2])
            for j in range(ty[1]):
                self.store(S, t.add(addr, j * sz, 64), ty[2], v[j])
            return
        if k == "i":
            w = ty[1]
        elif k == "ptr":
            w = 64
        else:
            raise PathEnd("unsupported", "store of %r" % (ty,))
        n = (w + 7) // 8
        if w != 8 * n:
            v = t.zext(v, w, 8 * n)
        addr = self.raddr(S, addr)
        i, off = self.split(S, addr)
        if type(off) is int:
            o = self.wobj(S, i)
            d = o.data
            if off < 0 or off + n > len(d):
                raise PathEnd("memory", "store out of bounds: %s+%d (%d bytes of %d)" % (o.name, off, n, len(d)))
            wr(d, off, n, v)
        else:
            cs = self.cands(S, off, len(self.obj(S, i).data), n)
            d = self.wobj(S, i).data
            for c in cs:
                wr(d, c, n, t.ite(t.eq(off, c, 64), v, rd(d, c, n), 8 * n))

    def conc(self, S, x, w=64):
        """concrete value of x on this path (forks)"""
        if type(x) is int:
            return x
        v = S.known.get(("val", x))
        if v is not None:
            return v
        x2 = self.resolve(S, x)
        if type(x2) is int:
            return x2
        v = S.model.ev(x)
        c = t.eq(x, v, w)
        k = S.known.get(c)
        if k == 1 or c == 1:
            S.known[("val", x)] = v
            return v
        raise NeedFork(c)

    def rng(self, S, addr, n):
        """concrete-length byte range"""
        addr = self.raddr(S, addr)
        i, off = self.split(S, addr)
        if type(off) is not int:
            off = self.conc(S, off)
            off = t.sgn(off, 64)
        o = self.obj(S, i)
        if off < 0 or off + n > len(o.data):
            raise PathEnd("memory", "range out of bounds: %s+%d..%d of %d" % (o.name, off, n, len(o.data)))
        return i, off, o

    def rdbytes(self, S, addr, n):
        if n == 0:
            return []
        i, off, o = self.rng(S, addr, n)
        return [rd(o.data, off + k, 1) for k in range(n)]

    # ------------------------------------------------------------ paths
    def fork(self, S, c):
        self.stats["forks"] += 1
        val = S.model.ev(c)
        other = t.not_(c) if val else c
        mine = c if val else t.not_(c)
        r = self.solver.query(S.pc, other)
        if r is None:
            self.learn(S, c, val)
            return
        if isinstance(r, str):
            self.incon.append("branch feasibility unknown")
            S.pc.append(mine)
            self.learn(S, c, val)
            return
        S2 = S.clone()
        S2.model = r
        S2.pc.append(other)
        self.learn(S2, c, 1 - val)
        S.pc.append(mine)
        self.learn(S, c, val)
        self.work.append(S2)

    def learn(self, S, c, v):
        k = S.known
        k[c] = v
        k[t.not_(c)] = 1 - v
        if v and c.op == "and":
            self.learn2(S, c.a[0], 1)
            self.learn2(S, c.a[1], 1)
        elif not v and c.op == "or":
            self.learn2(S, c.a[0], 0)
            self.learn2(S, c.a[1], 0)
        elif v and c.op == "eq" and type(c.a[1]) is int:
            k[("val", c.a[0])] = c.a[1]

    def learn2(self, S, c, v):
        if type(c) is not int:
            self.learn(S, c, v)

    def truth(self, S, c):
        if type(c) is int:
            return c
        v = S.known.get(c)
        if v is not None:
            return v
        raise NeedFork(c)

    def assume(self, S, c):
        if type(c) is int:
            if not c:
                raise PathEnd("assume")
            return
        k = S.known.get(c)
        if k is not None:
            if not k:
                raise PathEnd("assume")
            return
        if S.model.ev(c):
            S.pc.append(c)
            self.learn(S, c, 1)
            return
        r = self.solver.query(S.pc, c)
        if r is None:
            raise PathEnd("assume")
        if isinstance(r, str):
            raise PathEnd("unknown", "assume")
        S.model = r
        S.pc.append(c)
        self.learn(S, c, 1)

    def check(self, S, c, ident):
        if type(c) is int:
            if c:
                self.trivial[ident] = self.trivial.get(ident, 0) + 1
                return
            raise PathEnd("violation", "check %s" % ident)
        if S.known.get(c) == 1:
            self.trivial[ident] = self.trivial.get(ident, 0) + 1
            return
        if not S.model.ev(c):
            raise PathEnd("violation", "check %s" % ident)
        r = self.solver.query(S.pc, t.not_(c))
        if r is None:
            self.discharged[ident] = self.discharged.get(ident, 0) + 1
            self.learn(S, c, 1)
            return
        if isinstance(r, str):
            raise PathEnd("unknown", "check %s" % ident)
        S.model = r
        raise PathEnd("violation", "check %s" % ident)

    def finish(self, S, kind, msg):
        if kind == "panic" and S.mode:
            kind = "panic-allowed"
            self.panicked.add(S.mode)
        self.ends[kind] = self.ends.get(kind, 0) + 1
        self.stats["paths"] += 1
        if kind in ("violation", "panic", "memory", "unreachable"):
            self.viol.append(dict(kind=kind, msg=msg, inputs=[(w, S.model.ev(x)) for (x, w) in S.inputs],
                                  ufs=[(tag, [S.model.ev(a) for a in args], [S.model.ev(o) for o in outs]) for (tag, args, outs) in S.ufs],
                                  trace=[f.fn.name for f in S.stack]))
        elif kind in ("unknown", "unsupported", "bound"):
            self.incon.append("%s: %s [%s]" % (kind, msg, " < ".join(f.fn.name[:60] for f in reversed(S.stack[-3:]))))
        elif kind in ("done", "panic-allowed") and len(self.samples) < 3:
            self.samples.append(dict(kind=kind, inputs=[S.model.ev(x) for (x, w) in S.inputs],
                                     ufs=[(tag, [S.model.ev(a) for a in args], [S.model.ev(o) for o in outs]) for (tag, args, outs) in S.ufs]))
        if kind in ("done", "panic-allowed"):
            self.covers |= S.covers

    def run(self, entry, split=1):
        S = State()
        S.stack = []
        S.mem = {}
        S.own = object()
        S.pc = []
        S.known = {}
        S.model = Model()
        S.inputs = []
        S.ufs = []
        S.nid = 1 << 20
        S.mode = 0
        S.covers = set()
        S.nsym = 0
        S.tr = []
        self.push(S, self.m.fns[entry], [], None)
        self.work = [S]
        self.loop(split)

    def loop(self, split=1):
        while self.work:
            if split > 1 and len(self.work) >= 3 * split:
                return self.fan_out(split)
            if len(self.viol) >= self.max_viol:
                break
            if self.deadline and time.time() > self.deadline:
                self.incon.append("deadline reached with %d paths pending" % len(self.work))
                break
            if self.stats["paths"] > self.max_paths:
                self.incon.append("path limit")
                break
            S = self.work.pop(0) if split > 1 else self.work.pop()
            try:
                self.exec(S)
                self.finish(S, "done", "")
            except PathEnd as e:
                self.finish(S, e.kind, e.msg)

    def fan_out(self, n):
        """Continue the pending paths in n processes and merge what they found."""
        import pickle
        work, kids = self.work, []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for q in kids:
                        os.close(q[1])
                    base = dict(self.stats)
                    b_ends, b_dis, b_tri = dict(self.ends), dict(self.discharged), dict(self.trivial)
                    nv, ni = len(self.viol), len(self.incon)
                    self.work = work[k::n]
                    self.loop()
                    sub = lambda a, b: {x: a[x] - b.get(x, 0) for x in a}
                    st = sub(self.stats, base)
                    st["max_query_s"] = self.stats["max_query_s"]
                    out = dict(viol=self.viol[nv:], incon=self.incon[ni:], covers=self.covers, panicked=self.panicked, must=self.must_panic,
                               ends=sub(self.ends, b_ends), dis=sub(self.discharged, b_dis), tri=sub(self.trivial, b_tri), stats=st, dbg=self.dbg, samples=self.samples)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                    code = 0
                except BaseException as ex:
                    sys.stderr.write("rsx worker: %r\n" % (ex,))
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        add = lambda a, b: a.update({x: a.get(x, 0) + b[x] for x in b})
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                raw = f.read()
            os.waitpid(pid, 0)
            try:
                o = pickle.loads(raw)
            except Exception:
                self.incon.append("a worker process died")
                continue
            self.viol += o["viol"]
            self.incon += o["incon"]
            self.covers |= o["covers"]
            self.panicked |= o["panicked"]
            self.must_panic |= o["must"]
            self.dbg |= o["dbg"]
            self.samples = (self.samples + o["samples"])[:3]
            add(self.ends, o["ends"])
            add(self.discharged, o["dis"])
            add(self.trivial, o["tri"])
            mq = max(self.stats["max_query_s"], o["stats"].pop("max_query_s"))
            add(self.stats, o["stats"])
            self.stats["max_query_s"] = mq
        self.work = []

    def exec(self, S):
        stats = self.stats
        cnt = 0
        stack = S.stack
        dl = self.deadline
        while stack:
            fr = stack[-1]
            code = fr.code
            ip = fr.ip
            R = fr.R
            ip0 = ip
            try:
                while True:
                    x = code[ip](S, R)
                    ip += 1
                    if x is not None:
                        break
                stats["instrs"] += ip - ip0
                if x == 1:
                    fr.ip = ip
                cnt += 1
                if cnt & 1023 == 0 and dl and time.time() > dl:
                    raise PathEnd("bound", "deadline inside a path")
            except NeedFork as e:
                fr.ip = ip
                if S.stack[-1] is not fr:
                    raise RuntimeError("fork after frame change")
                self.fork(S, e.c)
            if stats["instrs"] > self.max_instr:
                raise PathEnd("bound", "instruction limit")

    def push(self, S, fn, args, ret):
        c = fn.compiled
        if c is None:
            c = fn.compiled = Compiler(self, fn).go()
        fr = Frame()
        fr.fn = fn
        fr.R = R = c.template[:]
        for i, v in zip(c.params, args):
            R[i] = v
        fr.blk = 0
        fr.code = c.blocks[0]
        fr.ip = 0
        fr.ret = ret
        fr.allocas = []
        fr.visits = {}
        S.stack.append(fr)
        if len(S.stack) > 400:
            raise PathEnd("bound", "call depth")
        k = (fn.name, 0)
        if k not in self.seen_blocks:
            self.seen_blocks.add(k)
            self.dbg |= c.dbg[0]


_bc = {}


def bytes_of(v, n):
    r = _bc.get(v)
    if r is None or len(r) != n:
        r = _bc[v] = [(v, k) for k in range(n)]
    return r


def wr(d, off, n, v):
    if type(v) is int:
        d[off:off + n] = v.to_bytes(n, "little")
    else:
        d[off:off + n] = bytes_of(v, n)


def rd(d, off, n):
    if n == 1:
        b = d[off]
        if type(b) is int:
            return b
        if b is None:
            return 0
        return t.ext(b[0], 8 * b[1], 8)
    sl = d[off:off + n]
    try:
        return int.from_bytes(bytes(sl), "little")
    except TypeError:
        pass
    b = sl[0]
    if type(b) is tuple and b[1] == 0 and b[0].w == 8 * n:
        x = b[0]
        for k in range(1, n):
            e = sl[k]
            if type(e) is not tuple or e[0] is not x or e[1] != k:
                break
        else:
            return x
    ps = []
    for b in reversed(sl):
        if b is None:
            ps.append((8, 0))
        elif type(b) is int:
            ps.append((8, b))
        else:
            ps.append((8, t.ext(b[0], 8 * b[1], 8)))
    return t.cat(ps)


BIN = {"add": t.add, "sub": t.sub, "mul": t.mul, "udiv": t.udiv, "sdiv": t.sdiv, "urem": t.urem, "srem": t.srem,
       "and": t.and_, "or": t.or_, "xor": t.xor, "shl": t.shl, "lshr": t.lshr, "ashr": t.ashr}
CMP = {"eq": (t.eq, 0), "ne": (t.ne, 0), "ult": (t.ult, 0), "ule": (t.ule, 0), "ugt": (t.ult, 1), "uge": (t.ule, 1),
       "slt": (t.slt, 0), "sle": (t.sle, 0), "sgt": (t.slt, 1), "sge": (t.sle, 1)}


class Compiled:
    __slots__ = ("template", "params", "blocks", "dbg", "names")


def bw(ty):
    return 64 if ty[0] == "ptr" else ty[1]


class Compiler:
    def __init__(self, eng, fn):
        self.e = eng
        self.fn = fn
        self.names = {}
        self.consts = []
        self.cidx = {}

    def reg(self, name):
        i = self.names.get(name)
        if i is None:
            i = self.names[name] = len(self.names)
        return i

    def opnd(self, p, ty):
        """operand -> register index (constants are placed after the registers)"""
        v = p.value(ty)
        return self.slot(ty, v)

    def slot(self, ty, v):
        if v[0] == "r":
            return self.reg(v[1])
        c = self.e.const(ty, v)
        k = (c, type(c))
        i = self.cidx.get(k)
        if i is None:
            i = self.cidx[k] = -1 - len(self.consts)
            self.consts.append(c)
        return i

    def go(self):
        fn = self.fn
        n = 0
        for (ty, nm) in fn.params:
            if nm is None:
                nm = str(n)
            self.reg(nm)
            if nm.isdigit():
                n = int(nm) + 1
        # join multi-line instructions (switch)
        lines = []
        buf = None
        for l in fn.lines:
            if buf is not None:
                buf += " " + l.strip()
                if l.strip().startswith("]"):
                    lines.append(buf)
                    buf = None
                continue
            if re.match(r"\s+switch .*\[\s*$", l):
                buf = l.rstrip()
                continue
            lines.append(l)
        blocks = []
        cur = None
        for l in lines:
            m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
            if m:
                cur = (m.group(1).strip('"'), [])
                blocks.append(cur)
                continue
            if l.strip().startswith(";"):
                continue
            if cur is None:
                cur = (str(n), [])
                blocks.append(cur)
            cur[1].append(l)
        self.bidx = {b[0]: i for i, b in enumerate(blocks)}
        self.phis = [[] for _ in blocks]  # (dst, {pred: slot})
        parsed = []
        for bi, (nm, ls) in enumerate(blocks):
            out = []
            dbg = set()
            for l in ls:
                m = re.search(r", !dbg !(\d+)", l)
                if m:
                    dbg.add(m.group(1))
                l = re.sub(r", ![-\w.]+ !\d+", "", l)
                l = re.sub(r", ![-\w.]+ !\{\}", "", l)
                toks = tokenize(l)
                dst = None
                if len(toks) > 1 and toks[1] == "=":
                    dst = toks[0][1:]
                    toks = toks[2:]
                p = P(toks, self.e.m)
                op = p.next()
                if op == "phi":
                    ty = p.type()
                    src = {}
                    while True:
                        p.expect("[")
                        v = p.value(ty)
                        p.expect(",")
                        b = p.next()[1:]
                        p.expect("]")
                        src[self.bidx[b]] = self.slot(ty, v)
                        if not p.eat(","):
                            break
                    self.phis[bi].append((self.reg(dst), src))
                else:
                    out.append((op, dst, p, bi))
            parsed.append((out, dbg))
        code = []
        for out, dbg in parsed:
            code.append([self.ins(op, dst, p, bi) for (op, dst, p, bi) in out])
        c = Compiled()
        # negative slots index from the end of the register file
        c.template = [0] * len(self.names) + list(reversed(self.consts))
        c.params = list(range(len(fn.params)))
        c.blocks = code
        c.dbg = [d for _, d in parsed]
        if fn.dbg:
            c.dbg[0] = c.dbg[0] | {"S" + fn.dbg}
        c.names = self.names
        fn.compiled = c
        self.c = c
        return c

    def jump(self, frm, to):
        """closure performing a jump"""
        phis = [(d, src[frm]) for (d, src) in self.phis[to]]
        blocks = None
        me = self
        eng = self.e
        key = (self.fn.name, to)
        dsts = [d for d, _ in phis]
        srcs = [s for _, s in phis]
        back = to <= frm
        mv = eng.max_visits

        def go(S, R):
            fr = S.stack[-1]
            if dsts:
                vals = [R[s] for s in srcs]
                for d, v in zip(dsts, vals):
                    R[d] = v
            if key not in eng.seen_blocks:
                eng.seen_blocks.add(key)
                eng.dbg |= me.c.dbg[to]
            if back:
                v = fr.visits
                n = v.get(to, 0) + 1
                v[to] = n
                if n > mv:
                    raise PathEnd("bound", "loop bound %d" % mv)
            fr.code = me.c.blocks[to]
            fr.ip = 0
            return 2

        return go

    def ins(self, op, dst, p, bi):
        try:
            return self.ins_(op, dst, p, bi)
        except (NotImplementedError, SyntaxError, KeyError, AssertionError) as ex:
            msg = "%s %s: %s" % (op, " ".join(p.t)[:200], ex)

            def f(S, R):
                raise PathEnd("unsupported", msg)
            return f

    def ins_(self, op, dst, p, bi):
        e = self.e
        d = self.reg(dst) if dst is not None else None
        if op in BIN:
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                p.next()
            ty = p.type()
            if ty[0] == "vec":
                raise NotImplementedError("vector")
            a = self.opnd(p, ty)
            p.expect(",")
            b = self.opnd(p, ty)
            w = ty[1]
            g = BIN[op]
            m = t.mask(w)
            if op == "add":
                def f(S, R):
                    x = R[a]
                    y = R[b]
                    if type(x) is int and type(y) is int:
                        R[d] = (x + y) & m
                    else:
                        R[d] = g(x, y, w)
            else:
                def f(S, R):
                    R[d] = g(R[a], R[b], w)
            return f
        if op == "icmp":
            if p.peek() == "samesign":
                p.next()
            pr = p.next()
            ty = p.type()
            if ty[0] == "vec":
                raise NotImplementedError("vector")
            a = self.opnd(p, ty)
            p.expect(",")
            b = self.opnd(p, ty)
            g, sw = CMP[pr]
            if sw:
                a, b = b, a
            w = bw(ty)

            def f(S, R):
                R[d] = g(R[a], R[b], w)
            return f
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            ty = p.type()
            a = self.opnd(p, ty)
            p.expect("to")
            ty2 = p.type()
            if "vec" in (ty[0], ty2[0]) or "fp" in (ty[0], ty2[0]):
                raise NotImplementedError("vector")
            fw, tw = bw(ty), bw(ty2)
            if op == "sext":
                def f(S, R):
                    R[d] = t.sext(R[a], fw, tw)
            elif tw > fw:
                def f(S, R):
                    R[d] = t.zext(R[a], fw, tw)
            else:
                def f(S, R):
                    R[d] = t.ext(R[a], 0, tw)
            return f
        if op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty = p.type()
            p.expect(",")
            p.type()
            a = self.opnd(p, llir.PTR)

            def f(S, R):
                R[d] = e.load(S, R[a], ty)
            return f
        if op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty = p.type()
            v = self.opnd(p, ty)
            p.expect(",")
            p.type()
            a = self.opnd(p, llir.PTR)

            def f(S, R):
                e.store(S, R[a], ty, R[v])
            return f
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            bt = p.type()
            p.expect(",")
            p.type()
            a = self.opnd(p, llir.PTR)
            off = 0
            dyn = []
            ty = None
            first = True
            while p.eat(","):
                it = p.type()
                v = p.value(it)
                if first:
                    first = False
                    ty = bt
                    sz = sizeof(bt)
                    if v[0] == "c":
                        off += v[1] * sz
                    else:
                        dyn.append((self.slot(it, v), it[1], sz))
                elif ty[0] == "st":
                    off += layout(ty)[1][v[1]]
                    ty = ty[2][v[1]]
                else:
                    ty = ty[2]
                    sz = sizeof(ty)
                    if v[0] == "c":
                        off += v[1] * sz
                    else:
                        dyn.append((self.slot(it, v), it[1], sz))
            off &= t.mask(64)
            if not dyn:
                def f(S, R):
                    R[d] = t.add(R[a], off, 64)
            else:
                def f(S, R):
                    x = t.add(R[a], off, 64)
                    for (s, w, sz) in dyn:
                        x = t.add(x, t.mul(t.sext(R[s], w, 64), sz, 64), 64)
                    R[d] = x
            return f
        if op == "alloca":
            ty = p.type()
            n = sizeof(ty)
            nm = "stack:" + str(dst)

            def f(S, R):
                a = e.new(S, n, nm)
                S.stack[-1].allocas.append(a >> SH)
                R[d] = a
            return f
        if op == "br":
            if p.peek() == "label":
                p.next()
                g = self.jump(bi, self.bidx[p.next()[1:]])
                return g
            ty = p.type()
            a = self.opnd(p, ty)
            p.expect(",")
            p.expect("label")
            x = self.bidx[p.next()[1:]]
            p.expect(",")
            p.expect("label")
            y = self.bidx[p.next()[1:]]
            gx, gy = self.jump(bi, x), self.jump(bi, y)

            def f(S, R):
                c = R[a]
                if type(c) is not int:
                    c = e.truth(S, c)
                return gx(S, R) if c else gy(S, R)
            return f
        if op == "switch":
            ty = p.type()
            a = self.opnd(p, ty)
            p.expect(",")
            p.expect("label")
            dflt = self.jump(bi, self.bidx[p.next()[1:]])
            p.expect("[")
            cases = {}
            w = ty[1]
            while not p.eat("]"):
                p.type()
                k = p.next()
                k = {"true": 1, "false": 0}.get(k, k)
                v = int(k) & t.mask(w)
                p.expect(",")
                p.expect("label")
                cases[v] = self.jump(bi, self.bidx[p.next()[1:]])

            def f(S, R):
                x = R[a]
                if type(x) is not int:
                    kv = S.known.get(("val", x))
                    if kv is not None:
                        x = kv
                    else:
                        mv = S.model.ev(x)
                        c = t.eq(x, mv, w) if mv in cases else None
                        if c is not None and c != 1:
                            k = S.known.get(c)
                            if k is None:
                                raise NeedFork(c)
                        if c is not None:
                            x = mv
                        else:
                            for v in cases:
                                c = t.eq(x, v, w)
                                if c == 0 or S.known.get(c) == 0:
                                    continue
                                if e.truth(S, c):
                                    return cases[v](S, R)
                            return dflt(S, R)
                return cases.get(x, dflt)(S, R)
            return f
        if op == "ret":
            ty = p.type()
            a = None if ty[0] == "void" else self.opnd(p, ty)

            def f(S, R):
                fr = S.stack.pop()
                for o in fr.allocas:
                    S.mem.pop(o, None)
                if S.stack and fr.ret is not None:
                    S.stack[-1].R[fr.ret] = R[a]
                return 2
            return f
        if op == "unreachable":
            def f(S, R):
                raise PathEnd("unreachable", "unreachable reached")
            return f
        if op == "select":
            ty = p.type()
            c = self.opnd(p, ty)
            p.expect(",")
            t1 = p.type()
            a = self.opnd(p, t1)
            p.expect(",")
            p.type()
            b = self.opnd(p, t1)
            if ty[0] == "vec" or t1[0] not in ("i", "ptr", "st"):
                raise NotImplementedError("select")
            w = None if t1[0] == "st" else bw(t1)

            def f(S, R):
                x = R[c]
                if type(x) is not int:
                    k = S.known.get(x)
                    if k is None:
                        if w is None:
                            raise NeedFork(x)
                        R[d] = t.ite(x, R[a], R[b], w)
                        return
                    x = k
                R[d] = R[a] if x else R[b]
            return f
        if op == "extractvalue":
            ty = p.type()
            a = self.opnd(p, ty)
            ix = []
            while p.eat(","):
                ix.append(int(p.next()))

            def f(S, R):
                v = R[a]
                for i in ix:
                    v = v[i]
                R[d] = v
            return f
        if op == "insertvalue":
            ty = p.type()
            a = self.opnd(p, ty)
            p.expect(",")
            t1 = p.type()
            b = self.opnd(p, t1)
            ix = []
            while p.eat(","):
                ix.append(int(p.next()))

            def ins(v, ix, x):
                l = list(v)
                l[ix[0]] = x if len(ix) == 1 else ins(v[ix[0]], ix[1:], x)
                return tuple(l)

            def f(S, R):
                R[d] = ins(R[a], ix, R[b])
            return f
        if op == "freeze":
            ty = p.type()
            a = self.opnd(p, ty)

            def f(S, R):
                R[d] = R[a]
            return f
        if op == "fence":
            return lambda S, R: None
        if op == "cmpxchg":
            while p.peek() in ("weak", "volatile"):
                p.next()
            p.type()
            a = self.opnd(p, llir.PTR)
            p.expect(",")
            ty = p.type()
            b = self.opnd(p, ty)
            p.expect(",")
            p.type()
            c = self.opnd(p, ty)

            def f(S, R):
                old = e.load(S, R[a], ty)
                ok = e.truth(S, t.eq(old, R[b], bw(ty)))
                if ok:
                    e.store(S, R[a], ty, R[c])
                R[d] = (old, ok)
            return f
        if op == "atomicrmw":
            while p.peek() in ("volatile",):
                p.next()
            o = p.next()
            p.type()
            a = self.opnd(p, llir.PTR)
            p.expect(",")
            ty = p.type()
            b = self.opnd(p, ty)
            w = bw(ty)
            g = {"add": t.add, "sub": t.sub, "and": t.and_, "or": t.or_, "xor": t.xor, "xchg": lambda x, y, w: y}[o]

            def f(S, R):
                old = e.load(S, R[a], ty)
                e.store(S, R[a], ty, g(old, R[b], w))
                R[d] = old
            return f
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in ("call", "invoke"):
            return self.call(d, p, bi, op == "invoke")
        if op in ("landingpad", "resume", "cleanupret"):
            raise NotImplementedError(op)
        raise NotImplementedError(op)

    def call(self, d, p, bi, inv):
        e = self.e
        while not p.is_type():
            x = p.peek()
            if x in ATT_CALL:
                p.next()
                if x == "cc":
                    p.next()
                continue
            before = p.i
            p.skip_attrs()
            if p.i == before:
                p.next()
        rty = p.type()
        if p.peek() == "(":
            p.paren()
        x = p.next()
        if x[0] not in "%@":
            raise NotImplementedError("callee " + x)
        p.expect("(")
        args = []
        tys = []
        while not p.eat(")"):
            ty = p.type()
            p.skip_attrs()
            if ty[0] == "metadata":
                while p.peek() not in (",", ")"):
                    if p.peek() == "(":
                        p.paren()
                    else:
                        p.next()
            else:
                args.append(self.opnd(p, ty))
                tys.append(ty)
            p.eat(",")
        after = None
        if inv:
            while p.peek() != "to":
                p.next()
            p.next()
            p.expect("label")
            after = self.jump(bi, self.bidx[p.next()[1:]])
        if rty[0] == "void":
            d = None
        if x[0] == "@":
            name = x[1:]
            name = e.m.aliases.get(name, name)
            fn = e.m.fns.get(name)
            h = builtin(e, name, tys, rty)
            if h is None and fn is not None:
                def f(S, R):
                    e.push(S, fn, [R[a] for a in args], d)
                    return 1
                if after:
                    # an invoke continues at its normal destination
                    def f2(S, R):
                        after(S, R)
                        e.push(S, fn, [R[a] for a in args], d)
                        return 3
                    return f2
                return f
            if h is None:
                def f(S, R):
                    raise PathEnd("unsupported", "call of " + name)
                return f

            def f(S, R):
                r = h(S, [R[a] for a in args])
                if d is not None:
                    R[d] = r
                if after:
                    return after(S, R)
            return f
        a0 = self.reg(x[1:])

        def f(S, R):
            a = R[a0]
            if type(a) is not int:
                a = e.raddr(S, a)
                if type(a) is not int:
                    fi = e.find_ite(a)
                    if fi is not None:
                        raise NeedFork(fi)
                    a = e.conc(S, a)
            name = e.addrfn.get(a)
            if name is None:
                raise PathEnd("memory", "call of non-function %x" % a)
            h = builtin(e, name, tys, rty)
            if h is not None:
                r = h(S, [R[q] for q in args])
                if d is not None:
                    R[d] = r
                return
            fn = e.m.fns.get(name)
            if fn is None:
                raise PathEnd("unsupported", "call of " + name)
            e.push(S, fn, [R[q] for q in args], d)
            return 1
        return f


ATT_CALL = set("fastcc coldcc ccc cc nuw nsw reassoc fast".split())


def builtin(e, name, tys, rty):
    h = e.hooks.get(name)
    if h is not None:
        return h
    if name.startswith("rsx_"):
        return getattr(API, name)(e)
    if NOOP.search(name):
        return lambda S, A: 0
    if name.startswith("llvm."):
        return intrinsic(e, name, tys, rty)
    if PANIC.search(name):
        if name in e.m.fns and not re.search(r"panick|panic_", name):
            return None

        def f(S, A):
            raise PathEnd("panic", name)
        return f
    if re.search(r"__rust_alloc$|__rg_alloc$|^malloc$|__rdl_alloc$", name):
        return lambda S, A: e.new(S, size_of_arg(e, S, A[0]))
    if re.search(r"__rust_alloc_zeroed$|__rg_alloc_zeroed$|__rdl_alloc_zeroed$", name):
        def f(S, A):
            n = size_of_arg(e, S, A[0])
            a = e.new(S, n)
            S.mem[a >> SH].data = [0] * n
            return a
        return f
    if re.search(r"__rust_dealloc$|__rg_dealloc$|^free$|__rdl_dealloc$", name):
        def f(S, A):
            a = A[0]
            if type(a) is not int:
                a = e.raddr(S, a)
                if type(a) is not int:
                    fi = e.find_ite(a)
                    if fi is not None:
                        raise NeedFork(fi)
                    a = e.conc(S, a)
            if a:
                if a >> SH not in S.mem or (a & ((1 << SH) - 1)) != MID:
                    raise PathEnd("memory", "bad free")
                del S.mem[a >> SH]
            return 0
        return f
    if re.search(r"__rust_realloc$|__rg_realloc$|__rdl_realloc$", name):
        def f(S, A):
            n = size_of_arg(e, S, A[3])
            a = e.raddr(S, A[0])
            i, off = e.split(S, a)
            old = e.obj(S, i)
            b = e.new(S, n)
            k = min(n, len(old.data))
            S.mem[b >> SH].data[:k] = old.data[:k]
            S.mem.pop(i, None)
            return b
        return f
    if "rcbox_layout_for_value_layout" in name:
        # alloc::rc: Layout of RcBox { strong, weak, value } = 16 bytes then the value
        def f(S, A):
            al, n = e.conc(S, A[0]), e.conc(S, A[1])
            al2 = max(al, 8)
            off = (16 + al - 1) // al * al
            return (al2, (off + n + al2 - 1) // al2 * al2)
        return f
    if re.search(r"core3str8converts9from_utf8", name):
        # only reaches log/panic text here; validity of that text is not modelled
        def f(S, A):
            e.store(S, A[0], ("i", 64), 0)
            e.store(S, t.add(A[0], 8, 64), ("i", 64), A[1])
            e.store(S, t.add(A[0], 16, 64), ("i", 64), A[2])
            return None
        return f
    if name in ("memcmp", "bcmp"):
        def f(S, A):
            n = e.conc(S, A[2])
            x, y = e.rdbytes(S, A[0], n), e.rdbytes(S, A[1], n)
            if name == "bcmp":
                r = 1
                for a, b in zip(x, y):
                    r = t.and_(r, t.eq(a, b, 8), 1)
                return t.zext(t.not_(r), 1, 32)
            r = 0
            for a, b in zip(reversed(x), reversed(y)):
                r = t.ite(t.eq(a, b, 8), r, t.ite(t.ult(a, b, 8), 0xffffffff, 1, 32), 32)
            return r
        return f
    if name in ("memcpy", "memmove"):
        g = intrinsic(e, "llvm.memcpy.", tys, rty)

        def f(S, A):
            g(S, A)
            return A[0]
        return f
    return None


def size_of_arg(e, S, x):
    n = e.conc(S, x)
    if n > 1 << 22:
        raise PathEnd("bound", "allocation of %d bytes" % n)
    return n


def ovf(w, op, signed):
    m = t.mask(w)

    def f(S, A):
        x, y = A[0], A[1]
        if not signed:
            if op == "add":
                r = t.add(x, y, w)
                if type(x) is int:
                    return (r, t.ult(r, x, w))
                return (r, t.ult(r, y, w) if type(y) is int else t.ult(r, x, w)) if True else None
            if op == "sub":
                return (t.sub(x, y, w), t.ult(x, y, w))
            r = t.mul(t.zext(x, w, 2 * w), t.zext(y, w, 2 * w), 2 * w)
            if t.umax(x) * t.umax(y) <= m:
                return (t.mul(x, y, w), 0)
            return (t.mul(x, y, w), t.ne(t.ext(r, w, w), 0, w))
        ew = w + 1 if op != "mul" else 2 * w
        a, b = t.sext(x, w, ew), t.sext(y, w, ew)
        r = {"add": t.add, "sub": t.sub, "mul": t.mul}[op](a, b, ew)
        lo = t.ext(r, 0, w)
        return (lo, t.ne(t.sext(lo, w, ew), r, ew))
    return f


def intrinsic(e, name, tys, rty):
    w = bw(tys[0]) if tys and tys[0][0] in ("i", "ptr") else None
    if any(x[0] == "vec" for x in tys):
        return None
    m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow", name)
    if m:
        return ovf(w, m.group(2), m.group(1) == "s")
    b = name.split(".")[1]
    if b == "umax":
        return lambda S, A: t.ite(t.ult(A[0], A[1], w), A[1], A[0], w)
    if b == "umin":
        return lambda S, A: t.ite(t.ult(A[0], A[1], w), A[0], A[1], w)
    if b == "smax":
        return lambda S, A: t.ite(t.slt(A[0], A[1], w), A[1], A[0], w)
    if b == "smin":
        return lambda S, A: t.ite(t.slt(A[0], A[1], w), A[0], A[1], w)
    if b == "abs":
        return lambda S, A: t.ite(t.slt(A[0], 0, w), t.neg(A[0], w), A[0], w)
    if b in ("memcpy", "memmove"):
        def f(S, A):
            n = e.conc(S, A[2])
            if n == 0:
                return 0
            i, off, o = e.rng(S, A[1], n)
            sl = o.data[off:off + n]
            j, off2, _ = e.rng(S, A[0], n)
            e.wobj(S, j).data[off2:off2 + n] = sl
            return 0
        return f
    if b == "memset":
        def f(S, A):
            n = e.conc(S, A[2])
            if n == 0:
                return 0
            j, off, _ = e.rng(S, A[0], n)
            v = A[1]
            e.wobj(S, j).data[off:off + n] = [v if type(v) is int else (v, 0)] * n
            return 0
        return f
    if b in ("fshl", "fshr"):
        def f(S, A):
            x, y, s = A
            s = t.urem(s, w, w) if type(s) is not int else s % w
            if type(s) is int:
                if b == "fshl":
                    return x if s == 0 else t.or_(t.shl(x, s, w), t.lshr(y, w - s, w), w)
                return y if s == 0 else t.or_(t.shl(x, w - s, w), t.lshr(y, s, w), w)
            z = t.cat(((w, x), (w, y)))
            if b == "fshl":
                return t.ext(t.shl(z, t.zext(s, w, 2 * w), 2 * w), w, w)
            return t.ext(t.lshr(z, t.zext(s, w, 2 * w), 2 * w), 0, w)
        return f
    if b == "bswap":
        return lambda S, A: t.cat([(8, t.ext(A[0], 8 * k, 8)) for k in range(w // 8)])
    if b == "bitreverse":
        return lambda S, A: t.cat([(1, t.ext(A[0], k, 1)) for k in range(w)])
    if b == "ctpop":
        def f(S, A):
            r = 0
            for k in range(w):
                r = t.add(r, t.zext(t.ext(A[0], k, 1), 1, w), w)
            return r
        return f
    if b in ("ctlz", "cttz"):
        def f(S, A):
            if API.split_clz and b == "ctlz" and type(A[0]) is not int:
                v = S.model.ev(A[0])
                k = w - v.bit_length()
                c = t.eq(A[0], 0, w) if v == 0 else t.eq(t.ext(A[0], w - 1 - k, k + 1), 1, k + 1)
                if c == 1 or S.known.get(c) == 1:
                    return k
                raise NeedFork(c)
            r = w
            for k in (range(w) if b == "ctlz" else reversed(range(w))):
                v = w - 1 - k if b == "ctlz" else k
                r = t.ite(t.ext(A[0], k, 1), v, r, w)
            return r
        return f
    if b in ("usub", "uadd", "ssub", "sadd"):
        sg = b[0] == "s"
        o = ovf(w, b[1:], sg)

        def f(S, A):
            r, c = o(S, A)
            if not sg:
                return t.ite(c, 0 if b == "usub" else t.mask(w), r, w)
            lim = t.ite(t.slt(A[0], 0, w), 1 << (w - 1), (1 << (w - 1)) - 1, w)
            return t.ite(c, lim, r, w)
        return f
    if b == "expect":
        return lambda S, A: A[0]
    if b in ("ucmp", "scmp"):
        lt = t.ult if b == "ucmp" else t.slt
        rw = bw(rty)
        return lambda S, A: t.ite(lt(A[0], A[1], w), t.mask(rw), t.ite(t.eq(A[0], A[1], w), 0, 1, rw), rw)
    if b in ("trap", "debugtrap"):
        def f(S, A):
            raise PathEnd("panic", "trap")
        return f
    if b == "is":
        return lambda S, A: 0
    if b == "threadlocal":
        return lambda S, A: A[0]
    return None


class API:
    split_clz = 0

    @staticmethod
    def rsx_sym(e):
        def f(S, A):
            w = e_int(A[0])
            x = t.var("in%d_%d" % (len(S.inputs), w), w)
            S.inputs.append((x, w))
            return t.zext(x, w, 64)
        return f

    @staticmethod
    def rsx_assume(e):
        return lambda S, A: e.assume(S, A[0])

    @staticmethod
    def rsx_check(e):
        return lambda S, A: e.check(S, A[0], e.conc(S, A[1], 32))

    @staticmethod
    def rsx_cover(e):
        return lambda S, A: S.covers.add(e.conc(S, A[0], 32))

    @staticmethod
    def rsx_on_panic(e):
        def f(S, A):
            S.mode = e.conc(S, A[0], 32)
            if S.mode == 2:
                e.must_panic = True
        return f

    @staticmethod
    def rsx_pick(e):
        return lambda S, A: e.conc(S, A[0])

    @staticmethod
    def rsx_unroll(e):
        # case split on leading_zeros()
        return lambda S, A: setattr(API, "split_clz", e_int(A[0]))

    @staticmethod
    def rsx_uf(e):
        def f(S, A):
            tag = A[0]
            n, m = e.conc(S, A[2]), e.conc(S, A[4])
            args = [e.load(S, t.add(A[1], 8 * k, 64), ("i", 64)) for k in range(n)]
            outs = [t.uf(str(tag), k, 64, args) for k in range(m)]
            S.ufs.append((tag, args, outs))
            for k in range(m):
                e.store(S, t.add(A[3], 8 * k, 64), ("i", 64), outs[k])
        return f


def e_int(x):
    assert type(x) is int
    return x


# ---------------------------------------------------------------- debug info
def functions_executed(e, root="/repo/"):
    md = e.m.md
    field = lambda s, k: (re.search(r"\b%s: (!?\w+|\"[^\"]*\")" % k, s) or [None, None])[1]
    out = {}

    def sub(mid):
        seen = 0
        while mid and seen < 50:
            s = md.get(mid, "")
            if "DISubprogram" in s:
                return mid
            mid = (field(s, "scope") or "").lstrip("!")
            seen += 1
        return None

    def rec(mid, depth=0):
        s = md.get(mid, "")
        if "DILocation" in s:
            x = sub((field(s, "scope") or "").lstrip("!"))
            if x:
                out.setdefault(x, set()).add(int(field(s, "line") or 0))
            ia = field(s, "inlinedAt")
            if ia and depth < 60:
                rec(ia.lstrip("!"), depth + 1)
    for d in e.dbg:
        if d[0] == "S":
            out.setdefault(d[1:], set())
        else:
            rec(d)
    res = {}
    for mid, lines in out.items():
        s = md.get(mid, "")
        name = (field(s, "name") or "").strip('"')
        f = md.get((field(s, "file") or "").lstrip("!"), "")
        fn, dr = (field(f, "filename") or "").strip('"'), (field(f, "directory") or "").strip('"')
        path = fn if fn.startswith("/") else dr + "/" + fn
        if path.startswith(root):
            k = path[len(root):] + "::" + re.sub(r"<.*", "", name)
            res.setdefault(k, set()).update(lines)
    return {k: len(v) for k, v in sorted(res.items())}


def run_harness(mod, name, budget=600, hard=120, split=1, **kw):
    t0 = time.time()
    e = Engine(mod, deadline=t0 + budget, hard_timeout=hard, **kw)
    e.run(name, split)
    return dict(harness=name, viol=e.viol, incon=sorted(set(e.incon)), covers=sorted(e.covers), panicked=sorted(e.panicked), must_panic=e.must_panic,
                ends=e.ends, discharged=sum(e.discharged.values()), trivial=sum(e.trivial.values()), checks=sorted(set(e.discharged) | set(e.trivial)),
                stats=e.stats, wall=time.time() - t0, functions=functions_executed(e), samples=e.samples)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    mod = llir.Module(sys.argv[1])
    for h in sys.argv[2:]:
        r = run_harness(mod, h, budget=float(os.environ.get("B", 300)), split=int(os.environ.get("J", 1)))
        r["functions"] = list(r["functions"].items())
        for v in r["viol"]:
            print("VIOL", json.dumps(v)[:3000])
        r["viol"] = len(r["viol"])
        if not os.environ.get("F"):
            r["functions"] = len(r["functions"])
        print(json.dumps(r, indent=None))
