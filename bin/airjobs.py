"""airjobs.py: checks of the circuits' constraints (groups air*). Each job is a python function
name -> obligations; see engine/air.py for how an obligation is decided."""
import sys, os, json, time, subprocess, traceback, fcntl, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/bin"]
sys.setrecursionlimit(200000)
import z3
from air import Air, Ctx, P, U32, sgn, padd, pscale, pmul
from airrow import Row, prove, lookups_of, role_of, is_looked

M32 = 1 << 32
HX = V + "/target/hx-air/release/hx-air"


def build():
    os.makedirs(V + "/target", exist_ok=True)
    with open(V + "/target/air.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-04-24", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints=allow", CARGO_TARGET_DIR=V + "/target/hx-air")
        r = subprocess.run([sys.executable, V + "/engine/gen.py", "air"], capture_output=True, text=True)
        if r.returncode == 0:
            r = subprocess.run(["cargo", "build", "--offline", "--release", "-q", "-p", "hx-air"], cwd=V + "/hx", env=env, capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("BUILD of air failed:\n" + (r.stdout + r.stderr)[-6000:])
        r = subprocess.run([HX], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("extraction failed:\n" + r.stderr[-3000:])
        return Air(json.loads(r.stdout))


def native_eval(table, loc, nxt, pi):
    """Constraint values computed by the real code on a concrete row pair."""
    s = "%s\n%s\n%s\n%s\n" % (table, " ".join(map(str, loc)), " ".join(map(str, nxt)), " ".join(map(str, pi)))
    r = subprocess.run([HX, "eval"], input=s, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-500:])
    return [(a, int(b)) for a, b in (l.split() for l in r.stdout.splitlines())]


class Report:
    """Collects what a job did."""

    def __init__(self, air, name):
        self.air, self.name = air, name
        self.stats = {}
        self.viol, self.incon, self.samples = [], [], []
        self.discharged = self.trivial = self.obligations = self.validated = 0
        self.functions = {}
        self.t0 = time.time()

    def add(self, what, row, r, note=""):
        """Result of prove()."""
        self.obligations += 1
        self.functions[row.table] = len(row.nodes)
        if r["ok"]:
            self.discharged += 1
        elif r["ok"] is None:
            self.incon.append("%s: %s" % (what, r["why"]))
        else:
            self.counterexample(what, row, r["viol"], note)

    def counterexample(self, what, row, vals, note=""):
        n = self.air.names[row.table]
        loc, nxt = [vals.get(x, 0) for x in n], [vals.get(x + "'", 0) for x in n]
        pi = [vals.get("pi.%d" % k, 0) for k in range(len(self.air.tables[row.table]["pi"]))]
        out = native_eval(row.table, loc, nxt, pi)
        bad = [k for k, v in out if v and k in row.kinds]
        txt = "# %s: %s\n# %s\ntable %s\nrow %s\nnext %s\npublic %s\n" % (self.name, what, note, row.table, " ".join(map(str, loc)), " ".join(map(str, nxt)), " ".join(map(str, pi)))
        txt += "".join("# %s = %d\n" % (x, vals[x]) for x in sorted(vals) if vals[x])
        txt += "# the real constraint code gives %d constraint values, %d non-zero among kinds %s\n" % (len(out), len(bad), row.kinds)
        self.viol.append(dict(text=txt, confirmed=not bad, kind="accepted", msg=what))

    def fail(self, what, text, confirmed=True):
        self.obligations += 1
        self.viol.append(dict(text="# %s: %s\n%s\n" % (self.name, what, text), confirmed=confirmed, kind="wrong", msg=what))

    def ok(self, trivial=False):
        self.obligations += 1
        if trivial:
            self.trivial += 1
        else:
            self.discharged += 1

    def result(self):
        s = dict(self.stats, paths=self.obligations, forks=0)
        return dict(harness=self.name, air=True, viol=self.viol, incon=self.incon, validated=self.validated, samples=self.samples, stats=s, functions=self.functions, discharged=self.discharged, trivial=self.trivial,
                    ends={"obligations": self.obligations}, wall=time.time() - self.t0, covers=[1], must_panic=False, panicked=[], checks=[])


# ---------------------------------------------------------------- CPU
SIGNED1 = {"SLT", "DIV", "REM", "MULH", "MULHSU", "BLT", "BGE", "SRA"}
BR = {"BEQ", "BNE", "BLT", "BLTU", "BGE", "BGEU"}
LD = {"LB": (1, 1), "LBU": (1, 0), "LH": (2, 1), "LHU": (2, 0), "LW": (4, 0)}
ST = {"SB": 1, "SH": 2, "SW": 4}


def rom_env(air, op):
    """The CPU view of an instruction of this kind, as the real conversion computes it: constants and argument positions."""
    names = Air.view_names(air.d["rom"]["view"])
    names = [names[i] for i in air.d["rom"]["l"]]
    mark = {4_000_000_004: "pc", 9: "rd", 17: "rs1", 23: "rs2", 3_000_000_019: "imm"}
    return {n: mark.get(v, v) for n, v in zip(names, air.d["rom"]["ops"][op])}


def rom_polys(air, op):
    """The columns of the program table for an instruction of this kind, over rom.* variables."""
    e = rom_env(air, op)
    names = Air.view_names(air.d["rom"]["view"])
    env = {"Rom.i.%d" % k: ("rom." + e[names[i]] if isinstance(e[names[i]], str) else e[names[i]]) for k, i in enumerate(air.d["rom"]["l"])}
    return [air.poly(x, env, {}) for x in air.d["rom"]["row"]]


def s32(x):
    return x - M32 if x >= 1 << 31 else x


def rv(op, x, y):
    """RV32IM result of an arithmetic operation (reference)."""
    sx, sy = s32(x), s32(y)
    if op == "ADD": return (x + y) % M32
    if op == "SUB": return (x - y) % M32
    if op == "XOR": return x ^ y
    if op == "OR": return x | y
    if op == "AND": return x & y
    if op == "SLL": return (x << (y & 31)) % M32
    if op == "SRL": return x >> (y & 31)
    if op == "SRA": return (sx >> (y & 31)) % M32
    if op == "SLT": return int(sx < sy)
    if op == "SLTU": return int(x < y)
    if op == "MUL": return x * y % M32
    if op == "MULH": return (sx * sy >> 32) % M32
    if op == "MULHU": return x * y >> 32
    if op == "MULHSU": return (sx * y >> 32) % M32
    if op in ("DIV", "REM"):
        if sy == 0: q, r = -1, sx
        else:
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            r = sx - q * sy
        return (q if op == "DIV" else r) % M32
    if op in ("DIVU", "REMU"):
        q, r = (U32, x) if y == 0 else divmod(x, y)
        return q if op == "DIVU" else r
    raise KeyError(op)


def branch(op, x, y):
    return {"BEQ": x == y, "BNE": x != y, "BLT": s32(x) < s32(y), "BLTU": x < y, "BGE": s32(x) >= s32(y), "BGEU": x >= y}[op]


def zs(t):
    return z3.If(t >= 1 << 31, t - M32, t)


def zabs(t):
    return z3.If(t < 0, -t, t)


def intprod(c, a, la, b):
    """Exact product of the terms a (bounded by la) and b, tied to the products the constraints mention."""
    S = c.new(0, la * la, "S")
    fs = [z3.Implies(z3.Or(a == 0, b == 0), S == 0), z3.Implies(z3.And(a >= 1, b >= 1), z3.And(S >= a, S >= b)), z3.Implies(a == 1, S == b), z3.Implies(b == 1, S == a), S <= la * b, S <= la * a]
    for pr in c.prods:
        if isinstance(pr, tuple) and len(pr) == 2 and all(c.dom.get(x, (0, P))[1] <= M32 for x in pr):
            u, v, m = c.v(pr[0]), c.v(pr[1]), c.z["*".join(pr)]
            for s, t in ((u, v), (v, u)):
                fs.append(z3.Implies(z3.And(a == s, b == t), S == m))
    c.require(z3.And(fs))
    return S


def cpu_row(air, op, stats, decode=False):
    e = rom_env(air, op)
    env = {}
    if not decode:
        for n, v in e.items():
            if n.startswith("ops.") or n.startswith("is_op"):
                env["inst." + n] = v
        if op in LD:
            env["inst.is_dst_signed"] = e["is_dst_signed"]
    dom = {"op1_value": (0, U32), "op2_value_raw": (0, U32), "inst.pc": (0, U32), "inst.imm_value": (0, U32), "inst.rs1_selected": (0, 31), "inst.rs2_selected": (0, 31), "inst.rd_selected": (0, 31)}
    if decode:
        del dom["inst.imm_value"]
    if op in LD:
        dom["mem_value_raw"] = (0, 256 ** LD[op][0] - 1)
    return Row(air, "Cpu", env, stats=stats, dom=dom)


def lemma(rep, row, what, x, goal, conc, assume=None, conc_assume=None, dom=None, inputs=(), final=None):
    """Proves a fact about a column of the row; its range is used by later obligations.
    Only a row that also breaks the final goal counts against the code."""
    r = prove(row, rep.name, {x}, goal, lambda v: conc(v) or bool(final and final(v)), inputs=inputs, assume=assume, conc_assume=conc_assume)
    rep.add(what, row, r)
    if r["ok"] and dom:
        row.dom[x] = dom
    return r["ok"]


def by_cases(air, rep, row, what, bits, seeds, goal, conc, inputs=(), assume=None, conc_assume=None, budget=120):
    """Proves the goal for every value of the given 0/1 columns (shown to be 0/1 first)."""
    for b in bits:
        r = prove(row, rep.name, {b}, lambda c: z3.Or(c.v(b) == 0, c.v(b) == 1), lambda v: v[b] in (0, 1) or conc(v), inputs=inputs, assume=assume, conc_assume=conc_assume)
        rep.add("%s: %s is a bit" % (what, b), row, r)
        if not r["ok"]:
            return
    for k in range(2**len(bits)):
        env = dict(row.env, **{b: k >> i & 1 for i, b in enumerate(bits)})
        sub = Row(air, row.table, env, kinds=row.kinds, stats=rep.stats, dom=row.dom)
        sub.lemmas = row.lemmas
        r = prove(sub, rep.name, set(seeds), goal, conc, inputs=inputs, assume=assume, conc_assume=conc_assume, budget=budget, hops=(None,))
        rep.add("%s [%s]" % (what, " ".join("%s=%d" % (b, env[b]) for b in bits)), sub, r)
        if not r["ok"]:
            return


def job_cpu_decode(air, rep, op):
    """The columns that steer the row are those of the program's instruction."""
    row = cpu_row(air, op, rep.stats, decode=True)
    e = rom_env(air, op)
    romrow = rom_polys(air, op)
    want = {"inst." + n: v for n, v in e.items()}
    steer = [n for n in want if n.startswith("inst.ops.") or n in ("inst.is_op1_signed", "inst.is_op2_signed", "inst.imm_value", "inst.rs1_selected", "inst.rs2_selected", "inst.rd_selected", "inst.pc") or (op in LD and n == "inst.is_dst_signed")]
    fact = [x for x in row.facts if x[0] == "rom"]
    if len(fact) != 1 or len(fact[0][1]) != len(romrow):
        rep.fail("program lookup of the CPU table", "expected one lookup into the program, found %d" % len(fact))
        return
    ops = [n for n in want if n.startswith("inst.ops.")]

    def assume(c):
        for k, hi in (("rom.rs1", 31), ("rom.rs2", 31), ("rom.rd", 31), ("rom.imm", U32), ("rom.pc", U32)):
            if k not in c.dom:
                c.bound(k, 0, hi)
        p = air.poly(fact[0][2], c.env, {})
        cols = [air.poly(x, c.env, {}) for x in fact[0][1]]
        run = c.form({(o,): 1 for o in ops})[0]
        return z3.And(run == 1, z3.Implies(c.notzero(p), z3.And([c.zero(padd(a, b, -1)) for a, b in zip(cols, romrow)])))

    def goal1(n):
        w = want[n]
        return lambda c: c.v(n) == (c.v("rom." + w) if isinstance(w, str) else w)

    def conc_goal(n):
        w = want[n]
        return lambda v: v[n] == (v["rom." + w] if isinstance(w, str) else w)

    def conc_assume(v):
        memo = {}
        if sum(v[o] for o in ops) != 1:
            return False
        if air.eval(fact[0][2], v, memo) == 0:
            return True
        ev = lambda p: sum(c * prodm([v[x] for x in m]) for m, c in p.items()) % P
        return all(air.eval(c, v, memo) == ev(p) for c, p in zip(fact[0][1], romrow))
    seeds = set(steer)
    # one obligation for the one-hot opcode, then the rest under it
    only = [n for n in row.nodes if air.vars_of(n) & (seeds | set(ops)) and not (air.vars_of(n) - seeds - set(ops) - {"op1_sign_bit", "op2_sign_bit"})]
    both = lambda ns: (lambda c: z3.And([goal1(n)(c) for n in ns]), lambda v: all(conc_goal(n)(v) for n in ns))
    for what, ns in (("opcode", ops), ("signedness", [n for n in steer if "signed" in n]), ("pc, registers and immediate", [n for n in steer if n not in ops and "signed" not in n])):
        g, cg = both(ns)
        r = prove(row, rep.name, seeds | set(ops), g, cg, inputs=("op1_value", "op2_value_raw"), assume=assume, conc_assume=conc_assume, hops=(1, None))
        rep.add("%s: a row may disagree with the program about %s" % (op, what), row, r)


def prodm(xs):
    r = 1
    for x in xs:
        r = r * x % P
    return r


def expected_y(x2, imm):
    return (x2 + imm) % M32


def job_cpu_step(air, rep, op):
    """Result, next program counter and memory access of a row are the instruction's."""
    row = cpu_row(air, op, rep.stats)
    INP = ("op1_value", "op2_value_raw", "inst.imm_value", "inst.pc", "mem_value_raw")
    imm_form = op in LD or op in ST or op in BR     # these may use both the register and the immediate

    def y_of(c):
        s = c.v("op2_value_raw") + c.v("inst.imm_value")
        return z3.If(s >= M32, s - M32, s)

    def assume(c):
        if imm_form:
            return z3.BoolVal(True)
        return z3.Or(c.v("inst.imm_value") == 0, c.v("op2_value_raw") == 0)

    def conc_assume(v):
        return imm_form or v["inst.imm_value"] == 0 or v["op2_value_raw"] == 0
    cy = lambda v: expected_y(v["op2_value_raw"], v["inst.imm_value"])

    def ob(what, seeds, goal, conc, budget=120):
        r = prove(row, rep.name, set(seeds), goal, conc, inputs=INP, assume=assume, conc_assume=conc_assume, budget=budget)
        rep.add("%s: %s" % (op, what), row, r)

    # -- next pc
    X, Y, PC, IMM = "op1_value", "op2_value_raw", "inst.pc", "inst.imm_value"

    def npc(c):
        pc, x, y, imm = c.v(PC), c.v(X), c.v(Y), c.v(IMM)
        nx = pc + 4
        if op in BR:
            u = {"BEQ": x == y, "BNE": x != y, "BLT": zs(x) < zs(y), "BLTU": x < y, "BGE": zs(x) >= zs(y), "BGEU": x >= y}[op]
            return z3.If(u, imm, nx)
        if op == "JALR":
            s = x + y_of(c)
            return z3.If(s >= M32, s - M32, s)
        return nx

    def goal_pc(c):
        n = c.v("new_pc")
        g = n == npc(c)
        if op == "ECALL":
            h = c.v("ecall_selectors.is_halt")
            g = z3.If(c.v(X) == 0, z3.And(h == 1, n == c.v(PC)), z3.And(h == 0, g))
        return z3.Implies(n <= U32, g)

    def conc_pc(v):
        n = v["new_pc"]
        if n > U32:
            return True
        if op in BR:
            e = v[IMM] if branch(op, v[X], v[Y]) else v[PC] + 4
        elif op == "JALR":
            e = (v[X] + cy(v)) % M32
        elif op == "ECALL":
            h = v["ecall_selectors.is_halt"]
            return (h == 1 and n == v[PC]) if v[X] == 0 else (h == 0 and n == v[PC] + 4)
        else:
            e = v[PC] + 4
        return n == e
    if op != "ADD":
        ob("next program counter", ["new_pc", X, Y, PC, IMM], goal_pc, conc_pc)

    # -- result
    def goal_dst(c):
        x, d = c.v(X), c.v("dst_value")
        y = y_of(c)
        if op == "SUB":
            return d == z3.If(x >= y, x - y, x - y + M32)
        if op in ("XOR", "OR", "AND"):
            return z3.Or([z3.And(a == x, b == y, d == {"XOR": o, "OR": a + b - A, "AND": A}[op]) for a, b, o, A in c.ands] + [z3.BoolVal(False)])
        if op in ("SLT", "SLTU"):
            f = zs if op == "SLT" else (lambda t: t)
            return d == z3.If(f(x) < f(y), 1, 0)
        if op == "JALR":
            s = c.v(PC) + 4
            return d == z3.If(s >= M32, s - M32, s)
        if op in LD:
            n, sg = LD[op]
            raw = c.v("mem_value_raw")
            return d == (z3.If(raw >= 256**n // 2, raw + (M32 - 256**n), raw) if sg else raw)

    def conc_dst(v):
        d = v["dst_value"]
        if op in LD:
            n, sg = LD[op]
            raw = v["mem_value_raw"]
            return d == (raw + M32 - 256**n if sg and raw >= 256**n // 2 else raw)
        if op == "JALR":
            return d == (v[PC] + 4) % M32
        return d == rv(op, v[X], cy(v))
    if op in MULDIV:
        muldiv(air, rep, row, op, y_of, cy, assume, conc_assume, conc_dst, INP)
    elif op not in BR and op not in ST and op not in ("ADD", "ECALL"):
        ob("result", [X, Y, IMM, "dst_value", "mem_value_raw"], goal_dst, conc_dst)

    # -- memory access
    roles = {1: "mem", 2: "half", 4: "full"}
    want = roles[LD[op][0]] if op in LD else roles[ST[op]] if op in ST else None
    em = emitted(air, row, ("mem", "half", "full"))
    if em is None or (len(em) != (1 if want else 0)) or (want and em[0][0] != want):
        rep.fail("%s: memory access" % op, "the row takes part in the memory lookups %s, expected %s" % (em and [x[0] for x in em], want))
    elif want:
        cols = em[0][1]

        def goal_mem(c):
            t = [c.residue(air.poly(x, c.env, {})) for x in cols]
            y = y_of(c)
            g = [t[0] == c.v("clk"), t[1] == int(op in ST), t[2] == int(op in LD), t[3] == y]
            x = c.v(X)
            if op in LD:
                g.append(t[4] == c.v("mem_value_raw"))
            elif op == "SW":
                g.append(t[4] == x)
            else:
                k = 2**(8 * ST[op])
                g.append(t[4] == x % k)
            # an address outside 32 bits has no row in the memory tables
            return z3.Implies(t[3] <= U32, z3.And(g))

        def conc_mem(v):
            memo = {}
            t = [air.eval(x, v, memo) for x in cols]
            return t[3] > U32 or t == [v["clk"], int(op in ST), int(op in LD), cy(v), v["mem_value_raw"] if op in LD else v[X] % 256**ST[op]]
        ob("memory access", [X, Y, IMM, "mem_value_raw", "mem_addr"], goal_mem, conc_mem)
    else:
        rep.ok(trivial=True)

    # -- registers, skeleton, system calls
    regs = emitted(air, row, ("reg",))
    exp = [("clk", 1, "inst.rs1_selected", X), ("clk", 1, "inst.rs2_selected", Y), ("clk", 2, "inst.rd_selected", "dst_value")]
    match_tuples(air, rep, row, "%s: register accesses" % op, regs, exp)
    sk = emitted(air, row, ("skeleton",))
    match_tuples(air, rep, row, "%s: step record" % op, sk, [("clk", PC, "new_pc", "ecall_selectors.is_halt")])
    if op == "ECALL":
        calls = {"is_private_tape": 2, "is_public_tape": 4, "is_call_tape": 5, "is_event_tape": 6, "is_events_commitment_tape": 7, "is_cast_list_commitment_tape": 8, "is_self_prog_id_tape": 9, "is_poseidon2": 3, "is_halt": 0}

        def goal_sel(c):
            return z3.Or([z3.And(c.v(X) == k, c.v("ecall_selectors." + n) == 1, *[c.v("ecall_selectors." + o) == 0 for o in calls if o != n]) for n, k in calls.items()])

        def conc_sel(v):
            on = [k for n, k in calls.items() if v["ecall_selectors." + n] == 1]
            return on == [v[X]] and sum(v["ecall_selectors." + n] for n in calls) == 1
        ob("system call number", [X] + ["ecall_selectors." + n for n in calls], goal_sel, conc_sel)
    elif any(not set(air.poly(f, dict(row.env), {})) <= {()} for r, c_, f in lookups_of(air, "Cpu") if r in ("storage", "sponge")):
        pass


MULDIV = {"SLL", "SRL", "SRA", "MUL", "MULH", "MULHU", "MULHSU", "DIV", "DIVU", "REM", "REMU"}


def muldiv(air, rep, row, op, y_of, cy, assume, conc_assume, conc_dst, INP):
    """Products and quotients: the operands' magnitudes first, then the result for each combination of signs."""
    X, D = "op1_value", "dst_value"
    s1, s2 = op in ("MULH", "MULHSU", "DIV", "REM", "SRA"), op in ("MULH", "DIV", "REM")
    shift = op in ("SLL", "SRL", "SRA")
    mul = op in ("SLL", "MUL", "MULH", "MULHU", "MULHSU")
    kw = dict(assume=assume, conc_assume=conc_assume, inputs=INP)

    def mag(x, sg, t):      # |t| if signed
        return z3.If(z3.And(sg, t >= 1 << 31), M32 - t, t)
    cmag = lambda sg, t: M32 - t if sg and t >= 1 << 31 else t
    ok = lemma(rep, row, "%s: magnitude of the first operand" % op, "op1_abs", lambda c: c.v("op1_abs") == mag(None, z3.BoolVal(s1), c.v(X)), lambda v: v["op1_abs"] == cmag(s1, v[X]), final=conc_dst, dom=(0, U32), **kw)
    if shift:
        def sh(c):
            for _, u, (a, m) in c.shifts:
                if u:
                    amt, mt = c.residue(a), c.residue(m)
                    y = y_of(c)
                    return z3.And(c.v("op2_abs") == mt, mt >= 1, mt <= 2**31, z3.Or([z3.And(p == 31, q == y, amt == A) for p, q, o, A in c.ands] + [z3.And(q == 31, p == y, amt == A) for p, q, o, A in c.ands] + [z3.BoolVal(False)]))
            return z3.BoolVal(False)
        ok &= bool(lemma(rep, row, "%s: multiplier" % op, "op2_abs", sh, lambda v: v["op2_abs"] == 1 << (cy(v) & 31), final=conc_dst, dom=(1, 2**31), **kw))
    else:
        ok &= bool(lemma(rep, row, "%s: magnitude of the second operand" % op, "op2_abs", lambda c: c.v("op2_abs") == mag(None, z3.BoolVal(s2), y_of(c)), lambda v: v["op2_abs"] == cmag(s2, cy(v)), final=conc_dst, dom=(0, U32), **kw))
    if not ok:
        return
    # the operands' values as integers: a, b in terms of the magnitudes
    def facts(c):
        x = c.v(X)
        fs = [assume(c), c.v("op1_abs") == mag(None, z3.BoolVal(s1), x)]
        if not shift:
            fs.append(c.v("op2_abs") == mag(None, z3.BoolVal(s2), y_of(c)))
        return z3.And(fs)
    signs = [n for n, s in (("op1_sign_bit", s1), ("op2_sign_bit", s2)) if s]

    def ab(c):
        x, y = c.v(X), y_of(c)
        return (zs(x) if s1 else x), (zs(y) if s2 else y)

    def sgn_b(c):
        return z3.And(s2, y_of(c) >= 1 << 31)
    kw["assume"] = facts
    if mul:
        def goal(c):
            M = c.mono(("op1_abs", "op2_abs"))[0]
            neg = z3.And(c.v(X) >= 1 << 31, z3.BoolVal(s1)) != z3.And(y_of(c) >= 1 << 31, z3.BoolVal(s2))
            p = z3.If(neg, -M, M)
            return c.v(D) == (p % M32 if op in ("MUL", "SLL") else (p / M32) % M32)
        by_cases(air, rep, row, "%s: result" % op, signs + ["product_sign"], ["op1_abs", "op2_abs", D], goal, conc_dst, **kw)
        return

    def goal(c):
        M = c.mono(("op2_abs", "quotient_value"))[0]
        q, r, d = c.v("quotient_value"), c.v("remainder_value"), c.v(D)
        m = c.v("op2_abs")
        a, b = ab(c)
        y = y_of(c)
        Q = lambda k: q - k * M32
        # (quotient, remainder) as integers: the row's sign columns say which representatives are meant
        alts = []
        for k in (0, 1):
            for j in (0, 1):
                R = r - j * M32
                qb = M - k * M32 * m          # Q * |b|
                if not shift:
                    qb = z3.If(sgn_b(c), -qb, qb)
                if op == "SRA":
                    good = z3.And(a == qb + R, R >= 0, R < m)
                elif shift:
                    good = z3.And(a == qb + R, R >= 0, R < m, k == 0)
                else:
                    good = z3.And(a == qb + R, zabs(R) < m, z3.Or(R == 0, (R < 0) == (a < 0)))
                alts.append(good)
        div = op in ("DIV", "DIVU") or shift
        res = z3.And(d == (q if div else r), q <= U32, r <= U32, z3.Or(alts))
        if shift:
            return res
        return z3.If(y == 0, d == (U32 if div else c.v(X)), res)
    bits = signs + ["quotient_sign", "remainder_sign"]
    by_cases(air, rep, row, "%s: result" % op, bits, ["op1_abs", "op2_abs", "quotient_value", "remainder_value", D], goal, conc_dst, **kw)


def emitted(air, row, roles):
    """Tuples this row contributes to lookups of the given roles: [(role, columns, count)]; None if undecided."""
    out = []
    for r, cols, f in lookups_of(air, row.table):
        if r in roles:
            p = air.poly(f, row.env, {})
            if not p:
                continue
            if set(p) != {()}:
                return None
            out.append((r, cols, p[()]))
    # lookups in which this table is the looked side
    for lk in air.d["lookups"]:
        r = role_of(air, lk)
        if r in roles:
            for e in lk:
                if e[0] == row.table and is_looked(air, e):
                    p = pscale(air.poly(e[2], row.env, {}), -1)
                    if p:
                        if set(p) != {()}:
                            return None
                        out.append((r, e[1], p[()]))
    return out


def match_tuples(air, rep, row, what, got, exp):
    """Each expected tuple is contributed exactly once; columns compared as field values under the constraints."""
    if got is None or len(got) != len(exp) or any(g[2] != 1 for g in got):
        rep.fail(what, "lookups contributed: %s, expected %d" % (got and [(g[0], g[2], [air.show(c) for c in g[1]]) for g in got], len(exp)))
        return
    left = list(got)
    for e in exp:
        for g in left:
            if len(g[1]) == len(e) and all(padd(air.poly(c, row.env, {}), ({(x,): 1} if x not in row.env else ({(): row.env[x]} if row.env[x] else {})) if isinstance(x, str) else ({(): x % P} if x % P else {}), -1) == {} for c, x in zip(g[1], e)):
                left.remove(g)
                rep.ok(trivial=True)
                break
        else:
            # not syntactically equal: let the solver compare the first unmatched one
            best = None
            for g in left:
                if len(g[1]) != len(e):
                    continue

                def goal(c, g=g):
                    return z3.And([c.zero(padd(air.poly(a, c.env, {}), ({(x,): 1} if isinstance(x, str) else {(): x} if x else {}), -1)) if not (isinstance(x, str) and x in c.env) else c.zero(padd(air.poly(a, c.env, {}), {(): c.env[x]} if c.env[x] else {}, -1)) for a, x in zip(g[1], e)])

                def conc(v, g=g):
                    memo = {}
                    return [air.eval(a, v, memo) for a in g[1]] == [v[x] if isinstance(x, str) else x for x in e]
                r = prove(row, rep.name, {x for x in e if isinstance(x, str)} | {v for a in g[1] for v in air.vars_of(a)}, goal, conc)
                if r["ok"]:
                    left.remove(g)
                    rep.discharged += 1
                    rep.obligations += 1
                    break
                best = r if best is None else best
            else:
                if best is None:
                    rep.fail(what, "no lookup of width %d" % len(e))
                else:
                    rep.add(what, row, best)
                return


OPS = ["SUB", "SRL", "SRA", "SLL", "SLT", "SLTU", "LB", "LH", "LW", "LBU", "LHU", "XOR", "JALR", "BEQ", "BNE", "BLT", "BLTU", "BGE", "BGEU", "AND", "OR", "SW", "SH", "SB", "MUL", "MULH", "MULHU", "MULHSU", "DIV", "DIVU", "REM", "REMU", "ECALL"]


def jobs_table():
    t = {}
    for op in OPS:
        t["cpu_decode_" + op] = (job_cpu_decode, op)
        t["cpu_step_" + op] = (job_cpu_step, op)
    import airtables
    t.update(airtables.jobs())
    return t


def run_one(air, name):
    rep = Report(air, name)
    fn, *args = jobs_table()[name]
    try:
        fn(air, rep, *args)
    except Exception:
        return dict(harness=name, error=traceback.format_exc()[-2500:])
    return rep.result()


def run(group, jobs, deadline):
    air = build()
    out = {}
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pend, live = [j["h"] for j in jobs], {}

    def work(h):
        q.put(run_one(air, h))
    while pend or live:
        while pend and len(live) < 8:
            h = pend.pop(0)
            live[h] = ctx.Process(target=work, args=(h,))
            live[h].start()
        try:
            r = q.get(timeout=2)
        except Exception:
            for h, p in list(live.items()):
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = dict(harness=h, error="process died")
                    break
            else:
                if time.time() > deadline:
                    for h, p in live.items():
                        p.kill()
                        out[h] = dict(harness=h, error="out of time")
                    for h in pend:
                        out[h] = dict(harness=h, error="out of time")
                    break
                continue
        out[r["harness"]] = r
        p = live.pop(r["harness"], None)
        if p:
            p.join()
    res = [out[j["h"]] for j in jobs]
    # not vacuous: honest runs satisfy every constraint and balance every lookup
    r = subprocess.run([HX, "traces", os.environ.get("VERIF_TRACES", "3")], capture_output=True, text=True)
    n = r.stdout.count("lookups")
    first = next((x for x in res if "error" not in x), None)
    if first is not None:
        first["validated"] += n
        if r.returncode or not n:
            first["incon"].append("honest runs do not satisfy the constraints: " + (r.stdout + r.stderr)[-600:])
    return res


if __name__ == "__main__":
    air = build() if "-n" not in sys.argv else Air(json.loads(subprocess.run([HX], capture_output=True, text=True).stdout))
    names = [a for a in sys.argv[1:] if a != "-n"]
    allj = jobs_table()
    sel = [n for n in allj if any(n == a or a.endswith("*") and n.startswith(a[:-1]) for a in names)]
    t = time.time()
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pend, live = list(sel), {}
    while pend or live:
        while pend and len(live) < 8:
            h = pend.pop(0)
            live[h] = ctx.Process(target=lambda h=h: q.put(run_one(air, h)))
            live[h].start()
        r = q.get()
        live.pop(r["harness"]).join()
        if "error" in r:
            print(r["harness"], "ERROR", r["error"])
            continue
        print(r["harness"], "ok %d trivial %d wall %.1f q %d s %.1f max %.1f" % (r["discharged"], r["trivial"], r["wall"], r["stats"].get("queries", 0), r["stats"].get("solver_s", 0), r["stats"].get("max_query_s", 0)))
        for v in r["viol"]:
            print("   VIOL", v["msg"], "confirmed" if v["confirmed"] else "UNCONFIRMED")
            if os.environ.get("VERB"):
                print(v["text"])
        for x in r["incon"]:
            print("   INCON", x)
    print("%.1f s" % (time.time() - t))
