"""airtables.py: obligations about the tables other than the CPU's. A statement is written
"premise ; premise => conclusion ; conclusion" over column names (next row primed); each atom is
"e == e", "e != e" or "e in lo..hi" (the canonical residue), alternatives separated by "or"."""
import re, ast
import z3
from air import Air, Ctx, P, U32, sgn, padd, pscale, pmul
from airrow import Row, prove, lookups_of, role_of, is_looked

NAME = re.compile(r"[A-Za-z_][A-Za-z_0-9.\[\]]*'?")


def parse(expr, env=None):
    """Polynomial of a textual expression over column names."""
    names = []

    def sub(m):
        names.append(m.group(0))
        return "_v%d" % (len(names) - 1)
    t = ast.parse(NAME.sub(sub, expr).strip(), mode="eval").body

    def go(n):
        if isinstance(n, ast.Constant):
            return {(): n.value % P} if n.value % P else {}
        if isinstance(n, ast.Name):
            v = names[int(n.id[2:])]
            return {(v,): 1} if not env or v not in env else ({(): env[v] % P} if env[v] % P else {})
        if isinstance(n, ast.UnaryOp):
            return pscale(go(n.operand), -1)
        a, b = go(n.left), go(n.right)
        if isinstance(n.op, ast.Add): return padd(a, b)
        if isinstance(n.op, ast.Sub): return padd(a, b, -1)
        if isinstance(n.op, ast.Mult): return pmul(a, b)
        if isinstance(n.op, ast.Pow): return {(): pow(n.left.value, n.right.value, P)}
        raise ValueError(expr)
    return go(t)


def evalp(p, v):
    r = 0
    for m, c in p.items():
        for x in m:
            c = c * v[x] % P
        r += c
    return r % P


class Atom:
    def __init__(self, text):
        if " in " in text:
            a, r = text.split(" in ")
            lo, hi = r.split("..")
            self.k, self.a, self.lo, self.hi = "in", a, eval(lo), eval(hi)
        else:
            self.k = "==" if "==" in text else "!="
            a, b = text.split(self.k)
            self.a = "(%s) - (%s)" % (a, b)

    def names(self):
        return set(NAME.findall(self.a))

    def z(self, c):
        p = parse(self.a, c.env)
        q = {}
        for m, k in p.items():      # products of several columns follow the context's conventions
            bs = sorted({x for x in m if x in c.boolean})
            mm = tuple(bs + sorted(x for x in m if x not in c.boolean))
            q[mm] = (q.get(mm, 0) + k) % P
        q = {m: k for m, k in q.items() if k}
        if self.k == "==":
            return c.zero(q)
        if self.k == "!=":
            return c.notzero(q)
        t = c.residue(q)
        return z3.And(t >= self.lo, t <= self.hi)

    def conc(self, v):
        x = evalp(parse(self.a), v)
        return {"==": x == 0, "!=": x != 0, "in": self.k == "in" and self.lo <= x <= self.hi}[self.k]


def atoms(text):
    """[[alternatives]]: conjunction of disjunctions."""
    return [[Atom(a) for a in cl.split(" or ")] for cl in text.split(";") if cl.strip()]


def z_of(cn):
    return lambda c: z3.And([z3.Or([a.z(c) for a in cl]) for cl in cn] + [z3.BoolVal(True)])


def c_of(cn):
    return lambda v: all(any(a.conc(v) for a in cl) for cl in cn)


def shift(air, i):
    """The expression one row later."""
    memo = air.__dict__.setdefault("shifted", {})
    if i in memo:
        return memo[i]
    n = air.N[i]
    if n[0] == "c":
        r = i
    elif n[0] == "v":
        x = air.var[i]
        if x.startswith("pi."):
            r = i
        else:
            assert not x.endswith("'")
            air.N.append(["v", "shifted"])
            r = len(air.N) - 1
            air.var[r] = x + "'"
    else:
        m = [n[0]] + [shift(air, k) for k in n[1:]]
        air.N.append(m)
        r = len(air.N) - 1
    memo[i] = r
    return r


def pair(air, table, env, kinds, stats, dom, roles=None, wrap=False):
    """A row and its successor; wrap: the last row and the first one."""
    row = Row(air, table, env, kinds=("always", "last") if wrap else kinds, stats=stats, dom=dom, roles=roles)
    local = lambda ns: not any(v.endswith("'") for x in ns for v in air.vars_of(x))
    for k, n in air.tables[table]["native"]:
        if k in (("always", "first") if wrap else ("always",)) and local([n]):
            row.nodes.append(shift(air, n))
    for r, cols, f, p in list(row.facts):
        if local(list(cols) + [f]):
            f2 = shift(air, f)
            q = air.poly(f2, row.env, {})
            if q:
                row.facts.append((r, [shift(air, x) for x in cols], f2, q))
    return row


def stmt(air, rep, table, what, text, kinds=("always",), env=None, dom=None, two=False, wrap=False, roles=("u32", "u8"), facts=(), budget=60):
    """facts: (role, [columns], filter text) the role's meaning is added for (only 'u8' ranges etc.)."""
    d = {k: v for k, v in (dom or {}).items() if k.rstrip("'") in air.names[table]}
    row = pair(air, table, env or {}, kinds, rep.stats, d, roles, wrap) if two or wrap else Row(air, table, env or {}, kinds=kinds, stats=rep.stats, dom=d, roles=roles)
    pre, post = text.split("=>")
    pre, post = atoms(pre), atoms(post)
    seeds = {x for cl in pre + post for a in cl for x in a.names()}
    missing = [x for x in seeds if x.rstrip("'") not in air.names[table] and not x.startswith("pi.")]
    if missing:
        raise KeyError("table %s has no column %s" % (table, missing))
    r = prove(row, rep.name, seeds, z_of(post), c_of(post), assume=z_of(pre), conc_assume=c_of(pre), budget=budget)
    row.kinds = kinds if not wrap else ("always",)
    rep.add("%s: %s" % (table, what), row, r, note=text)
    return r["ok"]


def contributions(air, table):
    """[(role, looked, filter node, column nodes)] of every lookup entry of a table."""
    out = []
    for lk in air.d["lookups"]:
        r = role_of(air, lk)
        for e in lk:
            if e[0] == table:
                out.append((r, is_looked(air, e), e[2], e[1]))
    return out


def lookups(air, rep, table, exp, env=None, kinds=("always",), dom=None, skip=("u8", "u32"), what="takes part in exactly its lookups"):
    """The table's contributions to lookups are the expected ones. exp: (role, "filter", ["columns"]); role "-x": looked side.
    Entries that feed range checks are not compared (missing ones show up in the statements that need them)."""
    env = env or {}
    dom = {k: v for k, v in (dom or {}).items() if k.rstrip("'") in air.names[table]}
    got = [g for g in contributions(air, table) if g[0] not in skip or g[1]]
    lab = lambda g: ("-" if g[1] else "") + g[0]
    sg = lambda g: pscale(air.poly(g[2], env, {}), -1 if g[1] else 1)
    got = [g for g in got if sg(g)]
    for role, f, cols in exp:
        F, C = parse(f, env), [parse(x, env) for x in cols]
        cand = [g for g in got if lab(g) == role and len(g[3]) == len(cols)]
        hit = [g for g in cand if sg(g) == F and [air.poly(x, env, {}) for x in g[3]] == C]
        if hit:
            got.remove(hit[0])
            rep.ok(trivial=True)
            continue
        best = None
        for g in cand:
            row = Row(air, table, env, kinds=kinds, stats=rep.stats, dom=dom or {}, roles=("u8", "u32"))

            def goal(c, g=g):
                fp = sg(g)
                return z3.And(c.zero(padd(norm(c, fp), norm(c, F), -1)), z3.Or(c.zero(norm(c, F)), z3.And([c.zero(padd(norm(c, air.poly(x, c.env, {})), norm(c, y), -1)) for x, y in zip(g[3], C)])))

            def conc(v, g=g):
                memo = {}
                fv = air.eval(g[2], v, memo) * (-1 if g[1] else 1) % P
                return fv == evalp(F, v) and (fv == 0 or [air.eval(x, v, memo) for x in g[3]] == [evalp(y, v) for y in C])
            seeds = {x for m in F for x in m} | {x for q in C for m in q for x in m} | {x for n in [g[2]] + list(g[3]) for x in air.vars_of(n)}
            for n in seeds:
                if n.rstrip("'") not in air.names[table]:
                    raise KeyError("table %s has no column %s" % (table, n))
            r = prove(row, rep.name, seeds, goal, conc, budget=30)
            if r["ok"]:
                got.remove(g)
                rep.ok()
                break
            best = (row, r) if best is None or r["ok"] is False else best
        else:
            w = "%s: lookup %s (%s) where %s" % (table, role, ", ".join(cols), f)
            if best is None:
                rep.fail(w, "no such lookup; the table has %s" % [(lab(g), air.show(g[2])) for g in got])
            else:
                rep.add(w, best[0], best[1])
    for g in got:
        row = Row(air, table, env, kinds=kinds, stats=rep.stats, dom=dom or {}, roles=("u8", "u32"))
        r = prove(row, rep.name, set(air.vars_of(g[2])), lambda c: c.zero(norm(c, air.poly(g[2], c.env, {}))), lambda v: air.eval(g[2], v, {}) == 0, budget=30)
        rep.add("%s: an unexpected lookup %s (%s)" % (table, lab(g), ", ".join(air.show(x) for x in g[3])[:120]), row, r)


def norm(c, p):
    q = {}
    for m, k in p.items():
        bs = sorted({x for x in m if x in c.boolean})
        mm = tuple(bs + sorted(x for x in m if x not in c.boolean))
        q[mm] = (q.get(mm, 0) + k) % P
    return {m: k for m, k in q.items() if k}


# ---------------------------------------------------------------- jobs
W = "0..4294967295"
RX = {"inst.rs1_selected": (0, 31), "inst.rs2_selected": (0, 31), "inst.rd_selected": (0, 31), "inst.imm_value": (0, U32), "inst.pc": (0, U32), "op1_value": (0, U32), "op2_value": (0, U32)}


def own_rom(air, rep, table, op):
    """A running row of a single-operation table is that operation's instruction."""
    from airjobs import OPS, rom_polys
    ent = [g for g in contributions(air, table) if g[0] == "rom"]
    if len(ent) != 1:
        rep.fail("%s: program lookup" % table, "found %d entries" % len(ent))
        return
    _, _, f, cols = ent[0]
    env = {"is_running": 1}
    if air.poly(f, env, {}) != {(): 1}:
        rep.fail("%s: program lookup" % table, "a running row looks itself up with multiplicity %s" % air.show(f))
        return
    dom = {k: v for k, v in RX.items() if k in air.names[table] and k != "inst.imm_value"}
    for o in sorted(set(OPS) | {"ADD"}):
        rp = rom_polys(air, o)
        row = Row(air, table, env, stats=rep.stats, dom=dom, roles=("u32", "u8"))

        def assume(c):
            for k, hi in (("rom.rs1", 31), ("rom.rs2", 31), ("rom.rd", 31), ("rom.imm", U32), ("rom.pc", U32)):
                if k not in c.dom:
                    c.bound(k, 0, hi)
            return z3.And([c.zero(padd(air.poly(a, c.env, {}), b, -1)) for a, b in zip(cols, rp)])

        def conc_assume(v):
            memo = {}
            return all(air.eval(a, v, memo) == evalp(b, v) for a, b in zip(cols, rp))
        if o == op:
            want = [("inst.pc", "rom.pc"), ("inst.rs1_selected", "rom.rs1"), ("inst.rs2_selected", "rom.rs2"), ("inst.imm_value", "rom.imm")] + ([("inst.rd_selected", "rom.rd")] if "inst.rd_selected" in air.names[table] else [])
            goal = lambda c: z3.And([c.v(a) == c.v(b) for a, b in want])
            conc = lambda v: all(v[a] == v[b] for a, b in want)
            what = "%s: the row's registers and immediate are the instruction's" % table
        else:
            goal, conc = (lambda c: z3.BoolVal(False)), (lambda v: False)
            what = "%s: a %s instruction passes for %s" % (table, o, op)
        r = prove(row, rep.name, set(dom) | {"inst.imm_value"}, goal, conc, assume=assume, conc_assume=conc_assume, budget=30)
        rep.add(what, row, r)


def job_add(air, rep):
    stmt(air, rep, "Add", "is_running is a bit", "=> is_running in 0..1")
    stmt(air, rep, "Add", "the result is the sum modulo 2^32", "is_running == 1 ; op2_value == 0 or inst.imm_value == 0 => dst_value == op1_value + op2_value + inst.imm_value or dst_value == op1_value + op2_value + inst.imm_value - 2**32 ; dst_value in " + W, dom=RX, env={"is_running": 1})
    lookups(air, rep, "Add", [("skeleton", "is_running", ["clk", "inst.pc", "inst.pc + 4", "0"]), ("reg", "is_running", ["clk", "1", "inst.rs1_selected", "op1_value"]), ("reg", "is_running", ["clk", "1", "inst.rs2_selected", "op2_value"]),
                              ("reg", "is_running", ["clk", "2", "inst.rd_selected", "dst_value"])], skip=("u8", "u32", "rom"))
    own_rom(air, rep, "Add", "ADD")


def job_blt(air, rep):
    stmt(air, rep, "BltTaken", "is_running is a bit", "=> is_running in 0..1")
    stmt(air, rep, "BltTaken", "the branch is only taken when the first operand is below the second", "is_running == 1 => op2_value - op1_value in 1..4294967295", dom=RX, env={"is_running": 1})
    lookups(air, rep, "BltTaken", [("skeleton", "is_running", ["clk", "inst.pc", "inst.imm_value", "0"]), ("reg", "is_running", ["clk", "1", "inst.rs1_selected", "op1_value"]), ("reg", "is_running", ["clk", "1", "inst.rs2_selected", "op2_value"])], skip=("u8", "u32", "rom"))
    own_rom(air, rep, "BltTaken", "BLTU")


def job_selectors(air, rep, op):
    """No system call selector is set on the rows of other instructions."""
    from airjobs import cpu_row
    row = cpu_row(air, op, rep.stats)
    sel = [n for n in air.names["Cpu"] if n.startswith("ecall_selectors.")]
    r = prove(row, rep.name, set(sel), lambda c: z3.And([c.v(n) == 0 for n in sel]), lambda v: all(v[n] == 0 for n in sel))
    rep.add("%s: a row of another instruction performs a system call" % op, row, r)


def job_cpu_filters(air, rep):
    """Rows are one instruction or none; their selectors are bits."""
    for n in air.names["Cpu"]:
        if n.startswith("inst.ops."):
            stmt(air, rep, "Cpu", "%s is a bit" % n, "=> %s in 0..1" % n, roles=())
    ops = [n for n in air.names["Cpu"] if n.startswith("inst.ops.")]
    stmt(air, rep, "Cpu", "at most one instruction", "=> %s in 0..1" % " + ".join(ops), roles=(), dom={n: (0, 1) for n in ops})


def job_cpu_dummy(air, rep):
    """A row without an instruction takes part in no lookup and makes no system call."""
    ops = [n for n in air.names["Cpu"] if n.startswith("inst.ops.")]
    env = {n: 0 for n in ops}
    sel = [n for n in air.names["Cpu"] if n.startswith("ecall_selectors.")]
    stmt(air, rep, "Cpu", "no system call without an instruction", "=> " + " ; ".join("%s == 0" % n for n in sel), env=env, roles=())
    lookups(air, rep, "Cpu", [], env=env, what="padding")


def job_ecall_numbers(air, rep):
    """Each kind of system call is served by the storage table that reads its tape."""
    want = {"is_private_tape": "StorageDevicePrivate", "is_public_tape": "StorageDevicePublic", "is_call_tape": "CallTape", "is_event_tape": "EventTape", "is_events_commitment_tape": "EventsCommitmentTape", "is_cast_list_commitment_tape": "CastListCommitmentTape", "is_self_prog_id_tape": "SelfProgIdTape"}
    sel = [n for n in air.names["Cpu"] if n.startswith("ecall_selectors.")]
    num = {}
    for t in want.values():
        e = [g for g in contributions(air, t) if g[0] == "storage"]
        p = air.poly(e[0][3][0], {}, {}) if len(e) == 1 else None
        if p is None or not set(p) <= {()}:
            rep.fail("%s: call lookup" % t, "no constant table number")
            return
        num[t] = p.get((), 0)
    if len(set(num.values())) != len(num):
        rep.fail("two storage tables share a number", str(num))
        return
    rep.ok(trivial=True)
    for n, t in want.items():
        env = {s: int(s == "ecall_selectors." + n) for s in sel}
        env.update({o: int(o == "inst.ops.ecall") for o in air.names["Cpu"] if o.startswith("inst.ops.")})
        lookups(air, rep, "Cpu", [("-storage", "1", [str(num[t]), "clk", "io_addr", "io_size"])], env=env, skip=("u8", "u32", "reg", "skeleton", "rom", "sponge", "mem", "half", "full", "xor", "shift"))
    env = {s: int(s == "ecall_selectors.is_poseidon2") for s in sel}
    env.update({o: int(o == "inst.ops.ecall") for o in air.names["Cpu"] if o.startswith("inst.ops.")})
    lookups(air, rep, "Cpu", [("-sponge", "1", ["clk"])], env=env, skip=("u8", "u32", "reg", "skeleton", "rom", "storage", "mem", "half", "full", "xor", "shift"))
    # halt performs neither
    env = {s: int(s == "ecall_selectors.is_halt") for s in sel}
    env.update({o: int(o == "inst.ops.ecall") for o in air.names["Cpu"] if o.startswith("inst.ops.")})
    lookups(air, rep, "Cpu", [], env=env, skip=("u8", "u32", "reg", "skeleton", "rom", "mem", "half", "full", "xor", "shift"))


def job_program(air, rep):
    lookups(air, rep, "ProgramMult", [("-rom", "mult_in_cpu", ["rom_row.pc", "rom_row.inst_data", "rom_row.imm_value"]), ("program", "1", ["rom_row.pc", "rom_row.inst_data", "rom_row.imm_value"])])
    lookups(air, rep, "Program", [("-program", "1", ["pc", "inst_data", "imm_value"])])
    for t in ("Program", "ElfMemoryInit"):
        if t not in air.d["public_kinds"]:
            rep.fail("%s is not public" % t, str(air.d["public_kinds"]))
        else:
            rep.ok(trivial=True)


def job_skeleton(air, rep):
    T = "CpuSkeleton"
    stmt(air, rep, T, "the run starts at the entry point", "=> pc == pi.0 ; clk == 2 ; is_running == 1", kinds=("always", "first"))
    tr = ("always", "transition")
    stmt(air, rep, T, "is_running is a bit and the clock counts running rows", "is_running in 0..1 => clk' == clk + is_running ; is_running' in 0..1", kinds=tr)
    stmt(air, rep, T, "is_running stays a bit", "is_running in 0..1 => is_running' in 0..1", kinds=tr)
    stmt(air, rep, T, "a stopped run does not resume", "is_running == 0 => is_running' == 0", kinds=tr)
    stmt(air, rep, T, "the run has stopped at the last row", "=> is_running == 0", kinds=("always", "last"))
    lookups(air, rep, T, [("-skeleton", "is_running", ["clk", "pc", "pc'", "1 - is_running'"])])


AUG = "4*clk - is_store - 2*is_load - 3*is_init"
AUGN = "4*clk' - is_store' - 2*is_load' - 3*is_init'"


def job_memory(air, rep):
    T, tr = "Memory", ("always", "transition")
    ex, exn = "is_store + is_load + is_init", "is_store' + is_load' + is_init'"
    for n in ("is_store", "is_load", "is_init", "is_writable"):
        stmt(air, rep, T, "%s is a bit" % n, "=> %s in 0..1" % n)
    stmt(air, rep, T, "one access per row", "=> %s in 0..1" % ex, dom={n: (0, 1) for n in ("is_store", "is_load", "is_init")})
    D = {n + q: (0, 1) for n in ("is_store", "is_load", "is_init", "is_writable") for q in ("", "'")}
    stmt(air, rep, T, "only initialisation changes the address or its permission", "is_init' == 0 => addr' == addr ; is_writable' == is_writable", kinds=tr, two=True)
    stmt(air, rep, T, "padding comes last", "%s == 1 => %s == 1" % (exn, ex), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "a load returns the value held", "is_load' == 1 => value' == value", kinds=tr, two=True)
    stmt(air, rep, T, "stores only to writable addresses", "is_store == 1 => is_writable == 1")
    stmt(air, rep, T, "each address is initialised once, in increasing order", "%s == 1 ; is_init' == 1 => addr' - addr in 1..4294967296" % ex, kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "accesses to an address are in time order", "is_init' == 0 => (%s) - (%s) in %s" % (AUGN, AUG, W), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "the first row initialises address zero", "=> is_init' == 1 ; addr' == 0", wrap=True)
    stmt(air, rep, T, "the last row ends the address space", "=> addr == 4294967295", kinds=("always", "last"))
    stmt(air, rep, T, "values are bytes", "%s == 1 => value in 0..255" % ex, dom=D)
    lookups(air, rep, T, [("-mem", "is_store + is_load", ["clk", "is_store", "is_load", "addr", "value"]), ("-init", "is_init", ["is_writable", "addr", "clk", "value"])])


def job_memory_init(air, rep):
    stmt(air, rep, "ElfMemoryInit", "filter is a bit", "=> filter in 0..1")
    stmt(air, rep, "MemoryZeroInit", "filter is a bit", "=> filter in 0..1")
    lookups(air, rep, "ElfMemoryInit", [("init", "filter", ["is_writable", "address", "1", "value"])])
    lookups(air, rep, "MemoryZeroInit", [("init", "filter", ["1", "addr", "0", "0"])])


def job_words(air, rep, T, n):
    for o in ("ops.is_store", "ops.is_load"):
        stmt(air, rep, T, "%s is a bit" % o, "=> %s in 0..1" % o)
    stmt(air, rep, T, "one access per row", "=> ops.is_store + ops.is_load in 0..1", dom={"ops.is_store": (0, 1), "ops.is_load": (0, 1)})
    D = {"addrs[%d]" % i: (0, U32) for i in range(n)}
    for st in (0, 1):
        for i in range(1, n):
            stmt(air, rep, T, "byte %d lies %d after the first, modulo 2^32 (%s)" % (i, i, "store" if st else "load"), "=> addrs[%d] == addrs[0] + %d or addrs[%d] == addrs[0] + %d - 2**32" % (i, i, i, i), env={"ops.is_store": st, "ops.is_load": 1 - st}, dom=D)
    run = "ops.is_store + ops.is_load"
    lookups(air, rep, T, [({2: "-half", 4: "-full"}[n], run, ["clk", "ops.is_store", "ops.is_load", "addrs[0]", " + ".join("limbs[%d]*%d" % (i, 256**i) for i in range(n))])]
            + [("mem", run, ["clk", "ops.is_store", "ops.is_load", "addrs[%d]" % i, "limbs[%d]" % i]) for i in range(n)])


def job_register(air, rep):
    T, tr = "Register", ("always", "transition")
    B = ("ops.is_init", "ops.is_read", "ops.is_write")
    u, un = " + ".join(B), " + ".join(b + "'" for b in B)
    for n in B:
        stmt(air, rep, T, "%s is a bit" % n, "=> %s in 0..1" % n)
    stmt(air, rep, T, "one access per row", "=> %s in 0..1" % u, dom={n: (0, 1) for n in B})
    D = {n + q: (0, 1) for n in B for q in ("", "'")}
    stmt(air, rep, T, "a read returns the value held", "ops.is_read' == 1 => value' == value", kinds=tr, two=True)
    stmt(air, rep, T, "reads and writes stay at the register", "ops.is_read' + ops.is_write' == 1 => addr' == addr ; %s == 1" % u, kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "registers come in order", "=> addr' == addr or addr' == addr + 1", kinds=tr, two=True)
    stmt(air, rep, T, "padding comes last", "%s == 1 => %s == 1" % (un, u), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "the first row initialises register one", "=> addr == 1 ; ops.is_init == 1", kinds=("always", "first"), dom={n: (0, 1) for n in B})
    stmt(air, rep, T, "the last row is about register 31", "=> addr == 31", kinds=("always", "last"))
    stmt(air, rep, T, "a register is initialised once", "ops.is_init' == 1 ; ops.is_init == 0 => addr' == addr + 1", kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "accesses to a register are in time order, reads first", "ops.is_read' + ops.is_write' == 1 => 2*clk' + ops.is_write' - 2*clk - ops.is_write in " + W, kinds=tr, two=True, dom=D)
    lookups(air, rep, T, [("-reg", u, ["clk", "ops.is_read + 2*ops.is_write", "addr", "value"])])
    lookups(air, rep, "RegisterZeroRead", [("-reg", "is_used", ["clk", "1", "0", "0"])])
    lookups(air, rep, "RegisterZeroWrite", [("-reg", "is_used", ["clk", "2", "0", "value"])])
    lookups(air, rep, "RegisterInit", [("reg", "1", ["0", "0", "reg_addr", "value"])])


def job_xor(air, rep):
    T = "Xor"
    D = {}
    for x in ("a", "b", "out"):
        for i in range(32):
            n = "limbs.%s[%d]" % (x, i)
            if stmt(air, rep, T, "%s is a bit" % n, "=> %s in 0..1" % n):
                D[n] = (0, 1)
    for i in range(32):
        stmt(air, rep, T, "bit %d of the result" % i, "=> limbs.out[{0}] == limbs.a[{0}] + limbs.b[{0}] - 2*limbs.a[{0}]*limbs.b[{0}]".format(i), dom=D)
    for x in ("a", "b", "out"):
        stmt(air, rep, T, "execution.%s is its bits" % x, "=> execution.%s == %s" % (x, " + ".join("limbs.%s[%d]*%d" % (x, i, 2**i) for i in range(32))), dom=D)
    lookups(air, rep, T, [("-xor", "is_execution_row", ["execution.a", "execution.b", "execution.out"])])


def job_bitshift(air, rep):
    T, tr = "Bitshift", ("always", "transition")
    a, m = "executed.amount", "executed.multiplier"
    stmt(air, rep, T, "starts at shift zero", "=> %s == 0 ; %s == 1" % (a, m), kinds=("always", "first"))
    for k in range(32):
        e = {a: k, m: 2**k}
        stmt(air, rep, T, "row of amount %d leads to itself or the next" % k, "=> %s' - %d in 0..1" % (a, k), env=e, kinds=tr)
        stmt(air, rep, T, "staying at amount %d keeps the power of two" % k, "=> %s' == %d" % (m, 2**k), env=dict(e, **{a + "'": k}), kinds=tr)
        stmt(air, rep, T, "leaving amount %d doubles the power of two" % k, "=> %s' == %d" % (m, 2**(k + 1)), env=dict(e, **{a + "'": k + 1}), kinds=tr)
    stmt(air, rep, T, "ends at shift 31", "=> %s == 31" % a, kinds=("always", "last"))
    lookups(air, rep, T, [("-shift", "multiplicity", [a, m])])


def job_rangechecks(air, rep):
    T = "RangeCheckU8"
    stmt(air, rep, T, "starts at zero", "=> value == 0", kinds=("always", "first"))
    stmt(air, rep, T, "steps by one", "=> value' == value + 1", kinds=("always", "transition"))
    stmt(air, rep, T, "ends at 255", "=> value == 255", kinds=("always", "last"))
    lookups(air, rep, T, [("-u8", "multiplicity", ["value"])], skip=())
    T = "RangeCheck"
    lb = ["limbs[%d]" % i for i in range(4)]
    word = " + ".join("limbs[%d]*%d" % (i, 256**i) for i in range(4))
    lookups(air, rep, T, [("-u32", "multiplicity", [word])], skip=("u8",))
    stmt(air, rep, T, "four bytes make a 32-bit word", "multiplicity == 1 => %s in %s" % (word, W), dom={"multiplicity": (0, 1)}, env={"multiplicity": 1})
    # a value offered for lookup must have its limbs checked, whatever the multiplicity
    for x in lb:
        e = [g for g in contributions(air, T) if g[0] == "u8" and not g[1] and air.poly(g[3][0], {}, {}) == {(x,): 1}]
        p = air.poly(e[0][2], {}, {}) if len(e) == 1 else None
        if p == {("multiplicity",): 1}:
            forged(air, rep, x)
        elif p != {(): 1}:
            rep.fail("RangeCheck: %s is not range checked" % x, "filter %s" % (e and air.show(e[0][2])))
        else:
            rep.ok(trivial=True)


def forged(air, rep, x):
    """Three rows whose weighted limbs are bytes although one value looked up is 1/256 modulo p (first two limbs)."""
    inv = pow(256, P - 2, P)
    rows = [([inv, 0, 0, 0], 1), ([0, inv, 0, 0], P - 1), ([1, 0, 0, 0], 1)]
    words, limbs = {}, {}
    for role, looked, f, cols in contributions(air, "RangeCheck"):
        for l, m in rows:
            e = {"limbs[%d]" % k: w for k, w in enumerate(l)}
            e["multiplicity"] = m
            w, fv = air.eval(cols[0], e), air.eval(f, e)
            d = words if looked else limbs
            d[w] = (d.get(w, 0) + (-fv if looked else fv)) % P
    bad = [w for w, m in limbs.items() if m and w > 255]
    offered = {w: m for w, m in words.items() if m and w > U32}
    rep.fail("RangeCheck: limbs are range checked with the row's free multiplicity", "limb %s is looked up among the bytes with the filter `multiplicity`, which nothing restricts\nrows (limbs, multiplicity): %s\nvalues above 255 looked up among the bytes after cancelling: %s\nvalues above 2^32 - 1 offered as range checked: %s" % (x, rows, bad, offered), confirmed=not bad and bool(offered))


def job_filters(air, rep):
    """Every lookup entry counts each row zero or one times (tables that list what is looked up may count further)."""
    free = {("Bitshift", "shift"), ("RangeCheck", "u32"), ("RangeCheckU8", "u8"), ("ProgramMult", "rom"), ("TapeCommitments", "commit"), ("RegisterZeroRead", "reg"), ("RegisterZeroWrite", "reg"), ("Xor", "xor"), ("CpuSkeleton", "skeleton")}
    seen = set()
    for lk in air.d["lookups"]:
        role = role_of(air, lk)
        for t, cols, f in lk:
            if (t, role) in free and is_looked(air, [t, cols, f]):
                rep.ok(trivial=True)
                continue
            if (t, role) == ("RangeCheck", "u8") or t == "Cpu" and not is_looked(air, [t, cols, f]):
                continue        # the known finding; CPU rows: see the per-instruction checks
            if (t, f) in seen:
                continue
            seen.add((t, f))
            s = -1 if is_looked(air, [t, cols, f]) else 1
            two = any(v.endswith("'") for v in air.vars_of(f))
            row = pair(air, t, {}, ("always",), rep.stats, {}, ()) if two else Row(air, t, {}, stats=rep.stats, roles=())
            p = pscale(air.poly(f, {}, {}), s)
            r = prove(row, rep.name, set(air.vars_of(f)), lambda c: z3.Or(c.zero(norm(c, p)), c.zero(padd(norm(c, p), {(): 1}, -1))), lambda v: evalp(p, v) in (0, 1), budget=40)
            rep.add("%s: a row takes part in lookup %s more than once (%s)" % (t, role, air.show(f)[:100]), row, r)


STORE = {"StorageDevicePrivate": 0, "StorageDevicePublic": 1, "CallTape": 2, "EventTape": 3, "EventsCommitmentTape": 4, "CastListCommitmentTape": 5, "SelfProgIdTape": 6}


def job_storage(air, rep, T):
    tr = ("always", "transition")
    st, sd, ch = "ops.is_memory_store", "ops.is_storage_device", "is_lv_and_nv_are_memory_rows"
    for n in (st, sd, ch):
        stmt(air, rep, T, "%s is a bit" % n, "=> %s in 0..1" % n)
    D = {n + q: (0, 1) for n in (st, sd, ch) for q in ("", "'")}
    D.update({"addr": (0, U32), "addr'": (0, U32)})
    stmt(air, rep, T, "a row is a call, a byte or padding", "=> %s + %s in 0..1" % (st, sd), dom=D)
    stmt(air, rep, T, "the first row is not a byte", "=> %s == 0" % st, kinds=("always", "first"), dom=D)
    stmt(air, rep, T, "a byte row follows a call or another byte", "%s' == 1 => %s + %s == 1 ; %s + %s == 1" % (st, st, sd, sd, ch), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "the first byte of a non-empty call goes to the call's buffer", "%s == 1 ; size != 0 => %s' == 1 ; clk' == clk ; addr' == addr ; size' == size - 1" % (sd, st), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "a byte after a call means the call is not empty", "%s == 1 ; %s' == 1 => size' == size - 1" % (sd, st), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "a byte after a byte belongs to the same call and goes to the next address", "%s == 1 ; %s' == 1 => clk' == clk ; size' == size - 1 ; addr' == addr + 1 or addr' == addr + 1 - 2**32" % (st, st), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "the call's bytes are all there", "%s == 1 ; size != 0 => %s' == 1" % (st, st), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "the last row ends a call", "%s + %s == 1 => size == 0" % (st, sd), kinds=("always", "last"), dom=D)
    exp = [("mem", st, ["clk", st, "0", "addr", "value"]), ("reg", sd, ["clk", "1", "11", "addr"]), ("storage", sd, [str(STORE[T]), "clk", "addr", "size"])]
    if T in ("EventsCommitmentTape", "CastListCommitmentTape"):
        exp.append(("commit", st, ["value", "31 - size"]))
    # the table's number itself is compared with the CPU's selectors elsewhere
    e = [g for g in contributions(air, T) if g[0] == "storage"]
    if len(e) == 1:
        p = air.poly(e[0][3][0], {}, {})
        exp[2][2][0] = str(p.get((), 0)) if set(p) <= {()} else exp[2][2][0]
    lookups(air, rep, T, exp, dom=D)


def job_commitments(air, rep):
    T = "TapeCommitments"
    a, b = "is_event_commitment_tape_row", "is_castlist_commitment_tape_row"
    for n in (a, b):
        stmt(air, rep, T, "%s is a bit" % n, "=> %s in 0..1" % n)
    D = {a: (0, 1), b: (0, 1)}
    stmt(air, rep, T, "a row belongs to one commitment", "=> %s + %s in 0..1" % (a, b), dom=D)
    stmt(air, rep, T, "only event commitment bytes are read from that tape", "event_commitment_tape_multiplicity != 0 => %s == 1" % a, dom=D)
    stmt(air, rep, T, "only cast list commitment bytes are read from that tape", "castlist_commitment_tape_multiplicity != 0 => %s == 1" % b, dom=D)
    # one list per tape: which looked multiplicity serves which tape
    for tape, m in (("EventsCommitmentTape", "event_commitment_tape_multiplicity"), ("CastListCommitmentTape", "castlist_commitment_tape_multiplicity")):
        lk = [l for l in air.d["lookups"] if role_of(air, l) == "commit" and any(e[0] == tape for e in l)]
        ok = len(lk) == 1 and {e[0] for e in lk[0]} == {tape, T} and all(pscale(air.poly(e[2], {}, {}), -1) == {(m,): 1} and [air.poly(x, {}, {}) for x in e[1]] == [{("commitment_byte_row.byte",): 1}, {("commitment_byte_row.index",): 1}] for e in lk[0] if e[0] == T)
        rep.ok(trivial=True) if ok else rep.fail("%s: bytes are not tied to the public commitment" % tape, str(lk))
    pub = sorted((e[0][0], e[1], air.show(e[0][2]), [air.show(x) for x in e[0][1]]) for e in air.d["public_sub_tables"])
    want = sorted((T, 32, n, ["commitment_byte_row.byte"]) for n in (a, b))
    rep.ok(trivial=True) if pub == want else rep.fail("the commitments are not public", "%s, expected %s" % (pub, want))


def job_sponge(air, rep):
    T, tr = "Poseidon2Sponge", ("always", "transition")
    i, p, g = "ops.is_init_permute", "ops.is_permute", "gen_output"
    for n in (i, p, g):
        stmt(air, rep, T, "%s is a bit" % n, "=> %s in 0..1" % n)
    D = {n + q: (0, 1) for n in (i, p, g) for q in ("", "'")}
    stmt(air, rep, T, "a row starts, continues or pads", "=> %s + %s in 0..1" % (i, p), dom=D)
    stmt(air, rep, T, "padding produces no output", "%s == 1 => %s + %s == 1" % (g, i, p), dom=D)
    stmt(air, rep, T, "output comes when eight bytes are left", "%s == 1 => input_len == 8" % g, dom=D)
    stmt(air, rep, T, "the first row starts a sponge or pads", "=> %s == 0" % p, kinds=("always", "first"), dom=D)
    stmt(air, rep, T, "an unfinished sponge goes on with the next eight bytes", "%s + %s == 1 ; %s == 0 => %s' == 1 ; input_len' == input_len - 8 ; input_addr' == input_addr + 8 ; clk' == clk ; output_addr' == output_addr" % (i, p, g, p), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "a sponge continues only after an unfinished row", "%s' == 1 => %s + %s == 1 ; %s == 0 ; clk' == clk" % (p, i, p, g), kinds=tr, two=True, dom=D)
    stmt(air, rep, T, "the last row leaves no sponge unfinished", "%s + %s == 1 => %s == 1" % (i, p, g), kinds=("always", "last"), dom=D)
    stmt(air, rep, T, "a sponge starts with zero capacity", "%s == 1 => %s" % (i, " ; ".join("preimage[%d] == 0" % k for k in range(8, 12))), dom=D)
    stmt(air, rep, T, "a sponge carries its capacity over", "%s' == 1 => %s" % (p, " ; ".join("preimage[%d]' == output[%d]" % (k, k) for k in range(8, 12))), kinds=tr, two=True, dom=D)
    run = "%s + %s" % (i, p)
    lookups(air, rep, T, [("mem", run, ["clk", "0", "1", "input_addr + %d" % k, "preimage[%d]" % k]) for k in range(8)] + [("reg", i, ["clk", "1", "11", "input_addr"]), ("reg", i, ["clk", "1", "12", "input_len"]), ("reg", i, ["clk", "1", "13", "output_addr"]), ("sponge", i, ["clk"]),
                          ("-perm", run, ["preimage[%d]" % k for k in range(12)] + ["output[%d]" % k for k in range(12)]), ("-outbytes", g, ["clk", "output_addr"] + ["output[%d]" % k for k in range(4)])], dom=D)
    T = "Poseidon2OutputBytes"
    stmt(air, rep, T, "is_executed is a bit", "=> is_executed in 0..1")
    for k in range(4):
        stmt(air, rep, T, "field %d is its eight bytes" % k, "is_executed == 1 => output_fields[%d] == %s" % (k, " + ".join("output_bytes[%d]*%d" % (8 * k + j, 256**j) for j in range(8))), dom={"output_bytes[%d]" % j: (0, 255) for j in range(32)})
    lookups(air, rep, T, [("mem", "is_executed", ["clk", "1", "0", "output_addr + %d" % k, "output_bytes[%d]" % k]) for k in range(32)] + [("outbytes", "is_executed", ["clk", "output_addr"] + ["output_fields[%d]" % k for k in range(4)])])


def linear(air, i, x, memo):
    """(k, rest): the node is k * x + rest with a constant k and a rest free of x; None if it is not of this form. rest is kept opaque."""
    if i in memo:
        return memo[i]
    n = air.N[i]
    if n[0] == "c":
        r = (0, ("n", i))
    elif n[0] == "v":
        r = (1, None) if air.var[i] == x else (0, ("n", i))
    else:
        a = [linear(air, k, x, memo) for k in n[1:]]
        if any(t is None for t in a):
            r = None
        elif n[0] in "+-":
            r = ((a[0][0] + (a[1][0] if n[0] == "+" else -a[1][0])) % P, (n[0], a[0][1], a[1][1]))
        elif n[0] == "~":
            r = (-a[0][0] % P, ("~", a[0][1]))
        elif all(t[0] == 0 for t in a):
            r = (0, ("n", i))
        else:
            c, o = (0, 1) if air.N[n[1]][0] == "c" else (1, 0)
            if air.N[n[1 + c]][0] != "c":
                r = None
            else:
                k = int(air.N[n[1 + c]][1]) % P
                r = (k * a[o][0] % P, ("*", k, a[o][1]))
    memo[i] = r
    return r


def job_functional(air, rep, T, inputs, outputs):
    """The table's outputs are a function of its inputs: two rows that agree on the columns settled so far agree on the next one."""
    known = set(inputs)
    todo = [n for k, n in air.tables[T]["native"] if k == "always"]
    vs = {n: {v for v in air.vars_of(n)} for n in todo}
    while True:
        step = [(n, next(iter(vs[n] - known))) for n in todo if len(vs[n] - known) == 1]
        prog = False
        for n, x in step:
            if x in known:
                continue
            l = linear(air, n, x, {})
            if l is None or l[0] == 0:
                continue
            # two rows: same rest K, own columns x1, x2
            s = z3.Solver()
            s.set("timeout", 20000)
            K, x1, x2, q1, q2 = z3.Ints("K x1 x2 q1 q2")
            k = sgn(l[0])
            s.add(K >= 0, K < P, x1 >= 0, x1 < P, x2 >= 0, x2 < P, k * x1 + K == q1 * P, k * x2 + K == q2 * P, x1 != x2)
            r = s.check()
            rep.stats["queries"] = rep.stats.get("queries", 0) + 1
            if r == z3.unsat:
                rep.ok()
                known.add(x)
                prog = True
        if not prog:
            break
    free = [x for x in outputs if x not in known]
    rep.functions[T] = len(todo)
    if not free:
        return
    # an output that nothing settles: exhibit two rows with the same inputs
    rep.incon.append("%s: outputs not settled by the inputs: %s" % (T, free[:4])) if not witness(air, rep, T, inputs, free, todo, vs) else None


def witness(air, rep, T, inputs, free, todo, vs):
    """Two different rows with zero inputs satisfying every constraint."""
    rows = []
    for seed in (0, 1):
        e = {c: 0 for c in inputs}
        open_ = [c for c in air.names[T] if c not in e]
        while open_:
            prog = False
            for n in todo:
                u = [v for v in vs[n] if v not in e]
                if len(u) == 1:
                    x = u[0]
                    f0, f1 = (air.eval(n, dict(e, **{x: t})) for t in (0, 1))
                    k = (f1 - f0) % P
                    if air.eval(n, dict(e, **{x: 2})) == (f0 + 2 * k) % P and k:
                        e[x] = -f0 * pow(k, P - 2, P) % P
                        prog = True
                    elif f0 == 0:
                        e[x] = 0
                        prog = True
            open_ = [c for c in open_ if c not in e]
            if not prog and open_:
                # settle a column that occurs in powers, in the tightest constraint that has one
                best = None
                for n in todo:
                    u = sorted(v for v in vs[n] if v not in e)
                    if u and (best is None or len(u) < best[0]):
                        nl = [v for v in u if linear(air, n, v, {}) is None]
                        if nl:
                            best = (len(u), nl[0])
                e[best[1] if best else open_[0]] = seed * 5
                open_ = [c for c in open_ if c not in e]
        if any(air.eval(n, e) for n in todo):
            return False
        rows.append(e)
    d = [x for x in free if rows[0][x] != rows[1][x]]
    if not d:
        return False
    ev = [native_rows(air, T, e) for e in rows]
    rep.fail("%s: the same input has two outputs" % T, "\n".join("row %s" % " ".join(str(e[c]) for c in air.names[T]) for e in rows) + "\ndiffering in %s" % d, confirmed=all(not any(v for _, v in o) for o in ev))
    return True


def native_rows(air, T, e):
    from airjobs import native_eval
    r = [e[c] for c in air.names[T]]
    return native_eval(T, r, r, [])


def job_poseidon2(air, rep):
    stmt(air, rep, "Poseidon2", "is_exe is a bit", "=> is_exe in 0..1")
    ent = [g for g in contributions(air, "Poseidon2") if g[0] == "perm"]
    names = [[air.poly(x, {}, {}) for x in g[3]] for g in ent]
    if len(ent) != 1 or len(names[0]) != 24 or any(len(p) != 1 or list(p.values()) != [1] for p in names[0]) or air.poly(ent[0][2], {}, {}) != {("is_exe",): 1}:
        rep.fail("Poseidon2: lookup of the permutation", str([[air.show(x) for x in g[3]] for g in ent]))
        return
    cols = [list(p)[0][0] for p in names[0]]
    job_functional(air, rep, "Poseidon2", cols[:12], cols[12:])


def sequence(T, air, side):
    return [(k, n) for k, n in air.tables[T][side]]


def job_circuit(air, rep, T):
    """The recursive verifier checks the same constraints, each of the degree the table declares."""
    a, b = sequence(T, air, "native"), sequence(T, air, "circuit")
    deg = {}

    def degree(i):
        st = [i]
        while st:
            k = st[-1]
            if k in deg:
                st.pop()
                continue
            n = air.N[k]
            if n[0] in "cv":
                deg[k] = int(n[0] == "v")
            else:
                todo = [c for c in n[1:] if c not in deg]
                if todo:
                    st += todo
                    continue
                d = [deg[c] for c in n[1:]]
                deg[k] = sum(d) if n[0] == "*" else max(d)
            st.pop()
        return deg[i]
    for k, (x, y) in enumerate(zip(a, b)):
        if x == y:
            rep.ok(trivial=True)
            continue
        if x[0] != y[0]:
            rep.fail("%s: constraint %d is %s natively and %s in the circuit" % (T, k, x[0], y[0]), "native %s\ncircuit %s" % (air.show(x[1]), air.show(y[1])))
            continue
        p = None
        try:
            p = padd(air.poly(x[1], {}, {}), air.poly(y[1], {}, {}), -1)
        except (MemoryError, RecursionError):
            pass
        if p == {}:
            rep.ok()
            continue
        # different polynomials of degree below p differ somewhere: find a point
        row = Row(air, T, {}, kinds=(), stats=rep.stats, roles=())
        cols = sorted(air.vars_of(x[1]) | air.vars_of(y[1]))
        s = z3.Solver()
        v = {c: z3.Int(c) for c in cols}
        bad = None
        import random
        rnd = random.Random(1)
        for t in range(200):
            e = {c: (0 if t == 0 else rnd.choice([0, 1, 2, 3, rnd.randrange(P)])) for c in cols}
            if air.eval(x[1], e) != air.eval(y[1], e):
                bad = e
                break
        if bad:
            rep.fail("%s: constraint %d differs between verifier and circuit" % (T, k), "native  %s\ncircuit %s\nat %s native %d, circuit %d" % (air.show(x[1])[:1500], air.show(y[1])[:1500], {c: w for c, w in bad.items() if w}, air.eval(x[1], bad), air.eval(y[1], bad)))
        else:
            rep.incon.append("%s: constraint %d could not be compared" % (T, k))
    if len(a) != len(b):
        rep.fail("%s: %d constraints natively, %d in the circuit" % (T, len(a), len(b)), "")
    decl = air.tables[T]["degree"]
    for k, (kind, n) in enumerate(a):
        d = degree(n) + (kind in ("first", "last", "transition") and 0)
        if d > decl:
            rep.fail("%s: constraint %d has degree %d, the table declares %d" % (T, k, d, decl), air.show(n)[:1000])
        else:
            rep.ok(trivial=True)


def jobs(air=None):
    from airjobs import OPS
    t = {"t_add": (job_add,), "t_blt": (job_blt,), "t_cpu_filters": (job_cpu_filters,), "t_cpu_dummy": (job_cpu_dummy,), "t_ecall_numbers": (job_ecall_numbers,), "t_program": (job_program,), "t_skeleton": (job_skeleton,),
         "t_memory": (job_memory,), "t_memory_init": (job_memory_init,), "t_half": (job_words, "HalfWordMemory", 2), "t_full": (job_words, "FullWordMemory", 4), "t_register": (job_register,), "t_xor": (job_xor,), "t_bitshift": (job_bitshift,),
         "t_rangechecks": (job_rangechecks,), "t_filters": (job_filters,), "t_commitments": (job_commitments,), "t_sponge": (job_sponge,), "t_poseidon2": (job_poseidon2,)}
    for s in STORE:
        t["t_store_" + s] = (job_storage, s)
    for op in OPS:
        if op != "ECALL":
            t["t_selectors_" + op] = (job_selectors, op)
    for T in TABLES:
        t["t_circuit_" + T] = (job_circuit, T)
    return t


TABLES = ["Cpu", "RangeCheck", "Xor", "Bitshift", "Program", "ProgramMult", "Memory", "ElfMemoryInit", "MemoryZeroInit", "RangeCheckU8", "HalfWordMemory", "FullWordMemory", "StorageDevicePrivate", "StorageDevicePublic", "CallTape", "EventTape", "EventsCommitmentTape", "CastListCommitmentTape", "SelfProgIdTape",
          "RegisterInit", "Register", "RegisterZeroRead", "RegisterZeroWrite", "Poseidon2", "Poseidon2Sponge", "Poseidon2OutputBytes", "CpuSkeleton", "Add", "BltTaken", "TapeCommitments"]
