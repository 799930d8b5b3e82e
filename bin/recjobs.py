"""recjobs.py: checks of the recursive circuits of /repo/recproofs (group rec). The circuits are
those the real builder code makes when it is run against the recording stand-in for plonky2; each
obligation quantifies over every assignment of a circuit's targets and is decided by z3."""
import sys, os, json, time, subprocess, traceback, fcntl, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/bin"]
sys.setrecursionlimit(100000)
import z3
from rec import World, Circuit, Unsupported, P, T
from airjobs import Report

HX = V + "/target/rec/release/hx-rec"
CAPS = (0, 1)


def build():
    os.makedirs(V + "/target", exist_ok=True)
    with open(V + "/target/rec.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-04-24", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints=allow", CARGO_TARGET_DIR=V + "/target/rec")
        r = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=V + "/hx/rec", env=env, capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("BUILD of rec failed:\n" + (r.stdout + r.stderr)[-6000:])
    out = {}
    for cap in CAPS:
        r = subprocess.run([HX, "dump", str(cap)], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("extraction failed:\n" + r.stderr[-3000:])
        d = json.loads(r.stdout)
        out[cap] = dict(named={x["name"]: x for x in d["named"]}, built={tuple(x["id"]): x for x in d["built"]})
    return out


class Side:
    """One circuit with its specification, at one cap height."""

    def __init__(self, dump, cap, name, rep, inv=(), canonical=False):
        self.cap, self.name, self.rep, self.dump = cap, name, rep, dump
        self.d = dump["named"][name]
        self.w = World()
        self.c = Circuit(self.w, self.d, assume_bool=inv, canonical=canonical)
        self.hyp, self.spec, self.prem = [], [], []
        rep.functions["%s (cap %d)" % (name, cap)] = len(self.d["rec"]["ops"]) + len(self.d["rec"]["cons"])

    def __getitem__(self, n):
        return self.c.named(n)

    def one(self, n):
        return self.c.named(n)[0]

    def b(self, n):
        return self.w.is1(self.one(n))

    def eq(self, a, b):
        a, b = self.get(a), self.get(b)
        assert len(a) == len(b), (len(a), len(b))
        return z3.simplify(z3.And([self.w.eq(x, y) for x, y in zip(a, b)]))

    def get(self, a):
        return self.c.named(a) if isinstance(a, str) else a

    def zero(self, a):
        return self.eq(self.get(a), [self.w.const(0)] * len(self.get(a)))

    def H(self, *parts):
        return self.w.hash([v for p in parts for v in self.get(p)])

    def ite(self, c, a, b):
        return [self.w.ite(c, x, y) for x, y in zip(self.get(a), self.get(b))]

    def zeros(self, n=4):
        return [self.w.const(0)] * n

    def ids(self, name):
        return [self.w.const(int(x)) for x in self.dump["named"][name]["id"]]

    def say(self, what, f):
        self.spec.append((what, f))

    def assume(self, f):
        self.hyp.append(f)

    def is_hash_of_bytes(self, out, src):
        """out = H(bytes of src): for some hash in the circuit over 8 bytes per element which recompose the elements."""
        w, fs = self.w, []
        for a, o in list(self.w.apps):
            if len(a) != 8 * len(src):
                continue
            f = [self.w.eq(x, [(T, y)]) for x, y in zip(out, [self.w.atoms and self.w.atom(e)[0][1] for e in o])]
            for k, s in enumerate(src):
                bs = a[8 * k:8 * k + 8]
                tot = z3.Sum([(1 << 8 * i) * x for i, x in enumerate(bs)])
                c = w.canon(s)
                f += [z3.And(x >= 0, x < 256) for x in bs] + [z3.Or(tot == c, tot == c + P)]
            fs.append(z3.And(f))
        return z3.Or(fs) if fs else z3.BoolVal(False)

    # ---- deciding
    def solve(self, hyps, goal):
        s = z3.Solver()
        s.set("timeout", 120000)
        for f in hyps:
            s.add(f)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        dt = time.time() - t
        st = self.rep.stats
        st["queries"] = st.get("queries", 0) + 1
        st["solver_s"] = st.get("solver_s", 0) + dt
        st["max_query_s"] = max(st.get("max_query_s", 0), dt)
        return r, (s.model() if r == z3.sat else None)

    def replay(self, m):
        """The model's assignment on the recorded circuit, concretely: 'satisfied' or 'unsatisfied: ..'."""
        ev = lambda e: m.eval(e, model_completion=True)
        num = lambda e: ev(e).as_long()
        lines = []
        for t, e in self.c.virt.items():
            lines.append("%d %d" % (t, int(z3.is_true(ev(e))) if z3.is_bool(e) else num(e) % P))
        for a, o in self.w.apps:
            lines.append("h " + " ".join(str(num(x) % P) for x in o + a))
        for key, v in self.c.bits.items():
            pass
        if not self.c.canonical:
            for i, o in enumerate(self.d["rec"]["ops"]):
                if o[0] in ("lo", "hi") and o[3] > 8 and i in self.c.vals:
                    lines.append("%d %d" % (i, num(self.w.canon_int(self.c.vals[i]))))
        r = subprocess.run([HX, "eval", str(self.cap), ",".join(self.d["id"])], input="\n".join(lines) + "\n", capture_output=True, text=True)
        return (r.stdout.strip() or r.stderr[-300:]), lines

    def show(self, m):
        out = []
        for n in sorted(self.d["names"]):
            vs = []
            for t in self.d["names"][n]:
                e = self.c.virt.get(t)
                if e is None:
                    continue
                x = m.eval(e, model_completion=True)
                vs.append(str(int(z3.is_true(x))) if z3.is_bool(e) else str(x))
            out.append("# %s = %s" % (n, " ".join(vs)))
        return "\n".join(out)

    def decide(self, what, hyps, goal, expect):
        rep = self.rep
        g = z3.simplify(goal)
        if z3.is_true(g):
            rep.ok(trivial=True)
            return
        r, m = self.solve(hyps, goal)
        if r == z3.unsat:
            rep.ok()
        elif r == z3.unknown:
            rep.obligations += 1
            rep.incon.append("%s cap %d: %s: solver gave up" % (self.name, self.cap, what))
        else:
            got, lines = self.replay(m)
            txt = "circuit %s, cap height %d\n%s\n# concrete run of the recorded circuit: %s\n%s\n" % (self.name, self.cap, self.show(m), got, "\n".join(lines))
            rep.fail("%s: %s" % (self.name, what), txt, confirmed=got.startswith(expect))

    def finish(self, complete=True):
        w = self.w
        if not self.d["same_layout"]:
            self.rep.fail("%s: public input layout differs from its children's" % self.name, "the index structs of leaf and branch differ")
        C = [f for _, f in self.c.cons]
        defs = w.defs
        r, m = self.solve(defs + self.hyp + C, z3.BoolVal(False))
        if r == z3.unsat:
            self.rep.fail("%s: no assignment satisfies the circuit" % self.name, "the constraints of %s are contradictory" % self.name)
            return
        if r == z3.unknown:
            self.rep.incon.append("%s: no verdict on satisfiability" % self.name)
        got, lines = self.replay(m) if m is not None else ("", [])
        if got.startswith("satisfied"):
            self.rep.validated += 1
            if len(self.rep.samples) < 2:
                self.rep.samples.append(dict(harness=self.rep.name, circuit=self.name, assignment=lines[:12]))
        elif m is not None:
            self.rep.incon.append("%s: an assignment of the solver does not satisfy the recorded circuit: %s" % (self.name, got))
        for what, f in self.spec:
            self.decide(what, w.defs + self.hyp + C, f, "satisfied")
        if complete:
            S = [f for _, f in self.spec]
            for what, f in self.c.cons:
                self.decide("refuses an honest assignment (%s)" % what, w.defs + self.hyp + S, f, "unsatisfied")

    # ---- parts shared by the circuits
    def verified(self, pi_name, verifier, what):
        """Exactly one proof is verified over the public inputs named, by the given verifier data."""
        t = self.d["names"][pi_name][0]
        vs = [v for v in self.c.verifies if t in v["pis"]]
        if len(vs) != 1:
            self.rep.fail("%s: %s is verified %d times" % (self.name, what, len(vs)), "no proof is checked for these public inputs" if not vs else "")
            return
        self.say("%s is verified against the right circuit" % what, self.eq(vs[0]["value"], verifier))

    def tree(self, leaf):
        """unbounded branch: children are this circuit's leaf or the circuit named by the verifier input, which they share."""
        for s in ("left", "right"):
            is_leaf = self.b(s + "_is_leaf")
            self.say("%s child carries the same verifier data" % s, self.eq(s + ".verifier", "verifier"))
            self.verified(s + ".verifier", self.ite(is_leaf, self.ids(leaf), "verifier"), "the %s child" % s)

    def fwd(self, lp, l, rp, r):
        return self.ite(z3.And(lp, rp), self.H(l, r), self.ite(lp, l, self.ite(rp, r, self.zeros())))


# ---------------------------------------------------------------- specifications
FLAGS = ["write", "ensure", "read", "give", "take"]


def flags(s, n):
    """Flag bits of a five bit number, assumed or shown to be one."""
    x = s.w.canon(s.one(n) if isinstance(n, str) else n)
    return {f: z3.Or([x == v for v in range(32) if v >> k & 1]) for k, f in enumerate(FLAGS)}


def mul1(s, a, x, b, y):
    return s.w.comb(a, x, b, y)


def merge_inv(s, p=""):
    return [z3.Implies(z3.Not(s.b(p + x + "_present")), s.zero(p + x + "_hash")) for x in ("a", "b", "merged")]


MB = ["a_present", "b_present", "merged_present"]


def sides(names):
    return [p + n for p in ("left.", "right.") for n in names]


def merge_leaf(s):
    a, b, m = (s.b(x) for x in MB)
    for x in MB:
        s.say(x + " is a boolean", s.w.is01(s.one(x)))
    for x in ("a", "b"):
        s.say("a non-zero %s_hash is present" % x, z3.Implies(z3.Not(s.zero(x + "_hash")), s.b(x + "_present")))
    s.say("merged is present when a or b is", m == z3.Or(a, b))
    s.say("merged hash", s.eq("merged_hash", s.fwd(a, "a_hash", b, "b_hash")))


def merge_branch(s):
    for p in ("left.", "right."):
        for f in merge_inv(s, p):
            s.assume(f)
    for x in ("a", "b", "merged"):
        s.say(x + "_present is a boolean", s.w.is01(s.one(x + "_present")))
        l, r = s.b("left.%s_present" % x), s.b("right.%s_present" % x)
        s.say("%s_present is the or of the children's" % x, s.b(x + "_present") == z3.Or(l, r))
        s.say("%s_hash is the tree hash of the children's" % x, s.eq(x + "_hash", s.fwd(l, "left.%s_hash" % x, r, "right.%s_hash" % x)))
    for x, f in zip(("a", "b", "merged"), merge_inv(s)):
        s.say("an absent %s is zero" % x, f)
    s.tree("merge.leaf")


def event_leaf(s):
    s.say("event hash", s.eq("hash", s.H("owner", "ty", "address", "value")))
    s.say("hash of the event's bytes", s.is_hash_of_bytes(s["vm_hash"], s["ty"] + s["address"] + s["value"]))


def event_branch(s):
    p = s.b("partial")
    s.say("partial is a boolean", s.w.is01(s.one("partial")))
    s.say("both hashes are partial together", s.eq("partial", "partial2"))
    s.say("hash", s.eq("hash", s.ite(p, "left.hash", s.H("left.hash", "right.hash"))))
    s.say("vm hash", z3.If(p, s.eq("vm_hash", "left.vm_hash"), s.is_hash_of_bytes(s["vm_hash"], s["left.vm_hash"] + s["right.vm_hash"])))
    for x in ("left.", "right."):
        s.say("%sowner is the owner" % x, s.eq("owner", x + "owner"))
    s.tree("event_root.leaf")


def state_leaf(s):
    present = s.b("summary_present")
    s.say("summary_present is a boolean", s.w.is01(s.one("summary_present")))
    s.say("presence of the address is presence in the summary", s.eq("address_present", "summary_present"))
    s.say("the address is -1 exactly when absent", present == z3.Not(s.eq("address", [s.w.const(P - 1)])))
    s.say("a changed leaf is in the summary", z3.Or(s.eq("old", "new"), present))
    s.say("the summary is the hash of address, old and new", s.eq("summary", s.ite(present, s.H("address", "old", "new"), s.zeros())))


def state_inv(s, p=""):
    return z3.Implies(z3.Not(s.b(p + "summary_present")), z3.And(s.zero(p + "summary"), s.eq(p + "address", [s.w.const(P - 1)])))


def state_branch(s, child):
    for p in ("left.", "right."):
        s.assume(state_inv(s, p))
    l, r = s.b("left.summary_present"), s.b("right.summary_present")
    s.say("summary_present is a boolean", s.w.is01(s.one("summary_present")))
    s.say("presence of the address is presence in the summary", s.eq("address_present", "summary_present"))
    s.say("presence", s.b("summary_present") == z3.Or(l, r))
    A = s.one("address")
    twice = s.w.comb(A, 2, s.w.const(0), 0)
    s.say("the left child's address is twice the parent's", z3.Implies(l, s.eq("left.address", [twice])))
    s.say("the right child's address is twice the parent's plus one", z3.Implies(r, s.eq("right.address", [s.w.comb(twice, 1, s.w.const(1), 1)])))
    s.say("absent nodes have address -1 and no summary", state_inv(s))
    s.say("summary", s.eq("summary", s.fwd(l, "left.summary", r, "right.summary")))
    for x in ("old", "new"):
        s.say("%s root" % x, s.eq(x, s.H("left." + x, "right." + x)))
    for x in ("left", "right"):
        s.verified(x + ".old", s.ids(child), "the %s child" % x)


def acc_leaf(s):
    ty, w = s.one("event_ty"), s.w
    is_ = {n: w.eq(ty, w.const(k)) for k, n in enumerate(["write", "ensure", "read", "give", "take", "credit"])}
    fl = s.zeros(1)
    for k, n in enumerate(FLAGS):
        fl = s.ite(is_[n], [w.const(1 << k)], fl)
    s.say("flags name the event's type", s.eq("object_flags", fl))
    s.say("event hash", s.eq("event_hash", s.H("event_owner", "event_ty", "address", "event_value")))
    s.say("write, give and credit events come from the old owner", z3.Implies(z3.Or(is_["write"], is_["give"], is_["credit"]), s.eq("old_owner", "event_owner")))
    s.say("take names the old owner", z3.Implies(is_["take"], s.eq("old_owner", "event_value")))
    s.say("take comes from the new owner", z3.Implies(is_["take"], s.eq("new_owner", "event_owner")))
    s.say("give names the new owner", z3.Implies(is_["give"], s.eq("new_owner", "event_value")))
    s.say("read gives the old data", z3.Implies(is_["read"], s.eq("old_data", "event_value")))
    s.say("write and ensure give the new data", z3.Implies(z3.Or(is_["write"], is_["ensure"]), s.eq("new_data", "event_value")))
    v = s["event_value"]
    s.say("a credit delta is below 2^40", z3.Implies(is_["credit"], w.canon(v[0]) < 1 << 40))
    s.say("a credit sign is zero or one", z3.Implies(is_["credit"], w.is01(v[3])))
    s.say("the credit delta is the signed value", s.eq("credit_delta", s.ite(is_["credit"], s.ite(w.is1(v[3]), [w.comb(v[0], P - 1, w.const(0), 0)], [v[0]]), s.zeros(1))))


def needs_owner(s, f, p):
    """The events below came from, or name, the old owner."""
    return z3.Or(f["write"], f["give"], f["take"], z3.Not(s.zero(p + "credit_delta")))


def acc_branch(s):
    for p in ("left.", "right."):
        s.assume(s.w.canon(s.one(p + "object_flags")) < 32)
    part = s.b("partial")
    s.say("partial is a boolean", s.w.is01(s.one("partial")))
    s.say("the hash and the state are partial together", s.eq("partial", "partial2"))
    s.say("event hash", s.eq("event_hash", s.ite(part, "left.event_hash", s.H("left.event_hash", "right.event_hash"))))
    me, l, r = flags(s, "object_flags"), flags(s, "left.object_flags"), flags(s, "right.object_flags")
    r = {k: z3.And(v, z3.Not(part)) for k, v in r.items()}
    s.say("flags are five bits", s.w.canon(s.one("object_flags")) < 32)
    for p in ("left.", "right."):
        s.say("all events are at one address (%s)" % p, s.eq("address", p + "address"))
    for f in ("write", "give", "take"):
        s.say("at most one %s" % f, z3.Not(z3.And(l[f], r[f])))
    for f in FLAGS:
        s.say("%s flag" % f, me[f] == z3.Or(l[f], r[f]))
    for p, f, on in (("left.", l, T), ("right.", r, z3.Not(part))):
        own = z3.Or(f["give"], f["take"])
        s.say("the old owner is the %s child's" % p[:-1], z3.Implies(z3.Or(own, f["write"]), s.eq("old_owner", p + "old_owner")))
        s.say("credits of the %s child move by the old owner" % p[:-1], z3.Implies(z3.And(on, z3.Not(s.zero(p + "credit_delta"))), s.eq("old_owner", p + "old_owner")))
        s.say("the new owner is the %s child's" % p[:-1], z3.Implies(own, s.eq("new_owner", p + "new_owner")))
        s.say("the old data is the %s child's" % p[:-1], z3.Implies(f["read"], s.eq("old_data", p + "old_data")))
        s.say("the new data is the %s child's" % p[:-1], z3.Implies(z3.Or(f["write"], f["ensure"]), s.eq("new_data", p + "new_data")))
    s.say("credit deltas add up", s.eq("credit_delta", [s.w.comb(s.one("left.credit_delta"), 1, s.ite(part, s.zeros(1), "right.credit_delta")[0], 1)]))
    s.tree("accumulate.leaf")


def match_leaf(s):
    w = s.w
    s.assume(w.canon(s.one("acc.object_flags")) < 32)
    f = flags(s, "acc.object_flags")
    own = z3.Or(f["give"], f["take"])
    for x in ("event_hash", "address", "object_flags"):
        s.say("%s is the accumulated one" % x, s.eq(x, "acc." + x))
    s.say("block height", s.eq("block_height", "block_height_core"))
    s.say("the object's owner made the change", z3.Implies(z3.Or(own, f["write"]), s.eq("old_owner", "acc.old_owner")))
    s.say("the object's owner moved the credits", z3.Implies(z3.Not(s.zero("acc.credit_delta")), s.eq("old_owner", "acc.old_owner")))
    s.say("the new owner is the accumulated one", z3.Implies(own, s.eq("new_owner", "acc.new_owner")))
    s.say("reads saw the old data", z3.Implies(f["read"], s.eq("old_data", "acc.old_data")))
    s.say("writes and ensures give the new data", z3.Implies(z3.Or(f["write"], f["ensure"]), s.eq("new_data", "acc.new_data")))
    s.say("credits change by the delta", s.eq([w.comb(s.one("new_credits"), 1, s.one("old_credits"), -1)], "acc.credit_delta"))
    s.say("ownership is given exactly when it is taken", f["give"] == f["take"])
    s.say("data changes by writes only", z3.Or(s.eq("old_data", "new_data"), f["write"]))
    oz, nz, same = s.zero("old_owner"), s.zero("new_owner"), s.eq("old_owner", "new_owner")
    s.say("ownership changes only at creation and deletion", z3.PbEq([(oz, 1), (nz, 1), (same, 1)], 1))
    s.say("creation and deletion are ownership events", z3.Or(oz, nz) == f["give"])
    upd = z3.Or(f["give"], f["write"], z3.Not(s.eq("old_credits", "new_credits")))
    last = s.ite(nz, s.zeros(1), s.ite(upd, "block_height", "last_updated"))
    s.say("state summary hash", s.eq("state_hash", s.H("address", s.H("old_owner", "last_updated", "old_credits", "old_data"), s.H("new_owner", last, "new_credits", "new_data"))))
    s.verified("acc.event_hash", s.ids("accumulate.branch"), "the accumulation of events")
    s.say("the accumulation's recursion is that circuit's own", s.eq("acc.verifier", s.ids("accumulate.branch")))


def match_credits(s):
    """Credits as amounts: a balance and a bounded delta whose sum would be negative are refused."""
    w = s.w
    old, new, d = w.canon(s.one("old_credits")), w.canon(s.one("new_credits")), w.canon(s.one("acc.credit_delta"))
    s.assume(w.canon(s.one("acc.object_flags")) < 32)
    s.assume(old < 1 << 63)
    s.assume(z3.Or(d < 1 << 62, d > P - (1 << 62)))
    s.say("a balance never goes below zero", new == old + z3.If(d < 1 << 62, d, d - P))


def match_branch(s):
    p = s.b("partial")
    s.say("partial is a boolean", s.w.is01(s.one("partial")))
    s.say("both hashes are partial together", s.eq("partial", "partial2"))
    for x in ("event_hash", "state_hash"):
        s.say(x, s.eq(x, s.ite(p, "left." + x, s.H("left." + x, "right." + x))))
    for x in ("left.", "right."):
        s.say("%sblock height" % x, s.eq("block_height", x + "block_height"))
    s.tree("match.leaf")


def program_leaf(s):
    for x in ("program_id", "er.owner"):
        s.say("%s is the program's hash" % x, s.eq(x, "prog.program_hash"))
    s.say("events_present is a boolean", s.w.is01(s.one("events_present")))
    for x in ("prog.events_present", "er.present"):
        s.say("events_present is %s" % x, s.eq("events_present", x))
    s.say("the program's event root is the one rebuilt from the events", s.eq("prog.event_root", "er.vm_hash"))
    s.say("events", s.eq("events", "er.hash"))
    for x in ("call_list", "cast_root"):
        s.say(x, s.eq(x, "prog." + x))
    s.verified("prog.event_root", s["prog.by"], "the program proof")
    pr = s.b("er.present")
    t = s.d["names"]["er.hash"][0]
    vs = [v for v in s.c.verifies if t in v["pis"]]
    if len(vs) != 1:
        s.rep.fail("program.leaf: the event root is verified %d times" % len(vs), "")
        return
    s.say("present events are verified by the event root circuit", z3.Implies(pr, s.eq(vs[0]["value"], s.ids("event_root.branch"))))
    s.say("the event root's recursion is that circuit's own", z3.Implies(pr, s.eq("er.verifier", s.ids("event_root.branch"))))
    # without events: the verifier is one of the circuits built, and that circuit only has zero hashes
    ids = [k for k in s.dump["built"] if z3.is_true(z3.simplify(z3.Implies(z3.Not(pr), s.eq(vs[0]["value"], [s.w.const(int(x)) for x in k]))))]
    if not ids:
        for k in s.dump["built"]:
            r, m = s.solve(s.w.defs + [f for _, f in s.c.cons] + [z3.Not(pr)], s.eq(vs[0]["value"], [s.w.const(int(x)) for x in k]))
            if r == z3.unsat:
                ids.append(k)
    if not ids:
        s.rep.fail("program.leaf: absent events are verified by no known circuit", "")
        return
    z = s.dump["built"][ids[0]]
    w = World()
    c = Circuit(w, dict(rec=z["rec"], names={}))
    er = s.dump["named"]["event_root.branch"]
    for n in ("hash", "vm_hash"):
        for t in er["names"][n]:
            k = er["rec"]["pis"].index(t)
            g = w.eq(c.val(z["rec"]["pis"][k]), w.const(0))
            r, m = s.solve(w.defs + [f for _, f in c.cons], g)
            if r == z3.unsat:
                s.rep.ok()
            elif r == z3.sat:
                s.rep.fail("program.leaf: the circuit for absent events lets a non-zero %s through" % n, "public input %d of the stand-in circuit is free" % k)
            else:
                s.rep.incon.append("no verdict on the circuit for absent events")


def embed_spec(s, circuit="merge.branch"):
    part = s.b("partial")
    s.say("partial is a boolean", s.w.is01(s.one("partial")))
    # from the merge proof and from the children's proofs
    for p, x in (("merge.", "merged"), ("merge.", "a"), ("merge.", "b")):
        s.assume(z3.Implies(z3.Not(s.b(p + x + "_present")), s.zero(p + x + "_hash")))
    s.say("events are the merge's", z3.And(s.eq("events_present", "merge.merged_present"), s.eq("events", "merge.merged_hash")))
    s.say("events_present is a boolean", s.w.is01(s.one("events_present")))
    s.say("the merge's first side is the left child's", z3.And(s.eq("left.events_present", "merge.a_present"), s.eq("left.events", "merge.a_hash")))
    s.say("the merge's second side is the right child's, or nothing", z3.And(s.eq("merge.b_present", s.ite(part, s.zeros(1), "right.events_present")), s.eq("merge.b_hash", s.ite(part, s.zeros(), "right.events"))))
    s.verified("merge.merged_hash", s.ids(circuit), "the merge")
    s.say("the merge's recursion is that circuit's own", s.eq("merge.verifier", s.ids(circuit)))


def program_branch(s):
    embed_spec(s)
    p = s.b("partial")
    s.say("ids and events are partial together", s.eq("partial", "partial2"))
    s.say("program ids", z3.If(p, s.eq("program_id", "left.program_id"), s.is_hash_of_bytes(s["program_id"], s["left.program_id"] + s["right.program_id"])))
    for x in ("call_list", "cast_root"):
        for q in ("left.", "right."):
            s.say("%s%s is shared" % (q, x), s.eq(x, q + x))
    s.tree("program.leaf")


def tx_leaf(s):
    s.say("events are the program set's", z3.And(s.eq("events", "set.events"), s.eq("events_present", "set.events_present")))
    s.say("events_present is a boolean", s.w.is01(s.one("events_present")))
    s.say("the cast list names the programs that ran", s.eq("set.cast_root", "set.program_id"))
    s.verified("set.events", s.ids("program.branch"), "the program set")
    s.say("the program set's recursion is that circuit's own", s.eq("set.verifier", s.ids("program.branch")))


def tx_branch(s):
    embed_spec(s)
    s.tree("tx.leaf")


def block(s):
    w = s.w
    h = s.one("prev.height")
    first = w.eq(h, w.const(0))
    s.say("height grows by one", s.eq("height", [w.comb(h, 1, w.const(1), 1)]))
    s.say("the base state is kept", s.eq("base", "prev.base"))
    s.say("the first block starts at the base state", z3.Implies(first, s.eq("prev.state", "prev.base")))
    s.say("the previous block carries the same verifier data", s.eq("prev.verifier", "verifier"))
    s.verified("prev.height", s.ite(first, s.ids("block.dummy"), "verifier"), "the previous block")
    s.say("the transactions' events are those matched", s.eq("tx.events", "md.event_hash"))
    s.say("events are matched at this height", s.eq("md.block_height", "height"))
    s.say("the matched changes are the state's summary", s.eq("md.state_hash", "su.summary"))
    s.say("some change is summarized", s.b("su.summary_present"))
    s.say("the state's root address is zero", s.zero("su.address"))
    s.say("the update starts from the previous state", s.eq("su.old", "prev.state"))
    s.say("the update ends in the new state", s.eq("su.new", "state"))
    for p, c, x in (("tx.", "tx.branch", "events"), ("md.", "match.branch", "event_hash"), ("su.", "state.branch2", "old")):
        s.verified(p + x, s.ids(c), "the proof of " + p[:-1])
    for p, c in (("tx.", "tx.branch"), ("md.", "match.branch")):
        s.say("%s recursion is that circuit's own" % p, s.eq(p + "verifier", s.ids(c)))


SPECS = {
    "merge.leaf": (merge_leaf, []), "merge.branch": (merge_branch, sides(MB)),
    "event_root.leaf": (event_leaf, []), "event_root.branch": (event_branch, []),
    "accumulate.leaf": (acc_leaf, []), "accumulate.branch": (acc_branch, []),
    "match.leaf": (match_leaf, []), "match.branch": (match_branch, []),
    "state.leaf": (state_leaf, []), "state.branch1": (lambda s: state_branch(s, "state.leaf"), sides(["summary_present"])),
    "state.branch2": (lambda s: state_branch(s, "state.branch1"), sides(["summary_present"])),
    "program.leaf": (program_leaf, ["prog.events_present"]), "program.branch": (program_branch, sides(["events_present"]) + ["merge." + x for x in MB]),
    "tx.leaf": (tx_leaf, ["set.events_present"]), "tx.branch": (tx_branch, sides(["events_present"]) + ["merge." + x for x in MB]),
    "block": (block, ["tx.events_present", "su.summary_present"]),
}
BIND = ("verified", "verifier data", "recursion is")
EXTRA = {"match.credits": ("match.leaf", match_credits, [])}


def jobs_table():
    out = {}
    for n in SPECS:
        out["rec_" + n.replace(".", "_")] = ("own", n)
        out["bind_" + n.replace(".", "_")] = ("bind", n)
    for n in EXTRA:
        out["rec_" + n.replace(".", "_")] = ("extra", n)
    return out


def run_one(dumps, job):
    rep = Report(None, job)
    try:
        kind, n = jobs_table()[job]
        for cap, dump in dumps.items():
            circuit, fn, inv = (n,) + SPECS[n] if kind != "extra" else EXTRA[n]
            s = Side(dump, cap, circuit, rep, inv)
            fn(s)
            bind = lambda w: any(x in w for x in BIND)
            if kind == "bind":
                s.spec = [(w, f) for w, f in s.spec if bind(w)]
                s.finish(complete=False)
            elif kind == "extra":
                s.finish(complete=False)
            else:
                full = s.spec
                s.spec = [(w, f) for w, f in full if not bind(w)]
                s.finish(complete=False)
                # the other direction: an assignment that meets the specification is accepted
                s = Side(dump, cap, circuit, rep, inv, canonical=True)
                fn(s)
                S = [f for _, f in s.spec]
                for what, f in s.c.cons:
                    s.decide("refuses an honest assignment (%s)" % what, s.w.defs + s.hyp + S, f, "unsatisfied")
    except BaseException:
        return dict(harness=job, error=traceback.format_exc()[-2500:])
    return rep.result()


def run(group, jobs, deadline):
    dumps = build()
    names = [j["h"] for j in jobs]
    with mp.get_context("fork").Pool(8) as pool:
        rs = [pool.apply_async(run_one, (dumps, n)) for n in names]
        out = []
        for n, r in zip(names, rs):
            try:
                out.append(r.get(max(1, deadline - time.time())))
            except mp.TimeoutError:
                out.append(dict(harness=n, error="out of time"))
    return out


if __name__ == "__main__":
    names = sys.argv[1:] or ["*"]
    sel = [n for n in jobs_table() if any(n == a or a.endswith("*") and n.startswith(a[:-1]) for a in names)]
    t = time.time()
    for r in run("rec", [dict(h=n) for n in sel], t + 3000):
        if "error" in r:
            print(r["harness"], "ERROR", r["error"])
            continue
        print(r["harness"], "ok %d trivial %d wall %.1f q %d max %.1f validated %d" % (r["discharged"], r["trivial"], r["wall"], r["stats"].get("queries", 0), r["stats"].get("max_query_s", 0), r["validated"]))
        for v in r["viol"]:
            print("   VIOL", v["msg"], "confirmed" if v["confirmed"] else "UNCONFIRMED")
        for x in r["incon"]:
            print("   INCON", x)
    print("%.1f s" % (time.time() - t))
