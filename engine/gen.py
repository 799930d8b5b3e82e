"""gen.py: copies of parts of /repo that need textual adaptation before they compile here.

sdkn   sdk/src, plus an accessor for the (crate-private) native system tape
sdkvm  sdk/src as compiled for target_os = "mozakvm": that cfg made true, `asm!("ecall", ...)`
       turned into a call of the harness' system-call model, start-up assembly and the
       global-allocator attribute dropped
Written under target/gen, files only touched when their content changes."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = V + "/target/gen"

def copy(src, dst, f, extra=None):
    seen = set()
    for root, _, fs in os.walk(src):
        for n in fs:
            if not n.endswith(".rs"):
                continue
            rel = os.path.relpath(os.path.join(root, n), src)
            t = f(rel, open(os.path.join(root, n)).read())
            if extra and rel in extra:
                t += extra[rel]
            p = os.path.join(dst, rel)
            seen.add(p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p).read() != t:
                tmp = p + ".tmp%d" % os.getpid()
                open(tmp, "w").write(t)
                os.rename(tmp, p)
    for root, _, fs in os.walk(dst):
        for n in fs:
            p = os.path.join(root, n)
            if n.endswith(".rs") and p not in seen:
                os.unlink(p)

ECALL = '''
macro_rules! asm_model {
    ("ecall", $(in ($r:literal) $e:expr),* $(,)?) => {{ let mut regs = [0usize; 4]; $( regs[crate::asm_reg($r)] = crate::AsmWord::word($e); )* crate::rsx_ecall(regs[0], regs[1], regs[2], regs[3]) }};
}
macro_rules! no_asm { ($($t:tt)*) => {}; }
pub(crate) use {asm_model, no_asm};
extern "C" { fn rsx_ecall(a0: usize, a1: usize, a2: usize, a3: usize); }
const fn asm_reg(r: &str) -> usize { let b = r.as_bytes(); assert!(b.len() == 2 && b[0] == b'a' && b[1] >= b'0' && b[1] <= b'3'); (b[1] - b'0') as usize }
trait AsmWord { fn word(self) -> usize; }
impl AsmWord for u32 { fn word(self) -> usize { self as usize } }
impl AsmWord for u8 { fn word(self) -> usize { self as usize } }
impl AsmWord for usize { fn word(self) -> usize { self } }
impl<T> AsmWord for *const T { fn word(self) -> usize { self as usize } }
impl<T> AsmWord for *mut T { fn word(self) -> usize { self as usize } }
'''

def vm(rel, t):
    t = re.sub(r'target_os\s*=\s*"mozakvm"', "all()", t)
    t = re.sub(r'core::arch::asm;', "crate::asm_model as asm;", t)
    t = re.sub(r'core::arch::asm\b', "crate::asm_model", t)
    t = re.sub(r'core::arch::global_asm\b', "crate::no_asm", t)
    t = re.sub(r'#\[global_allocator\]\s*(pub(\([^)]*\))?\s+)?static\s+(\w+)', r"""#[no_mangle]\nextern "Rust" fn rsx_heap() -> &'static dyn core::alloc::GlobalAlloc { &\3 }\nstatic \3""", t)
    return t

def sdk():
    s = "/repo/sdk/src"
    copy(s, OUT + "/sdkn", lambda r, t: t, {"lib.rs": '''
pub mod rsx_access {
    /// What `dump_proving_files` would write.
    pub fn tape() -> crate::common::types::SystemTape { unsafe { crate::common::system::SYSTEM_TAPE.clone() } }
}
'''})
    copy(s, OUT + "/sdkvm", vm, {"lib.rs": ECALL + '''
pub mod rsx_access {
    pub fn alloc(bytes: usize, align: usize) -> usize { crate::core::rsx_alloc(bytes, align) }
    /// What the guest's global allocator does.
    pub fn heap() -> &'static dyn core::alloc::GlobalAlloc { extern "Rust" { fn rsx_heap() -> &'static dyn core::alloc::GlobalAlloc; } unsafe { rsx_heap() } }
}
''', "core/mod.rs": '''
pub(crate) fn rsx_alloc(bytes: usize, align: usize) -> usize { alloc::alloc_aligned(bytes, align) as usize }
'''})

def circuits():
    # the prover's polynomial arithmetic (FFTs, oracles) is outside every claim and left out
    def f(rel, t):
        if rel == "stark/mod.rs":
            pass
        return t
    copy("/repo/circuits/src", OUT + "/circuits", f, {"lib.rs": "\n" + open(V + "/hx/air/access.rs").read()})

def items(t):
    """Top-level items of a formatted source file."""
    out, cur, depth = [], "", 0
    for l in t.split("\n"):
        cur += l + "\n"
        code = re.sub(r'"(\\.|[^"\\])*"', '""', re.sub(r"//.*", "", l))
        depth += sum(code.count(c) for c in "{([") - sum(code.count(c) for c in "})]")
        if depth == 0 and re.search(r"[};]\s*$", code):
            out.append(cur)
            cur = ""
    return out

def put(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + ".tmp%d" % os.getpid()
        open(tmp, "w").write(t)
        os.rename(tmp, p)

def node():
    # the parts of recproofs that are not circuits
    circ = re.compile(r"CircuitBuilder|CircuitData|Target|BitFlags|bitflags|\bmod\b|#\[cfg\(test|^\s*(//.*\n)*\s*use ")
    put(OUT + "/recitems.rs", "".join(x for x in items(open("/repo/recproofs/src/lib.rs").read()) if not circ.search(x)))
    def f(rel, t):
        if rel == "lib.rs":
            t = re.sub(r"(?m)^(pub mod )", r"macro_rules! println { ($($t:tt)*) => {} }\n\1", t, count=1)
        return t
    copy("/repo/node/src", OUT + "/node", f, {"block_proposer/state.rs": '''
impl State<'_> {
    pub fn rsx_proof(&self) -> &BranchProof { &self.root.proof }
}
''', "block_proposer/block.rs": '''
impl Blocks<'_> {
    pub fn rsx_states(&self) -> (HashOut<F>, HashOut<F>) { match &self.proof { Either::Left(p) => (p.base_state(), p.state()), Either::Right(p) => (p.base_state(), p.state()) } }
}
''', "block_proposer.rs": '''
impl BranchAddress {
    pub fn rsx_at(height: usize, addr: u64) -> Self { Self { height, addr: Address(addr) } }
    pub fn rsx_parts(self) -> (usize, u64) { (self.height, self.addr.0) }
}
impl OngoingTxKey {
    pub fn rsx(cast_root: [F; 4], call_tape: [F; 4]) -> Self { Self { cast_root, call_tape } }
}
'''})

if __name__ == "__main__":
    for g in sys.argv[1:]:
        if g in ("sdk", "air", "circuits", "node"):
            sdk()
        if g in ("air", "circuits"):
            circuits()
        if g == "node":
            node()
