//! Loads and stores over an arbitrary byte memory.
use crate::step::{any_args, any_state, program_at};
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::{State, StateMemory};
use plonky2::field::goldilocks_field::GoldilocksField as F;

/// An arbitrary memory with at most N mapped bytes (N concrete), as a plain array
/// (the reference) and as the machine's own structure. Later entries win.
pub struct Mem<const N: usize> { pub k: [u32; N], pub v: [u8; N] }
impl<const N: usize> Mem<N> {
    pub fn any() -> Self {
        let mut m = Mem { k: [0; N], v: [0; N] };
        for i in 0..N { m.k[i] = rsx::u32(); m.v[i] = rsx::u8(); }
        m
    }
    /// Branch-free lookup.
    pub fn get(&self, a: u32) -> u8 {
        let mut r = 0u8;
        for i in 0..N { r = sel8(self.k[i] == a, self.v[i], r); }
        r
    }
    pub fn build(&self) -> StateMemory {
        let mut m = StateMemory::default();
        for i in 0..N { m.data.insert(self.k[i], self.v[i]); }
        m
    }
}
pub fn sel8(c: bool, a: u8, b: u8) -> u8 { let m = (c as u8).wrapping_neg(); (a & m) | (b & !m) }
pub fn sel32(c: bool, a: u32, b: u32) -> u32 { let m = (c as u32).wrapping_neg(); (a & m) | (b & !m) }

/// Everything but memory, pc, clk and one register stays put.
pub fn same_regs(a: &[u32; 32], b: &[u32; 32], except: u8) {
    let i = (rsx::u8() & 31) as usize;
    rsx::check((i != 0 && i == except as usize) || a[i] == b[i], 90);
    rsx::check(b[0] == 0, 91);
}

const LOADS: [Op; 5] = [Op::LB, Op::LBU, Op::LH, Op::LHU, Op::LW];
#[no_mangle]
pub extern "C" fn hx_load() {
    let op = LOADS[rsx::pick_below(5) as usize];
    let args = any_args();
    let mut s = any_state();
    let m = Mem::<3>::any();
    s.memory = m.build();
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let p = program_at(pc, Instruction { op, args });
    let Ok((aux, _, n)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    let a = regs[args.rs2 as usize].wrapping_add(args.imm);
    let b = |i: u32| u32::from(m.get(a.wrapping_add(i)));
    let (len, raw, v) = match op {
        Op::LB => (1, b(0), b(0) as u8 as i8 as i32 as u32),
        Op::LBU => (1, b(0), b(0)),
        Op::LH => (2, b(0) | b(1) << 8, (b(0) | b(1) << 8) as u16 as i16 as i32 as u32),
        Op::LHU => (2, b(0) | b(1) << 8, b(0) | b(1) << 8),
        _ => { let w = b(0) | b(1) << 8 | b(2) << 16 | b(3) << 24; (4usize, w, w) }
    };
    let rd = args.rd as usize;
    rsx::check(n.registers[rd] == sel32(rd != 0, v, 0), 2);
    same_regs(&regs, &n.registers, args.rd);
    rsx::check(n.pc == pc.wrapping_add(4) && n.clk == clk + 1 && !n.halted, 3);
    let q = rsx::u32();
    rsx::check(n.load_u8(q) == m.get(q), 4);
    // what is recorded for the prover
    rsx::check(aux.dst_val == v, 5);
    match aux.mem { Some(e) => rsx::check(e.addr == a && e.raw_value == raw, 6), None => rsx::check(false, 6) }
    rsx::check(aux.mem_addresses_used.len() == len, 7);
    for i in 0..len { rsx::check(aux.mem_addresses_used[i] == a.wrapping_add(i as u32), 8); }
    rsx::cover(1);
}

const STORES: [(Op, usize); 3] = [(Op::SB, 1), (Op::SH, 2), (Op::SW, 4)];
#[no_mangle]
pub extern "C" fn hx_store() {
    let (op, len) = STORES[rsx::pick_below(3) as usize];
    // which registers: distinct, equal, and either being x0
    let (rs1, rs2) = [(1, 2), (2, 2), (0, 31), (31, 0)][rsx::pick_below(4) as usize];
    let args = Args { rd: rsx::u8() & 31, rs1, rs2, imm: rsx::u32() };
    let mut s = any_state();
    let m = Mem::<2>::any();
    s.memory = m.build();
    let ro = [rsx::u32(), rsx::u32()];
    for r in ro { s.memory.is_read_only.insert(r); }
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let a = regs[args.rs2 as usize].wrapping_add(args.imm);
    // a store is refused exactly when it touches a read-only byte
    let mut hit = false;
    for r in ro { for i in 0..len { hit |= r == a.wrapping_add(i as u32); } }
    if hit { rsx::on_panic(2); }
    let p = program_at(pc, Instruction { op, args });
    let Ok((aux, _, n)) = s.execute_instruction(&p) else { rsx::check(hit, 1); return };
    rsx::check(!hit, 2);
    let val = regs[args.rs1 as usize];
    for i in 0..len { rsx::check(n.load_u8(a.wrapping_add(i as u32)) == (val >> (8 * i)) as u8, 3); }
    let q = rsx::u32();
    let mut inside = false;
    for i in 0..len { inside |= q == a.wrapping_add(i as u32); }
    if !inside { rsx::check(n.load_u8(q) == m.get(q), 5); }
    same_regs(&regs, &n.registers, 0);
    rsx::check(n.pc == pc.wrapping_add(4) && n.clk == clk + 1 && !n.halted, 4);
    let raw = if len == 4 { val } else { val & ((1u32 << (8 * len)) - 1) };
    match aux.mem { Some(e) => rsx::check(e.addr == a && e.raw_value == raw, 6), None => rsx::check(false, 6) }
    rsx::check(aux.dst_val == raw, 7);
    rsx::check(aux.mem_addresses_used.len() == len, 8);
    for i in 0..len { rsx::check(aux.mem_addresses_used[i] == a.wrapping_add(i as u32), 9); }
    let z = rsx::u32();
    rsx::check(n.memory.is_read_only.contains(&z) == (z == ro[0] || z == ro[1]), 10);
    rsx::cover(1);
}
/// A load after a store sees exactly the stored bytes, whatever the two addresses and widths.
#[no_mangle]
pub extern "C" fn hx_store_then_load() {
    let (op, len) = STORES[rsx::pick_below(3) as usize];
    let lop = LOADS[rsx::pick_below(5) as usize];
    let mut s = any_state();
    rsx::assume(s.clk < u64::MAX - 1);
    let (r1, r2, val) = (rsx::u32(), rsx::u32(), rsx::u32());
    s.registers[1] = r1; s.registers[2] = r2; s.registers[4] = val;
    let m = Mem::<1>::any();
    s.memory = m.build();
    let (i1, i2) = (rsx::u32(), 0);
    let pc = s.pc;
    let mut p = program_at(pc, Instruction { op, args: Args { rd: 0, rs1: 4, rs2: 2, imm: i1 } });
    p.ro_code.0.insert(pc.wrapping_add(4), Ok(Instruction { op: lop, args: Args { rd: 3, rs1: 0, rs2: 1, imm: i2 } }));
    let Ok((_, _, n)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    let Ok((_, _, n)) = n.execute_instruction(&p) else { rsx::check(false, 2); return };
    let (sa, la) = (r2.wrapping_add(i1), r1.wrapping_add(i2));
    let b = |i: u32| {
        let q = la.wrapping_add(i);
        let mut r = m.get(q);
        for j in 0..len { r = sel8(q == sa.wrapping_add(j as u32), (val >> (8 * j)) as u8, r); }
        u32::from(r)
    };
    let v = match lop {
        Op::LB => b(0) as u8 as i8 as i32 as u32, Op::LBU => b(0),
        Op::LH => (b(0) | b(1) << 8) as u16 as i16 as i32 as u32, Op::LHU => b(0) | b(1) << 8,
        _ => b(0) | b(1) << 8 | b(2) << 16 | b(3) << 24,
    };
    rsx::check(n.registers[3] == v, 3);
    rsx::cover(1);
}
/// The word read used outside the interpreter agrees with the byte reads.
#[no_mangle]
pub extern "C" fn hx_load_word() {
    let m = Mem::<3>::any();
    let mut s: State<F> = State::default();
    s.memory = m.build();
    let a = rsx::u32();
    rsx::assume(a <= u32::MAX - 3);
    let b = |i: u32| u32::from(m.get(a + i));
    rsx::check(s.load_u32(a) == b(0) | b(1) << 8 | b(2) << 16 | b(3) << 24, 1);
    rsx::cover(1);
}
