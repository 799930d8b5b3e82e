//! Branches, jumps, halting, and the chain of steps.
use crate::mem::{same_regs, sel32};
use crate::refmodel as r;
use crate::step::{any_args, any_state, program_at};
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Args, DecodingError, Instruction, Op};
use mozak_runner::state::State;
use mozak_runner::vm::step;
use plonky2::field::goldilocks_field::GoldilocksField as F;

const BR: [Op; 6] = [Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::BLTU, Op::BGEU];
#[no_mangle]
pub extern "C" fn hx_branch() {
    let op = BR[rsx::pick_below(6) as usize];
    let args = any_args();
    let s = any_state();
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let p = program_at(pc, Instruction { op, args });
    let Ok((aux, _, n)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    let t = r::taken(op, regs[args.rs1 as usize], regs[args.rs2 as usize]).unwrap();
    let want = sel32(t, args.imm, pc.wrapping_add(4));
    rsx::check(n.pc == want, 2);
    rsx::check(aux.new_pc == want, 3);
    same_regs(&regs, &n.registers, 0);
    rsx::check(n.clk == clk + 1 && !n.halted && n.memory.data.is_empty(), 4);
    rsx::check(aux.op1 == regs[args.rs1 as usize] && aux.op2 == regs[args.rs2 as usize], 5);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_jalr() {
    let args = any_args();
    let s = any_state();
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let p = program_at(pc, Instruction { op: Op::JALR, args });
    let Ok((aux, _, n)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    let rd = args.rd as usize;
    rsx::check(n.pc == regs[args.rs1 as usize].wrapping_add(args.imm) & !1, 2);
    rsx::check(n.registers[rd] == sel32(rd != 0, pc.wrapping_add(4), 0), 3);
    same_regs(&regs, &n.registers, args.rd);
    rsx::check(n.clk == clk + 1 && !n.halted && n.memory.data.is_empty(), 4);
    rsx::check(aux.dst_val == pc.wrapping_add(4) && aux.new_pc == n.pc, 5);
    rsx::cover(1);
}
/// Fetch: only the instruction mapped at exactly this pc runs; anything else stops with an error.
#[no_mangle]
pub extern "C" fn hx_fetch() {
    let s = any_state();
    let pc = s.pc;
    let (k0, k1, k2) = (rsx::u32(), rsx::u32(), rsx::u32());
    let i0 = Instruction { op: Op::ADD, args: Args { rd: 1, rs1: 0, rs2: 0, imm: 11 } };
    let i1 = Instruction { op: Op::ADD, args: Args { rd: 1, rs1: 0, rs2: 0, imm: 22 } };
    let mut code = im::hashmap::HashMap::new();
    code.insert(k0, Ok(i0));
    code.insert(k1, Ok(i1));
    code.insert(k2, Err(DecodingError { pc: k2, instruction: 7 }));
    let p = Program { entry_point: 0, ro_memory: Data::default(), rw_memory: Data::default(), ro_code: Code(code) };
    let want = if pc == k2 { 0 } else if pc == k1 { 22 } else if pc == k0 { 11 } else { 0 };
    match s.execute_instruction(&p) {
        Err(_) => rsx::check(want == 0, 1),
        Ok((_, i, n)) => { rsx::check(i.args.imm == want && n.registers[1] == want, 2); rsx::cover(1) }
    }
}
/// The record of a run: every row is one real step from the previous row's state.
#[no_mangle]
pub extern "C" fn hx_run() {
    // a program of up to three instructions, each a forward branch, an addition or an
    // undecodable word, followed by `a0 := 0; ecall` (halt) - or by nothing.
    let n = 1 + rsx::pick_below(3) as usize;
    let halts = rsx::pick_below(2) == 1;
    let end = 4 * n as u32;
    let mut prog: [Option<Instruction>; 5] = [None; 5];
    let mut code = im::hashmap::HashMap::new();
    for i in 0..n {
        let at = 4 * i as u32;
        match rsx::pick_below(3) {
            0 => prog[i] = Some(Instruction { op: Op::ADD, args: Args { rd: 1, rs1: 1, rs2: 2, imm: rsx::u32() } }),
            1 => { let t = at + 4 * (1 + rsx::pick_below(2) as u32); prog[i] = Some(Instruction { op: Op::BLTU, args: Args { rd: 0, rs1: 1, rs2: 2, imm: t } }) }
            _ => {}
        }
        match prog[i] { Some(x) => { code.insert(at, Ok(x)); } None => { code.insert(at, Err(DecodingError { pc: at, instruction: 0 })); } }
    }
    if halts {
        prog[n] = Some(Instruction { op: Op::ADD, args: Args { rd: 10, rs1: 0, rs2: 0, imm: 0 } });
        prog[n + 1] = Some(Instruction { op: Op::ECALL, args: Args { rd: 0, rs1: 10, rs2: 11, imm: 0 } });
        code.insert(end, Ok(prog[n].unwrap()));
        code.insert(end + 4, Ok(prog[n + 1].unwrap()));
    }
    let p = Program { entry_point: 0, ro_memory: Data::default(), rw_memory: Data::default(), ro_code: Code(code) };
    let mut s: State<F> = State::default();
    let (x1, x2) = (rsx::u32(), rsx::u32());
    s.registers[1] = x1; s.registers[2] = x2;
    // any clock, away from the loop limit of debug builds
    let clk = rsx::u64();
    rsx::assume(clk < 900_000 || (clk > 1_000_000 && clk < 1 << 60));
    s.clk = clk;
    // reference run
    let (mut pc, mut r1, mut ok, mut steps, mut a0set) = (0u32, x1, true, 0usize, false);
    let mut rpc = [0u32; 6]; let mut rr = [0u32; 6];
    loop {
        let i = (pc / 4) as usize;
        let Some(x) = (if i < 5 { prog[i] } else { None }) else { ok = false; break };
        rpc[steps] = pc; rr[steps] = r1;
        steps += 1;
        match x.op {
            Op::ADD if x.args.rd == 1 => { r1 = r1.wrapping_add(x2).wrapping_add(x.args.imm); pc += 4 }
            Op::ADD => { a0set = true; pc += 4 }
            Op::BLTU => { pc = if r1 < x2 { x.args.imm } else { pc + 4 } }
            _ => break,
        }
    }
    let _ = a0set;
    match step(&p, s) {
        Err(_) => { rsx::check(!ok, 1); rsx::cover(1) }
        Ok(rec) => {
            rsx::check(ok, 2);
            rsx::check(rec.executed.len() == steps, 3);
            for i in 0..steps {
                let row = &rec.executed[i];
                rsx::check(row.state.pc == rpc[i], 4);
                rsx::check(row.state.registers[1] == rr[i], 5);
                rsx::check(row.state.clk == clk + i as u64, 6);
                rsx::check(!row.state.halted, 7);
                rsx::check(row.instruction == prog[(rpc[i] / 4) as usize].unwrap(), 8);
                rsx::check(row.aux.will_halt == (i + 1 == steps), 9);
                let next = if i + 1 < steps { rpc[i + 1] } else { rpc[i] };
                rsx::check(row.aux.new_pc == next, 10);
            }
            let l = &rec.last_state;
            rsx::check(l.halted && l.pc == rpc[steps - 1] && l.clk == clk + steps as u64, 11);
            rsx::check(l.registers[1] == r1 && l.registers[2] == x2 && l.registers[0] == 0, 12);
            rsx::cover(2)
        }
    }
}

/// A longer run: a loop of `N` rounds that stores a byte, loads it back and adds it up.
#[no_mangle]
pub extern "C" fn hx_run_long() {
    const N: usize = 21;
    let ins = |op, rd, rs1, rs2, imm| Instruction { op, args: Args { rd, rs1, rs2, imm } };
    // x1 counts, x3 sums; bytes go to x5 + x1 and come back through x6
    let base = rsx::u32();
    let list = [
        ins(Op::SB, 0, 3, 1, base),
        ins(Op::LBU, 6, 0, 1, base),
        ins(Op::ADD, 3, 3, 6, 7),
        ins(Op::ADD, 1, 1, 0, 1),
        ins(Op::BLTU, 0, 1, 2, 0),
        ins(Op::ADD, 10, 0, 0, 0),
        ins(Op::ECALL, 0, 10, 11, 0),
    ];
    let mut code = im::hashmap::HashMap::new();
    for (i, x) in list.iter().enumerate() { code.insert(4 * i as u32, Ok(*x)); }
    let p = Program { entry_point: 0, ro_memory: Data::default(), rw_memory: Data::default(), ro_code: Code(code) };
    let mut s: State<F> = State::default();
    let x3 = rsx::u32();
    s.registers[2] = N as u32;
    s.registers[3] = x3;
    let Ok(rec) = step(&p, s) else { rsx::check(false, 1); return };
    rsx::check(rec.executed.len() == 5 * N + 2, 2);
    let mut sum = x3;
    for k in 0..N {
        for j in 0..5 {
            let row = &rec.executed[5 * k + j];
            rsx::check(row.state.pc == 4 * j as u32 && row.state.clk == 2 + (5 * k + j) as u64 && !row.state.halted, 3);
            rsx::check(row.instruction == list[j], 4);
            rsx::check(row.state.registers[1] == k as u32 + u32::from(j == 4), 5);
            rsx::check(row.state.registers[2] == N as u32 && row.state.registers[0] == 0, 6);
            if j < 3 { rsx::check(row.state.registers[3] == sum, 7); }
            if j == 2 { rsx::check(row.state.registers[6] == sum & 255, 8); }
        }
        let q = base.wrapping_add(k as u32);
        rsx::check(rec.last_state.load_u8(q) == sum as u8, 9);
        sum = sum.wrapping_add(sum & 255).wrapping_add(7);
    }
    let l = &rec.last_state;
    rsx::check(l.halted && l.registers[3] == sum && l.registers[1] == N as u32 && l.clk == 4 + 5 * N as u64, 10);
    rsx::check(l.memory.data.len() == N, 11);
    rsx::cover(1)
}
