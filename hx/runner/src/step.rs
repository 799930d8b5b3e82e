use crate::refmodel as r;
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::State;
use plonky2::field::goldilocks_field::GoldilocksField as F;

pub fn any_args() -> Args {
    let (rd, rs1, rs2) = (rsx::u8(), rsx::u8(), rsx::u8());
    rsx::assume(rd < 32 && rs1 < 32 && rs2 < 32);
    Args { rd, rs1, rs2, imm: rsx::u32() }
}
pub fn any_state() -> State<F> {
    let mut s: State<F> = State::default();
    for i in 1..32 { s.registers[i] = rsx::u32(); }
    s.pc = rsx::u32();
    s.clk = rsx::u64();
    rsx::assume(s.clk < u64::MAX);
    s
}
pub fn program_at(pc: u32, inst: Instruction) -> Program {
    let mut code = im::hashmap::HashMap::new();
    code.insert(pc, Ok(inst));
    Program { entry_point: 0, ro_memory: Data::default(), rw_memory: Data::default(), ro_code: Code(code) }
}

const ALU: [Op; 18] = [Op::ADD, Op::SUB, Op::XOR, Op::OR, Op::AND, Op::SLL, Op::SRL, Op::SRA, Op::SLT, Op::SLTU,
    Op::MUL, Op::MULH, Op::MULHU, Op::MULHSU, Op::DIV, Op::DIVU, Op::REM, Op::REMU];
#[no_mangle]
pub extern "C" fn hx_alu() {
    let op = ALU[rsx::pick_below(18) as usize];
    let args = any_args();
    let s = any_state();
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let inst = Instruction { op, args };
    let p = program_at(pc, inst);
    let Ok((aux, got_inst, n)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    rsx::check(got_inst == inst, 2);
    let v = r::alu(op, regs[args.rs1 as usize], regs[args.rs2 as usize].wrapping_add(args.imm)).unwrap();
    let i = rsx::u8() as usize;
    rsx::assume(i < 32);
    let want = if i != 0 && i == args.rd as usize { v } else { regs[i] };
    rsx::check(n.registers[i] == want, 3);
    rsx::check(n.pc == pc.wrapping_add(4), 4);
    rsx::check(n.clk == clk + 1 && !n.halted, 5);
    rsx::check(n.memory.data.is_empty(), 6);
    // what the prover is told about the step
    let (a, braw) = (regs[args.rs1 as usize], regs[args.rs2 as usize]);
    let b = braw.wrapping_add(args.imm);
    let sh = matches!(op, Op::SLL | Op::SRL | Op::SRA);
    rsx::check(aux.op1 == a && aux.op2_raw == braw && aux.op2 == if sh { 1u32 << (b & 31) } else { b }, 7);
    rsx::check(aux.dst_val == v && aux.new_pc == n.pc && aux.mem.is_none() && !aux.will_halt, 8);
    rsx::cover(1);
}
