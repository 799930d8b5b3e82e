//! RV32IM reference, written from the RISC-V unprivileged ISA manual and the
//! VM's documented operand conventions; shares no code with /repo.
use mozak_runner::instruction::{Args, Op};

/// Sign-extended immediates straight from the manual's figure 2.4.
pub fn imm_i(w: u32) -> u32 { ((w as i32) >> 20) as u32 }
pub fn imm_s(w: u32) -> u32 { (((w as i32) >> 25) << 5) as u32 | ((w >> 7) & 0x1f) }
pub fn imm_b(w: u32) -> u32 {
    (((w as i32) >> 31) << 12) as u32 | ((w >> 7) & 1) << 11 | ((w >> 25) & 0x3f) << 5 | ((w >> 8) & 0xf) << 1
}
pub fn imm_u(w: u32) -> u32 { w & 0xffff_f000 }
pub fn imm_j(w: u32) -> u32 {
    (((w as i32) >> 31) << 20) as u32 | (w & 0x000f_f000) | ((w >> 20) & 1) << 11 | ((w >> 21) & 0x3ff) << 1
}
fn f(rd: u32, rs1: u32, rs2: u32, imm: u32) -> Args { Args { rd: rd as u8, rs1: rs1 as u8, rs2: rs2 as u8, imm } }

/// `None`: not an instruction this machine accepts.
pub fn decode(pc: u32, w: u32) -> Option<(Op, Args)> {
    let (rd, f3, rs1, rs2, f7) = ((w >> 7) & 31, (w >> 12) & 7, (w >> 15) & 31, (w >> 20) & 31, w >> 25);
    let nop = Some((Op::ADD, f(0, 0, 0, 0)));
    let shamt = rs2;
    match w & 0x7f {
        0x37 => Some((Op::ADD, f(rd, 0, 0, imm_u(w)))),
        0x17 => Some((Op::ADD, f(rd, 0, 0, imm_u(w).wrapping_add(pc)))),
        0x6f => Some((Op::JALR, f(rd, 0, 0, imm_j(w).wrapping_add(pc)))),
        0x67 => if f3 == 0 { Some((Op::JALR, f(rd, rs1, 0, imm_i(w)))) } else { None },
        0x63 => {
            let op = match f3 { 0 => Op::BEQ, 1 => Op::BNE, 4 => Op::BLT, 5 => Op::BGE, 6 => Op::BLTU, 7 => Op::BGEU, _ => return None };
            Some((op, f(0, rs1, rs2, imm_b(w).wrapping_add(pc))))
        }
        0x03 => {
            let op = match f3 { 0 => Op::LB, 1 => Op::LH, 2 => Op::LW, 4 => Op::LBU, 5 => Op::LHU, _ => return None };
            Some((op, f(rd, 0, rs1, imm_i(w))))
        }
        0x23 => {
            let op = match f3 { 0 => Op::SB, 1 => Op::SH, 2 => Op::SW, _ => return None };
            Some((op, f(0, rs2, rs1, imm_s(w))))
        }
        0x13 => match f3 {
            0 => Some((Op::ADD, f(rd, rs1, 0, imm_i(w)))),
            2 => Some((Op::SLT, f(rd, rs1, 0, imm_i(w)))),
            3 => Some((Op::SLTU, f(rd, rs1, 0, imm_i(w)))),
            4 => Some((Op::XOR, f(rd, rs1, 0, imm_i(w)))),
            6 => Some((Op::OR, f(rd, rs1, 0, imm_i(w)))),
            7 => Some((Op::AND, f(rd, rs1, 0, imm_i(w)))),
            1 => if f7 == 0 { Some((Op::MUL, f(rd, rs1, 0, 1u32 << shamt))) } else { None },
            _ => match f7 {
                0 => Some((Op::DIVU, f(rd, rs1, 0, 1u32 << shamt))),
                0x20 => Some((Op::SRA, f(rd, rs1, 0, shamt))),
                _ => None,
            },
        },
        0x33 => {
            let op = match (f7, f3) {
                (0, 0) => Op::ADD, (0x20, 0) => Op::SUB, (0, 1) => Op::SLL, (0, 2) => Op::SLT, (0, 3) => Op::SLTU,
                (0, 4) => Op::XOR, (0, 5) => Op::SRL, (0x20, 5) => Op::SRA, (0, 6) => Op::OR, (0, 7) => Op::AND,
                (1, 0) => Op::MUL, (1, 1) => Op::MULH, (1, 2) => Op::MULHSU, (1, 3) => Op::MULHU,
                (1, 4) => Op::DIV, (1, 5) => Op::DIVU, (1, 6) => Op::REM, (1, 7) => Op::REMU,
                _ => return None,
            };
            Some((op, f(rd, rs1, rs2, 0)))
        }
        0x0f => nop,
        0x73 => match (f3, w >> 20) {
            (0, 0) => Some((Op::ECALL, f(0, 10, 11, 0))),
            (0, 1) | (0, 0x302) => nop,
            (1, _) | (2, _) | (5, _) => nop,
            _ => None,
        },
        _ => None,
    }
}

/// What a register-register/immediate operation computes from its two operands.
pub fn alu(op: Op, a: u32, b: u32) -> Option<u32> {
    let (sa, sb) = (a as i32, b as i32);
    Some(match op {
        Op::ADD => a.wrapping_add(b),
        Op::SUB => a.wrapping_sub(b),
        Op::XOR => a ^ b,
        Op::OR => a | b,
        Op::AND => a & b,
        Op::SLL => a << (b & 31),
        Op::SRL => a >> (b & 31),
        Op::SRA => (sa >> (b & 31)) as u32,
        Op::SLT => (sa < sb) as u32,
        Op::SLTU => (a < b) as u32,
        Op::MUL => a.wrapping_mul(b),
        Op::MULH => ((sa as i64).wrapping_mul(sb as i64) >> 32) as u32,
        Op::MULHU => ((a as u64).wrapping_mul(b as u64) >> 32) as u32,
        Op::MULHSU => ((sa as i64).wrapping_mul(b as i64) >> 32) as u32,
        Op::DIV => if b == 0 { u32::MAX } else { sa.wrapping_div(sb) as u32 },
        Op::DIVU => if b == 0 { u32::MAX } else { a / b },
        Op::REM => if b == 0 { a } else { sa.wrapping_rem(sb) as u32 },
        Op::REMU => if b == 0 { a } else { a % b },
        _ => return None,
    })
}
pub fn taken(op: Op, a: u32, b: u32) -> Option<bool> {
    Some(match op {
        Op::BEQ => a == b,
        Op::BNE => a != b,
        Op::BLT => (a as i32) < (b as i32),
        Op::BGE => (a as i32) >= (b as i32),
        Op::BLTU => a < b,
        Op::BGEU => a >= b,
        _ => return None,
    })
}
