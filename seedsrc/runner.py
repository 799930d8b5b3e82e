H = '''use mozak_runner::code::execute_code_with_ro_memory;
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::RawTapes;
#[allow(unused)] fn i(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }
#[allow(unused)] const E: Instruction = Instruction { op: Op::ECALL, args: Args { rd: 0, rs1: 10, rs2: 11, imm: 0 } };
'''
seed("runner-div-overflow", "R02", [("runner/src/vm.rs", "(a, b) => a.overflowing_div(b).0 as u32,", "(a, b) => a.checked_div(b).unwrap_or(i32::MAX) as u32,")],
 H + '''fn main() {
  let (_, r) = execute_code_with_ro_memory([i(Op::DIV, 3, 1, 2, 0)], &[], &[], &[(1, 0x8000_0000), (2, u32::MAX)], RawTapes::default());
  assert_eq!(r.last_state.registers[3], 0x8000_0000);
}''', "signed division of the most negative value by -1", "DIV of i32::MIN by -1 gives i32::MAX instead of i32::MIN")
seed("runner-jalr-link-alias", "R03", [("runner/src/vm.rs", """        let new_pc = self.get_register_value(inst.rs1).wrapping_add(inst.imm) & !1;
        let dst_val = self.get_pc().wrapping_add(4);
        (
            Aux {
                dst_val,
                ..Default::default()
            },
            self.set_pc(new_pc).set_register_value(inst.rd, dst_val),
        )""", """        let dst_val = self.get_pc().wrapping_add(4);
        let state = self.set_register_value(inst.rd, dst_val);
        let new_pc = state.get_register_value(inst.rs1).wrapping_add(inst.imm) & !1;
        (
            Aux {
                dst_val,
                ..Default::default()
            },
            state.set_pc(new_pc),
        )""")],
 H + '''fn main() {
  // jalr x1, 0(x1): target is the old x1
  let (_, r) = execute_code_with_ro_memory([i(Op::JALR, 1, 1, 0, 0), i(Op::ADD, 5, 0, 0, 7), i(Op::ADD, 6, 0, 0, 9)], &[], &[], &[(1, 8)], RawTapes::default());
  assert_eq!((r.last_state.registers[5], r.last_state.registers[6], r.last_state.registers[1]), (0, 9, 4));
}''', "a jump whose link register is also its base register", "the jump target is computed from the overwritten base register")
seed("runner-load-wrap", "R04", [("runner/src/state.rs", "let mut mem_addresses_used: Vec<u32> = (0..4).map(|i| addr.wrapping_add(i)).collect();", "let mut mem_addresses_used: Vec<u32> = (0..4).map(|i| addr.saturating_add(i)).collect();")],
 H + '''fn main() {
  let (_, r) = execute_code_with_ro_memory([i(Op::LW, 3, 0, 1, 0)], &[], &[(0xffff_fffe, 1), (0xffff_ffff, 2), (0, 3), (1, 4)], &[(1, 0xffff_fffe)], RawTapes::default());
  assert_eq!(r.last_state.registers[3], 0x0403_0201);
}''', "a multi-byte load that wraps past the end of the address space", "the wrapped bytes are read from the last address instead of address 0")
seed("runner-store-ro-tail", "R04", [("runner/src/vm.rs", """                .fold(self, |acc, (i, byte)| acc.store_u8(i, byte).unwrap())
                .bump_pc(),
        )
    }

    #[allow(clippy::cast_sign_loss)]""", """                .fold(self, |mut acc, (i, byte)| {
                    if i == addr {
                        return acc.store_u8(i, byte).unwrap();
                    }
                    acc.memory.data.insert(i, byte);
                    acc
                })
                .bump_pc(),
        )
    }

    #[allow(clippy::cast_sign_loss)]""")],
 H + '''fn main() {
  let r = std::panic::catch_unwind(|| execute_code_with_ro_memory([i(Op::SW, 0, 1, 2, 0)], &[(0x103, 9)], &[], &[(1, 0xdead_beef), (2, 0x100)], RawTapes::default()));
  assert!(r.is_err(), "wrote to a read-only byte");
}''', "a multi-byte store whose first byte is writable and a later byte read-only", "read-only memory is overwritten")
seed("runner-tape-rewind", "R05", [("runner/src/state.rs", "    *index += limit;\n    read\n", "    *index = if limit < num_bytes && limit == 0 { 0 } else { *index + limit };\n    read\n")],
 H + '''fn main() {
  let t = RawTapes { private_tape: vec![1, 2], ..RawTapes::default() };
  let rd = |a: u32| [i(Op::ADD, 10, 0, 0, 2), i(Op::ADD, 11, 0, 0, a), i(Op::ADD, 12, 0, 0, 2), E];
  let code: Vec<_> = rd(0x100).into_iter().chain(rd(0x110)).chain(rd(0x120)).collect();
  let (_, r) = execute_code_with_ro_memory(code, &[], &[], &[], t);
  let s = &r.last_state;
  assert_eq!([0x100, 0x101, 0x110, 0x111, 0x120, 0x121].map(|a| s.load_u8(a)), [1, 2, 0, 0, 0, 0]);
}''', "a read past the end of a tape followed by another read", "an exhausted tape starts over, so the guest can read the same bytes twice")
seed("runner-ro-precedence", "R07", [("runner/src/state.rs", """        let mut rw: HashMap<u32, u8> = rw.flat_map(HashMap::into_iter).collect();""", """        let rw: HashMap<u32, u8> = rw.flat_map(HashMap::into_iter).collect();"""), ("runner/src/state.rs", """            data: {
                rw.extend(ro);
                rw
            },""", """            data: {
                let mut all = ro;
                all.extend(rw);
                all
            },""")],
 H + '''fn main() {
  let (_, r) = execute_code_with_ro_memory([i(Op::LBU, 3, 0, 1, 0)], &[(0x100, 5)], &[(0x100, 6)], &[(1, 0x100)], RawTapes::default());
  assert_eq!(r.last_state.registers[3], 5);
}''', "a byte that is both in the read-only and in the read-write image", "the read-write byte wins over the read-only one")
seed("runner-segment-size", "R07", [("runner/src/elf.rs", ".take(max_size)", ".take(mem_size)")],
 '''use elf::segment::ProgramHeader;
static mut S: [ProgramHeader; 1] = [ProgramHeader { p_type: 1, p_offset: 0, p_vaddr: 0x1000, p_paddr: 0, p_filesz: 4, p_memsz: 2, p_flags: 4, p_align: 4 }];
fn main() {
  let hdr = elf::file::FileHeader { class: elf::file::Class::ELF32, endianness: elf::endian::LittleEndian, version: 1, osabi: 0, abiversion: 0, e_type: 2, e_machine: 243, e_entry: 0x1000, e_phoff: 0, e_shoff: 0, e_flags: 0, e_ehsize: 0, e_phentsize: 0, e_phnum: 0, e_shentsize: 0, e_shnum: 0, e_shstrndx: 0 };
  unsafe { elf::NEXT = Some(elf::Parsed { hdr, segs: Some(&*std::ptr::addr_of!(S)) }) }
  let p = mozak_runner::elf::Program::mozak_load_program(&[1, 2, 3, 4]).unwrap();
  assert_eq!([0x1000, 0x1001, 0x1002, 0x1003].map(|a| p.ro_memory.get(&a).copied()), [Some(1), Some(2), Some(0), Some(0)]);
}''', "a segment whose file size exceeds its memory size", "the tail of the segment is left unmapped")
seed("runner-sponge-flag", "R06", [("runner/src/poseidon2.rs", """    sponge_data
        .last_mut()
""", """    sponge_data
        .first_mut()
""")],
 H + '''fn main() {
  let (_, r) = execute_code_with_ro_memory([E], &[], &[], &[(10, 3), (11, 0x100), (12, 16), (13, 0x200)], RawTapes::default());
  let d = &r.executed[0].aux.poseidon2.as_ref().unwrap().sponge_data;
  assert_eq!([d[0].gen_output.0, d[1].gen_output.0], [0, 1]);
}''', "a hash over more than one block", "the prover is told the digest comes from the first block's permutation")
