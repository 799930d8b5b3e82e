/// Appended to the generated copy of circuits/src/lib.rs: runs the real constraint code of every
/// table over symbolic field elements and writes what it computed as JSON.
pub mod rsx_access {
    use core::fmt::{Debug, Write};

    use plonky2::field::sym::{self, Node, Sym};
    use plonky2::field::types::Field;
    use plonky2::plonk::circuit_builder::CircuitBuilder;
    use plonky2::plonk::circuit_data::CircuitConfig;
    use starky::constraint_consumer::{ConstraintConsumer, Kind, RecursiveConstraintConsumer};
    use starky::evaluation_frame::StarkEvaluationFrame;
    use starky::stark::Stark;

    use crate::stark::mozak_stark::*;
    type F = Sym;
    pub fn list<T: Debug>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",")) }
    pub fn ids(v: &[Sym]) -> String { format!("[{}]", v.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(",")) }
    fn kind(k: Kind) -> &'static str { match k { Kind::Always => "always", Kind::Transition => "transition", Kind::First => "first", Kind::Last => "last" } }
    fn table<S: Stark<F, 1>, V: FromIterator<Sym> + Debug>(out: &mut String, s: &S, k: TableKind) {
        let n = S::COLUMNS;
        let name = format!("{k:?}");
        let lv: Vec<Sym> = (0..n).map(|i| sym::var(&format!("{name}.l.{i}"))).collect();
        let nv: Vec<Sym> = (0..n).map(|i| sym::var(&format!("{name}.n.{i}"))).collect();
        let pi: Vec<Sym> = (0..S::PUBLIC_INPUTS).map(|i| sym::var(&format!("{name}.pi.{i}"))).collect();
        let view: V = lv.iter().copied().collect();
        let mut c = ConstraintConsumer::<Sym>::new(vec![], Sym::ONE, Sym::ONE, Sym::ONE);
        s.eval_packed_generic::<Sym, Sym, 1>(&StarkEvaluationFrame::from_values(&lv, &nv, &pi), &mut c);
        let nat: Vec<_> = c.log.iter().map(|(k, e)| format!("[\"{}\",{}]", kind(*k), e.0)).collect();
        let mut b = CircuitBuilder::<F, 1>::new(CircuitConfig::standard_recursion_config());
        let (lt, nt, pt) = [&lv, &nv, &pi].map(|v| v.iter().map(|x| { let t = b.val(*x); b.convert_to_ext(t) }).collect::<Vec<_>>()).into();
        let z = b.zero_extension();
        let mut rc = RecursiveConstraintConsumer::<F, 1>::new(z, vec![], z, z, z);
        s.eval_ext_circuit(&mut b, &S::EvaluationFrameTarget::from_values(&lt, &nt, &pt), &mut rc);
        let rec: Vec<_> = rc.log.iter().map(|(k, e)| format!("[\"{}\",{}]", kind(*k), b.get(e.0[0]).0)).collect();
        assert!(b.zeros.is_empty());
        write!(out, "\"{name}\":{{\"columns\":{n},\"view\":{:?},\"l\":{},\"n\":{},\"pi\":{},\"native\":[{}],\"circuit\":[{}],\"degree\":{},\"quotient\":{}}},\n", format!("{view:?}"), ids(&lv), ids(&nv), ids(&pi), nat.join(","), rec.join(","), s.constraint_degree(), s.quotient_degree_factor()).unwrap();
    }
    pub fn tab(out: &mut String, t: &Table) {
        let name = format!("{:?}", t.kind);
        // columns are named by index through an index-transparent view of any width
        let row = |s: &str| (0..1024).map(|i| sym::var(&format!("{name}.{s}.{i}"))).collect::<Vec<Sym>>();
        let (lv, nv) = (row("l"), row("n"));
        let cols: Vec<Sym> = t.columns.iter().map(|c| c.eval::<F, F, F, 1, [Sym]>(&lv, &nv)).collect();
        let f = t.filter_column.eval::<F, F, F, 1, [Sym]>(&lv, &nv);
        write!(out, "[\"{name}\",{},{}]", ids(&cols), f.0).unwrap();
    }
    pub fn nodes(out: &mut String) {
        out.push_str("\"nodes\":[");
        for (i, n) in sym::nodes().into_iter().enumerate() {
            if i > 0 { out.push_str(",\n"); }
            match n {
                Node::Const(c) => write!(out, "[\"c\",\"{c}\"]"),
                Node::Var(v) => write!(out, "[\"v\",{v:?}]"),
                Node::Add(a, b) => write!(out, "[\"+\",{a},{b}]"),
                Node::Sub(a, b) => write!(out, "[\"-\",{a},{b}]"),
                Node::Mul(a, b) => write!(out, "[\"*\",{a},{b}]"),
                Node::Neg(a) => write!(out, "[\"~\",{a}]"),
                Node::Inv(a) => write!(out, "[\"i\",{a}]"),
                Node::Eq(a, b) => write!(out, "[\"=\",{a},{b}]"),
                Node::Uf(f, a, k) => write!(out, "[\"f\",{f:?},{a:?},{k}]"),
            }.unwrap();
        }
        out.push_str("]");
    }
    pub fn tables(out: &mut String) {
        let m = MozakStark::<F, 1>::default();
        macro_rules! go { ($($f:ident: $k:ident => $($v:ident)::*;)*) => { $( table::<_, crate::$($v)::*<Sym>>(out, &m.$f, TableKind::$k); )* }; }
        out.push_str("\"tables\":{");
        go! {
            cpu_stark: Cpu => cpu::columns::CpuState;
            rangecheck_stark: RangeCheck => rangecheck::columns::RangeCheckColumnsView;
            xor_stark: Xor => xor::columns::XorColumnsView;
            shift_amount_stark: Bitshift => bitshift::columns::BitshiftView;
            program_stark: Program => program::columns::ProgramRom;
            program_mult_stark: ProgramMult => program_multiplicities::columns::ProgramMult;
            memory_stark: Memory => memory::columns::Memory;
            elf_memory_init_stark: ElfMemoryInit => memoryinit::columns::MemoryInit;
            memory_zeroinit_stark: MemoryZeroInit => memory_zeroinit::columns::MemoryZeroInit;
            rangecheck_u8_stark: RangeCheckU8 => rangecheck_u8::columns::RangeCheckU8;
            halfword_memory_stark: HalfWordMemory => memory_halfword::columns::HalfWordMemory;
            fullword_memory_stark: FullWordMemory => memory_fullword::columns::FullWordMemory;
            private_tape_stark: StorageDevicePrivate => storage_device::columns::StorageDevice;
            public_tape_stark: StorageDevicePublic => storage_device::columns::StorageDevice;
            call_tape_stark: CallTape => storage_device::columns::StorageDevice;
            event_tape_stark: EventTape => storage_device::columns::StorageDevice;
            events_commitment_tape_stark: EventsCommitmentTape => storage_device::columns::StorageDevice;
            cast_list_commitment_tape_stark: CastListCommitmentTape => storage_device::columns::StorageDevice;
            self_prog_id_tape_stark: SelfProgIdTape => storage_device::columns::StorageDevice;
            register_init_stark: RegisterInit => register::init::columns::RegisterInit;
            register_stark: Register => register::general::columns::Register;
            register_zero_read_stark: RegisterZeroRead => register::zero_read::columns::RegisterZeroRead;
            register_zero_write_stark: RegisterZeroWrite => register::zero_write::columns::RegisterZeroWrite;
            poseidon2_stark: Poseidon2 => poseidon2::columns::Poseidon2State;
            poseidon2_sponge_stark: Poseidon2Sponge => poseidon2_sponge::columns::Poseidon2Sponge;
            poseidon2_output_bytes_stark: Poseidon2OutputBytes => poseidon2_output_bytes::columns::Poseidon2OutputBytes;
            cpu_skeleton_stark: CpuSkeleton => cpu_skeleton::columns::CpuSkeleton;
            add_stark: Add => ops::add::columns::Add;
            blt_taken_stark: BltTaken => ops::blt_taken::columns::BltTaken;
            tape_commitments_stark: TapeCommitments => tape_commitments::columns::TapeCommitments;
        }
        out.truncate(out.trim_end().len() - 1);
        out.push_str("},\n\"lookups\":[");
        for (i, l) in m.cross_table_lookups.iter().enumerate() {
            if i > 0 { out.push_str(",\n"); }
            out.push('[');
            for (j, t) in l.looking_tables.iter().enumerate() { if j > 0 { out.push(','); } tab(out, t); }
            out.push(']');
        }
        out.push_str("],\n\"public_sub_tables\":[");
        for (i, p) in m.public_sub_tables.iter().enumerate() { if i > 0 { out.push(','); } out.push('['); tab(out, &p.table); write!(out, ",{}]", p.num_rows).unwrap(); }
        write!(out, "],\n\"kinds\":{:?},\n\"public_kinds\":{:?},\n", m_kinds(), PUBLIC_TABLE_KINDS.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>()).unwrap();
    }
    /// What the program table holds for each kind of instruction: the CPU view of the instruction
    /// (with recognisable argument values) and the packing of that view.
    fn rom(out: &mut String) {
        use mozak_runner::instruction::{Args, Instruction, Op};
        type V<T> = crate::cpu::columns::Instruction<T>;
        let n = <V<()> as crate::columns_view::NumberOfColumns>::NUMBER_OF_COLUMNS;
        let vars: Vec<Sym> = (0..n).map(|i| sym::var(&format!("Rom.i.{i}"))).collect();
        let view: V<Sym> = vars.iter().copied().collect();
        let row = crate::program::columns::ProgramRom::from(view);
        write!(out, "\"rom\":{{\"view\":{:?},\"l\":{},\"row\":{},\"ops\":{{", format!("{view:?}"), ids(&vars), ids(&row.into_iter().collect::<Vec<Sym>>())).unwrap();
        let ops = [Op::ADD, Op::SUB, Op::SRL, Op::SRA, Op::SLL, Op::SLT, Op::SLTU, Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU, Op::XOR, Op::JALR, Op::BEQ, Op::BNE, Op::BLT, Op::BLTU, Op::BGE, Op::BGEU, Op::AND, Op::OR, Op::SW, Op::SH, Op::SB, Op::MUL, Op::MULH, Op::MULHU, Op::MULHSU, Op::DIV, Op::DIVU, Op::REM, Op::REMU, Op::ECALL];
        for (i, op) in ops.into_iter().enumerate() {
            if i > 0 { out.push(','); }
            let inst = Instruction::new(op, Args { rd: 1001 % 32, rs1: 17, rs2: 23, imm: 3_000_000_019 });
            let v = V::<u32>::from((4_000_000_004, inst));
            write!(out, "\"{op:?}\":{:?}", v.into_iter().collect::<Vec<u32>>()).unwrap();
        }
        out.push_str("}},\n");
    }
    fn m_kinds() -> Vec<String> { all_kind!(|kind| format!("{kind:?}")).0.to_vec() }
    /// Evaluates the real constraints of one table on a concrete row pair.
    /// Input lines: TABLE, then the local row, the next row and the public inputs.
    pub fn eval(input: &str) -> String {
        let mut it = input.lines();
        let name = it.next().unwrap().trim().to_string();
        let nums: Vec<Vec<Sym>> = it.take(3).map(|l| l.split_whitespace().map(|x| Sym::from_noncanonical_u64(x.parse::<u64>().unwrap())).collect()).collect();
        let m = MozakStark::<F, 1>::default();
        let mut out = String::new();
        macro_rules! go { ($($f:ident: $k:ident;)*) => { $( if name == stringify!($k) {
            fn ev<S: Stark<F, 1>>(s: &S, nums: &[Vec<Sym>], out: &mut String) {
                let mut c = ConstraintConsumer::<Sym>::new(vec![], Sym::ONE, Sym::ONE, Sym::ONE);
                s.eval_packed_generic::<Sym, Sym, 1>(&StarkEvaluationFrame::from_values(&nums[0], &nums[1], &nums[2]), &mut c);
                for (k, e) in c.log.iter() { writeln!(out, "{} {}", kind(*k), e.konst().unwrap()).unwrap(); }
            }
            ev(&m.$f, &nums, &mut out);
        } )* }; }
        go! { cpu_stark: Cpu; rangecheck_stark: RangeCheck; xor_stark: Xor; shift_amount_stark: Bitshift; program_stark: Program; program_mult_stark: ProgramMult; memory_stark: Memory; elf_memory_init_stark: ElfMemoryInit; memory_zeroinit_stark: MemoryZeroInit; rangecheck_u8_stark: RangeCheckU8; halfword_memory_stark: HalfWordMemory; fullword_memory_stark: FullWordMemory; private_tape_stark: StorageDevicePrivate; public_tape_stark: StorageDevicePublic; call_tape_stark: CallTape; event_tape_stark: EventTape; events_commitment_tape_stark: EventsCommitmentTape; cast_list_commitment_tape_stark: CastListCommitmentTape; self_prog_id_tape_stark: SelfProgIdTape; register_init_stark: RegisterInit; register_stark: Register; register_zero_read_stark: RegisterZeroRead; register_zero_write_stark: RegisterZeroWrite; poseidon2_stark: Poseidon2; poseidon2_sponge_stark: Poseidon2Sponge; poseidon2_output_bytes_stark: Poseidon2OutputBytes; cpu_skeleton_stark: CpuSkeleton; add_stark: Add; blt_taken_stark: BltTaken; tape_commitments_stark: TapeCommitments; }
        out
    }
    /// Honest runs: programs executed by the real runner, traces generated by the real generators,
    /// every constraint and every lookup evaluated on them.
    pub fn traces(n: u64) -> String {
        use std::collections::BTreeMap;

        use mozak_runner::code;
        use mozak_runner::instruction::{Args, Instruction, Op};
        use mozak_runner::state::RawTapes;
        use plonky2::field::goldilocks_field::GoldilocksField as G;
        use plonky2::field::types::PrimeField64;
        let mut out = String::new();
        let mut seed = 88172645463325252u64;
        let mut rnd = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
        for round in 0..n {
            let special = [0u32, 1, 2, 31, 32, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff];
            let mut val = || { let r = rnd(); if r & 3 != 0 { special[(r >> 8) as usize % 16] } else { (r >> 16) as u32 } };
            let regs: Vec<(u8, u32)> = (12..28).map(|r| (r, val())).collect();
            let ops = [Op::ADD, Op::SUB, Op::SRL, Op::SRA, Op::SLL, Op::SLT, Op::SLTU, Op::XOR, Op::AND, Op::OR, Op::MUL, Op::MULH, Op::MULHU, Op::MULHSU, Op::DIV, Op::DIVU, Op::REM, Op::REMU];
            let brs = [Op::BEQ, Op::BNE, Op::BLT, Op::BLTU, Op::BGE, Op::BGEU];
            let mems = [Op::LB, Op::LBU, Op::LH, Op::LHU, Op::LW, Op::SB, Op::SH, Op::SW];
            let mut code: Vec<Instruction> = vec![];
            let a = |rd, rs1, rs2, imm| Args { rd, rs1, rs2, imm };
            let mut reg = { let mut s = 77u64 + round; move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); 12 + ((s >> 33) % 16) as u8 } };
            for i in 0..40u8 {
                for op in ops { code.push(Instruction { op, args: if i % 3 == 2 { a(28 + i % 4, reg(), 0, val()) } else { a(28 + i % 4, reg(), reg(), 0) } }); }
                for op in brs { let t = 4 * code.len() as u32 + 8; code.push(Instruction { op, args: a(0, reg(), reg(), t) }); code.push(Instruction { op: Op::ADD, args: a(0, 0, 0, 0) }); }
                code.push(Instruction { op: Op::JALR, args: a(1, 0, 0, 4 * code.len() as u32 + 4) });
                let base = 0x4000 + 8 * u32::from(i);
                for op in mems { let imm = base + val() % 8; let store = matches!(op, Op::SB | Op::SH | Op::SW); code.push(Instruction { op, args: if store { a(0, reg(), 0, imm) } else { a(29, 0, 0, imm) } }); }
                for op in mems { let imm = base + val() % 8; let store = matches!(op, Op::SB | Op::SH | Op::SW); code.push(Instruction { op, args: if store { a(0, reg(), 0, imm) } else { a(30, 0, 0, imm) } }); }
            }
            let set = |code: &mut Vec<Instruction>, rd, imm| code.push(Instruction { op: Op::ADD, args: a(rd, 0, 0, imm) });
            for x in [-31i32, -1, -30, -32, i32::MIN, i32::MIN + 1] {
                set(&mut code, 28, x as u32); set(&mut code, 29, u32::MAX);
                for op in [Op::DIV, Op::REM, Op::MULH, Op::MULHSU, Op::DIVU] { code.push(Instruction { op, args: a(30, 28, 29, 0) }); code.push(Instruction { op, args: a(30, 29, 28, 0) }); }
            }
            for (k, len) in [(2u32, 5u32), (2, 0), (4, 3), (5, 9), (6, 5), (7, 32), (8, 32), (9, 32), (2, 9), (3, 16), (3, 8)] {
                set(&mut code, 10, k); set(&mut code, 11, 0x8000 + 64 * k); set(&mut code, 12, len); set(&mut code, 13, 0x9000);
                code.push(Instruction { op: Op::ECALL, args: a(0, 10, 11, 0) });
            }
            let mem: Vec<(u32, u8)> = (0x4000..0x4400).map(|x| (x, (x * 37 % 256) as u8)).collect();
            let tapes = RawTapes { private_tape: vec![1, 2, 3, 4, 5, 6, 200], public_tape: vec![9; 4], call_tape: vec![7, 8, 9], event_tape: vec![3; 20], events_commitment_tape: core::array::from_fn(|i| i as u8), cast_list_commitment_tape: core::array::from_fn(|i| 255 - i as u8), self_prog_id_tape: [4; 32] };
            let (program, record) = code::execute_code_with_ro_memory(code, &[], &mem, &regs, tapes);
            let tr = crate::generation::generate_traces::<G, 1>(&program, &record, &mut plonky2::util::timing::TimingTree::default());
            let m = MozakStark::<G, 1>::default();
            let mut rows = 0usize;
            let mut bad: BTreeMap<String, usize> = BTreeMap::new();
            let transpose = |t: &Vec<plonky2::field::polynomial::PolynomialValues<G>>| -> Vec<Vec<G>> { (0..t[0].values.len()).map(|i| t.iter().map(|c| c.values[i]).collect()).collect() };
            let mut all: BTreeMap<String, Vec<Vec<G>>> = BTreeMap::new();
            macro_rules! go { ($($f:ident: $k:ident;)*) => { $( {
                fn ev<S: Stark<G, 1>>(s: &S, t: &[Vec<G>], pi: &[G], name: &str, bad: &mut BTreeMap<String, usize>) {
                    for i in 0..t.len() {
                        let mut c = ConstraintConsumer::<G>::new(vec![], G::ONE, G::ONE, G::ONE);
                        s.eval_packed_generic::<G, G, 1>(&StarkEvaluationFrame::from_values(&t[i], &t[(i + 1) % t.len()], pi), &mut c);
                        for (j, (k, e)) in c.log.iter().enumerate() {
                            let on = match k { Kind::Always => true, Kind::Transition => i + 1 < t.len(), Kind::First => i == 0, Kind::Last => i + 1 == t.len() };
                            if on && *e != G::ZERO { *bad.entry(format!("{name} constraint {j} {}", kind(*k))).or_default() += 1; }
                        }
                    }
                }
                let t = transpose(&tr[TableKind::$k]);
                rows += t.len();
                let pi: Vec<G> = if stringify!($k) == "CpuSkeleton" { vec![G::from_canonical_u32(program.entry_point)] } else { vec![] };
                ev(&m.$f, &t, &pi, stringify!($k), &mut bad);
                all.insert(stringify!($k).to_string(), t);
            } )* }; }
            go! { cpu_stark: Cpu; rangecheck_stark: RangeCheck; xor_stark: Xor; shift_amount_stark: Bitshift; program_stark: Program; program_mult_stark: ProgramMult; memory_stark: Memory; elf_memory_init_stark: ElfMemoryInit; memory_zeroinit_stark: MemoryZeroInit; rangecheck_u8_stark: RangeCheckU8; halfword_memory_stark: HalfWordMemory; fullword_memory_stark: FullWordMemory; private_tape_stark: StorageDevicePrivate; public_tape_stark: StorageDevicePublic; call_tape_stark: CallTape; event_tape_stark: EventTape; events_commitment_tape_stark: EventsCommitmentTape; cast_list_commitment_tape_stark: CastListCommitmentTape; self_prog_id_tape_stark: SelfProgIdTape; register_init_stark: RegisterInit; register_stark: Register; register_zero_read_stark: RegisterZeroRead; register_zero_write_stark: RegisterZeroWrite; poseidon2_stark: Poseidon2; poseidon2_sponge_stark: Poseidon2Sponge; poseidon2_output_bytes_stark: Poseidon2OutputBytes; cpu_skeleton_stark: CpuSkeleton; add_stark: Add; blt_taken_stark: BltTaken; tape_commitments_stark: TapeCommitments; }
            for (i, l) in m.cross_table_lookups.iter().enumerate() {
                let mut sum: BTreeMap<Vec<u64>, G> = BTreeMap::new();
                let k = l.looking_tables.len();
                for (j, t) in l.looking_tables.iter().enumerate() {
                    let rows = &all[&format!("{:?}", t.kind)];
                    let _ = (k, j);
                    for r in 0..rows.len() {
                        let (lv, nv) = (&rows[r], &rows[(r + 1) % rows.len()]);
                        let f: G = t.filter_column.eval::<G, G, G, 1, Vec<G>>(lv, nv);
                        if f != G::ZERO {
                            let key = t.columns.iter().map(|c| c.eval::<G, G, G, 1, Vec<G>>(lv, nv).to_canonical_u64()).collect();
                            *sum.entry(key).or_insert(G::ZERO) += f;
                        }
                    }
                }
                for (k, v) in sum.iter().filter(|(_, v)| **v != G::ZERO).take(3) { writeln!(out, "round {round} lookup {i} unbalanced at {k:?} by {v}").unwrap(); }
            }
            for (k, v) in bad { writeln!(out, "round {round} {k}: {v} rows").unwrap(); }
            writeln!(out, "round {round}: {} steps, {rows} rows, {} lookups", record.executed.len(), m.cross_table_lookups.len()).unwrap();
        }
        out
    }
    pub fn dump() -> String {
        let mut out = String::from("{");
        tables(&mut out);
        rom(&mut out);
        nodes(&mut out);
        out.push('}');
        out
    }
}
