//! Building programs and initial states.
use crate::mem::sel8;
use crate::refmodel as r;
use mozak_runner::code::{execute_code_with_ro_memory, Code};
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::{RawTapes, State};
use plonky2::field::goldilocks_field::GoldilocksField as F;

fn get(m: &im::hashmap::HashMap<u32, u8>, a: u32) -> Option<u8> { m.get(&a).copied() }

/// Code image: one decoded instruction per word that has any byte mapped; unmapped bytes are zero.
#[no_mangle]
pub extern "C" fn hx_code_image() {
    let mut img = im::hashmap::HashMap::new();
    let (k, v) = ([rsx::u32(), rsx::u32()], [rsx::u8(), rsx::u8()]);
    for i in 0..2 { img.insert(k[i], v[i]); }
    let code = Code::from(&img);
    let q = rsx::u32();
    let mapped = k.iter().any(|a| *a & !3 == q);
    match code.get_instruction(q) {
        None => rsx::check(!mapped, 1),
        Some(got) => {
            rsx::check(mapped, 2);
            let b = |i: u32| { let a = q + i; u32::from(sel8(k[1] == a, v[1], sel8(k[0] == a, v[0], 0))) };
            let w = b(0) | b(1) << 8 | b(2) << 16 | b(3) << 24;
            match (r::decode(q, w), got) {
                (None, Err(e)) => rsx::check(e.pc == q && e.instruction == w, 3),
                (Some((op, a)), Ok(i)) => rsx::check(i.op == op && i.args == a, 4),
                _ => rsx::check(false, 5),
            }
            rsx::cover(1);
        }
    }
}
/// Word images (`Program::from`, `Data::from`): little-endian bytes at consecutive addresses.
#[no_mangle]
pub extern "C" fn hx_word_image() {
    let mut img: im::hashmap::HashMap<u32, u32> = im::hashmap::HashMap::new();
    let (k, v) = ([rsx::u32(), rsx::u32()], [rsx::u32(), rsx::u32()]);
    rsx::assume(k[0] != k[1]);
    for i in 0..2 { img.insert(k[i], v[i]); }
    let data = rsx::pick_below(2) == 1;
    let mut over = false;
    for i in 0..4u32 { over |= k[0].wrapping_add(i) == k[1] || k[1].wrapping_add(i) == k[0]; }
    // a word may not run past the end of the address space
    let tail = k[0] > u32::MAX - 3 || k[1] > u32::MAX - 3;
    let bad = if data { over || tail } else { k[0] % 4 != 0 || k[1] % 4 != 0 };
    rsx::on_panic(if bad { 2 } else { 0 });
    let mem = if data { Data::from(img).0 } else {
        let p = Program::from(img);
        rsx::check(p.entry_point == 0 && p.ro_memory.0.is_empty(), 1);
        rsx::check(p.ro_code.0.len() == 2, 2);
        for i in 0..2 {
            match (r::decode(k[i], v[i]), p.ro_code.get_instruction(k[i])) {
                (None, Some(Err(_))) => {}
                (Some((op, a)), Some(Ok(x))) => rsx::check(x.op == op && x.args == a, 3),
                _ => rsx::check(false, 4),
            }
        }
        p.rw_memory.0
    };
    rsx::check(!bad, 5);
    let q = rsx::u32();
    let (mut here, mut b) = (false, 0u8);
    for j in 0..2 { for i in 0..4u32 { let h = q == k[j].wrapping_add(i); here |= h; b = sel8(h, (v[j] >> (8 * i)) as u8, b); } }
    match get(&mem, q) {
        None => rsx::check(!here, 6),
        Some(x) => rsx::check(here && x == b, 7),
    }
    rsx::cover(1 + u32::from(data));
}
/// The machine's first state.
#[no_mangle]
pub extern "C" fn hx_init_state() {
    let (rk, rv) = ([rsx::u32(), rsx::u32()], [rsx::u8(), rsx::u8()]);
    let (wk, wv) = ([rsx::u32(), rsx::u32()], [rsx::u8(), rsx::u8()]);
    let ro: Vec<(u32, u8)> = (0..2).map(|i| (rk[i], rv[i])).collect();
    let rw: Vec<(u32, u8)> = (0..2).map(|i| (wk[i], wv[i])).collect();
    let mut p = Program::create(&ro, &rw, Code::default());
    let entry = rsx::u32();
    p.entry_point = entry;
    let mut t = RawTapes::default();
    let b: [u8; 7] = [rsx::u8(), rsx::u8(), rsx::u8(), rsx::u8(), rsx::u8(), rsx::u8(), rsx::u8()];
    let with_tapes = rsx::pick_below(2) == 1;
    let s: State<F> = if with_tapes {
        t.private_tape = vec![b[0]]; t.public_tape = vec![b[1]]; t.call_tape = vec![b[2]]; t.event_tape = vec![b[3]];
        t.events_commitment_tape[31] = b[4]; t.cast_list_commitment_tape[31] = b[5]; t.self_prog_id_tape[31] = b[6];
        State::new(p, t)
    } else { State::from(p) };
    rsx::check(s.pc == entry && !s.halted, 1);
    rsx::check(s.clk > 1, 2);
    let i = (rsx::u8() & 31) as usize;
    rsx::check(s.registers[i] == 0, 3);
    let q = rsx::u32();
    let is_ro = q == rk[0] || q == rk[1];
    let want = if q == rk[1] { rv[1] } else if q == rk[0] { rv[0] } else if q == wk[1] { wv[1] } else if q == wk[0] { wv[0] } else { 0 };
    rsx::check(s.load_u8(q) == want, 4);
    rsx::check(s.memory.is_read_only.contains(&q) == is_ro, 5);
    let mapped = is_ro || q == wk[0] || q == wk[1];
    rsx::check(s.memory.data.contains_key(&q) == mapped, 6);
    if with_tapes {
        rsx::check(s.private_tape.data[..] == [b[0]] && s.public_tape.data[..] == [b[1]] && s.call_tape.data[..] == [b[2]] && s.event_tape.data[..] == [b[3]], 7);
        rsx::check(s.events_commitment_tape.0[31] == b[4] && s.cast_list_commitment_tape.0[31] == b[5] && s.self_prog_id_tape[31] == b[6], 8);
    } else {
        rsx::check(s.private_tape.data.is_empty() && s.public_tape.data.is_empty() && s.call_tape.data.is_empty() && s.event_tape.data.is_empty(), 9);
        rsx::check(s.events_commitment_tape.0[31] == 0 && s.cast_list_commitment_tape.0[31] == 0 && s.self_prog_id_tape[31] == 0, 10);
    }
    rsx::check(s.private_tape.read_index | s.public_tape.read_index | s.call_tape.read_index | s.event_tape.read_index == 0, 11);
    rsx::cover(1);
}
/// An instruction list handed to the machine sits at 0, 4, ... and is followed by a halt.
#[no_mangle]
pub extern "C" fn hx_execute_list() {
    let imm = rsx::u32();
    let (r, v) = (rsx::u8() & 31, rsx::u32());
    let i = Instruction { op: Op::ADD, args: Args { rd: 3, rs1: 4, rs2: 5, imm } };
    let (p, rec) = execute_code_with_ro_memory([i], &[(rsx::u32(), rsx::u8())], &[(rsx::u32(), rsx::u8())], &[(r, v)], RawTapes::default());
    rsx::check(p.entry_point == 0 && p.ro_code.0.len() == 3, 1);
    rsx::check(p.ro_code.get_instruction(0) == Some(&Ok(i)), 2);
    rsx::check(rec.executed.len() == 3 && rec.last_state.has_halted(), 3);
    let reg = |k: u8| if r == k { v } else { 0 };
    rsx::check(rec.last_state.registers[3] == reg(4).wrapping_add(reg(5)).wrapping_add(imm), 4);
    rsx::check(rec.last_state.registers[10] == 0 && rec.last_state.registers[0] == 0, 5);
    rsx::cover(1);
}

use elf::segment::ProgramHeader;
static mut SEGS: [ProgramHeader; 24] = [ProgramHeader { p_type: 1, p_offset: 0, p_vaddr: 0, p_paddr: 0, p_filesz: 0, p_memsz: 0, p_flags: 0, p_align: 0 }; 24];
fn hdr(class: elf::file::Class, m: u16, t: u16, e: u64) -> elf::file::FileHeader<elf::endian::LittleEndian> {
    elf::file::FileHeader { class, endianness: elf::endian::LittleEndian, version: 1, osabi: 0, abiversion: 0, e_type: t, e_machine: m, e_entry: e, e_phoff: 0, e_shoff: 0, e_flags: 0, e_ehsize: 0, e_phentsize: 0, e_phnum: 0, e_shentsize: 0, e_shnum: 0, e_shstrndx: 0 }
}
/// ELF headers: what is accepted and what is refused.
#[no_mangle]
pub extern "C" fn hx_elf_header() {
    let c32 = rsx::u1();
    let class = if c32 { elf::file::Class::ELF32 } else { elf::file::Class::ELF64 };
    let (m, t, e) = (rsx::u16(), rsx::u16(), rsx::u64());
    let nseg = rsx::u64();
    rsx::assume(nseg <= 300);
    let has = rsx::u1();
    let parsed = rsx::u1();
    let none: &'static [ProgramHeader] = &[];
    unsafe { elf::NEXT = if parsed { Some(elf::Parsed { hdr: hdr(class, m, t, e), segs: if has { Some(none) } else { None } }) } else { None } }
    let good = parsed && c32 && m == 243 && t == 2 && e <= u32::MAX.into() && e % 4 == 0 && has;
    let vanilla = rsx::u1();
    let r = if vanilla { Program::vanilla_load_elf(&[]) } else { Program::mozak_load_program(&[]) };
    match r {
        Ok(p) => {
            rsx::check(good, 1);
            rsx::check(u64::from(p.entry_point) == e, 2);
            rsx::check(p.ro_memory.0.is_empty() && p.rw_memory.0.is_empty() && p.ro_code.0.is_empty(), 3);
            rsx::cover(1);
        }
        Err(_) => { rsx::check(!good, 4); rsx::cover(2) }
    }
}
fn at(q: u32, ok: fn(u32) -> bool, segs: &[ProgramHeader], file: &[u8]) -> Option<u8> {
    let mut r = None;
    for h in segs {
            let off: u64 = if u64::from(q) >= h.p_vaddr { u64::from(q) - h.p_vaddr } else { u64::MAX };
            let (lo, hi) = if h.p_filesz < h.p_memsz { (h.p_filesz, h.p_memsz) } else { (h.p_memsz, h.p_filesz) };
            if h.p_type == 1 && ok(h.p_flags) && off < hi { r = Some(if off < lo { file[(h.p_offset + off) as usize] } else { 0 }); }
        }
        r
}
fn elf_segments(n: usize, total: u64, mem: bool, flags: u32) {
    let mut file = [0u8; 4];
    for i in 0..4 { file[i] = rsx::u8(); }
    for i in 0..n {
        let mut h = ProgramHeader { p_type: 1, p_offset: 0, p_vaddr: 0, p_paddr: 0, p_filesz: 0, p_memsz: 0, p_flags: 0, p_align: 4 };
        h.p_flags = rsx::u32() & flags;
        h.p_type = rsx::u32();
        h.p_vaddr = rsx::u32().into();
        h.p_offset = rsx::pick_below(2);
        h.p_filesz = rsx::pick_below(total);
        h.p_memsz = rsx::pick_below(total);
        rsx::assume(h.p_vaddr + h.p_filesz <= 1 << 32 && h.p_vaddr + h.p_memsz <= 1 << 32);
        unsafe { SEGS[i] = h; }
    }
    let segs: &'static [ProgramHeader] = unsafe { &*core::ptr::addr_of!(SEGS[..n]) };
    unsafe { elf::NEXT = Some(elf::Parsed { hdr: hdr(elf::file::Class::ELF32, 243, 2, 0x100), segs: Some(segs) }) }
    let p = if mem || rsx::u1() { Program::mozak_load_program(&file) } else { Program::vanilla_load_elf(&file) };
    let Ok(p) = p else { rsx::check(false, 1); return };
    rsx::check(p.entry_point == 0x100, 2);
    let q = rsx::u32();
    // expected contents, from the ELF rules: file bytes first, zero fill to the larger size
    let byte = |ok: fn(u32) -> bool| at(q, ok, segs, &file);
    if mem {
        rsx::check(get(&p.ro_memory.0, q) == byte(|f| f & 4 == 4 && f & 2 == 0), 3);
        rsx::check(get(&p.rw_memory.0, q) == byte(|f| f == 6), 4);
    } else {
        let x = |f: u32| f & 1 == 1;
        let b: [Option<u8>; 1] = [byte(x)];
        if b[0].is_some() { rsx::check(p.ro_code.get_instruction(q & !3).is_some(), 5); rsx::cover(2) }
        match p.ro_code.get_instruction(q) {
            None => rsx::check(q % 4 != 0 || b[0].is_none(), 6),
            Some(_) => { rsx::check(q % 4 == 0, 7); rsx::check((0..4u32).any(|i| at(q.wrapping_add(i), x, segs, &file).is_some()), 8); }
        }
    }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_elf_data() { elf_segments(2, 2, true, 7) }
#[no_mangle]
pub extern "C" fn hx_elf_data1() { elf_segments(1, 3, true, u32::MAX) }
#[no_mangle]
pub extern "C" fn hx_elf_data_deep() { elf_segments(2, 3, true, 7) }
#[no_mangle]
pub extern "C" fn hx_elf_code() { elf_segments(1, 3, false, 15) }
/// A longer segment: 300 bytes, of which 260 come from the file, or all of them.
#[no_mangle]
pub extern "C" fn hx_elf_data_long() {
    const N: usize = 300;
    let b = rsx::u8();
    let file: Vec<u8> = (0..N + 2).map(|i| b.wrapping_add((i * 7 + i / 256) as u8)).collect();
    let mut h = ProgramHeader { p_type: 1, p_offset: 2, p_vaddr: 0, p_paddr: 0, p_filesz: 260, p_memsz: N as u64, p_flags: 4, p_align: 4 };
    let rw = rsx::u1();
    if rw { h.p_flags = 6; }
    if rsx::u1() { h.p_filesz = N as u64; }
    let base = rsx::u32();
    rsx::assume(base < u32::MAX - 2 * N as u32);
    h.p_vaddr = base.into();
    unsafe { SEGS[0] = h; }
    let segs: &'static [ProgramHeader] = unsafe { &*core::ptr::addr_of!(SEGS[..1]) };
    unsafe { elf::NEXT = Some(elf::Parsed { hdr: hdr(elf::file::Class::ELF32, 243, 2, 0x100), segs: Some(segs) }) }
    let Ok(p) = Program::mozak_load_program(&file) else { rsx::check(false, 1); return };
    let (m, other) = if rw { (&p.rw_memory, &p.ro_memory) } else { (&p.ro_memory, &p.rw_memory) };
    rsx::check(m.0.len() == N && other.0.is_empty() && p.ro_code.0.is_empty(), 2);
    for i in [0, 1, 127, 128, 254, 255, 256, 257, 258, 259, 260, 261, N - 2, N - 1] {
        let want = if (i as u64) < h.p_filesz { file[2 + i] } else { 0 };
        rsx::check(get(&m.0, base + i as u32) == Some(want), 3);
    }
    rsx::cover(1);
}

/// Many segments: all read-only but one, which is arbitrary.
#[no_mangle]
pub extern "C" fn hx_elf_many() {
    const N: usize = 19;
    let odd = [0, 1, 7, 8, 15, 16, N - 2, N - 1][rsx::pick_below(8) as usize];
    let (flags, ty) = (rsx::u32() & 7, rsx::u32());
    let mut file = [0u8; N + 1];
    for i in 0..N + 1 { file[i] = (3 * i) as u8; }
    file[odd] = rsx::u8();
    for i in 0..N {
        let mut h = ProgramHeader { p_type: 1, p_offset: i as u64, p_vaddr: 0x1000 + 4 * i as u64, p_paddr: 0, p_filesz: 1, p_memsz: 2, p_flags: 4, p_align: 4 };
        if i == odd { h.p_flags = flags; h.p_type = ty; }
        unsafe { SEGS[i] = h; }
    }
    let segs: &'static [ProgramHeader] = unsafe { &*core::ptr::addr_of!(SEGS[..N]) };
    unsafe { elf::NEXT = Some(elf::Parsed { hdr: hdr(elf::file::Class::ELF32, 243, 2, 0x100), segs: Some(segs) }) }
    let Ok(p) = Program::mozak_load_program(&file) else { rsx::check(false, 1); return };
    let load = ty == 1;
    let (ro, rw, x) = (load && flags & 6 == 4, load && flags == 6, load && flags & 1 == 1);
    rsx::check(p.ro_memory.0.len() == 2 * (N - 1) + 2 * usize::from(ro), 2);
    rsx::check(p.rw_memory.0.len() == 2 * usize::from(rw), 3);
    rsx::check(p.ro_code.0.len() == usize::from(x), 4);
    for i in 0..N {
        let a = 0x1000 + 4 * i as u32;
        let (want, zero) = (Some(file[i]), Some(0));
        if i == odd {
            rsx::check(get(&p.ro_memory.0, a) == want.filter(|_| ro) && get(&p.ro_memory.0, a + 1) == zero.filter(|_| ro), 5);
            rsx::check(get(&p.rw_memory.0, a) == want.filter(|_| rw) && get(&p.rw_memory.0, a + 1) == zero.filter(|_| rw), 6);
            rsx::check(p.ro_code.get_instruction(a).is_some() == x, 7);
        } else {
            rsx::check(get(&p.ro_memory.0, a) == want && get(&p.ro_memory.0, a + 1) == zero, 8);
        }
    }
    rsx::cover(1);
}
/// A longer code image: words at 4-byte steps with a gap, most of them fixed, one arbitrary.
#[no_mangle]
pub extern "C" fn hx_code_image_long() {
    const N: usize = 40;
    let odd = [0, 1, 15, 16, 31, 32, N - 2, N - 1][rsx::pick_below(8) as usize];
    let base: u32 = [0, 0xffff_ff00][rsx::pick_below(2) as usize];
    let at = |i: usize| base + 4 * i as u32 + if i > 20 { 8 } else { 0 };
    let word = 0x13 | rsx::u32() & 0xfff0_0f80;
    let mut img = im::hashmap::HashMap::new();
    for i in 0..N {
        let w = if i == odd { word } else { 0x0000_0013 | (i as u32) << 20 };
        for (j, b) in w.to_le_bytes().iter().enumerate() { img.insert(at(i) + j as u32, *b); }
    }
    let code = Code::from(&img);
    rsx::check(code.0.len() == N, 1);
    for i in 0..N {
        let pc = at(i);
        let w = if i == odd { word } else { 0x0000_0013 | (i as u32) << 20 };
        if i == odd {
            match (r::decode(pc, w), code.get_instruction(pc)) {
                (None, Some(Err(e))) => rsx::check(e.pc == pc && e.instruction == w, 2),
                (Some((op, a)), Some(Ok(x))) => rsx::check(x.op == op && x.args == a, 3),
                _ => rsx::check(false, 4),
            }
        } else {
            match code.get_instruction(pc) {
                Some(Ok(x)) => rsx::check(x.op == Op::ADD && x.args.imm == i as u32 && x.args.rd == 0, 5),
                _ => rsx::check(false, 6),
            }
        }
    }
    rsx::check(code.get_instruction(at(20) + 4).is_none() && code.get_instruction(at(20) + 8).is_none(), 7);
    rsx::cover(1);
}
/// Three data words, close to each other or not.
#[no_mangle]
pub extern "C" fn hx_word_image_3() {
    const D: [u32; 5] = [1, 3, 4, 5, 100];
    let (d1, d2) = (D[rsx::pick_below(5) as usize], D[rsx::pick_below(5) as usize]);
    let k0 = rsx::u32();
    let k = [k0, k0.wrapping_add(d1), k0.wrapping_add(d1 + d2)];
    let v = [rsx::u32(), rsx::u32(), rsx::u32()];
    let mut img: im::hashmap::HashMap<u32, u32> = im::hashmap::HashMap::new();
    for i in [2, 0, 1] { img.insert(k[i], v[i]); }
    let bad = d1 < 4 || d2 < 4 || k.iter().any(|a| *a > u32::MAX - 3);
    rsx::on_panic(if bad { 2 } else { 0 });
    let mem = Data::from(img).0;
    rsx::check(!bad, 1);
    rsx::check(mem.len() == 12, 2);
    for j in 0..3 { for i in 0..4u32 { rsx::check(get(&mem, k[j] + i) == Some((v[j] >> (8 * i)) as u8), 3); } }
    rsx::cover(1);
}
/// A larger initial memory: read-only bytes win over read-write bytes at the same address.
#[no_mangle]
pub extern "C" fn hx_init_state_long() {
    const N: usize = 40;
    let base = rsx::u32();
    let (b, c) = (rsx::u8(), rsx::u8());
    let at = |i: usize| base.wrapping_add(i as u32);
    // read-only at 0..N, read-write at N/2..3N/2
    let ro: Vec<(u32, u8)> = (0..N).map(|i| (at(i), b.wrapping_add(i as u8))).collect();
    let rw: Vec<(u32, u8)> = (N / 2..N + N / 2).map(|i| (at(i), c.wrapping_sub(i as u8))).collect();
    let s: State<F> = State::new(Program::create(&ro, &rw, Code::default()), RawTapes::default());
    rsx::check(s.memory.data.len() == N + N / 2 && s.memory.is_read_only.len() == N, 1);
    for i in 0..N + N / 2 {
        rsx::check(s.load_u8(at(i)) == if i < N { b.wrapping_add(i as u8) } else { c.wrapping_sub(i as u8) }, 2);
        rsx::check(s.memory.is_read_only.contains(&at(i)) == (i < N), 3);
    }
    rsx::cover(1);
}
