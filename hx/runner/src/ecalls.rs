//! System calls.
use crate::mem::{same_regs, sel8, Mem};
use crate::step::{any_state, program_at};
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::{CommitmentTape, State, StorageDeviceOpcode as Sd, StorageDeviceTape};
use plonky2::field::goldilocks_field::GoldilocksField as F;

const ECALL: Instruction = Instruction { op: Op::ECALL, args: Args { rd: 0, rs1: 10, rs2: 11, imm: 0 } };
fn some(r: [u8; 4]) -> [u8; 4] { r }
fn state() -> State<F> { let s = any_state(); s }

#[no_mangle]
pub extern "C" fn hx_ecall_halt() {
    let mut s = state();
    s.registers[10] = 0;
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let p = program_at(pc, ECALL);
    let Ok((aux, _, n)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    rsx::check(n.halted && n.has_halted() && aux.will_halt, 2);
    rsx::check(n.pc == pc && aux.new_pc == pc && n.clk == clk + 1, 3);
    same_regs(&regs, &n.registers, 0);
    rsx::cover(1);
}
/// Unknown system calls do nothing but advance.
#[no_mangle]
pub extern "C" fn hx_ecall_unknown() {
    let s = state();
    rsx::assume(s.registers[10] > 10);
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let p = program_at(pc, ECALL);
    let Ok((aux, _, n)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    rsx::check(!n.halted && !aux.will_halt && n.memory.data.is_empty(), 2);
    rsx::check(n.pc == pc.wrapping_add(4) && n.clk == clk + 1, 3);
    rsx::check(aux.mem_addresses_used.is_empty() && aux.storage_device_entry.is_none() && aux.poseidon2.is_none(), 4);
    same_regs(&regs, &n.registers, 0);
    rsx::cover(1);
}
/// A guest panic never lets the run go on.
#[no_mangle]
pub extern "C" fn hx_ecall_panic() {
    let mut s = state();
    s.registers[10] = 1;
    s.registers[12] = rsx::pick_below(2) as u32;
    rsx::on_panic(2);
    let p = program_at(s.pc, ECALL);
    let _ = s.execute_instruction(&p);
    rsx::check(false, 1);
}
const L: usize = 3;
fn tape(d: &[u8; L], n: usize, at: usize) -> StorageDeviceTape { StorageDeviceTape { data: d[..n].to_vec().into(), read_index: at } }
/// The four consumable tapes.
#[no_mangle]
pub extern "C" fn hx_ecall_tape() {
    let mut s = state();
    let which = rsx::pick_below(4) as usize;
    let id = [2u32, 4, 5, 6][which];
    s.registers[10] = id;
    let n = rsx::pick_below(L as u64 + 1) as usize;
    let at = rsx::pick_below(n as u64 + 1) as usize;
    let mut d = [[0u8; L]; 4];
    for t in 0..4 { for i in 0..n { d[t][i] = rsx::u8(); } }
    s.private_tape = tape(&d[0], n, if which == 0 { at } else { 0 });
    s.public_tape = tape(&d[1], n, if which == 1 { at } else { 0 });
    s.call_tape = tape(&d[2], n, if which == 2 { at } else { 0 });
    s.event_tape = tape(&d[3], n, if which == 3 { at } else { 0 });
    let m = Mem::<1>::any();
    s.memory = m.build();
    let ro = rsx::u32();
    s.memory.is_read_only.insert(ro);
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let (buf, req) = (regs[11], regs[12]);
    let got = if (req as usize) < n - at { req as usize } else { n - at };
    let hit = ro.wrapping_sub(buf) < got as u32;
    if hit { rsx::on_panic(2); }
    let p = program_at(pc, ECALL);
    let Ok((aux, _, x)) = s.execute_instruction(&p) else { rsx::check(hit, 1); return };
    rsx::check(!hit, 2);
    // exactly min(requested, remaining) bytes, in order, into the buffer
    let q = rsx::u32();
    let off = q.wrapping_sub(buf);
    let mut want = m.get(q);
    for i in 0..got { want = sel8(off == i as u32, d[which][at + i], want); }
    rsx::check(x.load_u8(q) == want, 3);
    // and only this tape advances
    let idx = [x.private_tape.read_index, x.public_tape.read_index, x.call_tape.read_index, x.event_tape.read_index];
    for t in 0..4 { rsx::check(idx[t] == if t == which { at + got } else { 0 }, 4); }
    same_regs(&regs, &x.registers, 0);
    rsx::check(x.pc == pc.wrapping_add(4) && x.clk == clk + 1 && !x.halted, 5);
    // what the prover is told
    rsx::check(aux.dst_val as usize == got && aux.mem_addresses_used.len() == got, 6);
    for i in 0..got { rsx::check(aux.mem_addresses_used[i] == buf.wrapping_add(i as u32), 7); }
    match aux.storage_device_entry {
        Some(e) => {
            rsx::check(e.addr == buf && e.op == [Sd::StorePrivate, Sd::StorePublic, Sd::StoreCallTape, Sd::StoreEventTape][which], 8);
            rsx::check(e.data.len() == got, 9);
            for i in 0..got { rsx::check(e.data[i] == d[which][at + i], 10); }
        }
        None => rsx::check(false, 11),
    }
    rsx::cover(1);
}
/// The two commitments and the program's own identity: always read from the start, never consumed.
#[no_mangle]
pub extern "C" fn hx_ecall_fixed() {
    let mut s = state();
    let which = rsx::pick_below(3) as usize;
    s.registers[10] = [7u32, 8, 9][which];
    let mut d = [[0u8; 32]; 3];
    for t in 0..3 { for i in 0..32 { d[t][i] = rsx::u8(); } }
    s.events_commitment_tape = CommitmentTape(d[0]);
    s.cast_list_commitment_tape = CommitmentTape(d[1]);
    s.self_prog_id_tape = d[2];
    let short = rsx::pick_below(3) as u32;
    if short < 2 { s.registers[12] = 5 * short; } else { rsx::assume(s.registers[12] >= 32); }
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let buf = regs[11];
    let got = if short < 2 { 5 * short as usize } else { 32 };
    let p = program_at(pc, ECALL);
    let Ok((aux, _, x)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    let i = rsx::u8() & 31;
    if usize::from(i) < got { rsx::check(x.load_u8(buf.wrapping_add(i.into())) == d[which][usize::from(i)], 2); }
    let q = rsx::u32();
    if q.wrapping_sub(buf) >= got as u32 { rsx::check(x.load_u8(q) == 0, 3); }
    let j = (rsx::u8() & 31) as usize;
    rsx::check(x.events_commitment_tape.0[j] == d[0][j] && x.cast_list_commitment_tape.0[j] == d[1][j] && x.self_prog_id_tape[j] == d[2][j], 4);
    same_regs(&regs, &x.registers, 0);
    rsx::check(x.pc == pc.wrapping_add(4) && x.clk == clk + 1 && !x.halted, 5);
    rsx::check(aux.dst_val as usize == got && aux.mem_addresses_used.len() == got, 6);
    match aux.storage_device_entry {
        Some(e) => {
            rsx::check(e.addr == buf && e.op == [Sd::StoreEventsCommitmentTape, Sd::StoreCastListCommitmentTape, Sd::StoreSelfProgIdTape][which] && e.data.len() == got, 8);
            for k in 0..got { rsx::check(e.data[k] == d[which][k], 9); }
        }
        None => rsx::check(false, 11),
    }
    rsx::cover(1);
    let _ = some([0; 4]);
}
/// Reading in two pieces gives the same bytes as reading once.
#[no_mangle]
pub extern "C" fn hx_tape_pieces() {
    let n = rsx::pick_below(6) as usize;
    let mut d = [0u8; 6];
    for i in 0..n { d[i] = rsx::u8(); }
    let (a, b) = (rsx::u32() as usize, rsx::u32() as usize);
    let mut i1 = 0;
    let mut x = mozak_runner::state::read_bytes(&d[..n], &mut i1, a);
    let y = mozak_runner::state::read_bytes(&d[..n], &mut i1, b);
    x.extend(y);
    let mut i2 = 0;
    let z = mozak_runner::state::read_bytes(&d[..n], &mut i2, a + b);
    rsx::check(i1 == i2 && i1 <= n && x.len() == z.len() && i1 == x.len(), 1);
    for k in 0..x.len() { rsx::check(x[k] == z[k] && x[k] == d[k], 2); }
    rsx::cover(1);
}
/// POSEIDON2: sponge over the bytes at a1 (length a2), digest to a3.
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2() { poseidon2(8, true) }
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2_overlap() { poseidon2(8, false) }
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2_16() { poseidon2(16, true) }
/// Many blocks, at a wrapping and an ordinary address, almost all bytes fixed.
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2_long() {
    const B: usize = 17;
    const P: u64 = 0xffff_ffff_0000_0001;
    let mut s = state();
    let (inp, out) = [(0xffff_ffc0u32, 0x100), (0x8000, 0xffff_fff0u32)][rsx::pick_below(2) as usize];
    s.registers[10] = 3;
    s.registers[11] = inp;
    s.registers[12] = 8 * B as u32;
    s.registers[13] = out;
    let odd = [0, 63, 64, 8 * B - 1][rsx::pick_below(4) as usize];
    let mut d = [0u8; 8 * B];
    for i in 0..8 * B {
        d[i] = if i == odd { rsx::u8() } else { i as u8 };
        s.memory.data.insert(inp.wrapping_add(i as u32), d[i]);
    }
    let (pc, clk) = (s.pc, s.clk);
    let mut st = [0u64; 12];
    for b in 0..B {
        for i in 0..8 { st[i] = d[8 * b + i].into(); }
        let mut o = [0u64; 12];
        rsx::uf(1, &st, &mut o);
        for x in o { rsx::assume(x < P); }
        st = o;
    }
    let p = program_at(pc, ECALL);
    let Ok((aux, _, x)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    for i in 0..32 { rsx::check(x.load_u8(out.wrapping_add(i as u32)) == (st[i / 8] >> (8 * (i % 8))) as u8, 2); }
    for i in 0..8 * B { rsx::check(x.load_u8(inp.wrapping_add(i as u32)) == d[i], 3); }
    rsx::check(x.pc == pc.wrapping_add(4) && x.clk == clk + 1, 4);
    rsx::check(aux.poseidon2.map_or(false, |e| e.sponge_data.len() == B && e.addr == inp && e.output_addr == out && e.len as usize == 8 * B), 5);
    rsx::check(aux.mem_addresses_used.len() == 8 * B + 32, 6);
    rsx::cover(1);
}
fn poseidon2(len: usize, apart: bool) {
    const P: u64 = 0xffff_ffff_0000_0001;
    let mut s = state();
    s.registers[10] = 3;
    s.registers[12] = len as u32;
    let (inp, out) = (s.registers[11], s.registers[13]);
    if apart { rsx::assume(out.wrapping_sub(inp) >= if len > 16 { len as u32 } else { 16 } && inp.wrapping_sub(out) >= 32); }
    let mut d = [0u8; 64];
    for i in 0..len {
        d[i] = rsx::u8();
        s.memory.data.insert(inp.wrapping_add(i as u32), d[i]);
    }
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    // reference sponge: overwrite the first eight lanes with each block, permute
    let mut st = [0u64; 12];
    let mut pre = [[0u64; 12]; 5]; let mut post = [[0u64; 12]; 5];
    for b in 0..len / 8 {
        for i in 0..8 { st[i] = d[8 * b + i].into(); }
        pre[b] = st;
        let mut o = [0u64; 12];
        rsx::uf(1, &st, &mut o);
        for x in o { rsx::assume(x < P); }
        st = o;
        post[b] = o;
    }
    let p = program_at(pc, ECALL);
    let Ok((aux, _, x)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    let i = (rsx::u8() & 31) as usize;
    rsx::check(x.load_u8(out.wrapping_add(i as u32)) == (st[i / 8] >> (8 * (i % 8))) as u8, 2);
    let k = (rsx::u8() & 63) as usize;
    let q = inp.wrapping_add(k as u32);
    if k < len && q.wrapping_sub(out) >= 32 { rsx::check(x.load_u8(q) == d[k], 3); }
    same_regs(&regs, &x.registers, 0);
    rsx::check(x.pc == pc.wrapping_add(4) && x.clk == clk + 1 && !x.halted, 5);
    match aux.poseidon2 {
        Some(e) => {
            rsx::check(e.addr == inp && e.output_addr == out && e.len as usize == len && e.sponge_data.len() == len / 8, 6);
            for b in 0..len / 8 {
                for j in 0..12 { rsx::check(e.sponge_data[b].preimage[j].0 == pre[b][j] && e.sponge_data[b].output[j].0 == post[b][j], 7); }
                rsx::check(e.sponge_data[b].gen_output.0 == u64::from(b + 1 == len / 8), 8);
            }
        }
        None => rsx::check(false, 9),
    }
    rsx::check(aux.mem_addresses_used.len() == len + 32, 10);
    for j in 0..len { rsx::check(aux.mem_addresses_used[j] == inp.wrapping_add(j as u32), 11); }
    for j in 0..32 { rsx::check(aux.mem_addresses_used[len + j] == out.wrapping_add(j as u32), 12); }
    rsx::cover(1);
}
/// Lengths the sponge does not take never produce a digest.
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2_len() {
    let mut s = state();
    s.registers[10] = 3;
    let l = rsx::pick_below(18) as u32;
    rsx::assume(l % 8 != 0 || l == 0);
    s.registers[12] = l;
    rsx::on_panic(2);
    let p = program_at(s.pc, ECALL);
    let _ = s.execute_instruction(&p);
    rsx::check(false, 1);
}
/// Long tapes: lengths around the byte boundary, several read positions.
#[no_mangle]
pub extern "C" fn hx_tape_long() {
    let n = [255usize, 256, 257, 300, 513][rsx::pick_below(5) as usize];
    let at = [0usize, 1, 44, 250, 255][rsx::pick_below(5) as usize];
    let b = rsx::u8();
    let d: Vec<u8> = (0..n).map(|i| b.wrapping_add((i * 7 + i / 256) as u8)).collect();
    let mut i = at;
    let left = n - at;
    let k = rsx::pick_below(3) as usize;
    let req = match k { 0 => if left > 256 { 256 } else { left / 2 }, 1 => left, _ => { let r = rsx::u32(); rsx::assume(r > left as u32); r as usize } };
    let got = if k == 0 { req } else { left };
    let x = mozak_runner::state::read_bytes(&d, &mut i, req);
    rsx::check(x.len() == got && i == at + got, 1);
    for j in 0..got { rsx::check(x[j] == d[at + j], 2); }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_ecall_tape_long() {
    const N: usize = 300;
    let mut s = state();
    let which = rsx::pick_below(4) as usize;
    s.registers[10] = [2u32, 4, 5, 6][which];
    let at = 1;
    let d: Vec<u8> = (0..N).map(|i| (i * 7 + i / 256) as u8).collect();
    let t = StorageDeviceTape { data: d.clone().into(), read_index: at };
    match which { 0 => s.private_tape = t, 1 => s.public_tape = t, 2 => s.call_tape = t, _ => s.event_tape = t }
    let got = N - at;
    s.registers[12] = [got as u32, 300, 512, 65536, u32::MAX][rsx::pick_below(5) as usize];
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let buf = regs[11];
    let p = program_at(pc, ECALL);
    let Ok((aux, _, x)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    for i in [0, 1, 2, 127, 128, 253, 254, 255, 256, 257, got - 1] { rsx::check(x.load_u8(buf.wrapping_add(i as u32)) == d[at + i], 3); }
    rsx::check(x.load_u8(buf.wrapping_add(got as u32)) == 0 && x.load_u8(buf.wrapping_sub(1)) == 0, 3);
    let idx = [x.private_tape.read_index, x.public_tape.read_index, x.call_tape.read_index, x.event_tape.read_index];
    for t in 0..4 { rsx::check(idx[t] == if t == which { at + got } else { 0 }, 4); }
    same_regs(&regs, &x.registers, 0);
    rsx::check(x.pc == pc.wrapping_add(4) && x.clk == clk + 1 && !x.halted, 5);
    rsx::check(aux.dst_val as usize == got && aux.mem_addresses_used.len() == got, 6);
    match aux.storage_device_entry {
        Some(e) => {
            rsx::check(e.addr == buf && e.data.len() == got, 8);
            for i in 0..got { rsx::check(e.data[i] == d[at + i] && aux.mem_addresses_used[i] == buf.wrapping_add(i as u32), 10); }
        }
        None => rsx::check(false, 11),
    }
    rsx::cover(1);
}
/// A trace message changes nothing.
#[no_mangle]
pub extern "C" fn hx_ecall_trace() {
    let mut s = state();
    s.registers[10] = 10;
    let n = rsx::pick_below(3) as u32;
    s.registers[12] = n;
    rsx::assume(s.registers[11] < 0xffff_fff0);
    for i in 0..n { let c = rsx::u8(); rsx::assume(c < 128); s.memory.data.insert(s.registers[11] + i, c); }
    let keep = s.memory.data.len();
    let (regs, pc, clk) = (s.registers, s.pc, s.clk);
    let p = program_at(pc, ECALL);
    let Ok((aux, _, x)) = s.execute_instruction(&p) else { rsx::check(false, 1); return };
    rsx::check(!x.halted && !aux.will_halt && x.memory.data.len() == keep, 2);
    rsx::check(x.pc == pc.wrapping_add(4) && x.clk == clk + 1, 3);
    rsx::check(aux.mem_addresses_used.is_empty() && aux.storage_device_entry.is_none() && aux.poseidon2.is_none(), 4);
    same_regs(&regs, &x.registers, 0);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2_24() { poseidon2(24, true) }
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2_40() { poseidon2(40, true) }
#[no_mangle]
pub extern "C" fn hx_ecall_poseidon2_overlap_16() { poseidon2(16, false) }
