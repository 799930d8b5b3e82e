//! Input tapes as the guest reads them.
use crate::vm::*;
use std::io::{Read, Seek, SeekFrom};
use mozak_sdk_vm::InputTapeType as T;

fn kind(private: bool) -> T { if private { T::PrivateTape } else { T::PublicTape } }
/// Reads give consecutive pieces: as much as asked for and is left, the rest of the buffer untouched.
fn reads<const N: usize, const K: usize>() {
    let n = rsx::pick_below(N as u64 + 1) as usize;
    let d: Vec<u8> = (0..n).map(|_| rsx::u8()).collect();
    let private = rsx::pick_below(2) == 1;
    // written natively in two pieces, carried over by the tool
    let me = id(5, 1);
    mozak_sdk::add_identity(nid(me));
    let w = if private { mozak_sdk::InputTapeType::PrivateTape } else { mozak_sdk::InputTapeType::PublicTape };
    let cut = n / 2;
    rsx::check(matches!(mozak_sdk::write(&w, &d[..cut]), Ok(x) if x == cut), 1);
    rsx::check(matches!(mozak_sdk::write(&w, &d[cut..]), Ok(x) if x == n - cut), 2);
    mozak_sdk::rm_identity();
    start_raw(cli_tapes(me));
    rsx::check(mozak_sdk_vm::input_tape_len(&kind(private)) == n, 3);
    rsx::check(mozak_sdk_vm::input_tape_len(&kind(!private)) == 0, 4);
    let mut at = 0;
    for _ in 0..K {
        let k = rsx::pick_below(N as u64 + 2) as usize;
        let fill = rsx::u8();
        let mut b = vec![fill; k];
        let want = if k < n - at { k } else { n - at };
        let Ok(got) = mozak_sdk_vm::read(&kind(private), &mut b) else { rsx::check(false, 5); return };
        rsx::check(got == want, 6);
        for i in 0..k { rsx::check(b[i] == if i < want { d[at + i] } else { fill }, 7); }
        at += want;
    }
    let mut b = [0u8; 1];
    rsx::check(matches!(mozak_sdk_vm::read(&kind(!private), &mut b), Ok(0)), 8);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_tape_reads() { reads::<3, 2>() }
#[no_mangle]
pub extern "C" fn hx_tape_reads_4() { reads::<4, 3>() }
/// Reading after moving to a position inside the tape gives the bytes from there.
#[no_mangle]
pub extern "C" fn hx_tape_seek() {
    const N: usize = 4;
    let d: [u8; N] = bytes();
    start(Start { public: d.to_vec(), private: vec![9], ..Start::default() });
    mozak_sdk_vm::input_tape_len(&T::PublicTape);
    let mut t = mozak_sdk_vm::common::types::PublicInputTapeType::with_size_hint(N);
    let mut at = 0;
    for _ in 0..2 {
        let k = rsx::pick_below(3) as usize;
        let mut b = vec![0u8; k];
        let want = if k < N - at { k } else { N - at };
        rsx::check(matches!(t.read(&mut b), Ok(x) if x == want), 1);
        for i in 0..want { rsx::check(b[i] == d[at + i], 2); }
        at += want;
        let to = rsx::pick_below(N as u64) as usize;
        let r = if rsx::pick_below(2) == 0 { t.seek(SeekFrom::Start(to as u64)) } else { t.seek(SeekFrom::Current(to as i64 - at as i64)) };
        rsx::check(matches!(r, Ok(x) if x == to as u64), 3);
        at = to;
    }
    let mut b = [0u8; N];
    rsx::check(matches!(t.read(&mut b), Ok(x) if x == N - at), 4);
    for i in 0..N - at { rsx::check(b[i] == d[at + i], 5); }
    rsx::cover(1);
}
/// Longer tapes: lengths and reads around the byte boundary.
#[no_mangle]
pub extern "C" fn hx_tape_long() {
    let n = [255usize, 256, 257, 300][rsx::pick_below(4) as usize];
    let f = rsx::u8();
    let d: Vec<u8> = (0..n).map(|i| f ^ (i * 7 + i / 256) as u8).collect();
    let private = rsx::pick_below(2) == 1;
    let me = id(5, 1);
    mozak_sdk::add_identity(nid(me));
    let w = if private { mozak_sdk::InputTapeType::PrivateTape } else { mozak_sdk::InputTapeType::PublicTape };
    let cut = [0usize, 100, 255][rsx::pick_below(3) as usize];
    rsx::check(matches!(mozak_sdk::write(&w, &d[..cut]), Ok(x) if x == cut), 1);
    rsx::check(matches!(mozak_sdk::write(&w, &d[cut..]), Ok(x) if x == n - cut), 2);
    mozak_sdk::rm_identity();
    start_raw(cli_tapes(me));
    rsx::check(mozak_sdk_vm::input_tape_len(&kind(private)) == n, 3);
    let mut at = 0;
    let first = [1usize, 255, 256, 299][rsx::pick_below(4) as usize];
    for k in [first, 300] {
        let mut b = vec![0u8; k];
        let want = if k < n - at { k } else { n - at };
        let Ok(got) = mozak_sdk_vm::read(&kind(private), &mut b) else { rsx::check(false, 5); return };
        rsx::check(got == want, 6);
        for i in 0..want { rsx::check(b[i] == d[at + i], 7); }
        at += want;
    }
    rsx::cover(1);
}
