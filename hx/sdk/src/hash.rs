//! Hashing and encodings, in the host SDK and in the SDK as compiled for the machine.
use crate::vm::hash;
use mozak_sdk as n;
use mozak_sdk_vm as v;

fn bytes<const N: usize>() -> [u8; N] { let mut b = [0; N]; for x in &mut b { *x = rsx::u8(); } b }

/// Message ‖ 1 ‖ 0.. up to a multiple of the rate, then the sponge: on both sides.
#[no_mangle]
pub extern "C" fn hx_hash_pad() {
    let d: [u8; 17] = bytes();
    let k = rsx::pick_below(18) as usize;
    let mut p = [0u8; 24];
    p[..k].copy_from_slice(&d[..k]);
    p[k] = 1;
    let want = hash(&p[..(k / 8 + 1) * 8]);
    rsx::check(n::native::poseidon::poseidon2_hash_with_pad(&d[..k]).inner() == want, 1);
    rsx::check(v::poseidon2_hash_with_pad(&d[..k]).inner() == want, 2);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_hash_no_pad() {
    let d: [u8; 24] = bytes();
    let k = 8 + 8 * rsx::pick_below(3) as usize;
    let want = hash(&d[..k]);
    rsx::check(n::native::poseidon::poseidon2_hash_no_pad(&d[..k]).inner() == want, 1);
    rsx::check(v::poseidon2_hash_no_pad(&d[..k]).inner() == want, 2);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_hash_no_pad_refuse() {
    let d: [u8; 16] = bytes();
    let k = rsx::pick_below(17) as usize;
    if k % 8 == 0 { return; }
    rsx::on_panic(2);
    if rsx::pick_below(2) == 0 { n::native::poseidon::poseidon2_hash_no_pad(&d[..k]); } else { v::poseidon2_hash_no_pad(&d[..k]); }
    rsx::check(false, 1);
}
#[no_mangle]
pub extern "C" fn hx_two_to_one() {
    let (l, r): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&l);
    b[32..].copy_from_slice(&r);
    let want = hash(&b);
    use n::common::types::Poseidon2Hash as N;
    use v::common::types::Poseidon2Hash as V;
    rsx::check(N::two_to_one(N(l), N(r)).inner() == want, 1);
    rsx::check(V::two_to_one(V(l), V(r)).inner() == want, 2);
    rsx::cover(1);
}
/// An event's canonical form is (address, type, padded hash of its data) and its digest covers
/// type (8 bytes, little-endian) ‖ address ‖ value hash.
#[no_mangle]
pub extern "C" fn hx_canonical_event() {
    let ty = rsx::pick_below(5) as u8;
    let a: [u8; 8] = bytes();
    let o: [u8; 32] = bytes();
    let k = rsx::pick_below(10) as usize;
    let d: [u8; 9] = bytes();
    let mut p = [0u8; 16];
    p[..k].copy_from_slice(&d[..k]);
    p[k] = 1;
    let vh = hash(&p[..(k / 8 + 1) * 8]);
    let mut b = [0u8; 48];
    b[0] = ty;
    b[8..16].copy_from_slice(&a);
    b[16..].copy_from_slice(&vh);
    let want = hash(&b);
    {
        use n::common::types::*;
        let t = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][ty as usize];
        let e = Event { type_: t, object: StateObject { address: StateAddress(a), constraint_owner: ProgramIdentifier(Poseidon2Hash(o)), data: d[..k].to_vec() } };
        let c = CanonicalEvent::from_event(&e);
        rsx::check(c.address.inner() == a && c.type_ == t && c.value.inner() == vh, 1);
        rsx::check(c.canonical_hash().inner() == want, 2);
    }
    {
        use v::common::types::*;
        let t = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][ty as usize];
        let e = Event { type_: t, object: StateObject { address: StateAddress(a), constraint_owner: ProgramIdentifier(Poseidon2Hash(o)), data: d[..k].to_vec() } };
        let c = CanonicalEvent::from_event(&e);
        rsx::check(c.address.inner() == a && c.type_ == t && c.value.inner() == vh, 3);
        rsx::check(c.canonical_hash().inner() == want, 4);
    }
    rsx::cover(1);
}
/// Words, bytes and digests convert without loss.
#[no_mangle]
pub extern "C" fn hx_digest_words() {
    use n::common::types::*;
    let w = [rsx::u64(), rsx::u64(), rsx::u64(), rsx::u64()];
    let h = Poseidon2Hash::from_u64s(w);
    rsx::check(h.to_u64s() == w && Poseidon2Hash::from(w) == h, 1);
    for k in 0..4 { for j in 0..8 { rsx::check(h.inner()[8 * k + j] == (w[k] >> (8 * j)) as u8, 2); } }
    let b: [u8; 32] = bytes();
    let g = Poseidon2Hash(b);
    rsx::check(Poseidon2Hash::from_u64s(g.to_u64s()) == g && Poseidon2Hash::from(b.to_vec()) == g && Poseidon2Hash::from(b) == g, 3);
    rsx::check(ProgramIdentifier(g).inner() == b, 4);
    rsx::check(ProgramIdentifier(g).is_null_program() == (b == [0; 32]), 5);
    rsx::cover(1);
}
/// Objects of another owner are refused, objects of this owner are not.
#[no_mangle]
pub extern "C" fn hx_owner_check() {
    use v::common::types::*;
    let me: [u8; 32] = bytes();
    let k = rsx::pick_below(3) as usize;
    let mut os = vec![];
    let mut same = true;
    for _ in 0..k {
        let o: [u8; 32] = bytes();
        same &= o == me;
        os.push(StateObject { address: StateAddress(bytes()), constraint_owner: ProgramIdentifier(Poseidon2Hash(o)), data: vec![] });
    }
    if !same { rsx::on_panic(2); }
    ProgramIdentifier(Poseidon2Hash(me)).ensure_constraint_owner_similarity(os.iter());
    rsx::check(same, 1);
    rsx::cover(1);
}
/// Longer messages, both sides, around the block and byte boundaries.
#[no_mangle]
pub extern "C" fn hx_hash_long() {
    const N: usize = 264;
    let k = [25usize, 31, 32, 33, 40, 63, 64, 65, 127, 128, 255, 256, 257][rsx::pick_below(13) as usize];
    let (b, c) = (rsx::u8(), rsx::u8());
    let mut d = [0u8; N];
    for i in 0..k { d[i] = (i * 7 + i / 256) as u8 ^ if i % 3 == 0 { b } else { c }; }
    let plain = k % 8 == 0;
    if plain {
        let want = hash(&d[..k]);
        rsx::check(n::native::poseidon::poseidon2_hash_no_pad(&d[..k]).inner() == want, 1);
        rsx::check(v::poseidon2_hash_no_pad(&d[..k]).inner() == want, 2);
    }
    let msg = d;
    d[k] = 1;
    let want = hash(&d[..(k / 8 + 1) * 8]);
    rsx::check(n::native::poseidon::poseidon2_hash_with_pad(&msg[..k]).inner() == want, 3);
    rsx::check(v::poseidon2_hash_with_pad(&msg[..k]).inner() == want, 4);
    rsx::cover(1);
}
