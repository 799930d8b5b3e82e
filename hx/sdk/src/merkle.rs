//! The commitment tree.
use mozak_sdk::common::merkle::merkleize as on_host;
use mozak_sdk::common::types::Poseidon2Hash as H;
use mozak_sdk_vm::common::merkle::merkleize as on_vm;
use mozak_sdk_vm::common::types::Poseidon2Hash as V;

/// What the root is: leaves of one address pair off left to right; otherwise split at the
/// highest address bit that differs.
pub fn root(l: &[(u64, H)]) -> H {
    if l.len() == 1 { return l[0].1; }
    let x = l[0].0 ^ l[l.len() - 1].0;
    if x == 0 {
        let mut v: Vec<H> = l.iter().map(|p| p.1).collect();
        while v.len() > 1 { v = v.chunks(2).map(|c| if c.len() == 2 { H::two_to_one(c[0], c[1]) } else { c[0] }).collect(); }
        return v[0];
    }
    let s = split(l);
    H::two_to_one(root(&l[..s]), root(&l[s..]))
}
/// First leaf on the far side of the highest address bit in which the ends differ.
fn split(l: &[(u64, H)]) -> usize {
    let x = l[0].0 ^ l[l.len() - 1].0;
    let mut s = 1;
    loop {
        let d = l[s].0 ^ l[0].0;
        if d ^ x < d { return s; }
        s += 1;
    }
}
fn leaf(i: usize) -> H {
    let mut h = [0u8; 32];
    h[0] = i as u8;
    h[1] = rsx::u8();
    H(h)
}
fn sorted<const N: usize>() -> Vec<(u64, H)> {
    let mut v: Vec<(u64, H)> = vec![];
    for i in 0..N {
        let a = rsx::u64();
        if i > 0 { rsx::assume(v[i - 1].0 <= a); }
        v.push((a, leaf(i)));
    }
    v
}
/// Sorted addresses whose neighbours first differ at one of the given bits (or not at all).
fn stepped<const N: usize>(bits: &[u32]) -> Vec<(u64, H)> {
    let mut v: Vec<(u64, H)> = vec![(rsx::u64(), leaf(0))];
    for i in 1..N {
        let (k, p) = (rsx::pick_below(bits.len() as u64 + 1) as usize, v[i - 1].0);
        let a = if k == bits.len() { p } else {
            let b = 1u64 << bits[k];
            rsx::assume(p & b == 0);
            (p & !(b - 1)) | b | rsx::u64() & (b - 1)
        };
        v.push((a, leaf(i)));
    }
    v
}
fn go(v: Vec<(u64, H)>) {
    rsx::split_clz();
    let want = root(&v);
    rsx::check(on_vm(v.iter().map(|p| (p.0, V(p.1.inner()))).collect()).inner() == want.inner(), 1);
    rsx::check(on_host(v).inner() == want.inner(), 2);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_merkle_0() { rsx::check(on_host(vec![]).inner() == [0; 32] && on_vm(vec![]).inner() == [0; 32], 1); rsx::cover(1) }
#[no_mangle]
pub extern "C" fn hx_merkle_1() { go(sorted::<1>()) }
#[no_mangle]
pub extern "C" fn hx_merkle_2() { go(sorted::<2>()) }
#[no_mangle]
pub extern "C" fn hx_merkle_3() { go(sorted::<3>()) }
#[no_mangle]
pub extern "C" fn hx_merkle_4() { go(stepped::<4>(&[0, 1, 7, 31, 32, 63])) }
#[no_mangle]
pub extern "C" fn hx_merkle_5() { go(stepped::<5>(&[0, 1, 40, 63])) }
#[no_mangle]
pub extern "C" fn hx_merkle_6() { go(stepped::<6>(&[0, 33, 63])) }
#[no_mangle]
pub extern "C" fn hx_merkle_8() { go(stepped::<8>(&[0, 63])) }
/// Many leaves: fixed addresses of many shapes (dense, repeated, sparse, top bits), one leaf free.
fn many(addrs: Vec<u64>) {
    let k = rsx::pick_below(3) as usize;
    let n = addrs.len();
    let k = [0, n / 2, n - 1][k];
    let v = addrs.iter().enumerate().map(|(i, a)| { let mut h = [0u8; 32]; h[0] = i as u8; h[2] = 1; if i == k { h[1] = rsx::u8(); } (*a, H(h)) }).collect();
    go(v)
}
#[no_mangle]
pub extern "C" fn hx_merkle_dense() { many((0..[16, 17, 33][rsx::pick_below(3) as usize]).collect()) }
#[no_mangle]
pub extern "C" fn hx_merkle_same() { many(vec![1 << 63 | 5; [9, 16, 19][rsx::pick_below(3) as usize]]) }
#[no_mangle]
pub extern "C" fn hx_merkle_sparse() {
    let mut v: Vec<u64> = (0..64).map(|i| 1 << i).collect();
    v.insert(0, 0);
    for i in [7, 20, 21, 40, 63] { let x = v[i]; for _ in 0..i % 4 { v.push(x); v.push(x | x >> 3); } }
    v.push(u64::MAX); v.push(u64::MAX - 1);
    v.sort();
    many(v)
}
