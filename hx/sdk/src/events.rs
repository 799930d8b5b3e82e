//! Events: what a native run emits, what the machine accepts, what is committed to.
use crate::merkle::root;
use crate::vm::*;
use mozak_sdk::common::types as nt;
use mozak_sdk_vm::common::types as vt;

#[derive(Clone)]
struct Ev { ty: u8, a: [u8; 8], o: [u8; 32], d: Vec<u8> }
fn any(ty: u8) -> Ev { let mut a = [0u8; 8]; a[0] = rsx::u8(); a[7] = rsx::u8(); Ev { ty, a, o: id(rsx::u8(), 0), d: vec![rsx::u8()] } }
fn native(e: &Ev) -> nt::Event { nt::Event { type_: nty(e.ty), object: nt::StateObject { address: nt::StateAddress(e.a), constraint_owner: nid(e.o), data: e.d.clone() } } }
fn guest(e: &Ev) -> vt::Event { vt::Event { type_: vty(nty(e.ty)), object: vt::StateObject { address: vt::StateAddress(e.a), constraint_owner: vid(e.o), data: e.d.clone() } } }

/// Everything a program emits natively is accepted again, in order, by the machine started from
/// the tool's tapes, and its shutdown checks pass.
fn replay<const N: usize>() {
    replay_of(id(7, rsx::u8()), (0..N).map(|_| { let mut e = any(if N > 2 { rsx::pick_below(2) as u8 * 2 } else { rsx::pick_below(5) as u8 }); if N < 3 && rsx::pick_below(2) == 1 { e.d.clear(); } e }).collect());
}
fn replay_of(me: [u8; 32], es: Vec<Ev>) {
    mozak_sdk::add_identity(nid(me));
    for e in &es { mozak_sdk::event_emit(native(e)); }
    mozak_sdk::rm_identity();
    // somebody else's event stays theirs
    let other = id(9, 0);
    mozak_sdk::add_identity(nid(other));
    mozak_sdk::event_emit(native(&any(0)));
    mozak_sdk::rm_identity();
    let r = cli_tapes(me);
    let t = mozak_sdk::rsx_access::tape();
    rsx::check(t.event_tape.writer.len() == 2, 2);
    rsx::check(t.event_tape.writer.get(&nid(me)).map_or(false, |o| o.canonical_hash().inner() == r.events_commitment_tape), 3);
    if es.len() > 3 {
        let mut l: Vec<_> = t.event_tape.writer.get(&nid(me)).unwrap().get_canonical_order_temporal_hints().iter().map(|c| {
            let mut b = [0u8; 48];
            b[0] = c.0.type_ as u8;
            b[8..16].copy_from_slice(&c.0.address.0);
            b[16..].copy_from_slice(&c.0.value.inner());
            (u64::from_le_bytes(c.0.address.0), nt::Poseidon2Hash(hash(&b)))
        }).collect();
        l.sort_by_key(|x| x.0);
        rsx::check(r.events_commitment_tape == root(&l).inner(), 4);
    }
    start_raw(r);
    mozak_sdk_vm::input_tape_len(&mozak_sdk_vm::InputTapeType::PublicTape);
    for e in &es { mozak_sdk_vm::event_emit(guest(e)); }
    mozak_sdk_vm::common::system::ensure_clean_shutdown();
    rsx::cover(1);
    rsx::check(true, 1);
}
#[no_mangle]
pub extern "C" fn hx_events_replay_2() { replay::<2>() }
#[no_mangle]
pub extern "C" fn hx_events_replay_3() { replay::<3>() }

/// Whatever tape the machine is given: if the run ends cleanly, the events emitted are exactly
/// the events on the tape, each once, and the commitment is the root over them.
fn accepted<const N: usize>() {
    let n = rsx::pick_below(N as u64 + 1) as usize;
    let k = rsx::pick_below(N as u64 + 1) as usize;
    let mut tape = vec![];
    for _ in 0..n {
        let mut a = [0u8; 8];
        a[0] = rsx::u8();
        tape.push((a, rsx::pick_below(if N > 2 { 2 } else { 5 }) as u8, bytes::<32>(), rsx::u32()));
    }
    let es: Vec<Ev> = (0..k).map(|_| { let mut e = any(rsx::pick_below(if N > 2 { 2 } else { 5 }) as u8); e.a[7] = 0; e }).collect();
    let claimed = bytes::<32>();
    start(Start { event_root: claimed, events: tape.iter().map(|x| vt::CanonicalOrderedTemporalHints(vt::CanonicalEvent { address: vt::StateAddress(x.0), type_: vty(nty(x.1)), value: vt::Poseidon2Hash(x.2) }, x.3)).collect(), ..Start::default() });
    rsx::on_panic(2);
    for e in &es { mozak_sdk_vm::event_emit(guest(e)); }
    mozak_sdk_vm::common::system::ensure_clean_shutdown();
    // accepted
    rsx::check(n == k, 1);
    let mut hit = [false; N];
    for (i, e) in es.iter().enumerate() {
        let h = rsx::pick(tape[i].3 as u64) as usize;
        rsx::check(h < n && !hit[h], 2);
        hit[h] = true;
        let mut p = [0u8; 8];
        p[0] = e.d[0];
        p[1] = 1;
        rsx::check(tape[h].0 == e.a && tape[h].1 == e.ty && tape[h].2 == hash(&p), 3);
    }
    let leaves: Vec<_> = tape.iter().map(|x| {
        let mut b = [0u8; 48];
        b[0] = x.1;
        b[8..16].copy_from_slice(&x.0);
        b[16..].copy_from_slice(&x.2);
        (u64::from_le_bytes(x.0), nt::Poseidon2Hash(hash(&b)))
    }).collect();
    let sorted = n < 2 || tape.windows(2).all(|w| w[0].0[0] <= w[1].0[0]);
    if sorted { rsx::check(claimed == if n == 0 { [0; 32] } else { root(&leaves).inner() }, 4); }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_events_accepted_2() { accepted::<2>() }

/// Canonical order: sorted by (address, type, value), with the position of the i-th emitted
/// event as i-th hint; and the other way round.
fn order<const N: usize>() { order_of((0..N).map(|_| any(rsx::pick_below(2) as u8 * 4)).collect()) }
fn order_of(es: Vec<Ev>) {
    let N = es.len();
    let mut oe = if rsx::pick_below(2) == 0 { mozak_sdk::native::OrderedEvents::new(es.iter().map(native).collect()) } else {
        let mut o = mozak_sdk::native::OrderedEvents::default();
        for e in &es { o.push_temporal(native(e)); }
        o
    };
    let ce: Vec<nt::CanonicalEvent> = es.iter().map(|e| nt::CanonicalEvent::from_event(&native(e))).collect();
    let c = oe.get_canonical_order_temporal_hints();
    rsx::check(c.len() == N, 1);
    for i in 0..N {
        let h = rsx::pick(c[i].1 as u64) as usize;
        rsx::check(h < N, 2);
        rsx::check(c[h].0 == ce[i], 3);
        for j in 0..i { rsx::check(c[j].1 != c[i].1, 4); }
        if i > 0 { rsx::check(key(&c[i - 1].0) <= key(&c[i].0), 5); }
    }
    let t = oe.get_temporal_order_canonical_hints();
    rsx::check(t.len() == N, 6);
    for i in 0..N {
        rsx::check(t[i].0 == native(&es[i]), 7);
        let h = rsx::pick(t[i].1 as u64) as usize;
        rsx::check(h < N && c[i].0 == ce[h], 8);
    }
    rsx::cover(1);
}
// the order the commitment tree needs: by address as the tree reads it
fn key(c: &nt::CanonicalEvent) -> (u64, u8, [u8; 32]) { (u64::from_le_bytes(c.address.0), c.type_ as u8, c.value.inner()) }
#[no_mangle]
pub extern "C" fn hx_events_order_2() { order::<2>() }
#[no_mangle]
pub extern "C" fn hx_events_order_3() { order::<3>() }
/// Only a program can emit.
#[no_mangle]
pub extern "C" fn hx_event_needs_identity() {
    rsx::on_panic(2);
    mozak_sdk::event_emit(native(&any(0)));
    rsx::check(false, 1);
}
#[no_mangle]
pub extern "C" fn hx_events_accepted_3() { accepted::<3>() }

/// Many events in an order far from the canonical one; addresses fixed (all different, or each
/// twice with different types), contents free.
fn several(n: usize) -> Vec<Ev> {
    let twice = rsx::pick_below(2) == 1;
    let mul = [3, 5, 1][rsx::pick_below(3) as usize];
    (0..n).map(|i| {
        let k = (i * mul + 2) % n;
        let (a, ty) = if twice { (k / 2, (k % 2 * 2) as u8) } else { (k, (i % 5) as u8) };
        let mut e = Ev { ty, a: [0; 8], o: id(i as u8, 3), d: vec![] };
        e.a[7] = 4 * a as u8 + 1;
        e.a[0] = (n - a) as u8;
        if i % 3 == 0 { e.d.push(rsx::u8()); }
        e
    }).collect()
}
#[no_mangle]
pub extern "C" fn hx_events_order_many() { order_of(several(7)) }
#[no_mangle]
pub extern "C" fn hx_events_replay_many() { replay_of(id(7, 1), several(7)) }
#[no_mangle]
pub extern "C" fn hx_events_replay_11() { replay_of(id(7, 1), several(11)) }
