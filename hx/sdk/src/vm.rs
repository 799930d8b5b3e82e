//! The system calls as the machine offers them (what R05/R06 establish), to the SDK compiled for it.
pub struct Tapes { pub t: [(Vec<u8>, usize); 11] }
pub static mut TAPES: Option<Tapes> = None;
#[no_mangle]
pub extern "C" fn rsx_ecall(a0: usize, a1: usize, a2: usize, a3: usize) {
    match a0 {
        2 | 4 | 5 | 6 => unsafe {
            let t = &mut TAPES.as_mut().unwrap().t[a0];
            let left = t.0.len() - t.1;
            let n = if a2 < left { a2 } else { left };
            core::ptr::copy_nonoverlapping(t.0.as_ptr().add(t.1), a1 as *mut u8, n);
            t.1 += n;
        },
        7 | 8 | 9 => unsafe {
            let t = &TAPES.as_ref().unwrap().t[a0];
            let n = if a2 < 32 { a2 } else { 32 };
            core::ptr::copy_nonoverlapping(t.0.as_ptr(), a1 as *mut u8, n);
        },
        3 => unsafe {
            let i = core::slice::from_raw_parts(a1 as *const u8, a2);
            let h = hash(i);
            core::ptr::copy_nonoverlapping(h.as_ptr(), a3 as *mut u8, 32);
        },
        _ => panic!("guest ends"),
    }
}
pub fn hash(i: &[u8]) -> [u8; 32] {
    use plonky2::field::goldilocks_field::GoldilocksField as F;
    use plonky2::field::types::{Field, PrimeField64};
    use plonky2::plonk::config::{GenericHashOut, Hasher};
    assert!(i.len() % 8 == 0 && i.len() > 0);
    let f: Vec<F> = i.iter().map(|x| F::from_canonical_u8(*x)).collect();
    let h = plonky2::hash::poseidon2::Poseidon2Hash::hash_no_pad(&f);
    let mut o = [0u8; 32];
    for k in 0..4 { o[8 * k..8 * k + 8].copy_from_slice(&h.elements[k].to_canonical_u64().to_le_bytes()); }
    o
}
#[no_mangle]
pub extern "C" fn bespoke_entrypoint() {}
#[no_mangle]
pub static mut _end: Heap = Heap([0; 4096]);
#[repr(align(16))]
pub struct Heap([u8; 4096]);

use mozak_sdk::common::types as nt;
use mozak_sdk_vm::common::types as vt;
use mozak_runner::state::RawTapes;
use rkyv::Archive;

pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0; N]; for x in &mut b { *x = rsx::u8(); } b }
/// Identities that differ in their first and last byte.
pub fn id(a: u8, b: u8) -> [u8; 32] { let mut i = [0; 32]; i[0] = a; i[31] = b; i }
pub fn nid(i: [u8; 32]) -> nt::ProgramIdentifier { nt::ProgramIdentifier(nt::Poseidon2Hash(i)) }
pub fn vid(i: [u8; 32]) -> vt::ProgramIdentifier { vt::ProgramIdentifier(vt::Poseidon2Hash(i)) }

/// 4-byte length, then the bytes.
pub fn prefixed(d: &[u8]) -> Vec<u8> { let mut v = (d.len() as u32).to_le_bytes().to_vec(); v.extend_from_slice(d); v }
pub fn archive<T: Archive>(t: &T) -> Vec<u8> { (Box::into_raw(Box::new(t.to_archived())) as usize).to_le_bytes().to_vec() }

/// What the machine is started with.
pub struct Start { pub me: [u8; 32], pub private: Vec<u8>, pub public: Vec<u8>, pub calls: Vec<vt::CrossProgramCall>, pub events: Vec<vt::CanonicalOrderedTemporalHints>, pub event_root: [u8; 32], pub cast_root: [u8; 32] }
impl Default for Start { fn default() -> Self { Start { me: id(1, 1), private: vec![], public: vec![], calls: vec![], events: vec![], event_root: [0; 32], cast_root: [0; 32] } } }
pub fn start(s: Start) {
    let e = || (vec![], 0);
    unsafe {
        TAPES = Some(Tapes { t: [e(), e(), (prefixed(&s.private), 0), e(), (prefixed(&s.public), 0), (prefixed(&archive(&s.calls)), 0), (prefixed(&archive(&s.events)), 0),
            (s.event_root.to_vec(), 0), (s.cast_root.to_vec(), 0), (s.me.to_vec(), 0), e()] });
    }
}
/// Start with what the command line tool made of a native run; the archives are carried over
/// value by value since the two SDK builds have their own types.
pub fn start_raw(r: RawTapes) {
    let e = || (vec![], 0);
    let calls: Vec<nt::CrossProgramCall> = unarchive(&r.call_tape);
    let calls: Vec<vt::CrossProgramCall> = calls.iter().map(|c| vt::CrossProgramCall { caller: vid(c.caller.inner()), callee: vid(c.callee.inner()), argument: vt::RawMessage(c.argument.0.clone()), return_: vt::RawMessage(c.return_.0.clone()) }).collect();
    let events: Vec<nt::CanonicalOrderedTemporalHints> = unarchive(&r.event_tape);
    let events: Vec<vt::CanonicalOrderedTemporalHints> = events.iter().map(|h| vt::CanonicalOrderedTemporalHints(vt::CanonicalEvent { address: vt::StateAddress(h.0.address.0), type_: vty(h.0.type_), value: vt::Poseidon2Hash(h.0.value.inner()) }, h.1)).collect();
    unsafe {
        TAPES = Some(Tapes { t: [e(), e(), (r.private_tape, 0), e(), (r.public_tape, 0), (prefixed(&archive(&calls)), 0), (prefixed(&archive(&events)), 0),
            (r.events_commitment_tape.to_vec(), 0), (r.cast_list_commitment_tape.to_vec(), 0), (r.self_prog_id_tape.to_vec(), 0), e()] });
    }
}
fn unarchive<T: Archive>(tape: &[u8]) -> T {
    rsx::check(tape.len() >= 4 && u32::from_le_bytes(tape[..4].try_into().unwrap()) as usize == tape.len() - 4, 900);
    rkyv::FromArchived::from_archived(unsafe { rkyv::access_unchecked::<T>(&tape[4..]) })
}
pub fn vty(t: nt::EventType) -> vt::EventType { [vt::EventType::Write, vt::EventType::Ensure, vt::EventType::Read, vt::EventType::GiveOwner, vt::EventType::TakeOwner][t as u8 as usize] }
pub fn nty(t: u8) -> nt::EventType { [nt::EventType::Write, nt::EventType::Ensure, nt::EventType::Read, nt::EventType::GiveOwner, nt::EventType::TakeOwner][t as usize] }
/// The native run's tapes through the command line tool.
pub fn cli_tapes(me: [u8; 32]) -> RawTapes {
    let t = Box::new(mozak_sdk::rsx_access::tape());
    let p = (Box::into_raw(t) as usize).to_le_bytes();
    mozak_cli::runner::raw_tapes_from_system_tape(Some(&p[..]), nid(me))
}
