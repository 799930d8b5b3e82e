//! Cross-program calls: recorded natively, checked by the machine.
use crate::vm::*;
use mozak_sdk::common::types as nt;
use mozak_sdk_vm::common::types as vt;

#[derive(Clone, Copy)]
struct Msg { from: u8, to: u8, arg: u32, ret: u32 }
const ME: u8 = 1;
fn who(x: u8) -> [u8; 32] { id(x, 0) }
fn any_msg() -> Msg { Msg { from: rsx::u8(), to: rsx::u8(), arg: rsx::u32(), ret: rsx::u32() } }
fn wire(m: &Msg) -> vt::CrossProgramCall { vt::CrossProgramCall { caller: vid(who(m.from)), callee: vid(who(m.to)), argument: vt::RawMessage(archive(&m.arg)), return_: vt::RawMessage(archive(&m.ret)) } }
fn no_resolver(_: u32) -> u32 { panic!("the machine must not run the callee") }

/// Every operation of the guest against the tape: a send is accepted exactly when the next message
/// is this very call, and yields the recorded return value; a receive yields the next message
/// addressed to this program, from a known other program, or nothing at the end.
fn ops<const N: usize, const K: usize>() {
    let n = rsx::pick_below(N as u64 + 1) as usize;
    ops_on((0..n).map(|_| any_msg()).collect(), K, rsx::u8)
}
fn ops_on(ms: Vec<Msg>, k: usize, to: impl Fn() -> u8) {
    let n = ms.len();
    start(Start { me: who(ME), calls: ms.iter().map(wire).collect(), ..Start::default() });
    let mut at = 0;
    for _ in 0..k {
        if rsx::pick_below(2) == 0 {
            let (to, arg) = (to(), rsx::u32());
            let ok = at < n && ms[at].from == ME && ms[at].to == to && ms[at].arg == arg;
            if !ok { rsx::on_panic(2); }
            let r: u32 = mozak_sdk_vm::call_send(vid(who(to)), arg, no_resolver);
            rsx::check(ok, 1);
            rsx::check(r == ms[at].ret, 2);
            at += 1;
        } else {
            while at < n && ms[at].to != ME { at += 1; }
            let known = at < n && (ms[at].from == 0 || ms.iter().any(|m| m.to == ms[at].from));
            let ok = at == n || ms[at].from != ME && known;
            if !ok { rsx::on_panic(2); }
            match mozak_sdk_vm::call_receive::<u32, u32>() {
                None => rsx::check(ok && at == n, 3),
                Some((p, a, r)) => {
                    rsx::check(ok && at < n, 4);
                    rsx::check(p.inner() == who(ms[at].from) && a == ms[at].arg && r == ms[at].ret, 5);
                    at += 1;
                }
            }
        }
    }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_calls_ops() { ops::<2, 2>() }
#[no_mangle]
pub extern "C" fn hx_calls_ops_3() { ops::<3, 3>() }

/// Shutdown passes only with the whole call tape consumed and the claimed cast list commitment
/// equal to the tree over the distinct callees in order.
fn shutdown<const N: usize>() {
    let n = rsx::pick_below(N as u64 + 1) as usize;
    shutdown_on((0..n).map(|_| { let mut m = any_msg(); m.from = 0; m }).collect())
}
fn shutdown_on(ms: Vec<Msg>) {
    let n = ms.len();
    let mut cast: Vec<u8> = vec![];
    for m in &ms {
        let mut i = 0;
        while i < cast.len() && cast[i] < m.to { i += 1; }
        if i == cast.len() || cast[i] != m.to { cast.insert(i, m.to); }
    }
    let leaves: Vec<(u64, nt::Poseidon2Hash)> = cast.iter().enumerate().map(|(i, x)| (i as u64, nt::Poseidon2Hash(who(*x)))).collect();
    let want = if n == 0 { [0; 32] } else { crate::merkle::root(&leaves).inner() };
    let good = rsx::pick_below(2) == 0;
    let claimed = if good { want } else { bytes() };
    let read = rsx::pick_below(2) == 0;
    start(Start { me: who(ME), calls: ms.iter().map(wire).collect(), cast_root: claimed, ..Start::default() });
    let mut got = 0;
    if read { while let Some(_) = mozak_sdk_vm::call_receive::<u32, u32>() { got += 1; } }
    let ok = claimed == want && (read || n == 0);
    if !ok { rsx::on_panic(2); }
    mozak_sdk_vm::common::system::ensure_clean_shutdown();
    rsx::check(ok, 1);
    if read { rsx::check(got == ms.iter().filter(|m| m.to == ME).count(), 2); }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_calls_shutdown() { shutdown::<2>() }
#[no_mangle]
pub extern "C" fn hx_calls_shutdown_3() { shutdown::<3>() }

/// A native run: the root calls P with `a`; P calls Q with a value derived from it and uses the
/// answer.  The tape lists the calls in the order they were made, each with its caller,
/// argument and final return value.
fn native_run(p: [u8; 32], q: [u8; 32], a: u32) -> (u32, u32, u32) {
    static mut B: u32 = 0;
    static mut C: u32 = 0;
    static mut Q: [u8; 32] = [0; 32];
    unsafe { B = rsx::u32(); C = rsx::u32(); Q = q; }
    let r: u32 = mozak_sdk::call_send(nid(p), a, |x: u32| {
        let y: u32 = mozak_sdk::call_send(nid(unsafe { Q }), x ^ unsafe { B }, |z: u32| z.wrapping_add(unsafe { C }));
        !y
    });
    let b = a ^ unsafe { B };
    (b, b.wrapping_add(unsafe { C }), r)
}
#[no_mangle]
pub extern "C" fn hx_calls_record() {
    let (p, q) = (bytes::<32>(), bytes::<32>());
    let a = rsx::u32();
    let (b, c, r) = native_run(p, q, a);
    rsx::check(r == !c, 1);
    let s: u32 = mozak_sdk::call_send(nid(q), r, |x: u32| x ^ 1);
    rsx::check(s == r ^ 1, 2);
    let t = mozak_sdk::rsx_access::tape();
    let w = &t.call_tape.writer;
    rsx::check(w.len() == 3, 3);
    let want = [([0; 32], p, a, r), (p, q, b, c), ([0; 32], q, r, s)];
    for (m, x) in w.iter().zip(want) {
        rsx::check(m.caller.inner() == x.0 && m.callee.inner() == x.1, 4);
        let (a, r): (u32, u32) = unsafe { (rkyv::access_unchecked::<u32>(&m.argument.0).to_native(), rkyv::access_unchecked::<u32>(&m.return_.0).to_native()) };
        rsx::check(a == x.2, 5);
        rsx::check(r == x.3, 6);
    }
    rsx::cover(1);
}
/// Each participant of that run replays it on the machine from the tool's tapes.
#[no_mangle]
pub extern "C" fn hx_calls_replay() {
    let (p, q) = (id(rsx::u8(), 2), id(rsx::u8(), 3));
    let a = rsx::u32();
    let (b, c, r) = native_run(p, q, a);
    let who = rsx::pick_below(3);
    if who == 0 {
        start_raw(cli_tapes(p));
        match mozak_sdk_vm::call_receive::<u32, u32>() {
            Some((x, y, z)) => rsx::check(x.is_null_program() && y == a && z == r, 1),
            None => rsx::check(false, 2),
        }
        let y: u32 = mozak_sdk_vm::call_send(vid(q), b, no_resolver);
        rsx::check(y == c, 3);
    } else if who == 1 {
        start_raw(cli_tapes(q));
        match mozak_sdk_vm::call_receive::<u32, u32>() {
            Some((x, y, z)) => rsx::check(x.inner() == p && y == b && z == c, 4),
            None => rsx::check(false, 5),
        }
    } else {
        start_raw(cli_tapes(id(0, 9)));
    }
    rsx::check(mozak_sdk_vm::call_receive::<u32, u32>().is_none(), 6);
    mozak_sdk_vm::common::system::ensure_clean_shutdown();
    rsx::cover(1);
}
fn ev(k: u8) -> nt::Event { nt::Event { type_: nt::EventType::Write, object: nt::StateObject { address: nt::StateAddress([k; 8]), constraint_owner: nid([0; 32]), data: vec![k] } } }
/// Identities nest: what is emitted or written inside a call belongs to the callee, and to the
/// caller again afterwards.
#[no_mangle]
pub extern "C" fn hx_identity_nesting() {
    let (p, q) = (id(rsx::u8(), 2), id(rsx::u8(), 3));
    let (b1, b2, b3) = (rsx::u8(), rsx::u8(), rsx::u8());
    static mut Q: [u8; 32] = [0; 32];
    static mut BS: [u8; 3] = [0; 3];
    unsafe { Q = q; BS = [b1, b2, b3]; }
    let k = mozak_sdk::InputTapeType::PublicTape;
    let _: u32 = mozak_sdk::call_send(nid(p), 0u32, |x: u32| {
        let pb = unsafe { BS };
        mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &[pb[0]]);
        mozak_sdk::event_emit(ev(1));
        let r: u32 = mozak_sdk::call_send(nid(unsafe { Q }), 0u32, |x: u32| { mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &[unsafe { BS }[1]]); mozak_sdk::event_emit(ev(2)); x });
        mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &[pb[2]]);
        mozak_sdk::write(&mozak_sdk::InputTapeType::PrivateTape, &[pb[1], pb[0]]);
        mozak_sdk::event_emit(ev(3));
        r
    });
    let t = mozak_sdk::rsx_access::tape();
    rsx::check(t.public_input_tape.writer.len() == 2 && t.private_input_tape.writer.len() == 1, 1);
    rsx::check(t.public_input_tape.writer.get(&nid(p)).map_or(false, |m| m.0 == [b1, b3]), 2);
    rsx::check(t.public_input_tape.writer.get(&nid(q)).map_or(false, |m| m.0 == [b2]), 3);
    rsx::check(t.private_input_tape.writer.get(&nid(p)).map_or(false, |m| m.0 == [b2, b1]), 4);
    let es = |i| t.event_tape.writer.get(&nid(i)).map_or(vec![], |o| o.get_temporal_order_canonical_hints().iter().map(|x| x.0.object.data.clone()).collect());
    rsx::check(t.event_tape.writer.len() == 2 && es(p) == [vec![1], vec![3]] && es(q) == [vec![2]], 5);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_write_needs_identity() {
    rsx::on_panic(2);
    let _ = mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &[rsx::u8()]);
    rsx::check(false, 1);
}
/// Longer tapes between fixed parties, contents free.
fn between(parties: &[(u8, u8)]) -> Vec<Msg> { parties.iter().map(|p| Msg { from: p.0, to: p.1, arg: rsx::u32(), ret: rsx::u32() }).collect() }
#[no_mangle]
pub extern "C" fn hx_calls_ops_many() {
    let ms = between(&[(0, 5), (0, ME), (ME, 2), (2, 3), (2, ME), (ME, 5), (5, ME), (ME, 3), (3, 2)]);
    ops_on(ms, 7, || [2, 3, 5][rsx::pick_below(3) as usize])
}
#[no_mangle]
pub extern "C" fn hx_calls_shutdown_many() {
    let all: [&[(u8, u8)]; 4] = [
        &[(0, 4), (0, ME), (0, 9), (0, 4), (0, 2), (0, ME), (0, 200), (0, 3)],
        &[(0, 9), (0, 8), (0, 7), (0, 6), (0, 5)],
        &[(0, ME), (0, 2), (0, 2), (0, 3), (0, 3), (0, 3), (0, 4), (0, 4), (0, 4), (0, 4)],
        &[(0, 17), (0, 16), (0, 15), (0, 14), (0, 13), (0, 12), (0, 11), (0, 10), (0, 9)],
    ];
    shutdown_on(between(all[rsx::pick_below(4) as usize]))
}
/// A deep run: every program calls the next one twice and emits an event before, between and
/// after; seven programs deep in a row or a tree of fourteen calls.
static mut DEPTH: u8 = 3;
static mut WIDE: bool = true;
fn level(k: u8, x: u32) -> u32 {
    if k > 0 { mozak_sdk::event_emit(ev(3 * k)); }
    let (depth, wide) = unsafe { (DEPTH, WIDE) };
    if k == depth { return !x; }
    let a: u32 = mozak_sdk::call_send(nid(id(k + 1, 7)), x.wrapping_add(1), |y: u32| level(k + 1, y));
    if k > 0 { mozak_sdk::event_emit(ev(3 * k + 1)); }
    let b: u32 = if wide { mozak_sdk::call_send(nid(id(k + 1, 7)), a ^ x, |y: u32| level(k + 1, y)) } else { x };
    if k > 0 { mozak_sdk::event_emit(ev(3 * k + 2)); }
    a.wrapping_sub(b)
}
type Rec = ([u8; 32], [u8; 32], u32, u32);
fn expect(k: u8, x: u32, calls: &mut Vec<Rec>, evs: &mut Vec<Vec<u8>>) -> u32 {
    let (depth, wide) = unsafe { (DEPTH, WIDE) };
    if k > 0 { evs[k as usize].push(3 * k); }
    if k == depth { return !x; }
    let me = if k == 0 { [0; 32] } else { id(k, 7) };
    let mut call = |arg: u32, calls: &mut Vec<Rec>, evs: &mut Vec<Vec<u8>>| {
        let at = calls.len();
        calls.push((me, id(k + 1, 7), arg, 0));
        let r = expect(k + 1, arg, calls, evs);
        calls[at].3 = r;
        r
    };
    let a = call(x.wrapping_add(1), calls, evs);
    if k > 0 { evs[k as usize].push(3 * k + 1); }
    let b = if wide { call(a ^ x, calls, evs) } else { x };
    if k > 0 { evs[k as usize].push(3 * k + 2); }
    a.wrapping_sub(b)
}
#[no_mangle]
pub extern "C" fn hx_calls_record_many() {
    let wide = rsx::pick_below(2) == 0;
    unsafe { WIDE = wide; DEPTH = if wide { 3 } else { 7 }; }
    let x = rsx::u32();
    let r = level(0, x);
    let (mut calls, mut evs) = (vec![], vec![vec![]; 8]);
    rsx::check(r == expect(0, x, &mut calls, &mut evs), 1);
    let t = mozak_sdk::rsx_access::tape();
    let w = &t.call_tape.writer;
    rsx::check(w.len() == calls.len(), 2);
    for (m, c) in w.iter().zip(&calls) {
        rsx::check(m.caller.inner() == c.0 && m.callee.inner() == c.1, 3);
        let (a, r): (u32, u32) = unsafe { (rkyv::access_unchecked::<u32>(&m.argument.0).to_native(), rkyv::access_unchecked::<u32>(&m.return_.0).to_native()) };
        rsx::check(a == c.2 && r == c.3, 4);
    }
    for k in 1..=unsafe { DEPTH } {
        let got: Vec<Vec<u8>> = t.event_tape.writer.get(&nid(id(k, 7))).map_or(vec![], |o| o.get_temporal_order_canonical_hints().iter().map(|x| x.0.object.data.clone()).collect());
        rsx::check(got.len() == evs[k as usize].len() && got.iter().zip(&evs[k as usize]).all(|(a, b)| a.len() == 1 && a[0] == *b), 5);
    }
    rsx::cover(1);
}
