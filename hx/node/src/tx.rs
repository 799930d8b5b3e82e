//! Transactions, matches and blocks of the proposer, built from events as programs emit them.
use crate::state::{object_hash, two, Model, Object, H};
use mozak_node::block_proposer::block::{AuxBlockData, Blocks};
use mozak_node::block_proposer::matches::{AuxMatchesData, Matches};
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::transactions::{AuxTransactionData, TransactionAccumulator};
use mozak_node::block_proposer::{Address, OngoingTxKey};
use mozak_node::C;
use mozak_recproofs::circuits::verify_program::core::ProgramPublicIndices;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, EventType, Poseidon2Hash as Digest, ProgramIdentifier, StateAddress};
use plonky2::field::goldilocks_field::GoldilocksField as G;
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::plonk::circuit_data::{CircuitConfig, CommonCircuitData, VerifierOnlyCircuitData};
use plonky2::plonk::config::Hasher;
use plonky2::plonk::proof::{Proof, ProofWithPublicInputs};

pub type PP = ProofWithPublicInputs<G, C, 2>;
pub fn id(k: u64) -> ProgramIdentifier { ProgramIdentifier(digest([10 + k, 3, 5 * k, 7])) }
pub fn digest(v: [u64; 4]) -> Digest {
    let mut b = [0; 32];
    for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&v[i].to_le_bytes()); }
    Digest(b)
}
pub fn words(d: &Digest) -> [G; 4] { core::array::from_fn(|i| G(u64::from_le_bytes(core::array::from_fn(|j| d.0[8 * i + j])))) }
pub fn event(addr: u64, type_: EventType, value: [u64; 4]) -> CanonicalEvent { CanonicalEvent { address: StateAddress(addr.to_le_bytes()), type_, value: digest(value) } }
pub fn root(events: &[CanonicalEvent]) -> Digest { merkleize(events.iter().map(|e| (u64::from_le_bytes(e.address.0), e.canonical_hash())).collect()) }
/// What a program proves of itself.
pub fn program(id: &ProgramIdentifier, events: &[CanonicalEvent], call: [G; 4], cast: [G; 4]) -> PP {
    let mut v = words(&id.0).to_vec();
    v.push(G(!events.is_empty() as u64));
    v.extend(words(&root(events)));
    v.extend(call);
    v.extend(cast);
    ProofWithPublicInputs { proof: Proof { ph: core::marker::PhantomData }, public_inputs: v }
}
pub fn verifier() -> VerifierOnlyCircuitData<C, 2> { VerifierOnlyCircuitData { constants_sigmas_cap: plonky2::hash::merkle_tree::MerkleCap(vec![]), circuit_digest: HashOut { elements: [G(0); 4] } } }
pub fn aux() -> AuxTransactionData { AuxTransactionData::new(&CircuitConfig::default(), &ProgramPublicIndices, &CommonCircuitData { config: CircuitConfig::default(), fri_params: plonky2::fri::FriParams { config: CircuitConfig::default().fri_config, hiding: false, degree_bits: 3, reduction_arity_bits: vec![] }, num_public_inputs: 17, gates: vec![], degree: 8, ph: core::marker::PhantomData, name: String::new() }) }

fn split(n: usize) -> usize { let mut k = 1; while 2 * k < n { k *= 2; } k }
pub fn cast_root(ids: &[ProgramIdentifier]) -> Digest {
    if ids.len() == 1 { return ids[0].0; }
    let k = split(ids.len());
    let mut b = cast_root(&ids[..k]).0.to_vec();
    b.extend(cast_root(&ids[k..]).0);
    let h = Poseidon2Hash::hash_no_pad(&b.iter().map(|x| G(*x as u64)).collect::<Vec<_>>());
    digest(h.elements.map(|x| x.0))
}
pub fn leaf(id: &ProgramIdentifier, e: &CanonicalEvent) -> H {
    let mut v = words(&id.0).to_vec();
    v.push(G(e.type_ as u64));
    v.push(G(u64::from_le_bytes(e.address.0)));
    v.extend(words(&e.value));
    Poseidon2Hash::hash_no_pad(&v)
}
fn or(a: Option<H>, b: Option<H>) -> Option<H> { match (a, b) { (Some(a), Some(b)) => Some(two(a, b)), (a, b) => a.or(b) } }
fn tree(v: &[H]) -> Option<H> {
    if v.len() < 2 { return v.first().copied(); }
    or(tree(&v[..split(v.len())]), tree(&v[split(v.len())..]))
}
pub type Tx = Vec<(ProgramIdentifier, Vec<CanonicalEvent>)>;
/// What a transaction has to say about one object: the programs in cast order, as a tree.
fn said(tx: &[(ProgramIdentifier, Vec<CanonicalEvent>)], addr: u64) -> Option<H> {
    if tx.len() == 1 { return tree(&tx[0].1.iter().filter(|e| e.address.0 == addr.to_le_bytes()).map(|e| leaf(&tx[0].0, e)).collect::<Vec<_>>()); }
    or(said(&tx[..split(tx.len())], addr), said(&tx[split(tx.len())..], addr))
}
fn addresses(txs: &[Tx]) -> Vec<u64> {
    let mut v: Vec<u64> = txs.iter().flatten().flat_map(|p| p.1.iter().map(|e| u64::from_le_bytes(e.address.0))).collect();
    v.sort();
    v.dedup();
    v
}
/// The tree over addresses of whatever each of them has.
pub fn over(h: usize, v: &[(u64, H)]) -> Option<H> {
    if v.len() < 2 { return v.first().map(|x| x.1); }
    let k = v.iter().position(|x| x.0 >> (h - 1) & 1 == 1).unwrap_or(v.len());
    or(over(h - 1, &v[..k]), over(h - 1, &v[k..]))
}
/// The events of a block: the transactions in the order they were completed.
pub fn all_events(txs: &[Tx]) -> Option<H> {
    over(64, &addresses(txs).iter().map(|&a| (a, txs.iter().fold(None, |acc, tx| or(acc, said(tx, a))).unwrap())).collect::<Vec<_>>())
}
pub fn value() -> [u64; 4] { [rsx::felt(), rsx::felt(), 5, 6] }
pub fn ids(tx: &Tx) -> Vec<ProgramIdentifier> { tx.iter().map(|p| p.0).collect() }
pub fn ingest(acc: &mut TransactionAccumulator, tx: &Tx, i: usize, call: [G; 4]) -> Option<(OngoingTxKey, bool)> {
    let ids = ids(tx);
    let p = program(&tx[i].0, &tx[i].1, call, words(&cast_root(&ids)));
    acc.ingest_program(i, &verifier(), &p, &ids, &tx[i].1, call).ok()
}
/// One of the ways to put n things in order (all of them up to three, else a few).
pub fn order(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    if n > 3 {
        match rsx::pick_below(4) { 0 => {}, 1 => left.reverse(), 2 => left.rotate_left(n / 2), _ => left.sort_by_key(|i| (i % 2, n - i)) }
        return left;
    }
    (0..n).map(|k| left.remove(rsx::pick_below((n - k) as u64) as usize)).collect()
}
/// A transaction completes when the last of its cast is in, in whatever order they come.
#[no_mangle]
pub extern "C" fn hx_tx_cast() {
    
    let n = 1 + rsx::pick_below(6) as usize;
    let tx: Tx = (0..n as u64).map(|k| (id(k), if k % 3 == 1 { vec![] } else { vec![event(k, EventType::Read, value())] })).collect();
    let call = core::array::from_fn(|_| G(rsx::felt()));
    let aux = aux();
    let mut acc = TransactionAccumulator::new(&aux);
    let order = order(n);
    for (k, &i) in order.iter().enumerate() {
        let Some((key, done)) = ingest(&mut acc, &tx, i, call) else { return rsx::check(false, 1) };
        rsx::check(key == OngoingTxKey::rsx(words(&cast_root(&ids(&tx))), call), 2);
        rsx::check(done == (k + 1 == n), 3);
        if !done {
            rsx::check(acc.finalize().is_err(), 4);
            if k + 2 == n { rsx::check(ingest(&mut acc, &tx, order[rsx::pick_below(k as u64 + 1) as usize], call).is_none(), 5); }
        }
    }
    let Ok(p) = acc.finalize() else { return rsx::check(false, 6) };
    rsx::check(p.i.events == all_events(&[tx]), 7);
    rsx::check(acc.finalize().is_err(), 8);
    rsx::cover(1);
}
/// The events an object may see from one program, in canonical order.
fn bundle(addr: u64, k: u64) -> Vec<CanonicalEvent> {
    use EventType::*;
    let t: &[EventType] = match k { 0 => &[], 1 => &[Write], 2 => &[Ensure, Read], 3 => &[Write, Read, GiveOwner], _ => &[Ensure, Ensure, Ensure, Read, Read, TakeOwner] };
    t.iter().map(|t| event(addr, *t, value())).collect()
}
fn several(n: usize, at: &[u64], kinds: u64) -> Tx {
    (0..n as u64).map(|k| (id(k), at.iter().flat_map(|&a| bundle(a, rsx::pick_below(kinds))).collect())).collect()
}
fn completed(txs: &[Tx]) {
    let aux = aux();
    let mut acc = TransactionAccumulator::new(&aux);
    let call = [G(rsx::felt()), G(1), G(2), G(3)];
    for tx in txs { for i in 0..tx.len() { match ingest(&mut acc, tx, i, call) { Some((_, d)) => rsx::check(d == (i + 1 == tx.len()), 1), None => return rsx::check(false, 2) } } }
    let Ok(p) = acc.finalize() else { return rsx::check(false, 3) };
    rsx::check(p.i.events == all_events(txs), 4);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_tx_one() { completed(&[several(1, &[3, 4, 1 << 63], 5)]) }
#[no_mangle]
pub extern "C" fn hx_tx_two() { completed(&[several(2, &[6, 7], 4)]) }
#[no_mangle]
pub extern "C" fn hx_tx_three() { completed(&[several(3, &[9, 9 << 59], 2)]) }
/// Events of distinct programs over addresses near and far.
#[no_mangle]
pub extern "C" fn hx_tx_spread() {
    let n = 2 + rsx::pick_below(4) as usize;
    let a = crate::addr::spread(n);
    let m = 1 + rsx::pick_below(3) as usize;
    let turn = rsx::pick_below(n as u64) as usize;
    let mut tx: Tx = (0..m as u64).map(|k| (id(k), vec![])).collect();
    let way = rsx::pick_below(3);
    for i in 0..n { tx[match way { 0 => i % m, 1 => (i + turn) / 2 % m, _ => (i * i + turn) % m }].1.push(event(a[i], EventType::Read, value())); }
    completed(&[tx]);
}
/// Several transactions in one block.
#[no_mangle]
pub extern "C" fn hx_tx_block() {
    let n = 2 + rsx::pick_below(3) as usize;
    let txs: Vec<Tx> = (0..n).map(|t| {
        let at: &[u64] = match rsx::pick_below(4) { 0 => &[], 1 => &[2], 2 => &[3], _ => &[2, 3 << 61] };
        vec![(id(2 * t as u64), at.iter().flat_map(|&a| bundle(a, 1 + (t as u64 % 2))).collect()), (id(2 * t as u64 + 1), vec![event(2 + t as u64 % 2, EventType::Read, value())])]
    }).collect();
    completed(&txs);
}
/// Transactions in progress at the same time do not mix, and what is unfinished stays.
#[no_mangle]
pub extern "C" fn hx_tx_interleaved() {
    let a: Tx = vec![(id(0), vec![event(1, EventType::Read, value())]), (id(1), vec![event(2, EventType::Read, value())])];
    let b: Tx = vec![(id(2), vec![event(1, EventType::Ensure, value())]), (id(1), vec![])];
    let call = |k| [G(k), G(1), G(2), G(3)];
    let aux = aux();
    let mut acc = TransactionAccumulator::new(&aux);
    // the same cast with another call tape is another transaction
    let c: Tx = vec![(id(0), vec![]), (id(1), vec![event(9, EventType::Read, value())])];
    rsx::assume(cast_root(&ids(&a)) != cast_root(&ids(&b)));
    let all = [(a, 5), (b, 5), (c, 6)];
    let mut last = vec![0, 1, 2];
    last.rotate_left(rsx::pick_below(3) as usize);
    let steps: Vec<usize> = order(3).into_iter().chain(last).collect();
    let mut at = [0; 3];
    let mut done = vec![];
    let cut = [0, 4, 5][rsx::pick_below(3) as usize];
    for (k, t) in steps.into_iter().enumerate() {
        if k == cut { settle(&mut acc, &mut done, 10); }
        match ingest(&mut acc, &all[t].0, at[t], call(all[t].1)) { Some((key, d)) => { rsx::check(d == (at[t] == 1) && key == OngoingTxKey::rsx(words(&cast_root(&ids(&all[t].0))), call(all[t].1)), 1); if d { done.push(all[t].0.clone()); } } None => return rsx::check(false, 2) }
        at[t] += 1;
    }
    settle(&mut acc, &mut done, 20);
    rsx::cover(1);
}
fn settle(acc: &mut TransactionAccumulator, done: &mut Vec<Tx>, k: u32) {
    match acc.finalize() { Ok(p) => { rsx::check(!done.is_empty(), k); rsx::check(p.i.events == all_events(done), k + 1); } Err(_) => rsx::check(done.is_empty(), k + 2) }
    done.clear();
}
/// Only what the program proved itself is taken, and a refusal leaves the transaction open.
#[no_mangle]
pub extern "C" fn hx_tx_refused() {
    let call: [G; 4] = core::array::from_fn(|_| G(rsx::felt()));
    let tx: Tx = vec![(id(0), vec![event(1, EventType::Read, value())]), (id(1), vec![event(2, EventType::Write, value()), event(3, EventType::Ensure, value())]), (id(2), vec![])];
    let ids = ids(&tx);
    let cast = words(&cast_root(&ids));
    let aux = aux();
    let mut acc = TransactionAccumulator::new(&aux);
    let first = rsx::u1();
    if !first { rsx::check(ingest(&mut acc, &tx, 0, call).is_some(), 1); }
    let good = program(&ids[1], &tx[1].1, call, cast);
    let mut bad = good.clone();
    let (mut at, mut events) = (1, tx[1].1.clone());
    match rsx::pick_below(7) {
        0 => { let k = rsx::pick_below(17) as usize; bad.public_inputs[k] = G(rsx::felt()); rsx::assume(bad.public_inputs[k] != good.public_inputs[k]); }
        1 => events[0].value = digest([rsx::felt(), 1, 1, 1]),
        2 => { events.pop(); }
        3 => events.push(event(9, EventType::Read, [0; 4])),
        4 => events.clear(),
        5 => at = 2,
        _ => at = 3 + rsx::pick_below(3) as usize,
    }
    let same = events.len() == 2 && events[0].canonical_hash() == tx[1].1[0].canonical_hash() && at == 1 && bad.public_inputs == good.public_inputs;
    rsx::assume(!same);
    // distinct events have distinct commitments
    rsx::assume(events == tx[1].1 || root(&events) != root(&tx[1].1));
    rsx::check(acc.ingest_program(at, &verifier(), &bad, &ids, &events, call).is_err(), 2);
    if first { rsx::check(ingest(&mut acc, &tx, 0, call).is_some(), 3); }
    rsx::check(ingest(&mut acc, &tx, 2, call).map(|x| x.1) == Some(false), 4);
    rsx::check(ingest(&mut acc, &tx, 1, call).map(|x| x.1) == Some(true), 5);
    match acc.finalize() { Ok(p) => rsx::check(p.i.events == all_events(&[tx]), 6), Err(_) => rsx::check(false, 7) }
    rsx::cover(1);
}

/// One object's part in a block: the events of (nobody, its owner, somebody else), before and after.
pub struct Story { pub nobody: Vec<CanonicalEvent>, pub owner: Vec<CanonicalEvent>, pub other: Vec<CanonicalEvent>, pub old: Object, pub new: Object }
pub fn story(addr: u64, owner: u64, height: u64, kind: u64) -> Story {
    use EventType::*;
    let o = words(&id(owner).0);
    let (v, w) = (value(), value());
    let (gv, gw) = (v.map(G), w.map(G));
    let e = |t, v: [u64; 4]| event(addr, t, v);
    let nil = Object::default();
    let live = Object { constraint_owner: o, last_updated: G(rsx::felt()), credits: G(rsx::felt()), data: gv };
    let ow = o.map(|x| x.0);
    let (nobody, owner, other, old, new) = match kind {
        0 => (vec![], vec![], vec![e(Read, v)], live, live),
        1 => (vec![], vec![e(Write, w)], vec![], live, Object { data: gw, last_updated: G(height), ..live }),
        2 => (vec![], vec![e(Write, w), e(Read, v)], vec![e(Ensure, w), e(Read, v)], live, Object { data: gw, last_updated: G(height), ..live }),
        3 => (vec![e(Write, w), e(GiveOwner, ow)], vec![e(Ensure, w), e(TakeOwner, [0; 4])], vec![], nil, Object { constraint_owner: o, last_updated: G(height), credits: G(0), data: gw }),
        _ => (vec![e(TakeOwner, ow)], vec![e(Write, [0; 4]), e(GiveOwner, [0; 4])], vec![e(Read, v)], Object { credits: G(0), ..live }, nil),
    };
    Story { nobody, owner, other, old, new }
}
pub fn nobody() -> ProgramIdentifier { ProgramIdentifier(digest([0; 4])) }
/// The transaction of some objects, of one owner each, in address order.
pub fn tx_of(owner: u64, s: &[&Story]) -> Tx {
    vec![(nobody(), s.iter().flat_map(|s| s.nobody.clone()).collect()), (id(owner), s.iter().flat_map(|s| s.owner.clone()).collect()), (id(owner + 1), s.iter().flat_map(|s| s.other.clone()).collect())]
}
fn change(addr: u64, old: &Object, new: &Object) -> H {
    let mut v = vec![G(addr)];
    v.extend(object_hash(old).elements);
    v.extend(object_hash(new).elements);
    Poseidon2Hash::hash_no_pad(&v)
}
fn key(k: u64) -> OngoingTxKey { OngoingTxKey::rsx([G(k), G(0), G(0), G(0)], [G(1); 4]) }
/// What has been told of by the transactions that are ready, and nothing else, is matched with the
/// changes of the objects.
#[no_mangle]
pub extern "C" fn hx_match_block() {
    let aux = AuxMatchesData::new(&CircuitConfig::default());
    let mut m = Matches::new(&aux);
    let height = 1 + rsx::pick_below(2);
    let at = &match rsx::pick_below(4) { 0 => vec![4], 1 => vec![4, 5], 2 => vec![4, 7, 1 << 63], _ => vec![4, 3 << 60] };
    let stories: Vec<Story> = at.iter().enumerate().map(|(i, &a)| story(a, 3 * i as u64, height, rsx::pick_below(if at.len() > 2 { 2 } else { 5 }))).collect();
    let txs: Vec<Tx> = stories.iter().enumerate().map(|(i, s)| tx_of(3 * i as u64, &[s])).collect();
    let n = txs.len();
    // interleaved
    for k in 0..3 { for (t, tx) in txs.iter().enumerate() { m.ingest_events(key(t as u64), &tx[k].0, &tx[k].1); } }
    let order = order(n);
    let cut = rsx::pick_below(2) as usize * (n - 1);
    rsx::check(m.ready_tx(key(99)).is_err(), 1);
    for part in [&order[..n - cut], &order[n - cut..]] {
        if part.is_empty() { continue; }
        for &t in part { rsx::check(m.ready_tx(key(t as u64)).is_ok(), 2); rsx::check(m.ready_tx(key(t as u64)).is_err(), 3); }
        let mut asked = vec![];
        let p = m.finalize(height, |a| { asked.push(a.0); let k = at.iter().position(|x| *x == a.0).unwrap(); (stories[k].old, stories[k].new) });
        let done: Vec<Tx> = part.iter().map(|&t| txs[t].clone()).collect();
        let mut of: Vec<u64> = part.iter().map(|&t| at[t]).collect();
        of.sort();
        rsx::check(asked == of, 4);
        rsx::check(Some(p.i.events) == all_events(&done), 5);
        rsx::check(Some(p.i.state) == over(64, &of.iter().map(|a| { let k = at.iter().position(|x| x == a).unwrap(); (*a, change(*a, &stories[k].old, &stories[k].new)) }).collect::<Vec<_>>()), 6);
        rsx::check(p.i.block_height == height, 7);
    }
    rsx::cover(1);
}
/// One object in several transactions.
#[no_mangle]
pub extern "C" fn hx_match_shared() {
    let aux = AuxMatchesData::new(&CircuitConfig::default());
    let mut m = Matches::new(&aux);
    let s = story(6, 0, 1, rsx::pick_below(5));
    let n = 1 + rsx::pick_below(3) as usize;
    let mut txs = vec![tx_of(0, &[&s])];
    let seen = |k| if s.new == Object::default() || k % 2 == 0 { event(6, EventType::Read, s.old.data.map(|x| x.0)) } else { event(6, EventType::Ensure, s.new.data.map(|x| x.0)) };
    for k in 0..n { txs.push(vec![(id(10 + k as u64), vec![seen(k)]), (id(20 + k as u64), if k == 1 { vec![seen(1), seen(0)] } else { vec![] })]); }
    for (t, tx) in txs.iter().enumerate() { for p in tx { m.ingest_events(key(t as u64), &p.0, &p.1); } }
    let order = order(n + 1);
    for &t in &order { rsx::check(m.ready_tx(key(t as u64)).is_ok(), 1); }
    let p = m.finalize(1, |_| (s.old, s.new));
    rsx::check(Some(p.i.events) == all_events(&order.iter().map(|&t| txs[t].clone()).collect::<Vec<_>>()), 2);
    rsx::check(p.i.state == change(6, &s.old, &s.new), 3);
    rsx::cover(1);
}
/// A chain of blocks: transactions, matches and state agree, each block builds on the last.
fn chain(max: usize, at: &[u64], kinds: [&[u64]; 2], split: bool) {
    let config = CircuitConfig::default();
    let (txa, ma, sa) = (aux(), AuxMatchesData::new(&config), AuxStateData::new(&config, max));
    let ba = AuxBlockData::new(&config, &txa, &ma, &sa);
    let mut acc = TransactionAccumulator::new(&txa);
    let mut m = Matches::new(&ma);
    let mut s = State::new(&sa, max);
    let mut model = Model::new(max);
    let top = max + 1;
    let owner = |i: usize| if split { 3 * i as u64 } else { 0 };
    // what is there to start with
    let first: Vec<Story> = at.iter().enumerate().map(|(i, &a)| story(a, owner(i), 1, kinds[0][rsx::pick_below(kinds[0].len() as u64) as usize])).collect();
    for (i, &a) in at.iter().enumerate() { if first[i].old != Object::default() { s.apply_operation(Address(a), Operation::Upsert(first[i].old)); model.apply(a, Operation::Upsert(first[i].old)); } }
    s.finalize();
    model.finalize();
    let base = model.root(top, 0, false);
    let mut blocks = Blocks::new(&ba, base);
    rsx::check(blocks.height() == 0, 1);
    let mut now = first;
    for height in 1..3 {
        let txs: Vec<Tx> = if split { at.iter().enumerate().map(|(i, _)| tx_of(3 * i as u64, &[&now[i]])).collect() } else { vec![tx_of(0, &now.iter().collect::<Vec<_>>())] };
        let call = [G(rsx::felt()), G(height), G(2), G(3)];
        for tx in &txs {
            for i in 0..3 {
                let Some((key, done)) = ingest(&mut acc, tx, i, call) else { return rsx::check(false, 2) };
                m.ingest_events(key, &tx[i].0, &tx[i].1);
                if done { rsx::check(m.ready_tx(key).is_ok(), 3); }
            }
        }
        for (i, &a) in at.iter().enumerate() {
            let (old, new) = (now[i].old, now[i].new);
            let op = if old == new { Operation::Read } else if new == Object::default() { Operation::Delete } else { Operation::Upsert(new) };
            s.apply_operation(Address(a), op);
            model.apply(a, op);
        }
        let Ok(t) = acc.finalize() else { return rsx::check(false, 4) };
        let md = m.finalize(height, |a| { let (o, n) = s.get_state(a); (o.copied().unwrap_or_default(), n.copied().unwrap_or_default()) });
        let st = s.rsx_proof().clone();
        rsx::check(blocks.increment(&t, &md, &st).is_ok(), 5);
        rsx::check(blocks.height() == height, 6);
        let (base_, state_) = blocks.rsx_states();
        rsx::check(base_ == base && state_ == model.root(top, 0, true), 7);
        // not twice
        rsx::check(blocks.increment(&t, &md, &st).is_err() && blocks.height() == height, 8);
        s.finalize();
        model.finalize();
        if height == 1 {
            now = at.iter().enumerate().map(|(i, &a)| {
                let was = now[i].new;
                let k = kinds[1][rsx::pick_below(kinds[1].len() as u64) as usize];
                follow(a, owner(i), 2, was, k)
            }).collect();
        }
    }
    rsx::cover(1);
}
/// What may happen next to an object as it now is.
fn follow(addr: u64, owner: u64, height: u64, was: Object, k: u64) -> Story {
    use EventType::*;
    let e = |t, v: [u64; 4]| event(addr, t, v);
    let d = was.data.map(|x| x.0);
    let ow = words(&id(owner).0).map(|x| x.0);
    if was == Object::default() { return story(addr, owner, height, 3); }
    let w = value();
    match k {
        0 => Story { nobody: vec![], owner: vec![], other: vec![e(Read, d)], old: was, new: was },
        1 => Story { nobody: vec![], owner: vec![e(Write, w)], other: vec![], old: was, new: Object { data: w.map(G), last_updated: G(height), ..was } },
        _ => { rsx::assume(was.credits == G(0)); Story { nobody: vec![e(TakeOwner, ow)], owner: vec![e(Write, [0; 4]), e(GiveOwner, [0; 4])], other: vec![e(Read, d)], old: was, new: Object::default() } }
    }
}
#[no_mangle]
pub extern "C" fn hx_block_one() { chain(0, &[1], [&[0, 1, 2, 3, 4], &[0, 1, 2]], false) }
#[no_mangle]
pub extern "C" fn hx_block_pair() { chain(2, &[2, 3], [&[0, 2, 3, 4], &[1]], false) }
#[no_mangle]
pub extern "C" fn hx_block_split() { chain(2, &[1, 6], [&[1, 3, 4], &[0]], true) }
#[no_mangle]
pub extern "C" fn hx_block_deep() { chain(63, &[5, 1 << 63], [&[3], &[1]], false) }
/// An object that four programs of one transaction touch.
#[no_mangle]
pub extern "C" fn hx_block_wide() {
    let (txa, ma) = (aux(), AuxMatchesData::new(&CircuitConfig::default()));
    let mut acc = TransactionAccumulator::new(&txa);
    let mut m = Matches::new(&ma);
    let s = story(6, 1, 1, 0);
    let tx: Tx = (0..4).map(|k| (id(10 + k), s.other.clone())).collect();
    for i in 0..4 {
        let Some((key, done)) = ingest(&mut acc, &tx, i, [G(1); 4]) else { return rsx::check(false, 1) };
        m.ingest_events(key, &tx[i].0, &tx[i].1);
        if done { rsx::check(m.ready_tx(key).is_ok(), 2); }
    }
    let Ok(t) = acc.finalize() else { return rsx::check(false, 3) };
    rsx::check(t.i.events == all_events(&[tx]), 4);
    let md = m.finalize(1, |_| (s.old, s.new));
    rsx::cover(1);
    rsx::check(t.i.events == Some(md.i.events), 5);
}
