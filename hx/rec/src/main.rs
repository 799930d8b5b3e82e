//! Builds every recursive circuit of /repo/recproofs with the recording stand-in for plonky2 and
//! prints what was built: constraints, verified proofs and, by name, the targets the code itself
//! exposes (through its own public index structs). `eval FILE` replays assignments concretely.
use std::collections::{BTreeMap, HashMap};

use mozak_recproofs::circuits::*;
use mozak_recproofs::indices::*;
use mozak_recproofs::subcircuits::{propagate, summarized, unbounded, unpruned, verify_address};
use mozak_recproofs::test_utils::{C, CONFIG, D, F};
use plonky2::hash::hash_types::HashOutTarget;
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::{CircuitConfig, CircuitData, VerifierCircuitTarget};
use plonky2::rec::verifier_id;

trait Ts { fn ts(&self) -> Vec<Target>; }
impl Ts for Target { fn ts(&self) -> Vec<Target> { vec![*self] } }
impl Ts for BoolTarget { fn ts(&self) -> Vec<Target> { vec![self.target] } }
impl Ts for HashOutTarget { fn ts(&self) -> Vec<Target> { self.elements.to_vec() } }
impl<const N: usize> Ts for [Target; N] { fn ts(&self) -> Vec<Target> { self.to_vec() } }
impl Ts for VerifierCircuitTarget { fn ts(&self) -> Vec<Target> { self.circuit_digest.elements.into_iter().chain(self.constants_sigmas_cap.0.iter().flat_map(|h| h.elements)).collect() } }

type Cd = CircuitData<F, C, D>;
struct Dump { out: Vec<String> }
#[derive(Default)]
struct Names(BTreeMap<String, Vec<Target>>);
impl Names {
    fn put(&mut self, n: &str, t: impl Ts) -> &mut Self { assert!(self.0.insert(n.into(), t.ts()).is_none(), "{n}"); self }
}
fn num(t: &Target) -> i64 { match t { Target::Wire(i) => *i as i64, Target::VirtualTarget { index } => -1 - *index as i64 } }
fn nums(t: &[Target]) -> String { format!("[{}]", t.iter().map(|t| num(t).to_string()).collect::<Vec<_>>().join(",")) }
fn ids(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")) }
impl Dump {
    fn add(&mut self, name: &str, cd: &Cd, n: Names, same_layout: bool) {
        self.out.push(format!("{{\"name\":\"{name}\",\"id\":{},\"common\":{:?},\"same_layout\":{same_layout},\"names\":{{{}}},\"rec\":{}}}", ids(&verifier_id(&cd.verifier_only)), format!("{:?}", cd.common),
            n.0.iter().map(|(k, v)| format!("\"{k}\":{}", nums(v))).collect::<Vec<_>>().join(","), cd.rec.json()));
    }
}

// The public inputs of one proof, by the indices the code publishes for it
fn unb(n: &mut Names, p: &str, i: &unbounded::PublicIndices, pis: &[Target]) { n.put(&format!("{p}verifier"), i.verifier.get_target(pis)); }
fn unp(n: &mut Names, name: &str, i: &unpruned::PublicIndices, pis: &[Target]) { n.put(name, i.unpruned_hash.get_target(pis)); }
fn prop<const V: usize>(n: &mut Names, name: &str, i: &propagate::PublicIndices<V>, pis: &[Target]) { n.put(name, i.values.get_target(pis)); }
fn emb(n: &mut Names, p: &str, i: &merge::embed::PublicIndices, pis: &[Target]) { n.put(&format!("{p}events_present"), i.hash_present.get_target(pis)).put(&format!("{p}events"), i.hash.get_target(pis)); }
fn mrg(n: &mut Names, p: &str, i: &merge::core::PublicIndices, pis: &[Target]) {
    n.put(&format!("{p}a_present"), i.a_present.get_target(pis)).put(&format!("{p}a_hash"), i.a_hash.get_target(pis))
     .put(&format!("{p}b_present"), i.b_present.get_target(pis)).put(&format!("{p}b_hash"), i.b_hash.get_target(pis))
     .put(&format!("{p}merged_present"), i.merged_present.get_target(pis)).put(&format!("{p}merged_hash"), i.merged_hash.get_target(pis));
}
fn acc(n: &mut Names, p: &str, i: &accumulate_delta::core::PublicIndices, pis: &[Target]) {
    n.put(&format!("{p}address"), i.address.get_target(pis)).put(&format!("{p}object_flags"), i.object_flags.get_target(pis))
     .put(&format!("{p}old_owner"), i.old_owner.get_target(pis)).put(&format!("{p}new_owner"), i.new_owner.get_target(pis))
     .put(&format!("{p}old_data"), i.old_data.get_target(pis)).put(&format!("{p}new_data"), i.new_data.get_target(pis))
     .put(&format!("{p}credit_delta"), i.credit_delta.get_target(pis));
}
fn su(n: &mut Names, p: &str, s: &summarized::PublicIndices, o: &unpruned::PublicIndices, w: &unpruned::PublicIndices, a: &verify_address::PublicIndices, pis: &[Target]) {
    n.put(&format!("{p}summary_present"), s.summary_hash_present.get_target(pis)).put(&format!("{p}summary"), s.summary_hash.get_target(pis))
     .put(&format!("{p}old"), o.unpruned_hash.get_target(pis)).put(&format!("{p}new"), w.unpruned_hash.get_target(pis))
     .put(&format!("{p}address_present"), a.node_present.get_target(pis)).put(&format!("{p}address"), a.node_address.get_target(pis));
}

fn build(config: &CircuitConfig) -> Vec<String> {
    let mut d = Dump { out: vec![] };
    macro_rules! sides { ($n:ident, $b:expr, $pis:ident => $body:expr) => {{
        $n.put("left_is_leaf", $b.left_is_leaf).put("right_is_leaf", $b.right_is_leaf);
        for (p, $pis) in [("left.", &$b.left_proof.public_inputs), ("right.", &$b.right_proof.public_inputs)] { let f: &mut dyn FnMut(&mut Names, &str, &[Target]) = &mut $body; f(&mut $n, p, $pis) }
    }} }

    // merge
    let m_leaf = merge::LeafCircuit::<F, C, D>::new(config);
    let m_branch = merge::BranchCircuit::<F, C, D>::new(config, &m_leaf);
    let mut n = Names::default();
    let pis = &m_leaf.circuit.prover_only.public_inputs;
    unb(&mut n, "", &m_leaf.unbounded.indices, pis);
    mrg(&mut n, "", &m_leaf.merge.indices, pis);
    d.add("merge.leaf", &m_leaf.circuit, n, true);
    let mut n = Names::default();
    let pis = &m_branch.circuit.prover_only.public_inputs;
    unb(&mut n, "", &m_branch.unbounded.indices, pis);
    mrg(&mut n, "", &m_branch.merge.indices, pis);
    sides!(n, m_branch.unbounded.targets, pis => |n: &mut Names, p: &str, pis: &[Target]| { unb(n, p, &m_leaf.unbounded.indices, pis); mrg(n, p, &m_leaf.merge.indices, pis) });
    d.add("merge.branch", &m_branch.circuit, n, m_leaf.unbounded.indices == m_branch.unbounded.indices && m_leaf.merge.indices == m_branch.merge.indices);

    // build_event_root
    let e_leaf = build_event_root::LeafCircuit::<F, C, D>::new(config);
    let e_branch = build_event_root::BranchCircuit::<F, C, D>::new(config, &e_leaf);
    let mut n = Names::default();
    let pis = &e_leaf.circuit.prover_only.public_inputs;
    unb(&mut n, "", &e_leaf.unbounded.indices, pis);
    unp(&mut n, "hash", &e_leaf.hash.indices, pis);
    unp(&mut n, "vm_hash", &e_leaf.vm_hash.indices, pis);
    prop(&mut n, "owner", &e_leaf.event_owner.indices, pis);
    n.put("ty", e_leaf.targets.event_ty).put("address", e_leaf.targets.event_address).put("value", e_leaf.targets.event_value);
    d.add("event_root.leaf", &e_leaf.circuit, n, true);
    let mut n = Names::default();
    let pis = &e_branch.circuit.prover_only.public_inputs;
    unb(&mut n, "", &e_branch.unbounded.indices, pis);
    unp(&mut n, "hash", &e_branch.hash.indices, pis);
    unp(&mut n, "vm_hash", &e_branch.vm_hash.indices, pis);
    prop(&mut n, "owner", &e_branch.event_owner.indices, pis);
    n.put("partial", e_branch.hash.targets.extension.partial).put("partial2", e_branch.vm_hash.targets.extension.partial);
    sides!(n, e_branch.unbounded.targets, pis => |n: &mut Names, p: &str, pis: &[Target]| { unb(n, p, &e_leaf.unbounded.indices, pis); unp(n, &format!("{p}hash"), &e_leaf.hash.indices, pis); unp(n, &format!("{p}vm_hash"), &e_leaf.vm_hash.indices, pis); prop(n, &format!("{p}owner"), &e_leaf.event_owner.indices, pis) });
    d.add("event_root.branch", &e_branch.circuit, n, e_leaf.unbounded.indices == e_branch.unbounded.indices && e_leaf.hash.indices == e_branch.hash.indices && e_leaf.vm_hash.indices == e_branch.vm_hash.indices && e_leaf.event_owner.indices == e_branch.event_owner.indices);

    // accumulate_delta
    let a_leaf = accumulate_delta::LeafCircuit::<F, C, D>::new(config);
    let a_branch = accumulate_delta::BranchCircuit::<F, C, D>::new(config, &a_leaf);
    let mut n = Names::default();
    let pis = &a_leaf.circuit.prover_only.public_inputs;
    unb(&mut n, "", &a_leaf.unbounded.indices, pis);
    unp(&mut n, "event_hash", &a_leaf.event_hash.indices, pis);
    acc(&mut n, "", &a_leaf.partial_state.indices, pis);
    let t = &a_leaf.partial_state.targets;
    n.put("event_owner", t.event_owner).put("event_ty", t.event_ty).put("event_value", t.event_value);
    d.add("accumulate.leaf", &a_leaf.circuit, n, true);
    let mut n = Names::default();
    let pis = &a_branch.circuit.prover_only.public_inputs;
    unb(&mut n, "", &a_branch.unbounded.indices, pis);
    unp(&mut n, "event_hash", &a_branch.event_hash.indices, pis);
    acc(&mut n, "", &a_branch.partial_state.indices, pis);
    n.put("partial", a_branch.partial_state.targets.partial).put("partial2", a_branch.event_hash.targets.extension.partial);
    sides!(n, a_branch.unbounded.targets, pis => |n: &mut Names, p: &str, pis: &[Target]| { unb(n, p, &a_leaf.unbounded.indices, pis); unp(n, &format!("{p}event_hash"), &a_leaf.event_hash.indices, pis); acc(n, p, &a_leaf.partial_state.indices, pis) });
    d.add("accumulate.branch", &a_branch.circuit, n, a_leaf.unbounded.indices == a_branch.unbounded.indices && a_leaf.event_hash.indices == a_branch.event_hash.indices && a_leaf.partial_state.indices == a_branch.partial_state.indices);

    // match_delta
    let d_leaf = match_delta::LeafCircuit::<F, C, D>::new(config, &a_branch);
    let d_branch = match_delta::BranchCircuit::<F, C, D>::new(config, &d_leaf);
    let mut n = Names::default();
    let pis = &d_leaf.circuit.prover_only.public_inputs;
    unb(&mut n, "", &d_leaf.unbounded.indices, pis);
    unp(&mut n, "event_hash", &d_leaf.event_hash.indices, pis);
    unp(&mut n, "state_hash", &d_leaf.state_hash.indices, pis);
    prop(&mut n, "block_height", &d_leaf.block_height.indices, pis);
    let t = &d_leaf.compare_delta.targets;
    n.put("block_height_core", t.block_height).put("address", t.address).put("object_flags", t.object_flags).put("old_owner", t.old_owner).put("new_owner", t.new_owner).put("old_data", t.old_data).put("new_data", t.new_data).put("last_updated", t.last_updated).put("old_credits", t.old_credits).put("new_credits", t.new_credits);
    let pis = &d_leaf.targets.accumulate_event.public_inputs;
    unb(&mut n, "acc.", &a_branch.unbounded.indices, pis);
    unp(&mut n, "acc.event_hash", &a_branch.event_hash.indices, pis);
    acc(&mut n, "acc.", &a_branch.partial_state.indices, pis);
    d.add("match.leaf", &d_leaf.circuit, n, true);
    let mut n = Names::default();
    let pis = &d_branch.circuit.prover_only.public_inputs;
    unb(&mut n, "", &d_branch.unbounded.indices, pis);
    unp(&mut n, "event_hash", &d_branch.event_hash.indices, pis);
    unp(&mut n, "state_hash", &d_branch.state_hash.indices, pis);
    prop(&mut n, "block_height", &d_branch.block_height.indices, pis);
    n.put("partial", d_branch.event_hash.targets.extension.partial).put("partial2", d_branch.state_hash.targets.extension.partial);
    sides!(n, d_branch.unbounded.targets, pis => |n: &mut Names, p: &str, pis: &[Target]| { unb(n, p, &d_leaf.unbounded.indices, pis); unp(n, &format!("{p}event_hash"), &d_leaf.event_hash.indices, pis); unp(n, &format!("{p}state_hash"), &d_leaf.state_hash.indices, pis); prop(n, &format!("{p}block_height"), &d_leaf.block_height.indices, pis) });
    d.add("match.branch", &d_branch.circuit, n, d_leaf.unbounded.indices == d_branch.unbounded.indices && d_leaf.event_hash.indices == d_branch.event_hash.indices && d_leaf.state_hash.indices == d_branch.state_hash.indices && d_leaf.block_height.indices == d_branch.block_height.indices);

    // state_update
    let s_leaf = state_update::LeafCircuit::<F, C, D>::new(config);
    let s_b1 = state_update::BranchCircuit::<F, C, D>::from_leaf(config, &s_leaf);
    let s_b2 = state_update::BranchCircuit::<F, C, D>::from_branch(config, &s_b1);
    let mut n = Names::default();
    su(&mut n, "", &s_leaf.summarized.indices, &s_leaf.old.indices, &s_leaf.new.indices, &s_leaf.address.indices, &s_leaf.circuit.prover_only.public_inputs);
    d.add("state.leaf", &s_leaf.circuit, n, true);
    let li = (s_leaf.summarized.indices, s_leaf.old.indices, s_leaf.new.indices, s_leaf.address.indices);
    for (name, b) in [("state.branch1", &s_b1), ("state.branch2", &s_b2)] {
        let mut n = Names::default();
        su(&mut n, "", &b.summarized.indices, &b.old.indices, &b.new.indices, &b.address.indices, &b.circuit.prover_only.public_inputs);
        for (p, pis) in [("left.", &b.bounded.targets.left_proof.public_inputs), ("right.", &b.bounded.targets.right_proof.public_inputs)] { su(&mut n, p, &li.0, &li.1, &li.2, &li.3, pis) }
        d.add(name, &b.circuit, n, li == (b.summarized.indices, b.old.indices, b.new.indices, b.address.indices));
    }

    // verify_program, over a program circuit with all its public inputs free
    let mut b = CircuitBuilder::<F, D>::new(config.clone());
    let (h, p) = (b.add_virtual_target_arr::<4>(), b.add_virtual_bool_target_safe());
    let (r, c, l) = (b.add_virtual_hash(), b.add_virtual_target_arr::<4>(), b.add_virtual_hash());
    b.register_public_inputs(&h);
    b.register_public_input(p.target);
    b.register_public_inputs(&r.elements);
    b.register_public_inputs(&c);
    b.register_public_inputs(&l.elements);
    let program: Cd = b.build();
    let pis = &program.prover_only.public_inputs;
    let pi = verify_program::core::ProgramPublicIndices { program_hash: ArrayTargetIndex::new(pis, &h), events_present: BoolTargetIndex::new(pis, p), event_root: HashOutTargetIndex::new(pis, r), call_list: ArrayTargetIndex::new(pis, &c), cast_root: HashOutTargetIndex::new(pis, l) };
    let p_leaf = verify_program::LeafCircuit::<F, C, D>::new(config, &pi, &program.common, &e_branch);
    let p_branch = verify_program::BranchCircuit::<F, C, D>::new(config, &m_branch, &p_leaf);
    macro_rules! prog { ($n:expr, $p:expr, $c:expr, $pis:expr) => {{ unb($n, $p, &$c.unbounded.indices, $pis); unp($n, &format!("{}program_id", $p), &$c.program_id.indices, $pis); emb($n, $p, &$c.events.indices, $pis); prop($n, &format!("{}call_list", $p), &$c.call_list.indices, $pis); prop($n, &format!("{}cast_root", $p), &$c.cast_root.indices, $pis) }} }
    let mut n = Names::default();
    prog!(&mut n, "", p_leaf, &p_leaf.circuit.prover_only.public_inputs);
    let t = &p_leaf.program_verifier.targets;
    let pis = &t.program_proof.public_inputs;
    n.put("prog.program_hash", pi.program_hash.get_target(pis)).put("prog.events_present", pi.events_present.get_target(pis)).put("prog.event_root", pi.event_root.get_target(pis)).put("prog.call_list", pi.call_list.get_target(pis)).put("prog.cast_root", pi.cast_root.get_target(pis)).put("prog.by", t.program_verifier.clone());
    let pis = &p_leaf.event_verifier.targets.event_root_proof.public_inputs;
    unb(&mut n, "er.", &e_branch.unbounded.indices, pis);
    unp(&mut n, "er.hash", &e_branch.hash.indices, pis);
    unp(&mut n, "er.vm_hash", &e_branch.vm_hash.indices, pis);
    prop(&mut n, "er.owner", &e_branch.event_owner.indices, pis);
    n.put("er.present", p_leaf.event_verifier.targets.events_present);
    d.add("program.leaf", &p_leaf.circuit, n, true);
    let mut n = Names::default();
    prog!(&mut n, "", p_branch, &p_branch.circuit.prover_only.public_inputs);
    n.put("partial", p_branch.events.targets.partial).put("partial2", p_branch.program_id.targets.extension.partial);
    let pis = &p_branch.events.targets.proof.public_inputs;
    unb(&mut n, "merge.", &m_branch.unbounded.indices, pis);
    mrg(&mut n, "merge.", &m_branch.merge.indices, pis);
    sides!(n, p_branch.unbounded.targets, pis => |n: &mut Names, p: &str, pis: &[Target]| prog!(n, p, p_leaf, pis));
    d.add("program.branch", &p_branch.circuit, n, p_leaf.unbounded.indices == p_branch.unbounded.indices && p_leaf.program_id.indices == p_branch.program_id.indices && p_leaf.events.indices == p_branch.events.indices && p_leaf.call_list.indices == p_branch.call_list.indices && p_leaf.cast_root.indices == p_branch.cast_root.indices);

    // verify_tx
    let t_leaf = verify_tx::LeafCircuit::<F, C, D>::new(config, &p_branch);
    let t_branch = verify_tx::BranchCircuit::<F, C, D>::new(config, &m_branch, &t_leaf);
    let mut n = Names::default();
    let pis = &t_leaf.circuit.prover_only.public_inputs;
    unb(&mut n, "", &t_leaf.unbounded.indices, pis);
    emb(&mut n, "", &t_leaf.events.indices, pis);
    prog!(&mut n, "set.", p_branch, &t_leaf.program_verifier.targets.program_set_proof.public_inputs);
    d.add("tx.leaf", &t_leaf.circuit, n, true);
    let mut n = Names::default();
    let pis = &t_branch.circuit.prover_only.public_inputs;
    unb(&mut n, "", &t_branch.unbounded.indices, pis);
    emb(&mut n, "", &t_branch.events.indices, pis);
    n.put("partial", t_branch.events.targets.partial);
    let pis = &t_branch.events.targets.proof.public_inputs;
    unb(&mut n, "merge.", &m_branch.unbounded.indices, pis);
    mrg(&mut n, "merge.", &m_branch.merge.indices, pis);
    sides!(n, t_branch.unbounded.targets, pis => |n: &mut Names, p: &str, pis: &[Target]| { unb(n, p, &t_leaf.unbounded.indices, pis); emb(n, p, &t_leaf.events.indices, pis) });
    d.add("tx.branch", &t_branch.circuit, n, t_leaf.unbounded.indices == t_branch.unbounded.indices && t_leaf.events.indices == t_branch.events.indices);

    // verify_block
    let b = verify_block::Circuit::<F, C, D>::new(config, &t_branch, &d_branch, &s_b2);
    let mut n = Names::default();
    let i = &b.block.indices;
    for (p, pis) in [("", &b.circuit.prover_only.public_inputs), ("prev.", &b.block.prev_proof.public_inputs)] {
        n.put(&format!("{p}verifier"), i.verifier.get_target(pis)).put(&format!("{p}base"), i.base_state_root.get_target(pis)).put(&format!("{p}state"), i.state_root.get_target(pis)).put(&format!("{p}height"), i.block_height.get_target(pis));
    }
    let pis = &b.tx.targets.proof.public_inputs;
    unb(&mut n, "tx.", &t_branch.unbounded.indices, pis);
    emb(&mut n, "tx.", &t_branch.events.indices, pis);
    let pis = &b.match_delta.targets.proof.public_inputs;
    unb(&mut n, "md.", &d_branch.unbounded.indices, pis);
    unp(&mut n, "md.event_hash", &d_branch.event_hash.indices, pis);
    unp(&mut n, "md.state_hash", &d_branch.state_hash.indices, pis);
    prop(&mut n, "md.block_height", &d_branch.block_height.indices, pis);
    su(&mut n, "su.", &s_b2.summarized.indices, &s_b2.old.indices, &s_b2.new.indices, &s_b2.address.indices, &b.state_update.targets.proof.public_inputs);
    d.add("block", &b.circuit, n, true);
    let mut n = Names::default();
    n.put("verifier", i.verifier.get_target(&b.block.dummy.prover_only.public_inputs));
    d.add("block.dummy", &b.block.dummy, n, true);
    d.out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut config = CONFIG;
    config.fri_config.cap_height = a[2].parse().unwrap();
    let built = build(&config);
    match &a[1][..] {
        "dump" => {
            println!("{{\"named\":[{}],\"built\":[", built.join(",\n"));
            for (k, (id, r)) in plonky2::rec::BUILT.lock().unwrap().iter().enumerate() { println!("{}{{\"id\":{},\"rec\":{}}}", if k > 0 { "," } else { "" }, ids(id), r.json()) }
            println!("]}}");
        }
        // ID.. of a circuit, then lines `t VALUE` (targets) and `h OUT0..OUT3 IN..` (hashes):
        // prints the first constraint that fails, or `satisfied`
        "eval" => {
            let id: Vec<u64> = a[3].split(',').map(|x| x.parse().unwrap()).collect();
            let built = plonky2::rec::BUILT.lock().unwrap();
            let (_, r) = built.iter().find(|x| x.0 == id).expect("no such circuit");
            let (mut set, mut oracle) = (BTreeMap::new(), HashMap::new());
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let w: Vec<&str> = l.split_whitespace().collect();
                let v: Vec<u64> = w[1..].iter().map(|x| x.parse::<i128>().unwrap() as u64).collect();
                if w[0] == "h" { oracle.insert(v[4..].to_vec(), [v[0], v[1], v[2], v[3]]); }
                else { let t: i64 = w[0].parse().unwrap(); set.insert(if t < 0 { Target::VirtualTarget { index: (-1 - t) as usize } } else { Target::Wire(t as usize) }, v[0]); }
            }
            match r.solve(&set, &oracle) {
                Err(e) => println!("unsatisfied: {e}"),
                Ok(v) => println!("{}", r.broken(&v).map_or("satisfied".into(), |b| format!("unsatisfied: {b}"))),
            }
        }
        m => panic!("{m}"),
    }
}
