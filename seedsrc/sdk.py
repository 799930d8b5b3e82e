GH = '''#![allow(warnings)]
#[path = "../../hx/sdk/src/vm.rs"] mod vm;
use vm::*;
use mozak_sdk::common::types as nt;
use mozak_sdk_vm::common::types as vt;
fn refused(f: impl FnOnce()) -> bool { rsx::u8(); std::panic::set_hook(Box::new(|_| {})); std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
'''
GD = dict(deps=("sdkn", "sdkvm", "cli", "runner"), extra=dict(shims=["plonky2", "rkyv"], rsx=True, gen="sdk"))
seed("sdk-pad-whole-block", "S01", [("sdk/src/mozakvm/poseidon.rs", """    let mut padded_input = input.to_vec();
    padded_input.push(1);

    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);

    let mut output""", """    let mut padded_input = input.to_vec();
    if padded_input.is_empty() || padded_input.len() % RATE != 0 {
        padded_input.push(1);
    }

    padded_input.resize(padded_input.len().next_multiple_of(RATE), 0);

    let mut output""")], GH + '''fn main() {
  start(Start::default());
  let mk = |d: Vec<u8>| vt::CanonicalEvent::from_event(&vt::Event { type_: vt::EventType::Write, object: vt::StateObject { address: vt::StateAddress([0; 8]), constraint_owner: vid(id(1, 1)), data: d } }).value.inner();
  let nk = |d: Vec<u8>| nt::CanonicalEvent::from_event(&nt::Event { type_: nt::EventType::Write, object: nt::StateObject { address: nt::StateAddress([0; 8]), constraint_owner: nid(id(1, 1)), data: d } }).value.inner();
  for n in 0..20 { let d: Vec<u8> = (0..n).map(|x| x as u8 + 1).collect(); assert_eq!(mk(d.clone()), nk(d), "{n}"); }
}''', "object data whose length is a nonzero multiple of eight, hashed on the guest", "the guest skips the padding block, so host and guest disagree and 8-byte messages collide with their padded forms", **GD)
seed("sdk-merkle-next-height", "S02", [("sdk/src/common/merkle.rs", "            next_height_incr = next_height_incr.min(height_diff);\n", "            if height_incr > 0 || next_height_incr == u32::MAX {\n                next_height_incr = next_height_incr.min(height_diff);\n            }\n")],
 GH + '''fn main() {
  use mozak_sdk::common::merkle::merkleize;
  let l = |x: u8| nt::Poseidon2Hash([x; 32]);
  let t = nt::Poseidon2Hash::two_to_one;
  assert_eq!(merkleize(vec![(0, l(1)), (4, l(2)), (5, l(3))]), t(l(1), t(l(2), l(3))));
}''', "three distinct addresses where a later neighbouring pair is closer than the first pair", "leaves are combined at the height of the first pair, giving another tree", **GD)
seed("sdk-event-seen-fastpath", "S03", [("sdk/src/mozakvm/eventtape.rs", """        assert!(!self.seen[elem_idx]);
        self.seen[elem_idx] = true;
""", """        // events already in canonical position need no bookkeeping
        if elem_idx != self.index {
            assert!(!self.seen[elem_idx]);
            self.seen[elem_idx] = true;
        }
""")], GH + '''fn main() {
  let ev = |d: u8| vt::Event { type_: vt::EventType::Write, object: vt::StateObject { address: vt::StateAddress([d; 8]), constraint_owner: vid(id(1, 1)), data: vec![d] } };
  let (a, b) = (vt::CanonicalEvent::from_event(&{ start(Start::default()); ev(1) }), vt::CanonicalEvent::from_event(&ev(2)));
  // both emissions point at the first event of the tape
  start(Start { events: vec![vt::CanonicalOrderedTemporalHints(a, 0), vt::CanonicalOrderedTemporalHints(b, 0)], ..Start::default() });
  assert!(refused(|| { mozak_sdk_vm::event_emit(ev(1)); mozak_sdk_vm::event_emit(ev(1)); }), "an event was emitted twice in place of another");
}''', "a forged event tape whose hints point twice at one event", "a guest can emit one event twice and skip another that is still committed to", **GD)
seed("sdk-call-return-slot", "S04", [("sdk/src/native/calltape.rs", """        self.writer[inserted_idx].return_ =
            rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();
""", """        let return_ = rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();
        match self.writer.last_mut() {
            Some(last) if last.callee == recipient_program => last.return_ = return_,
            _ => self.writer[inserted_idx].return_ = return_,
        }
""")], GH + '''fn main() {
  // A calls itself through B: root -> A(1) -> B -> A(2)
  static mut A: [u8; 32] = [0; 32]; static mut B: [u8; 32] = [0; 32];
  unsafe { A = id(1, 1); B = id(2, 2); }
  let r: u32 = mozak_sdk::call_send(nid(unsafe { A }), 10u32, |x: u32| { let y: u32 = mozak_sdk::call_send(nid(unsafe { B }), x + 1, |x: u32| { let z: u32 = mozak_sdk::call_send(nid(unsafe { A }), x + 1, |x: u32| x + 100); z + 200 }); y + 400 });
  let t = mozak_sdk::rsx_access::tape();
  let rets: Vec<Vec<u8>> = t.call_tape.writer.iter().map(|m| m.return_.0.clone()).collect();
  assert!(rets.iter().all(|r| !r.is_empty()), "a recorded call has no return value");
  let v: Vec<u32> = rets.iter().map(|r| unsafe { rkyv::access_unchecked::<u32>(r).to_native() }).collect();
  assert_eq!((r, v), (712, vec![712, 312, 112]));
}''', "a call that, while being resolved, leads to another call of the same program", "the outer call's return value overwrites the inner call's and its own stays empty", **GD)
seed("sdk-cast-list-caller", "S04", [("sdk/src/mozakvm/calltape.rs", """                assert!(caller != self.self_prog_id);

                // Before accepting, make sure that caller was a part of castlist
                assert!(self.is_casted_actor(&caller));
""", """                assert!(caller != self.self_prog_id);

                // Before accepting, make sure that caller was a part of castlist
                assert!(self.index > 1 || self.is_casted_actor(&caller));
""")], GH + '''fn main() {
  let m = |c: [u8; 32], t: [u8; 32]| vt::CrossProgramCall { caller: vid(c), callee: vid(t), argument: vt::RawMessage(archive(&1u32)), return_: vt::RawMessage(archive(&2u32)) };
  let me = id(1, 1);
  // the second message comes from a program nobody called
  start(Start { me, calls: vec![m([0; 32], me), m(id(9, 9), me)], ..Start::default() });
  mozak_sdk_vm::call_receive::<u32, u32>().unwrap();
  assert!(refused(|| { mozak_sdk_vm::call_receive::<u32, u32>(); }), "accepted a message from outside the cast list");
}''', "a forged call tape whose second or later message comes from a program outside the cast list", "messages from programs that never ran are accepted", **GD)
seed("sdk-write-prefix", "S05", [("cli/src/runner.rs", """        &(u32::try_from(data.len()))
            .expect("length of data's max size shouldn't be more than u32")
            .to_le_bytes(),""", """        &(u32::try_from(len_prefix_bytes.capacity() - 4))
            .expect("length of data's max size shouldn't be more than u32")
            .to_le_bytes(),"""), ("cli/src/runner.rs", "    let mut len_prefix_bytes = Vec::with_capacity(data_len + 4);", "    let mut len_prefix_bytes = Vec::with_capacity((data_len + 4).max(8));")],
 GH + '''fn main() {
  let me = id(5, 1);
  mozak_sdk::add_identity(nid(me));
  mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &[7]);
  mozak_sdk::rm_identity();
  start_raw(cli_tapes(me));
  assert_eq!(mozak_sdk_vm::input_tape_len(&mozak_sdk_vm::InputTapeType::PublicTape), 1);
}''', "an input tape shorter than four bytes", "the guest is told the tape holds four bytes", **GD)
seed("sdk-seek-current", "S05", [("sdk/src/mozakvm/inputtape.rs", """                    self.read_offset = self.size_hint - 1;
                } else {
                    self.read_offset = usize::try_from(x).unwrap();""", """                    self.read_offset = self.size_hint - 1;
                } else if self.internal_buf.is_empty() || x > 0 {
                    self.read_offset = usize::try_from(x).unwrap();
                } else {
                    // rewinding: everything is buffered already
                    self.read_offset = self.internal_buf.len() - self.read_offset;""")],
 GH + '''fn main() {
  use std::io::{Read, Seek, SeekFrom};
  start(Start { public: vec![1, 2, 3, 4], ..Start::default() });
  mozak_sdk_vm::input_tape_len(&mozak_sdk_vm::InputTapeType::PublicTape);
  let mut t = vt::PublicInputTapeType::with_size_hint(4);
  let mut b = [0u8; 3];
  t.read(&mut b).unwrap();
  t.seek(SeekFrom::Start(1)).unwrap();
  t.read(&mut b[..1]).unwrap();
  assert_eq!(t.seek(SeekFrom::Start(0)).unwrap(), 0);
  t.read(&mut b[..1]).unwrap();
  assert_eq!(b[0], 1);
}''', "rewinding to the start after an earlier seek back", "the tape continues from a position other than the start", **GD)
seed("sdk-alloc-page", "S06", [("sdk/src/core/alloc.rs", "    let offset = heap_pos & (align - 1);\n    if offset != 0 {\n        heap_pos += align - offset;\n    }", "    let offset = heap_pos & (align - 1);\n    if offset != 0 {\n        // round up\n        heap_pos = (heap_pos + align) & !(align - 1) & !0xf | (heap_pos + align - offset) & 0xf;\n        heap_pos += if bytes == 0 { offset } else { 0 };\n    }")],
 GH + '''fn main() {
  let p = mozak_sdk_vm::rsx_access::alloc(3, 1);
  let q = mozak_sdk_vm::rsx_access::alloc(0, 8);
  assert_eq!(q % 8, 0);
}''', "a zero-sized allocation when the heap position is misaligned", "the returned pointer is not aligned", **GD)
