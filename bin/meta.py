"""Source of properties.jsonl and MANIFEST.json (run bin/mkmeta.py after editing)."""
SYM = "bounded symbolic execution of the real code's LLVM IR + SMT (z3)"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=SYM, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

DEC = "The stable tests decode hand-picked words only"
prop("R01", "Instruction decoding follows RV32IM for every word at every address",
 "Every 32-bit word decodes, at every address, to exactly the operation, registers and immediate the RV32IM encoding assigns to it (branch and jump targets made absolute, immediate shifts expressed as multiply/divide by a power of two, fences, CSR accesses, ebreak and mret as no-ops), and every word outside that set is reported as undecodable together with its address and value.",
 ["inputs"], "all 2^32 words x all 2^32 addresses",
 DEC + "; 2^64 (word, address) pairs include rare field combinations no test list reaches.",
 ["runner/src/decode.rs", "runner/src/instruction.rs"], [("decode_instruction", "runner/src/decode.rs")],
 note="Complete for the function: every path of the decoder is explored and each assertion is decided over all inputs. Oracle: an independent decoder written from the ISA manual. Trusts rustc, the IR interpreter and z3.")
prop("R02", "Arithmetic and logic instructions compute the RV32IM result",
 "Executing any arithmetic, logic, shift, comparison, multiply or divide instruction from any machine state writes exactly the RV32IM result (including division by zero and signed overflow) to the destination register, leaves every other register and memory alone, keeps register zero at zero, advances the program counter by four and the clock by one, and reports the operands and result it used.",
 ["inputs", "programs"], "every operation, operand register, immediate and register content",
 "The interpreter is not executed by any stable test; operand corner cases (overflow, division by zero, shift amounts above 31, rd = x0) are a vanishing part of the input space.",
 ["runner/src/vm.rs", "runner/src/state.rs"], [("execute_instruction, mulh/div/rem helpers", "runner/src/vm.rs"), ("register_op", "runner/src/state.rs")],
 note="One step from an arbitrary state, all operands symbolic: by induction every arithmetic step of every run. Oracle: reference semantics written separately.")
prop("R03", "Control flow: branches, jumps, fetch, halting and the step record",
 "A branch or jump goes exactly where RV32IM sends it (jump targets with the low bit cleared, the return address written to the destination register), the machine executes only the instruction mapped at the current program counter and stops with an error on an unmapped or undecodable one, and a run's record is the complete chain of steps from the first state to the halted state.",
 ["inputs", "programs"], "every branch/jump instruction and state; runs of short programs",
 "No stable test runs the machine; wrap-around targets, aliasing of link and base register and every branch outcome need all register values.",
 ["runner/src/vm.rs", "runner/src/state.rs", "runner/src/code.rs"], [("branch_op, current_instruction", "runner/src/state.rs"), ("jalr, step", "runner/src/vm.rs")],
 note="Single steps cover every state; whole runs are bounded to five instructions.")
prop("R04", "Loads and stores: little-endian bytes, wrap-around, read-only protection",
 "A load returns the little-endian bytes at the addressed locations, sign- or zero-extended by its width, with addresses wrapping at 2^32 and unmapped bytes reading zero; a store changes exactly the addressed bytes, and a store that touches any read-only byte is refused.",
 ["inputs", "histories"], "every address, width, register content and memory content (few mapped bytes)",
 "No stable test touches memory; overlapping, wrapping, partly read-only accesses need address relations sampling never hits.",
 ["runner/src/vm.rs", "runner/src/state.rs"], [("memory_load, load_u8, store_u8", "runner/src/state.rs"), ("store, lb/lh/lw", "runner/src/vm.rs")],
 note="Memory holds at most three explicitly mapped bytes at arbitrary addresses (more adds no new address relation for a four-byte access beyond those explored).")
prop("R05", "Tape system calls deliver each tape's bytes in order, once, to the guest",
 "A tape read copies exactly the smaller of the requested and the remaining number of bytes, in order, into the guest's buffer and advances only that tape; the commitment and self-identity tapes are always read from their start; the prover is told the same tape, address and bytes; halt stops the machine without moving the program counter, a guest panic never continues, unknown calls only advance, and no system call changes a register.",
 ["inputs", "histories"], "every call number, buffer address, length, tape position and content (short tapes)",
 "No stable test performs a system call; short reads, wrapping buffers and read-only targets are corner cases over 2^96 register combinations.",
 ["runner/src/ecall.rs", "runner/src/state.rs"], [("ecall, ecall_read, ecall_halt", "runner/src/ecall.rs"), ("read_bytes", "runner/src/state.rs")],
 note="Tapes of at most three bytes, all positions; 32-byte tapes at three lengths.")
prop("R06", "The hash system call is the Poseidon2 sponge over the guest's bytes",
 "The hash system call absorbs the guest's bytes at the given address (wrapping at 2^32) eight at a time, writes the 32-byte digest to the output address, changes nothing else, records every sponge state for the prover, and refuses lengths that are zero or not a multiple of eight.",
 ["inputs"], "every address pair and content for inputs of one and two blocks",
 "The only existing test compares one string and is not among the stable ones; address wrap-around and overlap of input and output are never sampled.",
 ["runner/src/poseidon2.rs", "runner/src/ecall.rs"], [("ecall_poseidon2, hash_n_to_m_no_pad", "runner/src/poseidon2.rs")],
 note="The permutation is an uninterpreted function, so the claim is about the sponge, the addresses and the record, for any permutation.")
prop("R07", "Loading a program puts every byte, instruction and permission in place",
 "An accepted ELF file, word image or instruction list yields exactly the bytes its loadable segments describe (zero-filled to their size), in read-only memory when readable and not writable and in read-write memory when exactly readable and writable, the decoded instruction for every word of its executable segments, the stated entry point and the given tapes; everything else (wrong class, machine, type, misaligned or oversized entry point, missing segments, misaligned code, overlapping data) is refused.",
 ["inputs", "configurations"], "every header field, segment placement and content within small sizes",
 "Loading is never tested beyond one empty ELF; segment overlap, zero fill, flags and end-of-address-space placement combine over 2^200 header values.",
 ["runner/src/elf.rs", "runner/src/code.rs", "runner/src/state.rs"], [("parse_and_validate_elf, extract_elf_data", "runner/src/elf.rs"), ("Code::from", "runner/src/code.rs"), ("State::new", "runner/src/state.rs")],
 note="Sizes up to three bytes per segment, two segments, two data words; addresses, flags and contents unbounded.")

SDKW = "No stable test runs the SDK"
prop("S01", "SDK hashes, encodings and identifiers are the same on host and guest",
 "The byte hash (with and without padding), the two-to-one hash, the canonical form of an event and the owner check give on the host and on the guest exactly the stated function of the bytes: padding by a one byte and zeros to a multiple of eight, little-endian event encoding, unpadded lengths not a multiple of eight refused, an object accepted only for its constraint owner.",
 ["inputs"], "every message, digest, event and program identifier content",
 SDKW + ", and the guest half only compiles for the mozakvm target; agreement is needed for every byte string.",
 ["sdk/src/core/ecall.rs", "sdk/src/common/types/poseidon2hash.rs", "sdk/src/native/poseidon.rs", "sdk/src/mozakvm/poseidon.rs", "sdk/src/common/types/event.rs"],
 [("poseidon2_hash_with_pad, poseidon2_hash_no_pad", "sdk/src/native/poseidon.rs"), ("poseidon2_hash_with_pad, poseidon2_hash_no_pad", "sdk/src/mozakvm/poseidon.rs"), ("CanonicalEvent::from_event", "sdk/src/common/types/event.rs")],
 note="Host and guest sources are both executed and compared with an independent definition.")
prop("S02", "The commitment tree depends on addresses and leaves alone, on host and guest",
 "The root of a sorted list of addressed digests is that of the binary trie splitting at the highest differing address bit, digests at one address being paired off in order; a single leaf is its own root and no leaves give the zero digest; host and guest agree and it is computed for every list of addresses.",
 ["inputs"], "every sorted address list and digest content (few leaves)",
 SDKW + "; the trie's shape depends on relations between 64-bit addresses (equal, adjacent, differing in the top bit) that samples miss: a defect for addresses differing in bit 63 was found and fixed.",
 ["sdk/src/common/merkle.rs"], [("merkleize", "sdk/src/common/merkle.rs")],
 note="Compared with an independent recursive definition.")
prop("S03", "Events: every emitted event is committed to once, in canonical order",
 "Whatever tapes a guest run is given, it ends cleanly only if the events it emitted are exactly those on the event tape, each once, and the claimed commitment is the root over them; the events a program emits natively, ordered canonically by the tooling (by address as the commitment tree reads it, then type and value) with their emission positions as hints, are accepted again on the machine, and another program's events are not mixed in.",
 ["inputs", "histories"], "every event sequence, tape content, hint and commitment (few events)",
 SDKW + "; acceptance must hold against adversarial tapes and hints.",
 ["sdk/src/common/system.rs", "sdk/src/common/types/system_tape.rs", "sdk/src/mozakvm/eventtape.rs", "sdk/src/native/eventtape.rs", "cli/src/runner.rs"],
 [("emit", "sdk/src/mozakvm/eventtape.rs"), ("OrderedEvents", "sdk/src/native/eventtape.rs"), ("ensure_clean_shutdown", "sdk/src/common/system.rs"), ("raw_tapes_from_system_tape", "cli/src/runner.rs")],
 note="End to end: native recording, the tool's tape preparation, guest start-up and shutdown checks.")
prop("S04", "Cross-program calls: the machine accepts exactly the recorded calls",
 "A guest's send succeeds only for the very call next on the tape and yields its recorded return value without running the callee, a receive yields exactly the messages addressed to this program in order, and a run ends cleanly only with the tape consumed and the cast list commitment correct; natively, calls are recorded in the order made with caller, argument and final return value, whoever runs inside a call acts under the callee's identity and the caller's is restored afterwards, and every participant's replay is accepted.",
 ["inputs", "histories"], "every tape content and sequence of operations (short)",
 SDKW + "; forged tapes and nested calls need every content and interleaving of messages.",
 ["sdk/src/mozakvm/calltape.rs", "sdk/src/native/calltape.rs", "sdk/src/native/identity.rs", "sdk/src/common/system.rs", "cli/src/runner.rs"],
 [("send, receive", "sdk/src/mozakvm/calltape.rs"), ("send", "sdk/src/native/calltape.rs"), ("ensure_clean_shutdown", "sdk/src/common/system.rs")],
 note="A send following another program's nested messages is refused by the guest (a completeness limit, not claimed).")
prop("S05", "Guest input tapes: reads and seeks give the tape's bytes",
 "What a program writes natively to an input tape is what it reads on the machine: reads return consecutive pieces, at most what is left, leaving the rest of the buffer alone; after moving to a position inside the tape, reads continue from there; tapes do not mix.",
 ["inputs", "histories"], "every content, read length and position (short tapes)",
 SDKW + "; short reads and re-reads after a seek panicked until fixed.",
 ["sdk/src/mozakvm/inputtape.rs", "sdk/src/native/inputtape.rs", "sdk/src/common/system.rs", "cli/src/runner.rs"],
 [("Read, Seek for RandomAccessEcallTape", "sdk/src/mozakvm/inputtape.rs"), ("write", "sdk/src/native/inputtape.rs")],
 note="Seek from the end or past the end is not claimed.")
prop("S06", "The guest allocator hands out disjoint, aligned memory",
 "Each allocation is aligned as requested, lies after the program image and after everything handed out before, and wastes less than one alignment unit; whatever is allocated, zero-allocated, grown or released through the global allocator, memory in use keeps its contents and zeroed memory is zero.",
 ["inputs", "histories"], "every size below 2^32 and the listed alignments; every content, for short histories of heap operations",
 SDKW + "; alignment padding depends on the exact heap position.",
 ["sdk/src/core/alloc.rs"], [("alloc_aligned", "sdk/src/core/alloc.rs")],
 note="Two or three consecutive allocations from any heap position.")

ALG = "symbolic execution of the real constraint code to polynomials + SMT (z3, integers modulo the field's prime)"
CW = "No stable test builds the circuits crate; its own tests prove honest traces only, and honest traces cannot show that a dishonest prover is refused"
prop("C01", "Circuits: a CPU row can only be the program's instruction, done correctly",
 "Whatever values a prover puts in a row of the CPU, ADD or BLT tables, if the constraints and lookups hold then the row is the program's instruction at its program counter with that instruction's registers and immediate, and the value it writes, the next program counter, its memory access and its system call are those RV32IM prescribes for the operands it read.",
 ["inputs"], "every row of field elements, every instruction",
 CW + "; a missing or too weak constraint is invisible to every honest run. Over a dozen were found and repaired.",
 ["circuits/src/cpu/stark.rs", "circuits/src/cpu/columns.rs", "circuits/src/ops/add/stark.rs", "circuits/src/ops/blt_taken/stark.rs", "circuits/src/program/columns.rs"],
 [("generate_constraints of each operation", "circuits/src/cpu"), ("lookup_for_* functions", "circuits/src/cpu/columns.rs"), ("add, blt_taken", "circuits/src/ops")], technique=ALG,
 note="Row by row for every field value, so for traces of any length.")
prop("C02", "Circuits: a proven run is one run from the entry point to its halt",
 "The step records that CPU-like rows contribute form one chain: it starts at the program's entry point with the first clock value, each running clock value occurs once and leads to the next program counter the row computed, and once stopped the run stays stopped, which it is at the end; every row takes part in each lookup at most once.",
 ["inputs", "histories"], "every pair of adjacent rows",
 CW + ".",
 ["circuits/src/cpu_skeleton/stark.rs", "circuits/src/cpu_skeleton/columns.rs", "circuits/src/stark/mozak_stark.rs"],
 [("generate_constraints", "circuits/src/cpu_skeleton/stark.rs"), ("lookup tables", "circuits/src/stark/mozak_stark.rs")], technique=ALG, note="Two-row obligations.")
prop("C03", "Circuits: reads return the last value written",
 "In an accepted proof every register read returns the value last written to that register and every memory read the byte last written to that address (or its initial value), addresses and registers are initialised exactly once, accesses to one location come in time order, half and full words are their little-endian bytes at consecutive addresses modulo 2^32, and read-only bytes are never written.",
 ["inputs", "histories"], "every pair of adjacent rows",
 CW + "; consistency must hold for every forged ordering and value.",
 ["circuits/src/memory/stark.rs", "circuits/src/memory_halfword/stark.rs", "circuits/src/memory_fullword/stark.rs", "circuits/src/register/general/stark.rs", "circuits/src/memoryinit/stark.rs"],
 [("generate_constraints", "circuits/src/memory/stark.rs"), ("generate_constraints", "circuits/src/register/general/stark.rs"), ("lookup_for_cpu", "circuits/src/memory_fullword/columns.rs")], technique=ALG,
 note="Two-row obligations that make the table sorted by location and time with values carried over; the induction is in DESIGN.md.")
prop("C04", "Circuits: helper tables hold only true bitwise and range facts",
 "A row of the XOR table that can be looked up holds 32-bit words and their exclusive or, a row of the shift table a shift amount below 32 and its power of two, and a range check row a 32-bit word (or byte).",
 ["inputs"], "every row of field elements", CW + ".",
 ["circuits/src/xor/stark.rs", "circuits/src/bitshift/stark.rs", "circuits/src/rangecheck/columns.rs", "circuits/src/rangecheck_u8/stark.rs"],
 [("generate_constraints", "circuits/src/xor/stark.rs"), ("generate_constraints", "circuits/src/bitshift/stark.rs"), ("lookup", "circuits/src/rangecheck/columns.rs")], technique=ALG,
 note="One known finding: the limbs of range checked words are counted with a multiplicity the prover chooses.")
prop("C05", "Circuits: system calls move exactly the tape's and the sponge's bytes",
 "In an accepted proof a tape call writes exactly as many bytes as it claims to consecutive addresses from the buffer the guest named and at that call's clock, bytes are written only by calls, each kind of call is served by its own tape, commitment bytes written are the public ones at their index, and the hash call reads its input eight bytes at a time, carries the capacity, applies a permutation that is a function of its input and writes the digest's bytes to the named address.",
 ["inputs", "histories"], "every pair of adjacent rows",
 CW + "; several ways to write memory without a call were found and repaired.",
 ["circuits/src/storage_device/stark.rs", "circuits/src/storage_device/columns.rs", "circuits/src/poseidon2_sponge/stark.rs", "circuits/src/poseidon2/stark.rs", "circuits/src/poseidon2_output_bytes/stark.rs", "circuits/src/tape_commitments/stark.rs"],
 [("generate_constraints", "circuits/src/storage_device/stark.rs"), ("generate_constraints", "circuits/src/poseidon2_sponge/stark.rs"), ("generate_constraints", "circuits/src/poseidon2/stark.rs")], technique=ALG,
 note="Two-row obligations.")
prop("C06", "Circuits: the recursive verifier enforces the same constraints",
 "For every table the constraints the recursive circuit checks are the same polynomials, of the same kind, as those the native verifier checks, and none exceeds the degree the table declares.",
 ["inputs"], "every constraint of every table",
 CW + "; the two evaluators are separate code paths.",
 ["circuits/src/expr.rs", "circuits/src/cpu/stark.rs", "circuits/src/unstark.rs"], [("build_ext, build_packed", "circuits/src/expr.rs"), ("eval_packed_generic, eval_ext_circuit", "circuits/src/cpu/stark.rs")], technique=ALG,
 note="The polynomials are compared as expressions (identical expressions need no query).")

RCT = "the real circuit builders are run to record every constraint + SMT (z3, field elements modulo the prime, uninterpreted hashes) over all assignments"
RW = "No stable test builds the recproofs crate; its own tests prove selected examples and cannot show that no assignment outside them is accepted"
prop("P01", "Recursive proofs: only proofs of the intended circuits count",
 "Every circuit that takes other proofs as input verifies each of them with the verifier data of the intended circuit (its leaf circuit, its own branch circuit as named by the verifier data it carries in its public inputs, or the embedded circuit), both children carry the same verifier data as their parent, and an embedded proof's own recursion is bound to the circuit it claims.",
 ["inputs", "configurations"], "every assignment of every circuit's targets",
 RW + "; five embedded proofs were accepted with recursion over another circuit.",
 ["recproofs/src/subcircuits/unbounded.rs", "recproofs/src/circuits/merge/embed.rs", "recproofs/src/circuits/verify_program/core.rs", "recproofs/src/circuits/verify_tx/core.rs", "recproofs/src/circuits/verify_block/core.rs", "recproofs/src/circuits/match_delta.rs"],
 [("build_branch", "recproofs/src/subcircuits/unbounded.rs"), ("build_targets", "recproofs/src/circuits/verify_block/core.rs"), ("build_branch", "recproofs/src/circuits/merge/embed.rs")], technique=RCT,
 note="Per circuit, for every assignment; trees of any size by the induction in DESIGN.md.")
prop("P02", "Recursive proofs: event roots and tree merges are the trees they claim",
 "The event root circuits accept exactly the hash of the event (as the prover's hash and as the machine's hash of its canonical bytes) and the hashes of two children, or one child alone when marked partial, all of one owner; the merge circuits accept exactly the ordered merge of two sparse trees, where a side that is absent has the zero hash and adds nothing.",
 ["inputs", "histories"], "every assignment of every circuit's targets",
 RW + ".",
 ["recproofs/src/circuits/build_event_root.rs", "recproofs/src/circuits/merge.rs", "recproofs/src/circuits/merge/core.rs", "recproofs/src/subcircuits/unpruned.rs"],
 [("build_leaf, build_branch", "recproofs/src/circuits/merge/core.rs"), ("build_branch", "recproofs/src/subcircuits/unpruned.rs"), ("hash_or_forward, byte_wise_hash", "recproofs/src/lib.rs")], technique=RCT,
 note="Both directions: whatever is accepted meets the claim, and whatever meets the claim is accepted.")
prop("P03", "Recursive proofs: a state update changes exactly the summarized leaves",
 "The state update circuits accept an old and a new state root only if the two trees differ at most in leaves that are in the summary, each summarized leaf's hash binds its address in the tree with its old and new content, and absent parts have no address and no summary.",
 ["inputs", "histories"], "every assignment of every circuit's targets",
 RW + ".",
 ["recproofs/src/circuits/state_update.rs", "recproofs/src/subcircuits/summarized.rs", "recproofs/src/subcircuits/verify_address.rs", "recproofs/src/subcircuits/unpruned.rs"],
 [("LeafCircuit::new, BranchCircuit::new", "recproofs/src/circuits/state_update.rs"), ("build_branch", "recproofs/src/subcircuits/verify_address.rs"), ("build_branch", "recproofs/src/subcircuits/summarized.rs")], technique=RCT,
 note="Both directions, at the leaf and at two levels of branches (whose constraints are those of every level).")
prop("P04", "Recursive proofs: an object changes only as its events, by its owner, allow",
 "The events on one object accumulate into one delta (at most one write and one change of owner, agreeing values for repeated reads and ensures, credits added up), and the object's summarized change is that delta: data changes only by a write, reads saw the old data, writes and ensures give the new data, writes, credit moves and ownership changes are made by the old owner, ownership changes only at creation and deletion, balances change by the delta, and the update height is recorded.",
 ["inputs", "histories"], "every assignment of every circuit's targets",
 RW + "; a write, an ensure and a credit transfer escaped their checks and were repaired.",
 ["recproofs/src/circuits/accumulate_delta.rs", "recproofs/src/circuits/accumulate_delta/core.rs", "recproofs/src/circuits/match_delta.rs", "recproofs/src/circuits/match_delta/core.rs"],
 [("build_leaf, build_branch", "recproofs/src/circuits/accumulate_delta/core.rs"), ("LeafCircuit::new", "recproofs/src/circuits/match_delta.rs"), ("build_leaf", "recproofs/src/circuits/match_delta/core.rs")], technique=RCT,
 note="Both directions. One known finding: a balance is not range checked, so it can wrap below zero.")
prop("P05", "Recursive proofs: programs, transactions and blocks fit together",
 "A program is accepted with exactly the events its proof emitted, all owned by it; a transaction's programs share one call list and cast list, the cast list is the programs that ran, and its events are theirs merged; a block's transactions' events are the ones matched to object changes at its height, those changes are exactly the state update's summary, the update leads from the previous block's state to this one's, and heights count up from the base state.",
 ["inputs", "histories"], "every assignment of every circuit's targets",
 RW + ".",
 ["recproofs/src/circuits/verify_program.rs", "recproofs/src/circuits/verify_program/core.rs", "recproofs/src/circuits/verify_tx.rs", "recproofs/src/circuits/verify_block.rs", "recproofs/src/circuits/verify_block/core.rs"],
 [("LeafCircuit::new, BranchCircuit::new", "recproofs/src/circuits/verify_program.rs"), ("LeafCircuit::new", "recproofs/src/circuits/verify_tx.rs"), ("BranchCircuit::new", "recproofs/src/circuits/verify_block.rs")], technique=RCT,
 note="Both directions.")
NW = "The proposer's tests need the real prover and are not among the stable ones; they sample a few shapes of trees, casts and events"
prop("N01", "Block proposer: addresses and reductions are those of one binary tree",
 "The relation, the lowest common ancestor, the parents, the children and the path of any two nodes of the 64-bit address tree are the true ones, and reducing a list, or items with addresses, applies the merge in exactly the shape of the tree the circuits and merkleize use: groups of equal addresses first, in order, then neighbours upwards.",
 ["inputs"], "every pair of tree nodes; every content of the reduced items",
 NW + "; address pairs number 2^128 and the failures are at the ends of the word.",
 ["node/src/block_proposer.rs"],
 [("BranchAddress::compare, common_ancestor", "node/src/block_proposer.rs"), ("AddressPath", "node/src/block_proposer.rs"), ("reduce_tree, reduce_tree_by_address", "node/src/block_proposer.rs")],
 note="Address arithmetic is complete; reductions are bounded. Two defects at the ends of the word were repaired.")
prop("N02", "Block proposer: the state tree is exactly the objects put into it",
 "After any operations, the proof the state holds is for the old tree, the new tree and the summary of exactly the objects read, created, changed and deleted since the last finalization; looking an object up gives its old and new content; finalizing makes the new tree the old one with nothing summarized, and every proof it makes is one the circuits accept.",
 ["inputs", "histories"], "operation histories over objects of every content",
 NW + "; the result depends on the order of operations on neighbouring objects, on deletions and on what an earlier round left behind.",
 ["node/src/block_proposer/state.rs", "node/src/block_proposer.rs"],
 [("State::apply_operation, get_state, finalize", "node/src/block_proposer/state.rs"), ("Operation", "node/src/block_proposer/state.rs")],
 note="Oracle: an independent account of the objects and its tree. A defect (stale proofs after a deletion) was repaired.")
prop("N03", "Block proposer: matches prove every object's change from its events",
 "The matches of a block are made of exactly the events of the transactions that are ready, each object with its state before and after, under the block's height: the proof's events are the tree over addresses of what each transaction says of the object, in the order they became ready, its state changes are the tree of the objects' summaries, and transactions that are not ready are kept for a later block.",
 ["inputs", "histories"], "every content of objects and events; orders of transactions",
 NW + "; whether a match can be made depends on who says what about the object and on the heights.",
 ["node/src/block_proposer/matches.rs", "node/src/block_proposer.rs"],
 [("Matches::ingest_events, ready_tx, finalize", "node/src/block_proposer/matches.rs"), ("reduce_tree", "node/src/block_proposer.rs")],
 note="Oracle: an independent account of events and objects. Two defects were repaired.")
prop("N04", "Block proposer: transactions complete from their programs, in any order",
 "A program's proof is taken if and only if it is that of the named member of the cast list, for these events, calls and cast; a transaction completes exactly when the last member of its cast is in, whatever the order, and independently of other transactions in progress; the completed transactions' proof has exactly the events of all their programs in the tree over addresses, and finalizing leaves unfinished transactions in progress.",
 ["inputs", "histories", "schedules"], "casts, arrival orders, events of every value, forged inputs",
 NW + "; casts of some sizes, shared objects and interleavings need many combinations, several of which panicked.",
 ["node/src/block_proposer/transactions.rs", "node/src/block_proposer.rs"],
 [("TransactionAccumulator::ingest_program, finalize", "node/src/block_proposer/transactions.rs"), ("merge_events", "node/src/block_proposer/transactions.rs")],
 note="Oracle: an independent account of transactions. Four defects were repaired.")
prop("N05", "Block proposer: transactions, matches and state make a chain of blocks",
 "When transactions whose events agree with the objects' changes are ingested, the accumulator's, the matches' and the state's proofs fit together into a block: the block is accepted, has the next height, the chain keeps its base state and moves to the new one, and the same parts are not accepted twice.",
 ["inputs", "histories"], "chains of blocks over objects of every content",
 NW + "; whether three independently built trees agree depends on every address, cast and object history.",
 ["node/src/block_proposer/block.rs", "node/src/block_proposer/transactions.rs", "node/src/block_proposer/matches.rs", "node/src/block_proposer/state.rs"],
 [("Blocks::increment", "node/src/block_proposer/block.rs"), ("merge_events", "node/src/block_proposer/transactions.rs"), ("Matches::finalize", "node/src/block_proposer/matches.rs")],
 note="End to end. One known finding: an object that four programs of one transaction touch cannot be put into a block.")
