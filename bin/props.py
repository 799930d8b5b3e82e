"""What each property's check runs. tier: 'quick' jobs run always, 'thorough' only there."""
def R(h, **k): return dict(g="runner", h=h, **k)

def A(h, **k): return dict(g="air", h=h, **k)
def C(h, **k): return dict(g="rec", h=h, **k)

OPS = "SUB SRL SRA SLL SLT SLTU LB LH LW LBU LHU XOR JALR BEQ BNE BLT BLTU BGE BGEU AND OR SW SH SB MUL MULH MULHU MULHSU DIV DIVU REM REMU ECALL".split()
TABLES = "Cpu RangeCheck Xor Bitshift Program ProgramMult Memory ElfMemoryInit MemoryZeroInit RangeCheckU8 HalfWordMemory FullWordMemory StorageDevicePrivate StorageDevicePublic CallTape EventTape EventsCommitmentTape CastListCommitmentTape SelfProgIdTape RegisterInit Register RegisterZeroRead RegisterZeroWrite Poseidon2 Poseidon2Sponge Poseidon2OutputBytes CpuSkeleton Add BltTaken TapeCommitments".split()
STORES = "StorageDevicePrivate StorageDevicePublic CallTape EventTape EventsCommitmentTape CastListCommitmentTape SelfProgIdTape".split()

def S(h, **k): return dict(g="sdk", h=h, **k)

RUST = "rustc nightly-2024-04-24 (the repository's pin) compiles /repo's source to LLVM IR at opt-level 1 and opt -O1 keeps its meaning; /verif/engine interprets that IR; z3 5.3 decides"
MAPS = "im::HashMap/HashSet and std HashMap/HashSet behave as maps and sets (association-list stand-ins; iteration order = insertion order)"
LOGS = "log/env_logger calls have no effect on the machine; message texts are outside the claim"
FIELD = "Goldilocks field elements and the byte layout of a digest are those of the stand-in plonky2 (canonical u64, little-endian bytes)"
PERM = "the Poseidon2 permutation is an uninterpreted function with canonical outputs"

GUEST = "the guest side is /repo/sdk compiled for a 64-bit host with target_os = mozakvm made true and the ecall instruction replaced by a model of the system calls (pointer width 64 instead of 32)"
ARCH = "rkyv archives decode to what was archived (stand-in); the order of BTreeMap/BTreeSet is that of Ord"

AIR = "the constraint code of /repo/circuits runs over symbolic field elements (stand-in plonky2/starky); the resulting polynomials are decided by z3 as integer arithmetic modulo 2^64 - 2^32 + 1"
STARK = "proof system: an accepted proof means the constraints hold on every row and every lookup balances (FRI, transcript and LogUp soundness are not part of the claim)"
GLUE = "the step from rows and row pairs to whole tables (induction over rows, matching of tuples) is the argument written in DESIGN.md"
ROWS = "every assignment of field elements to the columns of a row, or of two adjacent rows; no bound on values"

REC = "the builder code of /repo/recproofs is run against a recording stand-in for plonky2 (the same 348 unit tests pass against it); the recorded constraints are decided by z3 over field elements modulo 2^64 - 2^32 + 1"
IDEAL = "proof system: a verified inner proof means its circuit's constraints hold for its public inputs (FRI and Fiat-Shamir are not part of the claim); hashes are uninterpreted functions"
TREE = "the step from one circuit to whole trees of proofs is the induction written in DESIGN.md"
CIRC = "every assignment of field elements to every target of each circuit, at Merkle cap heights 0 and 1; no bound on values or on the size of the tree"
CIRCUITS = "merge_leaf merge_branch event_root_leaf event_root_branch accumulate_leaf accumulate_branch match_leaf match_branch state_leaf state_branch1 state_branch2 program_leaf program_branch tx_leaf tx_branch block".split()

def N(h, **k): return dict(g="node", h=h, **k)

PROOFS = "proofs are ideal (crates/recmodel): a circuit's prove succeeds exactly when the relation P01 to P05 establish for it holds, and a proof stands for its public inputs"
NODE = "/repo/node/src/block_proposer.rs and its modules are compiled as they are; the serialized SDK types and the hash maps are stand-ins"
CASTORD = "programs are handed in within a transaction in any order the harness names; their cast list is strictly ascending"

PROPS = {
 "R01": dict(jobs=[R("hx_decode")],
  bounds="every 32-bit word at every 32-bit pc; no bound", assumptions=[RUST]),
 "R02": dict(jobs=[R("hx_alu")],
  bounds="one instruction, every operand register, immediate, register content, pc and clock; no bound", assumptions=[RUST, MAPS, LOGS]),
 "R03": dict(jobs=[R("hx_branch"), R("hx_jalr"), R("hx_fetch"), R("hx_run", covers=[1, 2], split=2), R("hx_run_long"), R("hx_execute_list")],
  bounds="one instruction from every state; whole runs of at most 5 instructions with forward branches from every clock value; one loop of 107 steps with stores and loads; code map of at most 3 entries at arbitrary addresses", assumptions=[RUST, MAPS, LOGS]),
 "R04": dict(jobs=[R("hx_load", split=8), R("hx_store", split=8), R("hx_store_then_load", split=4), R("hx_load_word")],
  bounds="one load or store (or one of each) at every address; memories with at most 3 mapped bytes (2 for stores) and 2 read-only bytes at arbitrary addresses; stores use 4 register pairings", assumptions=[RUST, MAPS, LOGS]),
 "R05": dict(jobs=[R("hx_ecall_tape", split=8), R("hx_ecall_fixed", split=8), R("hx_tape_pieces"), R("hx_ecall_unknown"), R("hx_ecall_halt"), R("hx_ecall_panic"), R("hx_ecall_trace"), R("hx_tape_long"), R("hx_ecall_tape_long", split=4)],
  bounds="one system call from every register state; tapes of at most 3 bytes at every read position, every requested length and buffer address; tapes of 255, 256, 257, 300 and 513 bytes (300 for whole calls) at selected positions and lengths; fixed 32-byte tapes read with lengths 0, 5 and >= 32; panic messages of at most 1 byte, trace messages of at most 2 ASCII bytes", assumptions=[RUST, MAPS, LOGS]),
 "R06": dict(jobs=[R("hx_ecall_poseidon2", split=4), R("hx_ecall_poseidon2_16", split=4), R("hx_ecall_poseidon2_len"), R("hx_ecall_poseidon2_24", split=8), R("hx_ecall_poseidon2_40", split=8), R("hx_ecall_poseidon2_overlap", split=8), R("hx_ecall_poseidon2_long"), R("hx_ecall_poseidon2_overlap_16", split=8, tier="thorough", budget=4000)],
  bounds="inputs of 8, 16, 24 and 40 bytes at every address (lengths up to 17 for the refusal); output anywhere for 8-byte inputs (16 bytes in the thorough tier), apart from the input for longer ones; 136 bytes at two address pairs with one free byte", assumptions=[RUST, MAPS, LOGS, FIELD, PERM]),
 "R07": dict(jobs=[R("hx_code_image", split=4), R("hx_word_image", split=8, covers=[1, 2]), R("hx_init_state"), R("hx_elf_header", covers=[1, 2]), R("hx_elf_data", split=8), R("hx_elf_data1", split=8), R("hx_elf_code", split=8, covers=[1, 2]), R("hx_elf_data_long"), R("hx_elf_many"), R("hx_code_image_long"), R("hx_word_image_3"), R("hx_init_state_long"),
                   R("hx_elf_data_deep", split=8, tier="thorough", budget=5000)],
  bounds="images of 2 bytes or 2 words at every address; at most 2 segments at every address, sizes up to 3, file of 4 bytes, every header field value; one segment of 300 bytes; 19 segments, one of them arbitrary; images of 40 code words, one of them free, and of 3 data words; memories of 2 read-only and 2 read-write bytes at every address, or of 40 each", assumptions=[RUST, MAPS, LOGS, "the elf crate parses header bytes as the ELF specification says (its result is taken as arbitrary)", "a segment does not run past 2^32"]),
 "S01": dict(jobs=[S("hx_hash_pad"), S("hx_hash_no_pad"), S("hx_hash_no_pad_refuse"), S("hx_two_to_one"), S("hx_canonical_event"), S("hx_digest_words"), S("hx_owner_check"), S("hx_hash_long")],
  bounds="messages of 0 to 24 bytes, every content; 13 longer lengths up to 257 bytes with two free bytes", assumptions=[RUST, GUEST, FIELD, PERM]),
 "S02": dict(jobs=[S("hx_merkle_0"), S("hx_merkle_1"), S("hx_merkle_2", split=4), S("hx_merkle_4", split=8), S("hx_merkle_5", split=8), S("hx_merkle_3", split=8), S("hx_merkle_6", split=8), S("hx_merkle_dense"), S("hx_merkle_same"), S("hx_merkle_sparse"), S("hx_merkle_8", split=8, tier="thorough", budget=4000)],
  bounds="up to 3 leaves at any sorted addresses; 4 to 6 leaves (8 in the thorough tier) whose neighbouring addresses first differ at one of the listed bits (both ends and the middle of the word) or are equal, all other bits arbitrary; 16 to 33 dense, 9 to 19 equal and 80 sparse fixed addresses with one free leaf", assumptions=[RUST, GUEST, FIELD, PERM]),
 "S03": dict(jobs=[S("hx_events_order_2", split=2), S("hx_events_order_3", split=8), S("hx_events_replay_2", split=4), S("hx_events_accepted_2", split=4), S("hx_event_needs_identity"),
                   S("hx_events_replay_3", split=8), S("hx_events_accepted_3", split=8), S("hx_events_order_many"), S("hx_events_replay_many"), S("hx_events_replay_11")],
  bounds="at most 3 events, arbitrary types (two types where there are 3 events), owners, data of at most one byte, two free address bytes, arbitrary hints and claimed commitment; runs of 7 and 11 events at fixed addresses in six orders", assumptions=[RUST, GUEST, ARCH, MAPS, FIELD, PERM]),
 "S04": dict(jobs=[S("hx_calls_ops", split=2), S("hx_calls_ops_3", split=4), S("hx_calls_shutdown", split=2), S("hx_calls_record"), S("hx_calls_replay"), S("hx_identity_nesting"), S("hx_write_needs_identity"),
                   S("hx_calls_shutdown_3", split=4), S("hx_calls_ops_many"), S("hx_calls_shutdown_many"), S("hx_calls_record_many")],
  bounds="call tapes of at most 3 messages with arbitrary parties, arguments and return values; 3 guest operations; native runs of three calls, one nested; tapes of up to 10 messages between fixed parties with free contents; native runs of 14 calls in a tree and 7 in a chain", assumptions=[RUST, GUEST, ARCH, MAPS, FIELD, PERM]),
 "S05": dict(jobs=[S("hx_tape_reads", split=2), S("hx_tape_reads_4", split=8), S("hx_tape_seek", split=2), S("hx_tape_long", split=4)],
  bounds="tapes of at most 4 bytes, three reads of every length, two seeks to every position inside the tape; tapes of 255 to 300 bytes in two reads", assumptions=[RUST, GUEST, ARCH, MAPS, "seeking relative to the end or past the last byte is outside the claim"]),
 "S06": dict(jobs=[S("hx_alloc", split=2), S("hx_alloc_2", split=8), S("hx_alloc_many", split=2), S("hx_heap_use"), S("hx_alloc_3", split=8, tier="thorough", budget=4000)],
  bounds="three consecutive allocations (four in the thorough tier) of any size below 2^32, alignments 1 to 16 and 4096; 16 allocations from any heap position; histories of 4 heap operations (alloc, alloc_zeroed, dealloc, realloc) with sizes 3 and 8 and every content", assumptions=[RUST, GUEST, "the heap does not reach the end of the address space"]),
 "C01": dict(jobs=[A("cpu_decode_" + o) for o in OPS] + [A("cpu_step_" + o) for o in OPS] + [A("t_selectors_" + o) for o in OPS if o != "ECALL"] + [A("t_cpu_filters"), A("t_cpu_dummy"), A("t_add"), A("t_blt"), A("t_program")],
  bounds=ROWS + "; operands are 32-bit words and registers 0 to 31 (inductively, by the register and memory tables)", assumptions=[AIR, STARK, GLUE, "immediate or second register is zero where the decoder makes it so (proved for decoding by R01)"]),
 "C02": dict(jobs=[A("t_skeleton"), A("t_filters")], bounds=ROWS, assumptions=[AIR, STARK, GLUE]),
 "C03": dict(jobs=[A("t_memory"), A("t_memory_init"), A("t_half"), A("t_full"), A("t_register")], bounds=ROWS, assumptions=[AIR, STARK, GLUE, "the initial registers and the program's memory image are given"]),
 "C04": dict(jobs=[A("t_xor"), A("t_bitshift"), A("t_rangechecks")], bounds=ROWS, assumptions=[AIR, STARK, GLUE]),
 "C05": dict(jobs=[A("t_store_" + t) for t in STORES] + [A("t_ecall_numbers"), A("t_commitments"), A("t_sponge"), A("t_poseidon2"), A("cpu_decode_ECALL"), A("cpu_step_ECALL")], bounds=ROWS + "; buffer addresses are 32-bit words", assumptions=[AIR, STARK, GLUE, "the round constants and matrices are those the plonky2 dependency supplies"]),
 "C06": dict(jobs=[A("t_circuit_" + t) for t in TABLES], bounds="every constraint of every table; no bound", assumptions=[AIR, "the recursive verifier's generic parts (FRI, permutation arguments) are the dependency's"]),
 "P01": dict(jobs=[C("bind_" + c) for c in CIRCUITS], bounds=CIRC, assumptions=[REC, IDEAL, TREE, "whoever checks a final proof compares its public verifier data with the circuit's"]),
 "P02": dict(jobs=[C("rec_" + c) for c in "merge_leaf merge_branch event_root_leaf event_root_branch".split()], bounds=CIRC, assumptions=[REC, IDEAL, TREE]),
 "P03": dict(jobs=[C("rec_" + c) for c in "state_leaf state_branch1 state_branch2".split()], bounds=CIRC, assumptions=[REC, IDEAL, TREE]),
 "P04": dict(jobs=[C("rec_" + c) for c in "accumulate_leaf accumulate_branch match_leaf match_credits match_branch".split()], bounds=CIRC + "; balances below 2^63 and deltas below 2^62 for the claim about amounts", assumptions=[REC, IDEAL, TREE]),
 "P05": dict(jobs=[C("rec_" + c) for c in "program_leaf program_branch tx_leaf tx_branch block".split()], bounds=CIRC, assumptions=[REC, IDEAL, TREE, "a program's proof really is that program's: the circuits do not tie the verifier data of a program's proof to its identifier"]),
 "N01": dict(jobs=[N("hx_addr_compare"), N("hx_addr_ancestor", split=8), N("hx_addr_family", covers=[1, 2, 3]), N("hx_addr_path"), N("hx_reduce_tree"), N("hx_reduce_two"), N("hx_reduce_many")],
  bounds="every pair of nodes of the 64-bit tree; paths of 0 to 64 bits of every address; reductions of up to 19 items, of two groups of at most 2 items whose addresses differ first in one of five bits and are otherwise arbitrary, and of 7 items at five fixed spreads; every item's content", assumptions=[RUST, NODE]),
 "N02": dict(jobs=[N("hx_state_single", split=8), N("hx_state_pairs", split=8), N("hx_state_tree", split=8), N("hx_state_deep", split=8), N("hx_state_sequence", split=8), N("hx_state_repeat", split=2)],
  bounds="trees of 1, 2, 3 and 64 levels over at most 4 addresses, any of them present at first with any content; two rounds of at most 4 operations each, every kind, object and order", assumptions=[RUST, NODE, PROOFS, FIELD]),
 "N03": dict(jobs=[N("hx_match_block", split=8), N("hx_match_shared", split=8)], bounds="at most 3 objects in 5 kinds of history with every content, at fixed addresses, one transaction each, finalized at once or in two parts in every order; one object in up to 4 transactions", assumptions=[RUST, NODE, PROOFS, FIELD, MAPS]),
 "N04": dict(jobs=[N("hx_tx_" + h, split=8) for h in "cast one two three spread block interleaved refused".split()],
  bounds="casts of at most 6 programs in every order (4 orders from 4 programs on), at most 3 addresses, at most 6 events of a program on an object, at most 4 transactions one after another and 3 interleaved; every event value and call list; 17 kinds of forged input", assumptions=[RUST, NODE, PROOFS, FIELD, MAPS, CASTORD]),
 "N05": dict(jobs=[N("hx_block_" + h, split=8) for h in "one pair split deep wide".split()],
  bounds="chains of 2 blocks over 1 or 2 objects in 5 kinds of history with every content, in one transaction or one each; trees of 1, 3 and 64 levels; one transaction of four programs on one object", assumptions=[RUST, NODE, PROOFS, FIELD, MAPS, CASTORD]),
}
