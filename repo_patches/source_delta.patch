From 4cf39a89302f5a44f0ff38f0bbe02a2a843a79bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 01/33] fix: let the POSEIDON2 ecall read inputs that wrap
 around the address space

Every other memory access of the VM, and this ecall's own record of the
addresses it used, wraps at 2^32; reading the input panicked on overflow.
---
 runner/src/poseidon2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
-- 
2.43.0


From cf152b443bd155991f59273d2ab0d44e08b6166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 02/33] fix: build program images that use the last bytes of
 the address space

The address iterators overflowed (or failed a conversion) one step past the
last byte they had to yield, so a word or segment ending at 0xffff_ffff
could not be loaded.
---
 runner/src/code.rs |  2 +-
 runner/src/elf.rs  | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/runner/src/code.rs b/runner/src/code.rs
index 8b57b3e..d779d9f 100644
--- a/runner/src/code.rs
+++ b/runner/src/code.rs
@@ -39,7 +39,7 @@ impl From<&HashMap<u32, u8>> for Code {
         fn load_u32(m: &HashMap<u32, u8>, addr: u32) -> u32 {
             const WORD_SIZE: usize = 4;
             let mut bytes = [0_u8; WORD_SIZE];
-            for (i, byte) in (addr..).zip(bytes.iter_mut()) {
+            for (i, byte) in (0..).map(|i| addr.wrapping_add(i)).zip(bytes.iter_mut()) {
                 *byte = m.get(&i).copied().unwrap_or_default();
             }
             u32::from_le_bytes(bytes)
diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..7f337dd 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -49,7 +49,11 @@ impl From<HashMap<u32, u32>> for Program {
         }
         let image: HashMap<u32, u8> = image
             .iter()
-            .flat_map(move |(k, v)| (*k..).zip(v.to_le_bytes()))
+            .flat_map(move |(k, v)| {
+                (0..)
+                    .map(move |i| k.wrapping_add(i))
+                    .zip(v.to_le_bytes())
+            })
             .collect::<HashMap<u32, u8>>();
         Self {
             entry_point: 0_u32,
@@ -81,9 +85,10 @@ impl From<HashMap<u32, u32>> for Data {
             image
                 .iter()
                 .flat_map(move |(k, v)| {
-                    (u64::from(*k)..)
-                        .map(|k| u32::try_from(k).unwrap())
+                    (0..)
+                        .map(|i| k.checked_add(i))
                         .zip(v.to_le_bytes())
+                        .map(|(k, v)| (k.expect("data past the end of memory"), v))
                 })
                 .collect(),
         )
@@ -209,7 +214,7 @@ impl Program {
 
                 let min_size = min(file_size, mem_size);
                 let max_size = max(file_size, mem_size);
-                Ok((vaddr..).zip(
+                Ok((0..).map(move |i| vaddr.wrapping_add(i)).zip(
                     chain!(&input[offset..][..min_size], repeat(&0u8))
                         .take(max_size)
                         .copied(),
-- 
2.43.0


From ba91abd8b00e2ce56993761ff8018d5cadc2c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 03/33] fix: merkleize addresses that differ in their top bit

---
 sdk/src/common/merkle.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..64a70ec 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -17,16 +17,21 @@ pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Ha
     hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
 }
 
+// Addresses that differ in their top bit only meet after a shift by all 64 bits
+fn shift_address(address: u64, height_incr: u32) -> u64 {
+    address.checked_shr(height_incr).unwrap_or(0)
+}
+
 // Merkles all the closest relatives once, returns the next merge increment
 fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u32 {
     let mut next_height_incr = u32::MAX;
 
     hashes.entries(.., |e| {
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = shift_address(left.0, height_incr);
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = shift_address(right.0, height_incr);
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +43,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = shift_address(right.0, height_incr);
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From db1360fd80de24b2c69c8da45bcb940ce6fdbc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 04/33] fix: let guest input tapes be read past their end and
 after seeking

---
 sdk/src/mozakvm/inputtape.rs | 55 ++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..68f4a75 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -34,38 +34,30 @@ impl std::io::Read for RandomAccessEcallTape {
             serviced_bytes = self.size_hint - self.read_offset;
         }
 
-        // In cases where `Seek` was used, we may be reading from
-        // `internal_buf` as we may have previously "consumed" those
-        // bytes already from the `ECALL` mechanism.
-        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
-        if serviced_bytes < populatable_from_internal_buf {
-            populatable_from_internal_buf = serviced_bytes;
+        // In cases where `Seek` was used, `internal_buf` may already hold
+        // some (or all) of the requested bytes, as we may have previously
+        // "consumed" those bytes from the `ECALL` mechanism; or it may end
+        // before `read_offset`, in which case the bytes skipped over have
+        // to be fetched as well.
+        let end = self.read_offset + serviced_bytes;
+        let old_len = self.internal_buf.len();
+        if end > old_len {
+            // These are the actual bytes we get from doing an `ECALL`
+            let remaining_from_ecall = end - old_len;
+            self.internal_buf.resize(end, 0);
+
+            // TODO: maybe move out this function into `ecall.rs` somehow?
+            unsafe {
+                core::arch::asm!(
+                    "ecall",
+                    in ("a0") self.ecall_id,
+                    in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
+                    in ("a2") remaining_from_ecall,
+                );
+            };
         }
 
-        // These are the actual bytes we get from doing an `ECALL`
-        let remaining_from_ecall = serviced_bytes - populatable_from_internal_buf;
-
-        // Populate partial buf from `internal_buf`
-        buf[..populatable_from_internal_buf].clone_from_slice(
-            &self.internal_buf
-                [self.read_offset..(self.read_offset + populatable_from_internal_buf)],
-        );
-
-        let old_len = self.internal_buf.len();
-        self.internal_buf.resize(old_len + remaining_from_ecall, 0);
-
-        // TODO: maybe move out this function into `ecall.rs` somehow?
-        unsafe {
-            core::arch::asm!(
-                "ecall",
-                in ("a0") self.ecall_id,
-                in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
-                in ("a2") remaining_from_ecall,
-            );
-        };
-
-        // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
+        buf[..serviced_bytes].clone_from_slice(&self.internal_buf[self.read_offset..end]);
         self.read_offset += serviced_bytes;
 
         Ok(serviced_bytes)
@@ -94,7 +86,8 @@ impl std::io::Seek for RandomAccessEcallTape {
                 {
                     self.read_offset = self.size_hint - 1;
                 } else {
-                    self.read_offset += usize::try_from(x).unwrap();
+                    self.read_offset =
+                        usize::try_from(x + i64::try_from(self.read_offset).unwrap()).unwrap();
                 }
             }
         }
-- 
2.43.0


From fe796d7a6636a3bfc8583c6cd19843f2dae6831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 05/33] fix: constrain the next program counter on the last CPU
 row and for system calls

---
 circuits/src/cpu/ecall.rs | 4 ++++
 circuits/src/cpu/jalr.rs  | 2 +-
 circuits/src/cpu/stark.rs | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 2bb38b3..5a10141 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -19,6 +19,10 @@ pub(crate) fn constraints<'a, P: Copy>(
     }
     cb.always(lv.inst.ops.ecall - ecalls.iter().sum::<Expr<'a, P>>());
     cb.always(lv.ecall_selectors.is_halt * (lv.op1_value - i64::from(ecall::HALT)));
+    // HALT stays on its own instruction, every other system call continues with the
+    // next one.
+    cb.always(lv.ecall_selectors.is_halt * (lv.new_pc - lv.inst.pc));
+    cb.always((lv.inst.ops.ecall - lv.ecall_selectors.is_halt) * (lv.new_pc - (lv.inst.pc + 4)));
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 2b31e23..e2dcc41 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -28,7 +28,7 @@ pub(crate) fn constraints<'a, P: Copy>(
 
     // Check: the wrapped op1, op2 sum is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
-    cb.transition(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
+    cb.always(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
 }
 
 #[cfg(test)]
diff --git a/circuits/src/cpu/stark.rs b/circuits/src/cpu/stark.rs
index d34744c..229bb64 100644
--- a/circuits/src/cpu/stark.rs
+++ b/circuits/src/cpu/stark.rs
@@ -34,7 +34,7 @@ impl<F, const D: usize> HasNamedColumns for CpuStark<F, D> {
 /// Ensure that if opcode is straight line, then program counter is incremented
 /// by 4.
 fn pc_ticks_up<'a, P: Copy>(lv: &CpuState<Expr<'a, P>>, cb: &mut ConstraintBuilder<Expr<'a, P>>) {
-    cb.transition(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
+    cb.always(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
 }
 
 /// Enforce that selectors of opcode are one-hot encoded.
-- 
2.43.0


From 28636f8500e0a157a0424faba0c23461448a3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 06/33] fix: constrain the cubes in the Poseidon2 S-boxes

---
 circuits/src/poseidon2/stark.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/circuits/src/poseidon2/stark.rs b/circuits/src/poseidon2/stark.rs
index 9d3f240..1994dc0 100644
--- a/circuits/src/poseidon2/stark.rs
+++ b/circuits/src/poseidon2/stark.rs
@@ -33,9 +33,13 @@ where
 }
 
 // degree: 3
-fn sbox_p<'a, V>(x: &mut Expr<'a, V>, x_qube: &Expr<'a, V>)
-where
+fn sbox_p<'a, V>(
+    x: &mut Expr<'a, V>,
+    x_qube: &Expr<'a, V>,
+    constraints: &mut ConstraintBuilder<Expr<'a, V>>,
+) where
     V: Copy, {
+    constraints.always(*x * *x * *x - *x_qube);
     *x *= *x_qube * *x_qube;
 }
 
@@ -152,6 +156,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
             sbox_p(
                 item,
                 &lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i],
+                &mut constraints,
             );
         }
         matmul_external12(&mut state);
@@ -164,7 +169,11 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     // partial rounds
     for i in 0..ROUNDS_P {
         state[0] += from_u64(<U as Poseidon2>::RC12_MID[i]);
-        sbox_p(&mut state[0], &lv.s_box_input_qube_partial_rounds[i]);
+        sbox_p(
+            &mut state[0],
+            &lv.s_box_input_qube_partial_rounds[i],
+            &mut constraints,
+        );
         matmul_internal12::<V, U, STATE_SIZE>(&mut state);
         constraints.always(state[0] - lv.state0_after_partial_rounds[i]);
         state[0] = lv.state0_after_partial_rounds[i];
@@ -184,6 +193,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
             sbox_p(
                 item,
                 &lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j],
+                &mut constraints,
             );
         }
         matmul_external12(&mut state);
-- 
2.43.0


From 06b18095cc41e62b27ff570e7e9ca1ac36b1d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 07/33] fix: constrain the values that stores write and LW
 reads

---
 circuits/src/cpu/columns.rs | 2 +-
 circuits/src/cpu/memory.rs  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..433357b 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -411,7 +411,7 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index a47622d..e501125 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -27,6 +27,10 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     // `mem_access_raw` in case `dst_sign_bit` is set
     cb.always(lv.inst.ops.lh * (lv.dst_value - (lv.mem_value_raw + lv.dst_sign_bit * 0xFFFF_0000)));
 
+    // LW and SW move full words unchanged.
+    cb.always(lv.inst.ops.lw * (lv.dst_value - lv.mem_value_raw));
+    cb.always(lv.inst.ops.sw * (lv.mem_value_raw - lv.op1_value));
+
     let and_gadget = and_gadget(&lv.xor);
     // SB/SH uses only least significant 8/16 bit from RS1 register.
     cb.always((lv.inst.ops.sb + lv.inst.ops.sh) * (and_gadget.input_a - lv.op1_value));
-- 
2.43.0


From afd9cfe73263f24686476cfc27835f370bb5f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 08/33] fix: constrain the CPU's signedness selectors to be
 bits

---
 circuits/src/cpu/signed_comparison.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/cpu/signed_comparison.rs b/circuits/src/cpu/signed_comparison.rs
index 6c4130b..e286f72 100644
--- a/circuits/src/cpu/signed_comparison.rs
+++ b/circuits/src/cpu/signed_comparison.rs
@@ -27,6 +27,10 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    // These select range checks, and are unpacked from the program's instruction.
+    cb.always(lv.inst.is_op1_signed.is_binary());
+    cb.always(lv.inst.is_op2_signed.is_binary());
+
     cb.always(lv.op1_sign_bit.is_binary());
     cb.always(lv.op2_sign_bit.is_binary());
 
-- 
2.43.0


From e4e21065a8728f24337847b6d5e69e5912db64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 09/33] fix: tie signed loads to the program and to the sign of
 the value read

---
 circuits/src/cpu/columns.rs     | 19 +++++++++++++++----
 circuits/src/cpu/memory.rs      |  4 +++-
 circuits/src/program/columns.rs |  4 ++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 433357b..c55968b 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -321,8 +321,18 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.op2_value - CPU.op2_sign_bit * (1 << 32) + CPU.inst.is_op2_signed * (1 << 31),
             CPU.inst.is_op2_signed,
         ),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_FF00, ops.lb),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_0000, ops.lh),
+        // The same for the sign bit of the byte or half word we load: we shift the (unsigned) value
+        // we read from memory to the top of a u32.
+        (
+            CPU.mem_value_raw * (1 << 24) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lb,
+        ),
+        (
+            CPU.mem_value_raw * (1 << 16) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lh,
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
@@ -439,7 +449,8 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
             // Combine columns into a single column.
             // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within 5
             //   bits.
-            // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+            // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each; the
+            //   latter two share a position.
             // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
             // - imm_value: This field requires 32 bits.
             // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than the
@@ -450,7 +461,7 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op2_signed + inst.is_dst_signed * 2,
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index e501125..cf2b68e 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -10,11 +10,13 @@ use crate::expr::ConstraintBuilder;
 
 /// Ensure that `dst_value` and `mem_value_raw` only differ
 /// in case of `LB` by `0xFFFF_FF00` and for `LH` by `0xFFFF_0000`. The
-/// correctness of value presented in `dst_sign_bit` is ensured via range-check
+/// correctness of value presented in `dst_sign_bit` is ensured via range-check,
+/// and `is_dst_signed` is part of the program's instruction.
 pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    cb.always(lv.inst.is_dst_signed.is_binary());
     cb.always(lv.dst_sign_bit.is_binary());
     // When dst is not signed as per instruction semantics, dst_sign_bit must be 0.
     cb.always((1 - lv.inst.is_dst_signed) * lv.dst_sign_bit);
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 52ddd76..38c1eb7 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -19,7 +19,7 @@ pub struct ProgramRom<T> {
     pub pc: T,
     /// `inst_data` include:
     /// - ops: This is an internal opcode, not the opcode from RISC-V
-    /// - `is_op1_signed` and `is_op2_signed`
+    /// - `is_op1_signed`, `is_op2_signed` and `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
     /// - `imm_value`
     pub inst_data: T,
@@ -42,7 +42,7 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
                 [
                     ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op2_signed + inst.is_dst_signed.double(),
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-- 
2.43.0


From bf14b7f66bbca4eceaf59eafb4d5174da4153f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 10/33] fix: range check the operands' difference for SLT and
 SLTU

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index c55968b..e802ca3 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -307,7 +307,7 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.remainder_slack, divs),
         (CPU.dst_value, ops.add + ops.sub + ops.jalr),
         (CPU.inst.pc, ops.jalr),
-        (CPU.abs_diff, ops.bge + ops.blt),
+        (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
         // apply range constraints for the sign bits of each operand
-- 
2.43.0


From 8974f16c2f54b40d2b15e458a629c18f771cbfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 11/33] fix: range check taken BLTU branches and constrain
 is_running of ADD and BLTU

---
 circuits/src/ops/add/stark.rs       |  2 +
 circuits/src/ops/blt_taken/stark.rs | 77 +++++++++++++++++++++++++++--
 circuits/src/stark/mozak_stark.rs   |  1 +
 3 files changed, 76 insertions(+), 4 deletions(-)

diff --git a/circuits/src/ops/add/stark.rs b/circuits/src/ops/add/stark.rs
index f4a19e9..27945f1 100644
--- a/circuits/src/ops/add/stark.rs
+++ b/circuits/src/ops/add/stark.rs
@@ -34,6 +34,8 @@ fn generate_constraints<'a, T: Copy, U>(
     let lv = vars.local_values;
     let mut constraints = ConstraintBuilder::default();
 
+    constraints.always(lv.is_running.is_binary());
+
     let added = lv.op1_value + lv.op2_value + lv.inst.imm_value;
     let wrapped = added - (1 << 32);
 
diff --git a/circuits/src/ops/blt_taken/stark.rs b/circuits/src/ops/blt_taken/stark.rs
index 15f6b8e..e5132cb 100644
--- a/circuits/src/ops/blt_taken/stark.rs
+++ b/circuits/src/ops/blt_taken/stark.rs
@@ -1,7 +1,76 @@
+use std::marker::PhantomData;
+
+use expr::{Expr, ExprBuilder, StarkFrameTyped};
+use mozak_circuits_derive::StarkNameDisplay;
+use plonky2::field::extension::{Extendable, FieldExtension};
+use plonky2::field::packed::PackedField;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::ext_target::ExtensionTarget;
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
+use starky::evaluation_frame::StarkFrame;
+use starky::stark::Stark;
+
 use super::columns::BltTaken;
-use crate::columns_view::NumberOfColumns;
-use crate::unstark::Unstark;
+use crate::columns_view::{HasNamedColumns, NumberOfColumns};
+use crate::expr::{build_ext, build_packed, ConstraintBuilder};
 
+#[derive(Copy, Clone, Default, StarkNameDisplay)]
 #[allow(clippy::module_name_repetitions)]
-pub type BltTakenStark<F, const D: usize> =
-    Unstark<F, D, BltTaken<F>, { BltTaken::<()>::NUMBER_OF_COLUMNS }>;
+pub struct BltTakenStark<F, const D: usize> {
+    pub _f: PhantomData<F>,
+}
+
+impl<F, const D: usize> HasNamedColumns for BltTakenStark<F, D> {
+    type Columns = BltTaken<F>;
+}
+
+const COLUMNS: usize = BltTaken::<()>::NUMBER_OF_COLUMNS;
+const PUBLIC_INPUTS: usize = 0;
+
+fn generate_constraints<'a, T: Copy, U>(
+    vars: &StarkFrameTyped<BltTaken<Expr<'a, T>>, Vec<U>>,
+) -> ConstraintBuilder<Expr<'a, T>> {
+    let lv = vars.local_values;
+    let mut constraints = ConstraintBuilder::default();
+
+    constraints.always(lv.is_running.is_binary());
+
+    constraints
+}
+
+impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for BltTakenStark<F, D> {
+    type EvaluationFrame<FE, P, const D2: usize> = StarkFrame<P, P::Scalar, COLUMNS, PUBLIC_INPUTS>
+
+  where
+      FE: FieldExtension<D2, BaseField = F>,
+      P: PackedField<Scalar = FE>;
+    type EvaluationFrameTarget =
+        StarkFrame<ExtensionTarget<D>, ExtensionTarget<D>, COLUMNS, PUBLIC_INPUTS>;
+
+    fn eval_packed_generic<FE, P, const D2: usize>(
+        &self,
+        vars: &Self::EvaluationFrame<FE, P, D2>,
+        constraint_consumer: &mut ConstraintConsumer<P>,
+    ) where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>, {
+        let expr_builder = ExprBuilder::default();
+        let vars = expr_builder.to_typed_starkframe(vars);
+        let constraints = generate_constraints(&vars);
+        build_packed(constraints, constraint_consumer);
+    }
+
+    fn eval_ext_circuit(
+        &self,
+        circuit_builder: &mut CircuitBuilder<F, D>,
+        vars: &Self::EvaluationFrameTarget,
+        constraint_consumer: &mut RecursiveConstraintConsumer<F, D>,
+    ) {
+        let expr_builder = ExprBuilder::default();
+        let constraints = generate_constraints(&expr_builder.to_typed_starkframe(vars));
+        build_ext(constraints, circuit_builder, constraint_consumer);
+    }
+
+    fn constraint_degree(&self) -> usize { 3 }
+}
diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 847534a..b32cd8b 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -708,6 +708,7 @@ impl Lookups for RangecheckTable {
             memory::columns::rangecheck_looking(),
             cpu::columns::rangecheck_looking(),
             ops::add::columns::rangecheck_looking(),
+            ops::blt_taken::columns::rangecheck_looking(),
             register,
         ]
         .collect();
-- 
2.43.0


From dd8b60d71fc1fd11e4c48159743664171f4ca775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 12/33] fix: take the event tape's address from the guest's
 register

---
 circuits/src/storage_device/columns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..1bfa94c 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,8 +8,9 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
-    StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable, StorageDevicePrivateTable, StorageDevicePublicTable, TableKind,
+    TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
 
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From 9923fe8ff683a09a768cade31d0c867663032958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 13/33] fix: tie the storage devices' memory writes to their
 system calls

---
 circuits/src/storage_device/stark.rs | 64 +++++++++++++++-------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 6ed9de2..906f535 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -37,42 +37,46 @@ fn generate_constraints<'a, T: Copy>(
     let nv = vars.next_values;
     let mut constraints = ConstraintBuilder::default();
 
-    constraints.always(lv.ops.is_memory_store.is_binary());
-    constraints.always(lv.ops.is_storage_device.is_binary());
+    let is_memory = lv.ops.is_memory_store;
+    let is_storage = lv.ops.is_storage_device;
+    let more_memory = lv.is_lv_and_nv_are_memory_rows;
+
+    constraints.always(is_memory.is_binary());
+    constraints.always(is_storage.is_binary());
     constraints.always(lv.is_executed().is_binary());
+    constraints.always(more_memory.is_binary());
+
+    // Memory rows only ever follow a storage device row, or another memory row that
+    // announces them.
+    constraints.first_row(is_memory);
+    constraints.transition(nv.ops.is_memory_store * (1 - more_memory - is_storage));
 
-    // If nv.is_storage_device() == 1: lv.size == 0, also forces the last row to be
-    // size == 0 ! This constraints ensures loop unrolling was done correctly
-    constraints.always(nv.ops.is_storage_device * lv.size);
-    // If lv.is_lv_and_nv_are_memory_rows == 1:
+    // If lv.is_lv_and_nv_are_memory_rows == 1, both rows are memory rows, and:
+    //    nv.clk == lv.clk
     //    nv.address == lv.address + 1 (wrapped)
     //    nv.size == lv.size - 1 (not-wrapped)
     let added = lv.addr + 1;
     let wrapped = added - (1 << 32);
-    // nv.address == lv.address + 1 (wrapped)
-    constraints.always(lv.is_lv_and_nv_are_memory_rows * (nv.addr - added) * (nv.addr - wrapped));
-    // nv.size == lv.size - 1 (not-wrapped)
-    constraints.transition(nv.is_lv_and_nv_are_memory_rows * (nv.size - (lv.size - 1)));
-    // Edge cases:
-    //  a) - storage_device with size = 0: <-- this case is solved since CTL from
-    // CPU        a.1) is_lv_and_nv_are_memory_rows = 0 (no memory rows
-    // inserted)  b) - storage_device with size = 1: <-- this case needs to be
-    // solved separately        b.1) is_lv_and_nv_are_memory_rows = 0 (only one
-    // memory row inserted) To solve case-b:
-    // If lv.is_storage_device() == 1 && lv.size != 0:
-    //      lv.addr == nv.addr       <-- next row address must be the same !!!
-    //      lv.size === nv.size - 1  <-- next row size is decreased
-    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.addr - lv.addr));
-    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.size - (lv.size - 1)));
-    // If lv.is_storage_device() == 1 && lv.size == 0:
-    //      nv.is_memory() == 0 <-- next op can be only io - since size == 0
-    // This one is ensured by:
-    //  1) is_binary(storage_device or memory)
-    //  2) if nv.is_storage_device() == 1: lv.size == 0
-
-    // If lv.is_storage_device() == 1 && nv.size != 0:
-    //      nv.is_lv_and_nv_are_memory_rows == 1
-    constraints.always(lv.ops.is_storage_device * nv.size * (nv.is_lv_and_nv_are_memory_rows - 1));
+    constraints.always(more_memory * (1 - is_memory));
+    constraints.last_row(more_memory);
+    constraints.transition(more_memory * (1 - nv.ops.is_memory_store));
+    constraints.transition(more_memory * (nv.clk - lv.clk));
+    constraints.transition(more_memory * (nv.addr - added) * (nv.addr - wrapped));
+    constraints.transition(more_memory * (nv.size - (lv.size - 1)));
+    // A memory row that's not followed by another one is the last of its access.
+    constraints.always((1 - more_memory) * is_memory * lv.size);
+
+    // If lv.is_storage_device() == 1 && lv.size != 0, a memory row follows, and:
+    //    nv.clk == lv.clk
+    //    nv.addr == lv.addr
+    //    nv.size == lv.size - 1
+    constraints.last_row(is_storage * lv.size);
+    constraints.transition(is_storage * lv.size * (1 - nv.ops.is_memory_store));
+    constraints.transition(is_storage * lv.size * (nv.clk - lv.clk));
+    constraints.transition(is_storage * lv.size * (nv.addr - lv.addr));
+    // If lv.is_storage_device() == 1 && lv.size == 0, no memory row follows.
+    // (Otherwise its size would have to be -1, and could never count down to 0.)
+    constraints.transition(is_storage * nv.ops.is_memory_store * (nv.size - (lv.size - 1)));
 
     constraints
 }
-- 
2.43.0


From 75e4a08561e54075f0011b70c6421b3453861b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 14/33] fix: compare the immediates of executed instructions on
 their own

---
 circuits/src/cpu/columns.rs       | 10 ++++------
 circuits/src/ops/add/mod.rs       | 11 ++++-------
 circuits/src/ops/blt_taken/mod.rs | 11 ++++-------
 circuits/src/program/columns.rs   |  6 ++++--
 4 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index e802ca3..d2f76b0 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -452,11 +452,9 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
             // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each; the
             //   latter two share a position.
             // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-            // - imm_value: This field requires 32 bits.
-            // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than the
-            // size of the Goldilocks field.
-            // Note: The imm_value field, having more than 5 bits, must be positioned as the last
-            // column in the list to ensure the correct functioning of 'reduce_with_powers'.
+            // Therefore, the total bit requirement is 5 * 6 = 30 bits.
+            // The imm_value field needs 32 bits, and has its own column: nothing else
+            // restricts it to that size for the instructions that don't use it.
             inst_data: ColumnWithTypedInput::reduce_with_powers(
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
@@ -465,10 +463,10 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-                    inst.imm_value,
                 ],
                 1 << 5,
             ),
+            imm_value: inst.imm_value,
         },
         CPU.is_running(),
     )
diff --git a/circuits/src/ops/add/mod.rs b/circuits/src/ops/add/mod.rs
index 2d9a71c..62eecdd 100644
--- a/circuits/src/ops/add/mod.rs
+++ b/circuits/src/ops/add/mod.rs
@@ -112,12 +112,9 @@ pub mod columns {
                 //   5 bits.
                 // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
+                // Therefore, the total bit requirement is 5 * 6 = 30 bits.
+                // The imm_value field needs 32 bits, and has its own column: nothing else
+                // restricts it to that size for every instruction.
                 inst_data: ColumnWithTypedInput::reduce_with_powers(
                     [
                         // TODO: don't hard-code ADD like this.
@@ -129,10 +126,10 @@ pub mod columns {
                         inst.rs1_selected,
                         inst.rs2_selected,
                         inst.rd_selected,
-                        inst.imm_value,
                     ],
                     1 << 5,
                 ),
+                imm_value: inst.imm_value,
             },
             ADD.is_running,
         )
diff --git a/circuits/src/ops/blt_taken/mod.rs b/circuits/src/ops/blt_taken/mod.rs
index 1b931a0..6803ce9 100644
--- a/circuits/src/ops/blt_taken/mod.rs
+++ b/circuits/src/ops/blt_taken/mod.rs
@@ -104,12 +104,9 @@ pub mod columns {
                 //   5 bits.
                 // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
+                // Therefore, the total bit requirement is 5 * 6 = 30 bits.
+                // The imm_value field needs 32 bits, and has its own column: nothing else
+                // restricts it to that size for every instruction.
                 inst_data: ColumnWithTypedInput::reduce_with_powers(
                     [
                         // TODO: don't hard-code BLTU like this.
@@ -121,10 +118,10 @@ pub mod columns {
                         inst.rs1_selected,
                         inst.rs2_selected,
                         ColumnWithTypedInput::constant(0),
-                        inst.imm_value,
                     ],
                     1 << 5,
                 ),
+                imm_value: inst.imm_value,
             },
             COL_MAP.is_running,
         )
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 38c1eb7..48b87e5 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -21,8 +21,10 @@ pub struct ProgramRom<T> {
     /// - ops: This is an internal opcode, not the opcode from RISC-V
     /// - `is_op1_signed`, `is_op2_signed` and `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
-    /// - `imm_value`
     pub inst_data: T,
+    /// The immediate value. It has a column of its own, because `inst_data` only
+    /// identifies fields that are known to be small.
+    pub imm_value: T,
 }
 
 impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
@@ -46,10 +48,10 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-                    inst.imm_value,
                 ],
                 1 << 5,
             ),
+            imm_value: inst.imm_value,
         }
     }
 }
-- 
2.43.0


From 32e0f57d947e599697f5912155a9f0e62cc92372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:24 +0000
Subject: [PATCH 15/33] fix: constrain the sign of quotients to be a bit

---
 circuits/src/cpu/div.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/cpu/div.rs b/circuits/src/cpu/div.rs
index 65a5468..b568f1d 100644
--- a/circuits/src/cpu/div.rs
+++ b/circuits/src/cpu/div.rs
@@ -50,6 +50,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     );
 
     // We also need to make sure quotient_sign and remainder_sign are set correctly.
+    cb.always(quotient_sign.is_binary());
     cb.always(remainder_sign.is_binary());
     cb.always(dividend_sign.is_binary());
 
-- 
2.43.0


From ed948abc1086f139abbfe4c3820b7da92d2244a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 16/33] fix: recognise the overflow of signed division when
 filling in its row

---
 circuits/src/cpu/generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..c44749b 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -276,7 +276,7 @@ fn generate_div_row<F: RichField>(row: &mut CpuState<F>, inst: &Instruction, aux
         row.quotient_value = from_u32(quotient_full_range as u32);
         row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
         row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
-        if dividend_full_range == -2 ^ 31 && divisor_full_range == -1 {
+        if dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1 {
             // Special case for dividend == -2^31, divisor == -1:
             // quotient_sign == 1 (quotient = -2^31).
             row.skip_check_quotient_sign = F::ONE;
-- 
2.43.0


From 0e87cc41fa97dac03781fb8ecf1ee6108167999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 17/33] fix: constrain how Poseidon2 sponges continue and end

---
 circuits/src/poseidon2_sponge/stark.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuits/src/poseidon2_sponge/stark.rs b/circuits/src/poseidon2_sponge/stark.rs
index e16fdc4..74dcea9 100644
--- a/circuits/src/poseidon2_sponge/stark.rs
+++ b/circuits/src/poseidon2_sponge/stark.rs
@@ -85,6 +85,14 @@ fn generate_constraints<'a, T: Copy>(
     // and input_addr increases by RATE
     constraints.transition(not_last_sponge * (lv.input_addr - (nv.input_addr - rate_scalar)));
 
+    // and it must continue the same sponge, all the way until there's an output.
+    constraints.transition(not_last_sponge * (1 - nv.ops.is_permute));
+    constraints.last_row(not_last_sponge);
+    // A sponge can only be continued, if it has started.
+    constraints.transition(nv.ops.is_permute * is_dummy);
+    // output_addr should not change within a sponge
+    constraints.transition(nv.ops.is_permute * (lv.output_addr - nv.output_addr));
+
     // For each init_permute capacity bits are zero.
     for i in rate..state_size {
         constraints.always(lv.ops.is_init_permute * (lv.preimage[i as usize] - 0));
-- 
2.43.0


From bbe2c3b5cefa0cf46a53175b5760093260040305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 18/33] fix: make the initial value of a register come before
 its other accesses

---
 circuits/src/register/general/stark.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuits/src/register/general/stark.rs b/circuits/src/register/general/stark.rs
index bb36756..e9ef839 100644
--- a/circuits/src/register/general/stark.rs
+++ b/circuits/src/register/general/stark.rs
@@ -40,6 +40,7 @@ const PUBLIC_INPUTS: usize = 0;
 /// 4) Address changes only when `nv.is_init` == 1.
 /// 5) Address either stays the same or increments by 1.
 /// 6) Addresses go from 1 to 31.  Address 0 is handled by `RegisterZeroStark`.
+/// 7) The rows of each address start with its initial value.
 ///
 /// For more details, refer to the [Notion
 /// document](https://www.notion.so/0xmozak/Register-File-STARK-62459d68aea648a0abf4e97aa0093ea2).
@@ -82,6 +83,12 @@ fn generate_constraints<'a, T: Copy>(
     constraints.first_row(lv.addr - 1);
     constraints.last_row(lv.addr - 31);
 
+    // Constraint 7: initial values come first.
+    // (There can be more than one of them per address, because of padding in the
+    // `RegisterInit` table.)
+    constraints.first_row(1 - lv.ops.is_init);
+    constraints.transition(nv.ops.is_init * (1 - lv.ops.is_init) * (nv.addr - lv.addr - 1));
+
     constraints
 }
 
-- 
2.43.0


From a7b2a80300d3d456bc275bc9d94e14253b8f9774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 19/33] fix: load only PT_LOAD segments of an ELF file

---
 runner/src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 7f337dd..cc3af15 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -205,6 +205,7 @@ impl Program {
     ) -> HashMap<u32, u8> {
         segments
             .iter()
+            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
             .map(|program_header| -> anyhow::Result<_> {
                 let file_size: usize = program_header.p_filesz.try_into()?;
-- 
2.43.0


From ed1a90e2069179097d9c4fbbb59d0cacb02f188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 20/33] fix: match_delta: a write is made by the object's old
 owner

---
 recproofs/src/circuits/match_delta.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 4b29dee..f2f3fce 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -187,10 +187,12 @@ where
                 .indices
                 .old_owner
                 .get_target(&targets.accumulate_event.public_inputs);
+            // Writes, just like ownership changes, are made by the old owner
+            let has_old_owner = builder.or(acc_flags.write, has_owner);
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-                has_owner,
+                has_old_owner,
                 acc_old_owner,
             );
         }
-- 
2.43.0


From 454899547d6d2315071e9314cce3e14c4bcc2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 21/33] fix: match_delta: an ensured value is the object's new
 data

---
 recproofs/src/circuits/match_delta.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index f2f3fce..b440496 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -231,10 +231,12 @@ where
                 .indices
                 .new_data
                 .get_target(&targets.accumulate_event.public_inputs);
+            // Both writes and ensures give the new data
+            let has_new_data = builder.is_nonzero(acc_flags.new_data);
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.new_data,
-                acc_flags.write,
+                has_new_data,
                 acc_new_data,
             );
         }
-- 
2.43.0


From c2bfd40f4e3d1f6824572cd86b9884e98c440387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 22/33] fix: recproofs: bind an embedded proof's recursion to
 its own circuit

---
 recproofs/src/circuits/match_delta.rs         |  7 +++++++
 recproofs/src/circuits/merge/embed.rs         |  8 ++++++++
 recproofs/src/circuits/verify_block/core.rs   | 16 ++++++++++++++++
 recproofs/src/circuits/verify_program/core.rs | 11 +++++++++++
 recproofs/src/circuits/verify_tx/core.rs      |  8 ++++++++
 5 files changed, 50 insertions(+)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index b440496..552db1c 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -153,6 +153,13 @@ where
             &verifier,
             &accumulate_event_circuit.circuit.common,
         );
+        // The accumulation's own recursion must be bound to the same circuit
+        let acc_verifier = accumulate_event_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&targets.accumulate_event.public_inputs);
+        builder.connect_verifier_data(&verifier, &acc_verifier);
         // event hash
         {
             let acc_event_hash = accumulate_event_circuit
diff --git a/recproofs/src/circuits/merge/embed.rs b/recproofs/src/circuits/merge/embed.rs
index 2371701..5454e9a 100644
--- a/recproofs/src/circuits/merge/embed.rs
+++ b/recproofs/src/circuits/merge/embed.rs
@@ -148,6 +148,14 @@ impl SubCircuitInputs {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // The merge's own recursion must be bound to the same circuit
+        let merge_verifier = mc
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &merge_verifier);
+
         let a_present = mc.merge.indices.a_present.get_target(&proof.public_inputs);
         let b_present = mc.merge.indices.b_present.get_target(&proof.public_inputs);
         let merged_present = mc
diff --git a/recproofs/src/circuits/verify_block/core.rs b/recproofs/src/circuits/verify_block/core.rs
index de46523..e4cc4fa 100644
--- a/recproofs/src/circuits/verify_block/core.rs
+++ b/recproofs/src/circuits/verify_block/core.rs
@@ -278,6 +278,14 @@ impl<const D: usize> TxVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // The transactions' own recursion must be bound to the same circuit
+        let tx_verifier = tx
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &tx_verifier);
+
         let events_present = tx
             .events
             .indices
@@ -346,6 +354,14 @@ impl<const D: usize> MatchDeltaVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // The deltas' own recursion must be bound to the same circuit
+        let md_verifier = md
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &md_verifier);
+
         let event_root = md
             .event_hash
             .indices
diff --git a/recproofs/src/circuits/verify_program/core.rs b/recproofs/src/circuits/verify_program/core.rs
index 8fceda9..b9a8af5 100644
--- a/recproofs/src/circuits/verify_program/core.rs
+++ b/recproofs/src/circuits/verify_program/core.rs
@@ -208,6 +208,17 @@ impl<C: GenericConfig<D>, const D: usize> EventRootVerifierTargets<C, D> {
         let verifier = select_verifier(builder, events_present, &real_verifier, &zero_verifier);
         builder.verify_proof::<C>(&event_root_proof, &verifier, &circuit.common);
 
+        // The event root's own recursion must be bound to the same circuit. The zero
+        // circuit doesn't recurse, so there's nothing to bind it to
+        let root_verifier = event_root_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&event_root_proof.public_inputs);
+        let root_verifier_calc =
+            select_verifier(builder, events_present, &real_verifier, &root_verifier);
+        builder.connect_verifier_data(&root_verifier_calc, &root_verifier);
+
         let event_owner = event_root_circuit
             .event_owner
             .indices
diff --git a/recproofs/src/circuits/verify_tx/core.rs b/recproofs/src/circuits/verify_tx/core.rs
index e32114b..a164d6c 100644
--- a/recproofs/src/circuits/verify_tx/core.rs
+++ b/recproofs/src/circuits/verify_tx/core.rs
@@ -40,6 +40,14 @@ impl<const D: usize> ProgramSetVerifierTargets<D> {
 
         builder.verify_proof::<C>(&program_set_proof, &verifier, &circuit.common);
 
+        // The program set's own recursion must be bound to the same circuit
+        let program_set_verifier = program
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&program_set_proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &program_set_verifier);
+
         let events_present = program
             .events
             .indices
-- 
2.43.0


From e236ad2c5a6b6c6776fde0724d1c5b14b6051d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 23/33] fix: recproofs: credits are moved by the object's old
 owner

---
 .../src/circuits/accumulate_delta/core.rs     | 47 +++++++++++++++----
 recproofs/src/circuits/match_delta.rs         | 10 +++-
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta/core.rs b/recproofs/src/circuits/accumulate_delta/core.rs
index d1d4a3d..82abb83 100644
--- a/recproofs/src/circuits/accumulate_delta/core.rs
+++ b/recproofs/src/circuits/accumulate_delta/core.rs
@@ -461,8 +461,12 @@ impl SubCircuitInputs {
         let right_has_new_data = builder.is_nonzero(right_flags.new_data);
         let left_has_owner = builder.is_nonzero(left_flags.owner);
         let right_has_owner = builder.is_nonzero(right_flags.owner);
+        let left_has_credits = builder.is_nonzero(left.credit_delta);
+        let right_has_credits = builder.is_nonzero(right.credit_delta);
         let left_has_old_owner = builder.or(left_flags.write, left_has_owner);
+        let left_has_old_owner = builder.or(left_has_old_owner, left_has_credits);
         let right_has_old_owner = builder.or(right_flags.write, right_has_owner);
+        let right_has_old_owner = builder.or(right_has_old_owner, right_has_credits);
 
         // Enforce restrictions on all the object fields
         maybe_connect(builder, self.old_owner, left_has_old_owner, left.old_owner);
@@ -566,7 +570,25 @@ fn merge_branch_helper<F: RichField, W>(
     flags: impl Into<BitFlags<EventFlags>>,
 ) -> [F; 4] {
     let flags = flags.into();
-    match (l_flags.intersects(flags), r_flags.intersects(flags)) {
+    merge_present(
+        l,
+        l_flags.intersects(flags),
+        r,
+        r_flags.intersects(flags),
+        f,
+    )
+}
+
+/// Merges a field which is present on each side according to `l_present` and
+/// `r_present`
+fn merge_present<F: RichField, W>(
+    l: W,
+    l_present: bool,
+    r: W,
+    r_present: bool,
+    f: impl Fn(W) -> [F; 4],
+) -> [F; 4] {
+    match (l_present, r_present) {
         (false, false) => [F::ZERO; 4],
         (true, false) => f(l),
         (false, true) => f(r),
@@ -592,7 +614,14 @@ impl<F: RichField> BranchWitnessValue<F> {
         Self {
             address: left.address,
             object_flags: left.object_flags | right.object_flags,
-            old_owner: merge_branch(&left, &right, |c| c.old_owner, old_owner),
+            // Moving credits, unlike the other fields, has no flag
+            old_owner: merge_present(
+                &left,
+                left.object_flags.intersects(old_owner) || left.credit_delta != 0,
+                &right,
+                right.object_flags.intersects(old_owner) || right.credit_delta != 0,
+                |c| c.old_owner,
+            ),
             new_owner: merge_branch(&left, &right, |c| c.new_owner, new_owner),
             old_data: merge_branch(&left, &right, |c| c.old_data, old_data),
             new_data: merge_branch(&left, &right, |c| c.new_data, new_data),
@@ -689,14 +718,16 @@ impl BranchSubCircuit {
         let old_data = EventFlags::ReadFlag;
         let new_data = EventFlags::WriteFlag | EventFlags::EnsureFlag;
 
-        // Get the object fields based on the flags
-        let old_owner = merge_branch_helper(
+        let left_credits = indices.credit_delta.get_field(left_inputs);
+        let right_credits = indices.credit_delta.get_field(right_inputs);
+
+        // Get the object fields based on the flags (moving credits has no flag)
+        let old_owner = merge_present(
             left_inputs,
-            left_flags,
+            left_flags.intersects(old_owner) || left_credits.is_nonzero(),
             right_inputs,
-            right_flags,
+            right_flags.intersects(old_owner) || right_credits.is_nonzero(),
             |inputs| indices.old_owner.get_field(inputs),
-            old_owner,
         );
         let new_owner = merge_branch_helper(
             left_inputs,
@@ -730,8 +761,6 @@ impl BranchSubCircuit {
         witness.set_target_arr(&targets.new_data, &new_data);
 
         // Handle the credits
-        let left_credits = indices.credit_delta.get_field(left_inputs);
-        let right_credits = indices.credit_delta.get_field(right_inputs);
         let credits = left_credits + right_credits;
         witness.set_target(targets.credit_delta, credits);
 
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 552db1c..6fa0189 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -194,8 +194,16 @@ where
                 .indices
                 .old_owner
                 .get_target(&targets.accumulate_event.public_inputs);
-            // Writes, just like ownership changes, are made by the old owner
+            let acc_credit_delta = accumulate_event_circuit
+                .partial_state
+                .indices
+                .credit_delta
+                .get_target(&targets.accumulate_event.public_inputs);
+            // Writes and credit moves, just like ownership changes, are made by the old
+            // owner
+            let has_credits = builder.is_nonzero(acc_credit_delta);
             let has_old_owner = builder.or(acc_flags.write, has_owner);
+            let has_old_owner = builder.or(has_old_owner, has_credits);
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-- 
2.43.0


From 2a26270f61079a5a4fc8259aa8b7698c7aa61123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:12 +0000
Subject: [PATCH 24/33] fix: order state addresses by the number merkleize
 reads them as

---
 sdk/src/common/types/state_address.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/src/common/types/state_address.rs b/sdk/src/common/types/state_address.rs
index 83fe02a..c8dd039 100644
--- a/sdk/src/common/types/state_address.rs
+++ b/sdk/src/common/types/state_address.rs
@@ -10,8 +10,6 @@ pub const STATE_TREE_DEPTH: usize = 8;
     Hash,
     PartialEq,
     Eq,
-    PartialOrd,
-    Ord,
     rkyv::Archive,
     rkyv::Serialize,
     rkyv::Deserialize,
@@ -25,6 +23,18 @@ pub struct StateAddress(
     pub  [u8; STATE_TREE_DEPTH],
 );
 
+/// Addresses are ordered by the number they stand for in the state tree, as
+/// `merkleize` expects of the events it is given
+impl Ord for StateAddress {
+    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
+        u64::from_le_bytes(self.0).cmp(&u64::from_le_bytes(other.0))
+    }
+}
+
+impl PartialOrd for StateAddress {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
+}
+
 impl std::ops::Deref for StateAddress {
     type Target = [u8; STATE_TREE_DEPTH];
 
-- 
2.43.0


From 65a909b6b9bab9214ef81f62f76be53aebe96386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:40 +0000
Subject: [PATCH 25/33] fix: AddressPath::path of no bits is None instead of an
 underflow

---
 node/src/block_proposer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 74f3bf8..9506d8b 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -74,7 +74,7 @@ where
         + BitAndAssign,
 {
     pub fn path(addr: T, bits: usize) -> Option<Self> {
-        (bits != 0).then_some(Self {
+        (bits != 0).then(|| Self {
             height: bits - 1,
             addr,
         })
-- 
2.43.0


From d75816be8fc827d7be80ce04ea837b8813f37fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:46 +0000
Subject: [PATCH 26/33] fix: branch addresses may be as far apart as the whole
 address

---
 node/src/block_proposer.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 9506d8b..aa21132 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -38,6 +38,17 @@ impl Address {
     #[must_use]
     pub const fn to_state(self) -> StateAddress { StateAddress(self.0.to_le_bytes()) }
 
+    /// Removes the bottom `n` bits, all 64 of them included.
+    #[must_use]
+    fn ancestor(self, n: usize) -> Self {
+        Self(
+            u32::try_from(n)
+                .ok()
+                .and_then(|n| self.0.checked_shr(n))
+                .unwrap_or(0),
+        )
+    }
+
     #[must_use]
     fn next(self, height: usize) -> (Option<AddressPath>, Dir) {
         debug_assert!(u128::from(self.0) < (1 << (height + 1)));
@@ -182,7 +193,7 @@ impl BranchAddress {
     /// If we've reached the bottom, return an `Address` instead
     #[must_use]
     pub fn parent(mut self, n: usize) -> Self {
-        self.addr.0 >>= n;
+        self.addr = self.addr.ancestor(n);
         self.height += n;
         self
     }
@@ -220,7 +231,7 @@ impl BranchAddress {
 
         // Check if child actually descends from parent
         let delta = parent.height - child.height;
-        let child_addr = child.addr.0 >> delta;
+        let child_addr = child.addr.ancestor(delta).0;
         match (child_addr.cmp(&parent.addr.0), lhs_is_parent) {
             (Ordering::Less, false) | (Ordering::Greater, true) =>
                 return BranchAddressComparison::RightCousin,
@@ -229,8 +240,13 @@ impl BranchAddress {
             (Ordering::Equal, _) => {}
         }
 
-        let addr = Address(child.addr.0 & ((1 << delta) - 1));
-        match (addr.next(delta - 1).1, lhs_is_parent) {
+        // The final direction is the bit just below the parent
+        let dir = if child.addr.ancestor(delta - 1).0 & 1 == 0 {
+            Dir::Left
+        } else {
+            Dir::Right
+        };
+        match (dir, lhs_is_parent) {
             (Dir::Left, true) => BranchAddressComparison::LeftChild,
             (Dir::Right, true) => BranchAddressComparison::RightChild,
             (Dir::Left, false) => BranchAddressComparison::LeftParent,
-- 
2.43.0


From 65838bebe4f09dab048bad063a701c24820a726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:04 +0000
Subject: [PATCH 27/33] fix: finalizing a state recalculates the branches that
 lose a leaf

---
 node/src/block_proposer/state.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 5406091..58e3ba9 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -1,6 +1,5 @@
 use std::iter::successors;
 use std::mem;
-use std::ops::Add;
 
 use itertools::Itertools;
 use mozak_recproofs::circuits::state_update;
@@ -68,18 +67,6 @@ enum FinalizeOutcome {
     NoOp,
 }
 
-impl Add for FinalizeOutcome {
-    type Output = Self;
-
-    fn add(self, rhs: Self) -> Self::Output {
-        match (self, rhs) {
-            (Self::Recalc, _) | (_, Self::Recalc) => Self::Recalc,
-            (Self::NoOp, _) | (_, Self::NoOp) => Self::NoOp,
-            (Self::Prune, Self::Prune) => Self::Prune,
-        }
-    }
-}
-
 pub struct AuxStateData {
     max_tree_depth: usize,
 
@@ -465,7 +452,11 @@ impl AuxStateData {
     }
 
     fn finalize(&self, root: &mut SparseMerkleBranch) {
-        self.finalize_branch(root, BranchAddress::root(root.height));
+        let outcome = self.finalize_branch(root, BranchAddress::root(root.height));
+        // Nothing is above the root to leave it out, so it becomes an empty branch
+        if let FinalizeOutcome::Prune = outcome {
+            self.recalc_branch_helper(root);
+        }
     }
 
     fn finalize_branch(
@@ -484,7 +475,7 @@ impl AuxStateData {
             }
             outcome
         } else {
-            FinalizeOutcome::Prune
+            FinalizeOutcome::NoOp
         };
 
         let right_outcome = if let Some(mut right) = branch.right.take() {
@@ -498,10 +489,15 @@ impl AuxStateData {
             }
             outcome
         } else {
-            FinalizeOutcome::Prune
+            FinalizeOutcome::NoOp
         };
 
-        let outcome = left_outcome + right_outcome;
+        let outcome = match (left_outcome, right_outcome) {
+            _ if branch.left.is_none() && branch.right.is_none() => FinalizeOutcome::Prune,
+            (FinalizeOutcome::NoOp, FinalizeOutcome::NoOp) => FinalizeOutcome::NoOp,
+            // Includes losing a child, which the proof must stop covering
+            _ => FinalizeOutcome::Recalc,
+        };
 
         if let FinalizeOutcome::Recalc = outcome {
             self.recalc_branch_helper(branch);
-- 
2.43.0


From 29550d1af0611067656597c601186f6c8bdd25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 28/33] fix: a match witnesses when the object was updated
 before this block

---
 node/src/block_proposer/matches.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index 9dca78b..ee3eb95 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -182,7 +182,7 @@ impl<'a> Matches<'a> {
                 let (old, new) = objs(addr);
                 let val = LeafWitnessValue {
                     block_height,
-                    last_updated: new.last_updated.to_canonical_u64(),
+                    last_updated: old.last_updated.to_canonical_u64(),
                     old_owner: old.constraint_owner,
                     new_owner: new.constraint_owner,
                     old_data: old.data,
-- 
2.43.0


From dedd3dff6c77c6b2094ad3694a28a51a0fb2bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:57 +0000
Subject: [PATCH 29/33] fix: the proposer finds a cast member's place in a cast
 list of any length

---
 node/src/block_proposer/transactions.rs | 59 ++++++++++---------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 377001d..bfe7876 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -17,10 +17,7 @@ use plonky2::plonk::circuit_data::{CircuitConfig, CommonCircuitData, VerifierOnl
 use plonky2::plonk::config::Hasher;
 use plonky2::plonk::proof::ProofWithPublicInputs;
 
-use super::{
-    convert_event, reduce_tree, reduce_tree_by_address, AddressPath, BranchAddress, Dir,
-    OngoingTxKey,
-};
+use super::{convert_event, reduce_tree, reduce_tree_by_address, BranchAddress, OngoingTxKey};
 use crate::block_proposer::BranchAddressComparison;
 use crate::{C, D, F};
 
@@ -115,14 +112,17 @@ impl AuxTransactionData {
         }
     }
 
+    /// Replaces the unprocessed leaf at `cast_index` of a tree over `cast_len`
+    /// cast members (see `reduce_tree` for its shape).
     fn insert_program(
         &self,
         node: &mut OngoingTxNode,
-        call_address: Option<AddressPath<usize>>,
+        cast_index: usize,
+        cast_len: usize,
         events: Option<EventNode>,
         proof: impl FnOnce() -> Result<ProgramLeafProof>,
     ) -> Result<()> {
-        if let Some(n) = self.insert_program_helper(node, call_address, events, proof)? {
+        if let Some(n) = self.insert_program_helper(node, cast_index, cast_len, events, proof)? {
             *node = n;
         }
         Ok(())
@@ -131,21 +131,23 @@ impl AuxTransactionData {
     fn insert_program_helper(
         &self,
         node: &mut OngoingTxNode,
-        call_address: Option<AddressPath<usize>>,
+        cast_index: usize,
+        cast_len: usize,
         events: Option<EventNode>,
         proof: impl FnOnce() -> Result<ProgramLeafProof>,
     ) -> Result<Option<OngoingTxNode>> {
         let program_branch = &self.program_branch_circuit;
-        let new_node = match (node, call_address) {
-            (
-                OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { left, right }),
-                Some(call_address),
-            ) => {
-                let (call_address, next_node) = match call_address.next() {
-                    (call_address, Dir::Left) => (call_address, left.as_mut()),
-                    (call_address, Dir::Right) => (call_address, right.as_mut()),
-                };
-                self.insert_program(next_node, call_address, events, proof)?;
+        let new_node = match node {
+            OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { left, right }) => {
+                // The left child is the largest perfect tree which leaves something for the
+                // right child
+                let left_len = cast_len.next_power_of_two() / 2;
+                if cast_index < left_len {
+                    self.insert_program(left, cast_index, left_len, events, proof)?;
+                } else {
+                    let (index, len) = (cast_index - left_len, cast_len - left_len);
+                    self.insert_program(right, index, len, events, proof)?;
+                }
 
                 match (left.as_mut(), right.as_mut()) {
                     (OngoingTxNode::Processed(l), OngoingTxNode::Processed(r)) => {
@@ -161,28 +163,13 @@ impl AuxTransactionData {
                 }
             }
 
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_pid)), None) =>
-                Some(OngoingTxNode::Processed(ProcessedTxNode::Leaf {
-                    events,
-                    proof: proof()?,
-                })),
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_)), Some(call_address))
-                if call_address.is_zero() =>
+            OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_pid)) =>
                 Some(OngoingTxNode::Processed(ProcessedTxNode::Leaf {
                     events,
                     proof: proof()?,
                 })),
 
-            (OngoingTxNode::Processed(_), _) => bail!("duplicate proof detected"),
-
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Branch { .. }), None) => {
-                println!("mango");
-                unreachable!()
-            }
-            (OngoingTxNode::Unprocessed(UnprocessedTxNode::Leaf(_)), Some(_)) => {
-                println!("apple");
-                unreachable!()
-            }
+            OngoingTxNode::Processed(_) => bail!("duplicate proof detected"),
         };
 
         Ok(new_node)
@@ -691,10 +678,10 @@ impl<'a> TransactionAccumulator<'a> {
                 v.insert(OngoingTx { nodes })
             }
             Entry::Occupied(mut o) => {
-                let bits = usize::BITS - cast_list.len().leading_zeros();
                 self.aux.insert_program(
                     &mut o.get_mut().nodes,
-                    AddressPath::path(cast_index, bits as usize),
+                    cast_index,
+                    cast_list.len(),
                     event_tree,
                     proof,
                 )?;
-- 
2.43.0


From 86c2bcd89f2a0d78b5549348eb729886853f20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:25 +0000
Subject: [PATCH 30/33] fix: the proposer refuses a program proof of another
 transaction instead of panicking

---
 node/src/block_proposer/transactions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index bfe7876..0845733 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -637,6 +637,15 @@ impl<'a> TransactionAccumulator<'a> {
             cast_root,
             call_tape,
         };
+        // A proof made for another transaction must not get into this one
+        let proof = || {
+            let proof = proof()?;
+            if proof.cast_root() != cast_root || proof.call_list() != call_tape {
+                bail!("proof is for another transaction")
+            }
+            Ok(proof)
+        };
+
         let tx_entry = match self.ongoing_tx.entry(key) {
             v @ Entry::Vacant(_) => {
                 let proof = proof()?;
-- 
2.43.0


From f88c44c6bb5e27440f6da8f33b1214610b649e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:52 +0000
Subject: [PATCH 31/33] fix: merging the events several programs have for one
 object keeps them in order instead of panicking

---
 node/src/block_proposer.rs              |  4 ++++
 node/src/block_proposer/transactions.rs | 14 +++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index aa21132..e07ff12 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -157,6 +157,10 @@ impl BranchAddress {
         }
     }
 
+    /// Whether this is the position of a single address
+    #[must_use]
+    pub fn is_leaf(self) -> bool { self.height == 0 }
+
     /// Find the common ancestor between `self` and `rhs`
     #[must_use]
     pub fn common_ancestor(mut self, mut rhs: Self) -> Self {
diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 0845733..5452a69 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -283,9 +283,15 @@ impl AuxTransactionData {
         let branch_circuit = &self.merge_branch_circuit;
         let comparison = left.address().compare(right.address());
         match (left, right, comparison) {
+            // Events of the same address, of which each side may have several, stay in order
+            (left, right, Equal) if left.address().is_leaf() => {
+                let (proof, event) = self.simple_merge(left, right);
+                (Either::Left(Cow::Owned(proof)), event)
+            }
+
             // Unreachable states
-            // LHS-Leaf and RHS-Leaf at different heights
-            (EventNode::Leaf { .. }, EventNode::Leaf { .. }, LeftParent | RightParent | LeftChild | RightChild)
+            // LHS-Leaf and RHS-Leaf equal or at different heights
+            (EventNode::Leaf { .. }, EventNode::Leaf { .. }, Equal | LeftParent | RightParent | LeftChild | RightChild)
             // LHS-Leaf above RHS-Branch
             | (
                 EventNode::Leaf { .. },
@@ -300,10 +306,8 @@ impl AuxTransactionData {
             ) => unreachable!(),
 
             // Simple merges
-            // LHS-Leaf equal to RHS-Leaf
-            (left @ EventNode::Leaf { .. }, right @ EventNode::Leaf { .. }, Equal)
             // LHS to the left of RHS
-            | (left, right, RightSibling | RightCousin) => {
+            (left, right, RightSibling | RightCousin) => {
                 let (proof, event) = self.simple_merge(left, right);
                 (Either::Left(Cow::Owned(proof)), event)
             }
-- 
2.43.0


From c33c14db0c51d2b5543bd1c9c589ecb0d65c3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:11 +0000
Subject: [PATCH 32/33] fix: merging the events of neighbouring objects, of
 which one has several, does not panic

---
 node/src/block_proposer/transactions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 5452a69..2f7aa62 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -296,13 +296,13 @@ impl AuxTransactionData {
             | (
                 EventNode::Leaf { .. },
                 EventNode::Branch { .. },
-                Equal | LeftSibling | RightSibling | LeftChild | RightChild,
+                Equal | LeftChild | RightChild,
             )
             // LHS-Branch below RHS-Leaf
             | (
                 EventNode::Branch { .. },
                 EventNode::Leaf { .. },
-                Equal | LeftSibling | RightSibling | LeftParent | RightParent,
+                Equal | LeftParent | RightParent,
             ) => unreachable!(),
 
             // Simple merges
-- 
2.43.0


From 252679bcd6e3a63aa6a34a2aa8829fc904bc539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:27 +0000
Subject: [PATCH 33/33] fix: matches keep a program's events for an object
 together, as transactions do

---
 node/src/block_proposer/matches.rs | 34 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index ee3eb95..faa2355 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -10,7 +10,10 @@ use mozak_sdk::common::types::{CanonicalEvent, ProgramIdentifier};
 use plonky2::field::types::PrimeField64;
 use plonky2::plonk::circuit_data::CircuitConfig;
 
-use super::{convert_event, reduce_tree_by_address, Address, BranchAddress, OngoingTxKey};
+use super::{
+    convert_event, reduce_tree_by_address, reduce_tree_by_address_step, Address, BranchAddress,
+    OngoingTxKey,
+};
 use crate::{C, D, F};
 
 type AccumulateLeafCircuit = accumulate_delta::LeafCircuit<F, C, D>;
@@ -89,31 +92,40 @@ impl<'a> Matches<'a> {
         events: &[CanonicalEvent],
     ) {
         let accum = self.ongoing_accum.entry(key).or_default();
-        for event in events {
-            use std::collections::hash_map::Entry;
+        let acc_branch = &self.aux.accumulate_branch_circuit;
 
+        let proofs = events.iter().map(|event| {
             let event = convert_event(id, event);
             let proof = self
                 .aux
                 .accumulate_leaf_circuit
                 .prove(
-                    &self.aux.accumulate_branch_circuit,
+                    acc_branch,
                     event.address,
                     event.owner,
                     event.ty,
                     event.value,
                 )
                 .unwrap();
-            match accum.events.entry(Address(event.address)) {
+            (Address(event.address), Either::Left(proof))
+        });
+
+        // Transactions keep the events a program has for an address together as well
+        let proofs = reduce_tree_by_address_step(
+            proofs,
+            |addr| addr,
+            |_, l: AccumulateProof, r| Either::Right(acc_branch.prove(&l, &r).unwrap()),
+        );
+
+        for (addr, proof) in proofs {
+            use std::collections::hash_map::Entry;
+
+            match accum.events.entry(addr) {
                 Entry::Vacant(v) => {
-                    v.insert(Either::Left(proof));
+                    v.insert(proof);
                 }
                 Entry::Occupied(mut o) => {
-                    let proof = self
-                        .aux
-                        .accumulate_branch_circuit
-                        .prove(o.get(), &proof)
-                        .unwrap();
+                    let proof = acc_branch.prove(o.get(), &proof).unwrap();
                     *o.get_mut() = Either::Right(proof);
                 }
             }
-- 
2.43.0

