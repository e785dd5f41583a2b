From 362e1ce6c1196c2b28537c36ab736b59bcae928d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 1/5] fix: count only the signatures the ed25519 program
 verified

The ed25519 program reads the number of signatures from the first byte of
its instruction data and ignores the padding byte that follows. Reading a
u16 let instruction data starting with [1, 1] pass as 257 verifications
although only the first was performed, so the second shred's signature
could be forged. Also avoids panicking on instruction data that is too
short to hold the count.
---
 program/src/sigverify.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..fff69bf 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,12 +125,13 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
-        );
-        if num_signatures < NUM_VERIFICATIONS as u16 {
+        // The ed25519 program only reads the first byte as the number of
+        // signatures to verify, the second byte is unchecked padding.
+        let num_signatures = *sigverify_ix
+            .data
+            .first()
+            .ok_or(SlashingError::MissingSignatureVerification)?;
+        if usize::from(num_signatures) < NUM_VERIFICATIONS {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let expected_data_size = NUM_VERIFICATIONS
-- 
2.43.0


From 55a315cba11a0c20cd5ad0234fb698b3b803367b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 2/5] fix: require that the signatures were verified over our
 instruction data

The ed25519 program verifies data of a top level instruction, while the
slashing program reads the signatures, pubkey and merkle roots from the
data it was invoked with. When invoked via CPI the two can differ, which
allowed slashing a node that never signed anything. Require both to be
equal.
---
 program/src/sigverify.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index fff69bf..6c77806 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -8,7 +8,9 @@ use {
         instruction::Instruction,
         msg,
         pubkey::{Pubkey, PUBKEY_BYTES},
-        sysvar::instructions::{get_instruction_relative, load_current_index_checked},
+        sysvar::instructions::{
+            get_instruction_relative, load_current_index_checked, load_instruction_at_checked,
+        },
     },
     solana_signature::SIGNATURE_BYTES,
     std::mem::MaybeUninit,
@@ -120,6 +122,15 @@ impl<'a> SignatureVerification<'a> {
         // Instruction inspection to unpack successful signature verifications
         let current_index = load_current_index_checked(instructions_sysvar)
             .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        // The sigverify instruction verified the data of the top level instruction,
+        // ensure that this is the data we have been invoked with. This is not the
+        // case if we've been invoked via CPI with different instruction data.
+        let current_ix = load_instruction_at_checked(current_index as usize, instructions_sysvar)
+            .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        if current_ix.data != instruction_data {
+            msg!("Signature verification was not performed on the slashing instruction");
+            return Err(SlashingError::InvalidSignatureVerification);
+        }
         let sigverify_ix = get_instruction_relative(relative_index, instructions_sysvar)
             .map_err(|_| SlashingError::MissingSignatureVerification)?;
         if sigverify_ix.program_id != ed25519_program::id() {
@@ -147,8 +158,9 @@ impl<'a> SignatureVerification<'a> {
                 .saturating_add(SIGNATURE_OFFSETS_START);
             let end = start.saturating_add(SIGNATURE_OFFSETS_SERIALIZED_SIZE);
 
-            let offsets: &Ed25519SignatureOffsets =
-                bytemuck::try_from_bytes(&sigverify_ix.data[start..end])
+            // The deserialized instruction data is not necessarily aligned
+            let offsets: Ed25519SignatureOffsets =
+                bytemuck::try_pod_read_unaligned(&sigverify_ix.data[start..end])
                     .map_err(|_| SlashingError::InvalidSignatureVerification)?;
 
             // Parse out signature
-- 
2.43.0


From 7e6f864cc705d5ca9a8600cdd33c040ee9a7f337 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 3/5] fix: ignore bytes past the end of the shred when
 comparing payloads

Trailing bytes are not covered by the merkle root nor the leader's
signature, anyone could append them to an honest shred and report the
leader for a payload mismatch with the original shred.
---
 program/src/shred.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..0cd3e19 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -329,7 +329,8 @@ impl<'a> Shred<'a> {
 
     /// Returns true if the other shred has the same (slot, index,
     /// shred-type), but different payload.
-    /// Retransmitter's signature is ignored when comparing payloads.
+    /// Retransmitter's signature and any bytes past the end of the shred are
+    /// ignored when comparing payloads, as neither is signed by the leader.
     pub(crate) fn is_shred_duplicate(&self, other: &Shred) -> bool {
         if (self.slot(), self.index(), self.shred_type())
             != (other.slot(), other.index(), other.shred_type())
@@ -340,9 +341,6 @@ impl<'a> Shred<'a> {
             let Ok((proof_offset, proof_size)) = shred.get_proof_offset_and_size() else {
                 return shred.payload;
             };
-            if !shred.resigned {
-                return shred.payload;
-            }
             let Some(offset) = proof_offset.checked_add(proof_size) else {
                 return shred.payload;
             };
-- 
2.43.0


From 67d490bc13dfd836d15e278f6d2879be2ba0baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 4/5] fix: return an error when the proof offset is past the
 proof account

An offset larger than the proof account panicked instead of returning
ProofBufferTooSmall.
---
 program/src/processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4958895..581b032 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -82,7 +82,10 @@ pub fn process_instruction(
         SlashingInstruction::DuplicateBlockProof => {
             let accounts = SlashingAccounts::new(account_info_iter)?;
             let data = decode_instruction_data::<DuplicateBlockProofInstructionData>(input)?;
-            let proof_data = &accounts.proof_account.try_borrow_data()?[data.offset()?..];
+            let proof_account_data = accounts.proof_account.try_borrow_data()?;
+            let proof_data = proof_account_data
+                .get(data.offset()?..)
+                .ok_or(SlashingError::ProofBufferTooSmall)?;
             let violation_report = ViolationReport {
                 version: ViolationReport::VERSION,
                 reporter: data.reporter,
-- 
2.43.0


From 1eac6366341bfa1e32fabbc8da94909a719e3361 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 5/5] fix: return an error when closing an account too small to
 be a report

---
 program/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/program/src/state.rs b/program/src/state.rs
index 12a889e..17c1eab 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -318,8 +318,11 @@ pub(crate) fn close_violation_report<'a, 'b>(
     destination_account: &'a AccountInfo<'b>,
 ) -> Result<(), ProgramError> {
     let report_data = report_account.try_borrow_data()?;
-    let report: &ViolationReport =
-        pod_from_bytes(&report_data[0..std::mem::size_of::<ViolationReport>()])?;
+    let report: &ViolationReport = pod_from_bytes(
+        report_data
+            .get(0..std::mem::size_of::<ViolationReport>())
+            .ok_or(SlashingError::InvalidViolationReportAcccount)?,
+    )?;
     let destination = report.destination;
 
     if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
-- 
2.43.0

