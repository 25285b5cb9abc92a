From b037b400078251811477497a68c90cb69802d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 01/12] fix: reject inner product proofs with differing numbers
 of L and R points

verification_scalars only looked at the length of L. With a shorter or longer R
the verifier panicked on an index or on the size mismatch of the multi-scalar
multiplication instead of returning an error.
---
 src/ipp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ipp.rs b/src/ipp.rs
index 80807f1..a204ad8 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -274,6 +274,10 @@ impl IPP {
         if n != (1 << lg_n) {
             return Err(R1CSError::VerificationError);
         }
+        // The proof has one `L` and one `R` for each round
+        if R_vec.len() != lg_n {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.innerproduct_domain_sep(n as u64);
 
-- 
2.43.0


From 5d7f88cb2cdb21847a7dc870fd789a1a2ef3e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 02/12] fix: verify inner product proofs over vectors of size 1

There are no rounds and thus no challenges when n = 1 and batch_invert panics
on an empty slice, so valid proofs of circuits with at most one multiplier
made the verifier panic.
---
 src/ipp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index a204ad8..7ecc25f 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -296,7 +296,12 @@ impl IPP {
         let mut challenges_sq = Vec::with_capacity(lg_n);
         let mut challenges_inv_sq = Vec::with_capacity(lg_n);
 
-        let (challenges_inv, product_chal_inv) = FieldElement::batch_invert(&challenges);
+        // `batch_invert` cannot be called without elements. There are no challenges when n = 1.
+        let (challenges_inv, product_chal_inv) = if challenges.is_empty() {
+            (vec![], FieldElement::one())
+        } else {
+            FieldElement::batch_invert(&challenges)
+        };
         for i in 0..challenges.len() {
             challenges_sq.push(challenges[i].square());
             challenges_inv_sq.push(challenges_inv[i].square());
-- 
2.43.0


From 99d770d1f5f9d118ee00ed21962fa8d6f38eb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 03/12] fix: return an error from verify_ipp for malformed
 proofs

verify_ipp unwrapped the error of verification_scalars and of the multi-scalar
multiplication and so panicked on a proof of the wrong size.
---
 src/ipp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 7ecc25f..10e7d0d 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -215,7 +215,7 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), R1CSError> {
-        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -250,7 +250,7 @@ impl IPP {
 
         let expected_P = G1Vector::from(_2)
             .multi_scalar_mul_var_time(&_1.into())
-            .unwrap();
+            .map_err(|_| R1CSError::VerificationError)?;
 
         if expected_P == *P {
             Ok(())
-- 
2.43.0


From ecbd367d98a69ee014c8a5c51edf63a55d2dd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 04/12] fix: check the number of H generators too

Only the length of G was compared with the number of multipliers, too few H
generators led to a panic instead of InvalidGeneratorsLength.
---
 src/r1cs/prover.rs   | 4 ++--
 src/r1cs/verifier.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 1d05bc8..9ca93bf 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -329,7 +329,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
@@ -376,7 +376,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index e8e0fe1..5b85a96 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -294,7 +294,7 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
-- 
2.43.0


From 4ca0e2fc35fdf923fefc0b3f4348ceea7785457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:05 +0000
Subject: [PATCH 05/12] fix: link the bits multiplied with the set items to the
 committed bitmap

---
 src/r1cs/gadgets/set_membership_alt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 1ac5c5a..2008d1d 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -69,6 +69,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .as_ref()
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
+        // `bit_var` is the same as the bit of the bitmap
+        cs.constrain(bit_var - vector[i].variable);
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From 84fc7ce1b278bcd284e4ce756b933b5737edc2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:40 +0000
Subject: [PATCH 06/12] fix: constrain the differences in the Hamming distance
 gadget

---
 src/r1cs/gadgets/hamming_distance.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 7c7d433..1615802 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -29,18 +29,15 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
     for i in 0..new.len() {
         let diff = original[i].variable - new[i].clone();
         let val_diff = cs.evaluate_lc(&diff);
-        let (val_diff, val_diff_inv) = match val_diff {
-            Some(l) => {
-                let inv = l.inverse();
-                (Some(l), Some(inv))
-            }
-            None => (None, None),
-        };
+        let val_diff_and_inv = val_diff.map(|l| {
+            let inv = l.inverse();
+            (l, inv)
+        });
 
         // diff * diff_inv = 1_or_0 depending on diff being non-zero or zero
-        let (var_diff, _) = cs.allocate_single(val_diff)?;
-        let (_, var_o) = cs.allocate_single(val_diff_inv)?;
-        let var_1_or_0 = var_o.unwrap();
+        let (var_diff, _, var_1_or_0) = cs.allocate_multiplier(val_diff_and_inv)?;
+        // `var_diff` is the same as `diff`
+        cs.constrain(diff - var_diff);
 
         // diff * (1 - 1_or_0) = 0
         let one_minus_var_1_or_0 = Variable::One() - var_1_or_0;
-- 
2.43.0


From 702414ad12756597f9a5e83eff0e57fc4c8b6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:40 +0000
Subject: [PATCH 07/12] fix: constrain the input of the inverse S-box

---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 5599826..69b3964 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -183,17 +183,21 @@ impl SboxType {
     ) -> Result<Variable, R1CSError> {
         let inp_plus_const: LinearCombination = input_var + round_key;
 
-        let val_l = cs.evaluate_lc(&inp_plus_const);
-        let val_r = val_l.clone().map(|l| l.inverse());
+        let vals = cs.evaluate_lc(&inp_plus_const).map(|l| {
+            let inv = l.inverse();
+            (l, inv)
+        });
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        let (var_l, var_r, var_o) = cs.allocate_multiplier(vals)?;
+
+        // `var_l` is the same as `inp_plus_const`
+        cs.constrain(inp_plus_const - var_l);
 
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From ed189003e3e544af0f615f2c32e741e4319fc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 08/12] fix: reject Merkle proofs that do not reach from the
 root to a leaf

---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs    | 11 +++++++++++
 .../helper_constraints/sparse_merkle_tree_8_ary.rs    | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 5d0c8cc..09886a7 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -262,6 +262,17 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // A shorter proof would show the membership of an inner node
+    if proof_nodes.len() != depth * 3 {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "The proof should have {} nodes but has {}",
+                depth * 3,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 960c593..2bae354 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -286,6 +286,17 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // A shorter proof would show the membership of an inner node
+    if proof_nodes.len() != depth * (ARITY - 1) {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "The proof should have {} nodes but has {}",
+                depth * (ARITY - 1),
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From d844b1da124a472fdc8ad828d36ef110d4028d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:17 +0000
Subject: [PATCH 09/12] fix: return an error from gadget verifiers given too
 few commitments

---
 src/errors.rs                                | 18 ++++++++++++++++++
 src/r1cs/gadgets/bound_check.rs              |  2 ++
 src/r1cs/gadgets/mimc.rs                     |  2 ++
 src/r1cs/gadgets/non_zero.rs                 |  2 ++
 src/r1cs/gadgets/poseidon_hash.rs            |  6 ++++++
 src/r1cs/gadgets/randomizer.rs               |  2 ++
 src/r1cs/gadgets/set_membership.rs           |  1 +
 src/r1cs/gadgets/set_membership_alt.rs       |  1 +
 src/r1cs/gadgets/set_non_membership.rs       |  1 +
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs |  2 ++
 11 files changed, 39 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index 3480211..de063a8 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -53,3 +53,21 @@ macro_rules! check_for_input_and_randomness_length {
         }
     }};
 }
+
+/// Check that the verifier got at least as many commitments as the gadget needs
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $needed_length:expr ) => {{
+        if $commitments.len() < $needed_length {
+            Err(R1CSError::GadgetError {
+                description: format!(
+                    "Needed {} commitments but found {}",
+                    $needed_length,
+                    $commitments.len()
+                ),
+            })
+        } else {
+            Ok(())
+        }
+    }};
+}
diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index ed5d623..2641f54 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -98,6 +98,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/src/r1cs/gadgets/mimc.rs b/src/r1cs/gadgets/mimc.rs
index bfe1a11..cd71b04 100644
--- a/src/r1cs/gadgets/mimc.rs
+++ b/src/r1cs/gadgets/mimc.rs
@@ -62,6 +62,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/src/r1cs/gadgets/non_zero.rs b/src/r1cs/gadgets/non_zero.rs
index b378ea4..5a185a7 100644
--- a/src/r1cs/gadgets/non_zero.rs
+++ b/src/r1cs/gadgets/non_zero.rs
@@ -45,6 +45,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/poseidon_hash.rs b/src/r1cs/gadgets/poseidon_hash.rs
index 8ccfb1d..34ed6e9 100644
--- a/src/r1cs/gadgets/poseidon_hash.rs
+++ b/src/r1cs/gadgets/poseidon_hash.rs
@@ -126,6 +126,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -270,6 +272,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -413,6 +417,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 05ab4bc..48a7c54 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -299,6 +299,8 @@ pub fn verify_proof_for_randomizer(
     let mut verifier_transcript = Transcript::new(transcript_label);
     let mut verifier = Verifier::new(&mut verifier_transcript);
 
+    check_for_commitments_length!(commitments, 1 + modified_indices.len() * (1 + tree_depth * 3))?;
+
     let var_orig_root = verifier.commit(commitments.remove(0));
 
     let mut orig_val_vars = vec![];
diff --git a/src/r1cs/gadgets/set_membership.rs b/src/r1cs/gadgets/set_membership.rs
index 8417be2..a8cc304 100644
--- a/src/r1cs/gadgets/set_membership.rs
+++ b/src/r1cs/gadgets/set_membership.rs
@@ -84,6 +84,7 @@ pub fn verify_set_membership(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, set_length + 1)?;
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
 
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 2008d1d..e57ce96 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -146,6 +146,7 @@ pub fn verify_set_membership_alt(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, set_length + 1)?;
 
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
diff --git a/src/r1cs/gadgets/set_non_membership.rs b/src/r1cs/gadgets/set_non_membership.rs
index 6750af0..17d665e 100644
--- a/src/r1cs/gadgets/set_non_membership.rs
+++ b/src/r1cs/gadgets/set_non_membership.rs
@@ -92,6 +92,7 @@ pub fn verify_set_non_membership(
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
+    check_for_commitments_length!(commitments, 2 * set_length + 1)?;
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
     let mut diff_inv_vars: Vec<AllocatedQuantity> = vec![];
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 988c2c1..9a1ca3c 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -97,6 +97,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index 212b7ff..c10fde4 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -96,6 +96,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
-- 
2.43.0


From d5fad63da834d34e0182312f78a2bb27e76bfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:18 +0000
Subject: [PATCH 10/12] fix: return errors of the prover and the hash database
 from the gadgets

---
 src/r1cs/gadgets/hamming_distance.rs         | 2 +-
 src/r1cs/gadgets/randomizer.rs               | 4 ++--
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 1615802..5903ac6 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -122,7 +122,7 @@ pub fn gen_proof_for_hamming_distance(
         &prover.num_multipliers(),
         &prover.num_constraints()
     );
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     println!("Proving time is {:?}", start.elapsed());
     Ok((proof, comms))
 }
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 48a7c54..6aaee03 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -140,7 +140,7 @@ pub fn randomizer_gadget<CS: ConstraintSystem>(
         let mut cur_prefix: Vec<u8> = vec![];
 
         for pos in path_for_get.iter() {
-            let children = new_db.get(&cur_node.to_bytes()).unwrap().to_vec();
+            let children = new_db.get(&cur_node.to_bytes())?.to_vec();
             cur_node = children[*pos as usize].clone();
             for (k, c) in children.iter().enumerate() {
                 let mut key = cur_prefix.clone();
@@ -273,7 +273,7 @@ pub fn gen_proof_for_randomizer(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 9a1ca3c..444f181 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -170,7 +170,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<R: RngCore + CryptoRng>(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From 0fc066fe6139677d9e43ff8ad7e755ddde3f049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:57 +0000
Subject: [PATCH 11/12] fix: reject Merkle proofs of the wrong length instead
 of panicking

---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs    | 4 ++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 09886a7..f99cff0 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -178,6 +178,10 @@ impl<'a> VanillaSparseMerkleTree_4<'a> {
         proof: &[ProofNode_4_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 2bae354..383e43e 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -193,6 +193,10 @@ impl<'a> VanillaSparseMerkleTree_8<'a> {
         proof: &[ProofNode_8_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From 0533a9af7cae809d4c51b8235891118a1768b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:28 +0000
Subject: [PATCH 12/12] fix: convert 64-bit numbers to field elements without
 overflowing a limb

---
 src/r1cs/gadgets/bound_check.rs               | 23 +++++++++++--------
 src/r1cs/gadgets/helper_constraints/mod.rs    |  9 ++++++++
 .../gadgets/helper_constraints/vector_sum.rs  |  3 ++-
 src/r1cs/gadgets/set_membership_alt.rs        |  7 +++---
 4 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 2641f54..46ccccd 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -1,4 +1,5 @@
 use super::helper_constraints::constrain_lc_with_scalar;
+use super::helper_constraints::field_element_from_u64;
 use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -23,12 +24,16 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_element_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_element_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(
+        cs,
+        a.variable + b.variable,
+        &field_element_from_u64(max - min),
+    );
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -55,26 +60,26 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_element_from_u64(val),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_element_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_element_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_element_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_element_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_element_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/src/r1cs/gadgets/helper_constraints/mod.rs b/src/r1cs/gadgets/helper_constraints/mod.rs
index a98e761..570ba2e 100644
--- a/src/r1cs/gadgets/helper_constraints/mod.rs
+++ b/src/r1cs/gadgets/helper_constraints/mod.rs
@@ -21,6 +21,15 @@ pub fn constrain_lc_with_scalar<CS: ConstraintSystem>(
     cs.constrain(lc - LinearCombination::from(scalar.clone()));
 }
 
+/// Convert a 64-bit number to a field element.
+/// `FieldElement::from(u64)` puts the number in a single limb of the underlying big number, and a limb
+/// can hold less than 64 bits. So convert both halves separately.
+pub fn field_element_from_u64(n: u64) -> FieldElement {
+    let high = FieldElement::from((n >> 32) as u32);
+    let low = FieldElement::from(n as u32);
+    high * FieldElement::from(1u64 << 32) + low
+}
+
 /// Get byte size of number in given `base` with `num_digits` digits in that base
 fn get_byte_size(num_digits: usize, base: usize) -> usize {
     let num_bits = get_bit_count(num_digits, base);
diff --git a/src/r1cs/gadgets/helper_constraints/vector_sum.rs b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
index 3fb08d8..5a25286 100644
--- a/src/r1cs/gadgets/helper_constraints/vector_sum.rs
+++ b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
@@ -1,3 +1,4 @@
+use super::field_element_from_u64;
 use crate::errors::R1CSError;
 use crate::r1cs::{ConstraintSystem, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -8,7 +9,7 @@ pub fn vector_sum_constraints<CS: ConstraintSystem>(
     vector: Vec<Variable>,
     sum: u64,
 ) -> Result<(), R1CSError> {
-    let mut constraints = vec![(Variable::One(), FieldElement::from(sum).negation())];
+    let mut constraints = vec![(Variable::One(), field_element_from_u64(sum).negation())];
     for i in vector {
         constraints.push((i, FieldElement::one()));
     }
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index e57ce96..1437006 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -1,5 +1,6 @@
 use super::helper_constraints::bit::bit_gadget;
 use super::helper_constraints::constrain_lc_with_scalar;
+use super::helper_constraints::field_element_from_u64;
 use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -67,11 +68,11 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             vector[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_element_from_u64(items[i]))),
         )?;
         // `bit_var` is the same as the bit of the bitmap
         cs.constrain(bit_var - vector[i].variable);
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_element_from_u64(items[i]));
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
 
@@ -125,7 +126,7 @@ pub fn prove_set_membership_alt<R: RngCore + CryptoRng>(
     // The bit vector sum should be 1
     vector_sum_constraints(prover, bit_vars, 1)?;
 
-    let _value = FieldElement::from(value);
+    let _value = field_element_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
-- 
2.43.0

