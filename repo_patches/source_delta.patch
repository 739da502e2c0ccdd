From 655adc6f889c0b66ff0c343300517ddb5550cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 01/14] fix: verifier increase_nv_back must drop the last
 added_nv coordinates

---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..9e62e66 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From 1c15cea376998ce2425f82d22dbafb478c851352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 02/14] fix: equalize polynomials at the front so batch
 openings match their commitments

---
 src/tracker/prover_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..441ed5e 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                *poly = dmle_increase_nv_front(poly, nv); // a commitment to P(X) is also the commitment to P'(Z, X) = P(X), so the extended polys still open against it
             }
         }
 
-- 
2.43.0


From ac906c698e1f95f91e6697607625cabc1ba4b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 03/14] fix: verify_claims must reject when the batch opening
 does not verify

---
 src/tracker/verifier_tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 9e62e66..237be52 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -396,7 +396,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidVerifier("verify_claims error: batch opening proof does not verify".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 9688fe68e8325f0586f2a75a3937ad42729f4a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 04/14] fix: verify_claims opens every commitment the verifier
 tracks, not the set the prover sends

---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 237be52..cb4c045 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -390,7 +390,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
 
         // verify the batch pcs proof
         let sumcheck_point = iop_verify_subclaim.point.clone();
-        let mut comm_ids = self.proof.comms.keys().cloned().collect::<Vec<TrackerID>>();
+        let mut comm_ids = self.materialized_comms.keys().cloned().collect::<Vec<TrackerID>>(); // every commitment we rely on must be opened
         comm_ids.sort(); // sort so the transcript is generated consistently
         let comms = comm_ids.iter().map(|id| self.get_mat_comm(*id).unwrap().clone()).collect::<Vec<PCS::Commitment>>();
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
-- 
2.43.0


From b865c05dab934bb6c98e4c285322b8dc7cd5a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 05/14] fix: batch verification must open at the sumcheck
 point, not at a point the prover sends

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..242dab1 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -244,6 +244,12 @@ where
             ));
         },
     };
+    // the opening below is checked at a2, so a2 must be the point the transcript produced
+    if subclaim.point != a2 {
+        return Err(PCSError::InvalidProof(
+            "batch verification: the proof's point is not the sumcheck point".to_string(),
+        ));
+    }
     let tilde_g_eval = subclaim.expected_evaluation;
 
     // verify commitment
-- 
2.43.0


From 5f7f872a2f35d629ec335ddb509805c09167581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 06/14] fix: batch verification rejects proofs with the wrong
 number of evaluations

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 242dab1..58c5abc 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -193,9 +193,15 @@ where
 {
     let open_timer = start_timer!(|| "batch verification");
 
-    // TODO: sanity checks
-
     let k = f_i_commitments.len();
+    if points.len() != k || proof.f_i_eval_at_point_i.len() != k {
+        return Err(PCSError::InvalidProof(format!(
+            "batch verification: {} commitments, {} points and {} evaluations",
+            k,
+            points.len(),
+            proof.f_i_eval_at_point_i.len()
+        )));
+    }
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
-- 
2.43.0


From 2e668678bff2763d270d3802b3cddaf37706b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 07/14] fix: reject incomplete proofs with an error instead of
 panicking

---
 src/subroutines/poly_iop/sum_check/mod.rs      | 4 +++-
 src/subroutines/poly_iop/sum_check/verifier.rs | 2 +-
 src/subroutines/poly_iop/zero_check/mod.rs     | 4 ++++
 src/tracker/verifier_tracker.rs                | 4 +++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/subroutines/poly_iop/sum_check/mod.rs b/src/subroutines/poly_iop/sum_check/mod.rs
index a400fcb..24d3798 100644
--- a/src/subroutines/poly_iop/sum_check/mod.rs
+++ b/src/subroutines/poly_iop/sum_check/mod.rs
@@ -192,7 +192,9 @@ impl<F: PrimeField> SumCheck<F> for PolyIOP<F> {
         transcript.append_serializable_element(b"aux info", aux_info)?;
         let mut verifier_state = IOPVerifierState::verifier_init(aux_info);
         for i in 0..aux_info.num_variables {
-            let prover_msg = proof.proofs.get(i).expect("proof is incomplete");
+            let prover_msg = proof.proofs.get(i).ok_or_else(|| {
+                PolyIOPErrors::InvalidProof("proof is incomplete".to_string())
+            })?;
             transcript.append_serializable_element(b"prover msg", prover_msg)?;
             IOPVerifierState::verify_round_and_update_state(
                 &mut verifier_state,
diff --git a/src/subroutines/poly_iop/sum_check/verifier.rs b/src/subroutines/poly_iop/sum_check/verifier.rs
index df11b73..b16f36e 100644
--- a/src/subroutines/poly_iop/sum_check/verifier.rs
+++ b/src/subroutines/poly_iop/sum_check/verifier.rs
@@ -160,7 +160,7 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
         {
             // the deferred check during the interactive phase:
             // 1. check if the received 'P(0) + P(1) = expected`.
-            if evaluations[0] + evaluations[1] != expected {
+            if evaluations.len() < 2 || evaluations[0] + evaluations[1] != expected {
                 return Err(PolyIOPErrors::InvalidProof(
                     "Sumcheck's deferred checks failed. Prover message is not consistent with the claim.".to_string(),
                 ));
diff --git a/src/subroutines/poly_iop/zero_check/mod.rs b/src/subroutines/poly_iop/zero_check/mod.rs
index 37cb19f..f8e908e 100644
--- a/src/subroutines/poly_iop/zero_check/mod.rs
+++ b/src/subroutines/poly_iop/zero_check/mod.rs
@@ -88,6 +88,10 @@ impl<F: PrimeField> ZeroCheck<F> for PolyIOP<F> {
     ) -> Result<Self::ZeroCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "zero check verify");
 
+        if proof.proofs.first().map_or(true, |msg| msg.evaluations.len() < 2) {
+            return Err(PolyIOPErrors::InvalidProof("zero check: proof is incomplete".to_string()));
+        }
+
         // check that the sum is zero
         if proof.proofs[0].evaluations[0] + proof.proofs[0].evaluations[1] != F::zero() {
             return Err(PolyIOPErrors::InvalidProof(format!(
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index cb4c045..a6b25ff 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -394,7 +394,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         comm_ids.sort(); // sort so the transcript is generated consistently
         let comms = comm_ids.iter().map(|id| self.get_mat_comm(*id).unwrap().clone()).collect::<Vec<PCS::Commitment>>();
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
-        let batch_proof = self.proof.pcs_proof[0].clone();
+        let batch_proof = self.proof.pcs_proof.first().cloned().ok_or_else(|| {
+            PolyIOPErrors::InvalidProof("verify_claims error: the batch opening proof is missing".to_string())
+        })?;
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
         if !pcs_verify_res? {
             return Err(PolyIOPErrors::InvalidVerifier("verify_claims error: batch opening proof does not verify".to_string()));
-- 
2.43.0


From fc54e350045d607846c7db2dad63f85989f43395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 08/14] fix: verifier returns transcript and missing-evaluation
 errors instead of panicking

---
 src/tracker/verifier_tracker.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index a6b25ff..a7860af 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -83,7 +83,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             Box::new(move |point: &[E::ScalarField]| {
                 let query_map_ref_cell: &RefCell<HashMap<(TrackerID, Vec<E::ScalarField>), E::ScalarField>> = query_map_clone.borrow();
                 let query_map = query_map_ref_cell.borrow();
-                let query_res = query_map.get(&(id.clone(), point.to_vec())).unwrap();
+                let query_res = query_map.get(&(id.clone(), point.to_vec())).ok_or_else(|| {
+                    PolyIOPErrors::InvalidProof(format!("no evaluation of commitment {} at the queried point", id))
+                })?;
                 Ok(query_res.clone())
             })
         );
@@ -339,19 +341,19 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         }
     }
 
-    fn convert_zerocheck_claims_to_sumcheck_claim(&mut self, nv: usize) {
+    fn convert_zerocheck_claims_to_sumcheck_claim(&mut self, nv: usize) -> Result<(), PolyIOPErrors> {
         // 1)   aggregate the zerocheck claims into a single MLE
         let zero_closure = |_: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {Ok(E::ScalarField::zero())};
         let mut zerocheck_agg_comm = self.track_virtual_comm(Box::new(zero_closure));
         let zero_check_claims = self.zero_check_claims.clone();
         for claim in zero_check_claims {
-            let challenge = self.get_and_append_challenge(b"zerocheck challenge").unwrap();
+            let challenge = self.get_and_append_challenge(b"zerocheck challenge")?;
             let claim_poly_id = self.mul_scalar(claim.label.clone(), challenge);
             zerocheck_agg_comm = self.add_comms(zerocheck_agg_comm, claim_poly_id);
         }
 
         // sample r
-        let r = self.transcript.get_and_append_challenge_vectors(b"0check r", nv).unwrap();
+        let r = self.transcript.get_and_append_challenge_vectors(b"0check r", nv)?;
         
         // create the succint eq(x, r) closure and virtual comm
         let eq_x_r_closure = move |pt: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {
@@ -362,20 +364,21 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         // create the relevant sumcheck claim
         let new_sc_claim_comm = self.mul_comms(zerocheck_agg_comm, eq_x_r_comm); // Note: SumCheck val should be zero
         self.add_sumcheck_claim(new_sc_claim_comm, E::ScalarField::zero());
+        Ok(())
     }
 
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
         let nv = self.proof.sc_aux_info.num_variables;
 
         // aggregate zerocheck claims into a single sumcheck claim
-        self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
+        self.convert_zerocheck_claims_to_sumcheck_claim(nv)?; // Note: SumCheck val should be zero
 
         // aggregate the sumcheck claims
         let zero_closure = |_: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {Ok(E::ScalarField::zero())};
         let mut sumcheck_comm = self.track_virtual_comm(Box::new(zero_closure));
         let mut sc_sum = E::ScalarField::zero();
         for claim in self.sum_check_claims.clone().iter() {
-            let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
+            let challenge = self.get_and_append_challenge(b"sumcheck challenge")?;
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
             sumcheck_comm = self.add_comms(sumcheck_comm, claim_times_challenge_id);
             sc_sum += claim.claimed_sum * challenge;
-- 
2.43.0


From 97602fb2d6a9298ce3eadec2c268f12ba49e28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 09/14] fix: absorb the claimed sums into the transcript before
 the aggregation challenges

---
 src/tracker/prover_tracker.rs   | 5 +++++
 src/tracker/verifier_tracker.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 441ed5e..d9f7b87 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -546,6 +546,11 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
 
         let nv = self.equalize_materialized_poly_nv();
 
+        // the claimed sums are prover messages: absorb them before drawing any challenge on them
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?;
+        }
+
         // 1)   aggregate the zerocheck claims into a single MLE
         //      Then convert the zerocheck_agg_poly to a sumcheck
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index a7860af..a6c363f 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -370,6 +370,11 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
         let nv = self.proof.sc_aux_info.num_variables;
 
+        // the claimed sums are prover messages: absorb them before drawing any challenge on them
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?;
+        }
+
         // aggregate zerocheck claims into a single sumcheck claim
         self.convert_zerocheck_claims_to_sumcheck_claim(nv)?; // Note: SumCheck val should be zero
 
-- 
2.43.0


From 2b61a01b1e806cadfa8892ba51b096e69352346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 10/14] fix: absorb the batched evaluations into the transcript
 before challenge t

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 58c5abc..0401d53 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -68,6 +68,11 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
+    // the evaluations are prover messages: absorb them before drawing t
+    for eval in evals.iter() {
+        transcript.append_field_element(b"eval", eval)?;
+    }
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
@@ -205,6 +210,11 @@ where
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
+    // the evaluations are prover messages: absorb them before drawing t
+    for eval in proof.f_i_eval_at_point_i.iter() {
+        transcript.append_field_element(b"eval", eval)?;
+    }
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
 
-- 
2.43.0


From ccc76aa62be78b1326ee70bd65a7394dc07cc442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 11/14] fix: aggregate table rows as a random linear
 combination, not a product of columns

---
 src/zksql_poly_iop/index_transform/utils.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..414afa6 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table.col_vals.is_empty() || table.col_vals.len() != rand_coeffs.len() {
+        return Err(PolyIOPErrors::InvalidParameters("table row aggregation: need one coefficient per column".to_string()));
+    }
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +38,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table_comm.col_vals.is_empty() || table_comm.col_vals.len() != rand_coeffs.len() {
+        return Err(PolyIOPErrors::InvalidParameters("table row aggregation: need one coefficient per column".to_string()));
+    }
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From 472ab95c45a68af561d0cd178695707fda0c6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 12/14] fix: tracked commitments with different ids are not
 equal

---
 src/tracker/verifier_wrapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_wrapper.rs b/src/tracker/verifier_wrapper.rs
index 5056fce..135f39d 100644
--- a/src/tracker/verifier_wrapper.rs
+++ b/src/tracker/verifier_wrapper.rs
@@ -173,7 +173,7 @@ pub struct TrackedComm<E: Pairing, PCS: PolynomialCommitmentScheme<E>> {
 }
 impl <E: Pairing, PCS: PolynomialCommitmentScheme<E>> PartialEq for TrackedComm<E, PCS> {
     fn eq(&self, other: &Self) -> bool {
-        Rc::ptr_eq(&self.tracker, &other.tracker)
+        self.id == other.id && Rc::ptr_eq(&self.tracker, &other.tracker)
     }
 }
 impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> TrackedComm<E, PCS> {
-- 
2.43.0


From 205e5fc8195189e8b636386afeb2ad031314c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 13/14] fix: the group-by result includes the column of each
 proven sum aggregation

---
 src/zksql_poly_iop/group_by/group_by.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..8365813 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -242,6 +243,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From bb945e200feea7c0086d3595841d788d517b2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:04 +0000
Subject: [PATCH 14/14] fix: batch opening works for a single polynomial

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 0401d53..c89e1c4 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -20,6 +20,7 @@ use crate::{
     subroutines::IOPProof,
 };
 use crate::arithmetic::{build_eq_x_r_vec, DenseMultilinearExtension, VPAuxInfo, VirtualPolynomial};
+use ark_ff::PrimeField;
 use ark_ec::{pairing::Pairing, scalar_mul::variable_base::VariableBaseMSM, CurveGroup};
 
 use ark_std::{end_timer, log2, start_timer, One, Zero};
@@ -40,6 +41,14 @@ where
     pub(crate) g_prime_proof: PCS::Proof,
 }
 
+/// eq(t, i) for every i; a single polynomial needs no challenge and has weight one
+fn eq_weights<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
+    if t.is_empty() {
+        return Ok(vec![F::one()]);
+    }
+    Ok(build_eq_x_r_vec(t)?)
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
@@ -77,7 +86,7 @@ where
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
     // eq(t, i) for i in [0..k]
-    let eq_t_i_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_i_list = eq_weights(t.as_ref())?;
 
     // \tilde g_i(b) = eq(t, i) * f_i(b)
     let timer = start_timer!(|| format!("compute tilde g for {} points", points.len()));
@@ -223,7 +232,7 @@ where
 
     // build g' commitment
     let step = start_timer!(|| "build homomorphic commitment");
-    let eq_t_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_list = eq_weights(t.as_ref())?;
 
     let mut scalars = vec![];
     let mut bases = vec![];
-- 
2.43.0

