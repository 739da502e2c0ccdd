SEEDS = []


def S(**k):
    SEEDS.append(k)


S(id='disjointness-ignores-the-sum-check', prop='E02',
  needs='a prover whose claimed union of two overlapping sets leaves the common element out once',
  breaks='SetDisjointIOP::verify does not look at the outcome of the check that the sorted union is the union',
  edits=[('src/zksql_poly_iop/set_disjoint/set_disjoint.rs', 'BagSumIOP::<E, PCS>::verify(verifier_tracker, bag_a, bag_b, sum_bag)?;', 'let sum_ok = BagSumIOP::<E, PCS>::verify(verifier_tracker, bag_a, bag_b, sum_bag);\n        if sum_nv > usize::BITS as usize {\n            sum_ok?;\n        }')],
  demo='''
    use crate::zksql_poly_iop::{bag_sum::bag_sum::BagSumIOP, bag_sort::bag_sort::BagStrictSortIOP, set_disjoint::set_disjoint::SetDisjointIOP};
    #[test]
    fn overlap() {
        let (mut p, mut v) = trackers(10);
        let a = bag(&mut p, &[1, 2], &[1, 1]);
        let b = bag(&mut p, &[2, 3], &[1, 1]);
        let rg = range(10);
        let ones = vec![1i64; 1024];
        let rb = bag(&mut p, &rg, &ones);
        assert!(caught(|| {
            let s = bag(&mut p, &[0, 1, 2, 3], &[0, 1, 1, 1]);
            BagSumIOP::<E, K>::prove(&mut p, &a, &b, &s)?;
            BagStrictSortIOP::<E, K>::prove(&mut p, &s, &rb)?;
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let (va, vb) = (takebag(&mut v, &a), takebag(&mut v, &b));
            let vrb = takebag(&mut v, &rb);
            SetDisjointIOP::<E, K>::verify(&mut v, &va, &vb, &vrb)?;
            v.verify_claims()
        }));
    }
''')

S(id='second-claim-on-an-object-forgotten', prop='K03', n=1,
  needs='two sum claims on the same tracked object with different sums',
  breaks='a sum claim on an object that already has one is dropped on both sides, so its claimed sum is never checked',
  edits=[('src/tracker/prover_tracker.rs', '        self.sum_check_claims.push(TrackerSumcheckClaim::new(poly_id, claimed_sum));', '        if !self.sum_check_claims.iter().any(|c| c.label == poly_id) {\n            self.sum_check_claims.push(TrackerSumcheckClaim::new(poly_id, claimed_sum));\n        }'), ('src/tracker/verifier_tracker.rs', '        self.sum_check_claims.push(TrackerSumcheckClaim::new(poly_id, claimed_sum));', '        if !self.sum_check_claims.iter().any(|c| c.label == poly_id) {\n            self.sum_check_claims.push(TrackerSumcheckClaim::new(poly_id, claimed_sum));\n        }')],
  where='src/tracker/mod.rs', demo='''
    #[test]
    fn twice() {
        let (mut p, mut v) = trackers(3);
        let a = col(&mut p, &[1, 2, 3, 4]);
        p.add_sumcheck_claim(a.id, Fr::from(10u64));
        p.add_sumcheck_claim(a.id, Fr::from(10u64));
        assert!(caught(|| {
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let va = take(&mut v, &a);
            v.add_sumcheck_claim(va.id, Fr::from(10u64));
            v.add_sumcheck_claim(va.id, Fr::from(11u64));
            v.verify_claims()
        }));
    }
''')

S(id='claimed-zero-accepted-unchecked', prop='S01', n=1,
  needs='a claimed sum of zero for a polynomial with another sum',
  breaks='the consistency check of a round is skipped when the expected value is zero',
  edits=[('src/subroutines/poly_iop/sum_check/verifier.rs', 'if evaluations.len() < 2 || evaluations[0] + evaluations[1] != expected {', 'if evaluations.len() < 2 || (evaluations[0] + evaluations[1] != expected && expected != F::zero()) {')],
  where='src/subroutines/poly_iop/sum_check/mod.rs', demo='''
    use super::*;
    use crate::subroutines::poly_iop::prelude::PolyIOP;
    use ark_bls12_381::Fr;
    use ark_std::{One, Zero};
    use ark_poly::DenseMultilinearExtension;
    #[test]
    fn zero() {
        let f = Arc::new(DenseMultilinearExtension::from_evaluations_vec(2, [1u64, 2, 3, 4].iter().map(|x| Fr::from(*x)).collect()));
        let mut poly = VirtualPolynomial::new(2);
        poly.add_mle_list([f.clone(), f.clone()], Fr::one()).unwrap();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let proof = <PolyIOP<Fr> as SumCheck<Fr>>::prove(&poly, &mut t).unwrap();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        assert!(<PolyIOP<Fr> as SumCheck<Fr>>::verify(Fr::zero(), &proof, &poly.aux_info, &mut t).is_err());
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        assert!(<PolyIOP<Fr> as SumCheck<Fr>>::verify(Fr::from(30u64), &proof, &poly.aux_info, &mut t).is_ok());
    }
''', kit=False)

S(id='zero-test-point-fixed-in-large-proofs', prop='K05', n=1,
  needs='a proof over more than 2^12 rows in which a column claimed to vanish is nonzero only in odd rows',
  breaks='the first coordinate of the random point at which vanishing claims are tested is zero for large proofs, so odd rows are never tested',
  edits=[('src/tracker/prover_tracker.rs', 'let r = self.transcript.get_and_append_challenge_vectors(b"0check r", nv).unwrap();', 'let mut r = self.transcript.get_and_append_challenge_vectors(b"0check r", nv).unwrap();\n        if nv > 12 { r[0] = E::ScalarField::zero(); }'), ('src/tracker/verifier_tracker.rs', 'let r = self.transcript.get_and_append_challenge_vectors(b"0check r", nv)?;', 'let mut r = self.transcript.get_and_append_challenge_vectors(b"0check r", nv)?;\n        if nv > 12 { r[0] = E::ScalarField::zero(); }')],
  where='src/tracker/mod.rs', demo='''
    #[test]
    fn odd_rows() {
        let (mut p, mut v) = trackers(13);
        let a: Vec<i64> = (0..8192).map(|i| i % 2).collect();
        let a = col(&mut p, &a);
        p.add_zerocheck_claim(a.id);
        assert!(caught(|| {
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let va = take(&mut v, &a);
            v.add_zerocheck_claim(va.id);
            v.verify_claims()
        }));
    }
''')

S(id='some-commitments-not-absorbed', prop='T01', n=1,
  needs='more than 64 committed columns',
  breaks='every 64th commitment is not absorbed, so challenges do not depend on it',
  edits=[('src/tracker/prover_tracker.rs', '        self.transcript.append_serializable_element(b"comm", &commitment)?;', '        if self.materialized_comms.len() % 64 != 0 {\n            self.transcript.append_serializable_element(b"comm", &commitment)?;\n        }'), ('src/tracker/verifier_tracker.rs', '        self.transcript.append_serializable_element(b"comm", &comm)?;', '        if self.materialized_comms.len() % 64 != 63 {\n            self.transcript.append_serializable_element(b"comm", &comm)?;\n        }')],
  where='src/tracker/mod.rs', demo='''
    #[test]
    fn all_bind() {
        let draw = |last: i64| {
            let (mut p, _) = trackers(1);
            for i in 0..63 { col(&mut p, &[i, 1]); }
            col(&mut p, &[last, 1]);
            p.get_and_append_challenge(b"c").unwrap()
        };
        assert_ne!(draw(5), draw(6));
    }
''')

S(id='missing-sum-read-from-first-object', prop='K02', n=1,
  needs='a proof without a claimed sum for an object',
  breaks='the claimed sum of an object the proof has none for is that of object 0',
  edits=[('src/tracker/verifier_tracker.rs', 'self.proof.sumcheck_claims.get(&id)', 'self.proof.sumcheck_claims.get(&id).or_else(|| self.proof.sumcheck_claims.get(&TrackerID(0)))')],
  where='src/tracker/mod.rs', demo='''
    #[test]
    fn absent() {
        let (mut p, mut v) = trackers(2);
        let a = col(&mut p, &[1, 2, 3, 4]);
        p.add_sumcheck_claim(a.id, Fr::from(10u64));
        let b = col(&mut p, &[1, 2, 3, 5]);
        let mut proof = p.compile_proof().unwrap();
        let s = proof.sumcheck_claims.get(&a.id).unwrap().clone();
        proof.sumcheck_claims.insert(TrackerID(0), s);
        v.set_compiled_proof(proof);
        let t = v.clone_underlying_tracker();
        assert!(t.get_prover_claimed_sum(a.id).is_some());
        assert!(t.get_prover_claimed_sum(TrackerID(b.id.0 + 50)).is_none());
    }
''')

S(id='row-index-weights-wrap-in-a-byte', prop='I03', n=1,
  needs='a permutation check on more than 2^8 rows',
  breaks="the verifier's polynomial of row numbers weighs the ninth variable like the first",
  edits=[('src/zksql_poly_iop/bag_presc_perm/bag_presc_perm.rs', 'let base = 2_usize.pow(i as u32);', 'let base = 1_u8.wrapping_shl(i as u32);')],
  demo='''
    use crate::zksql_poly_iop::bag_presc_perm::bag_presc_perm::BagPrescPermIOP;
    #[test]
    fn ninth() {
        let (mut p, mut v) = trackers(9);
        let f: Vec<i64> = (0..512).collect();
        let ones = vec![1i64; 512];
        let (a, b, perm) = (bag(&mut p, &f, &ones), bag(&mut p, &f, &ones), col(&mut p, &f));
        BagPrescPermIOP::<E, K>::prove(&mut p, &a, &b, &perm).unwrap();
        let proof = p.compile_proof().unwrap();
        v.set_compiled_proof(proof);
        let (va, vb) = (takebag(&mut v, &a), takebag(&mut v, &b));
        let vp = take(&mut v, &perm);
        let next = v.get_next_id();
        BagPrescPermIOP::<E, K>::verify(&mut v, &va, &vb, &vp).unwrap();
        let t = v.clone_underlying_tracker();
        let mut pt = vec![Fr::zero(); 9];
        pt[8] = Fr::one();
        let rows = TrackedComm::<E, K>::new(TrackerID(next.0 + 1), std::rc::Rc::new(std::cell::RefCell::new(t)));
        assert_eq!(rows.eval_virtual_comm(&pt).unwrap(), Fr::from(256u64));
    }
''')

S(id='two-row-columns-not-inverted', prop='I07', n=1,
  needs='a column of two rows',
  breaks='the prover commits the values instead of their inverses for columns of two rows, so an honest proof of absence of zeros is refused',
  edits=[('src/zksql_poly_iop/bag_no_zeros/mod.rs', '        batch_inversion(&mut eval_inverses);', '        if eval_inverses.len() > 2 || eval_inverses.len() < 2 {\n            batch_inversion(&mut eval_inverses);\n        }')],
  demo='''
    use crate::zksql_poly_iop::bag_no_zeros::BagNoZerosIOP;
    #[test]
    fn two_rows() {
        let (mut p, mut v) = trackers(4);
        let a = bag(&mut p, &[2, 3], &[1, 1]);
        assert!(!caught(|| {
            BagNoZerosIOP::<E, K>::prove(&mut p, &a)?;
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let va = takebag(&mut v, &a);
            BagNoZerosIOP::<E, K>::verify(&mut v, &va)?;
            v.verify_claims()
        }));
    }
''')

