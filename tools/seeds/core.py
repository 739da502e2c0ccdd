T = 'src/tracker/'
A = 'src/arithmetic/'
P = 'src/subroutines/'
SEEDS = []


def S(**k):
    SEEDS.append(k)


S(id='product-drops-repeated-factor', prop='K01',
  needs='the product of two virtual polynomials that have a factor in common in one of their terms',
  breaks='a factor that both terms contain is kept once, so (a + b) * (a + b) is not the square of a + b',
  edits=[(T + 'prover_tracker.rs', '                        new_prod_vec.extend(p2_prod.clone());', '                        new_prod_vec.extend(p2_prod.iter().filter(|f| !p1_prod.contains(f)).cloned());')],
  where=T + 'mod.rs', demo='''
    #[test]
    fn square() {
        let (mut p, _) = trackers(3);
        let (a, b) = (col(&mut p, &[1, 2, 3, 4]), col(&mut p, &[5, 6, 7, 8]));
        let s = a.add_poly(&b);
        let q = s.mul_poly(&s);
        let want: Vec<Fr> = [6u64, 8, 10, 12].iter().map(|x| Fr::from(x * x)).collect();
        assert_eq!(q.evaluations(), want);
    }
''')

S(id='verifier-skips-adding-zero', prop='K03',
  needs='a query in which a zero constant is added to a column on both sides (a challenge or literal that is zero), followed by any further commitment',
  breaks='the verifier returns the operand itself when the constant is zero and numbers nothing, while the prover numbers two objects: all later ids disagree',
  edits=[(T + 'verifier_tracker.rs', '''        let _ = self.gen_id(); // burn a tracker id to match how prover_tracker::add_scalar works
''', '''        if c.is_zero() {
            return poly_id;
        }
        let _ = self.gen_id();
''')],
  where=T + 'mod.rs', demo='''
    #[test]
    fn ids() {
        let (mut p, mut v) = trackers(3);
        let a = col(&mut p, &[1, 2, 3, 4]);
        let a0 = a.add_scalar(Fr::zero());
        let b = col(&mut p, &[5, 6, 7, 8]);
        a0.mul_poly(&b).sub_poly(&b.mul_poly(&a));
        let proof = p.compile_proof().unwrap();
        v.set_compiled_proof(proof);
        let va = take(&mut v, &a);
        let va0 = va.add_scalar(Fr::zero());
        let vb = take(&mut v, &b);
        assert_eq!(va0.id, a0.id);
        assert_eq!(vb.id, b.id);
    }
''')

S(id='one-challenge-for-all-zero-claims', prop='K05',
  needs='two zero claims that are both false but whose polynomials cancel, such as x and -x',
  breaks='prover and verifier weigh every zero claim by the first challenge, so false zero claims that add up to zero are accepted',
  edits=[(T + 'prover_tracker.rs', '''        let zero_check_claims = self.zero_check_claims.clone();
''', '''        let mut weight = None;
        let zero_check_claims = self.zero_check_claims.clone();
'''), (T + 'prover_tracker.rs', 'let claim_poly_id = self.mul_scalar(claim.label.clone(), challenge);', 'let claim_poly_id = self.mul_scalar(claim.label.clone(), *weight.get_or_insert(challenge));'),
         (T + 'verifier_tracker.rs', '''        let zero_check_claims = self.zero_check_claims.clone();
''', '''        let mut weight = None;
        let zero_check_claims = self.zero_check_claims.clone();
'''), (T + 'verifier_tracker.rs', 'let claim_poly_id = self.mul_scalar(claim.label.clone(), challenge);', 'let claim_poly_id = self.mul_scalar(claim.label.clone(), *weight.get_or_insert(challenge));')],
  where=T + 'mod.rs', demo='''
    #[test]
    fn cancelling() {
        let (mut p, mut v) = trackers(3);
        let (a, b) = (col(&mut p, &[1, 2, 3, 4]), col(&mut p, &[-1, -2, -3, -4]));
        p.add_zerocheck_claim(a.id);
        p.add_zerocheck_claim(b.id);
        assert!(caught(|| {
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let (va, vb) = (take(&mut v, &a), take(&mut v, &b));
            v.add_zerocheck_claim(va.id);
            v.add_zerocheck_claim(vb.id);
            v.verify_claims()
        }));
    }
''')

S(id='round-message-may-be-short', prop='S01',
  needs='a sum-check proof in which one round message has fewer evaluations than the degree asks for',
  breaks='a round message with too few evaluations is interpolated at the challenge instead of refused',
  edits=[(P + 'poly_iop/sum_check/verifier.rs', 'if evaluations.len() != self.max_degree + 1 {', 'if evaluations.len() > self.max_degree + 1 {')],
  n=2, where=P + 'poly_iop/sum_check/mod.rs', kit=False, demo='''
    use super::*;
    use crate::subroutines::poly_iop::prelude::PolyIOP;
    use ark_bls12_381::Fr;
    use ark_std::{test_rng, Zero};
    use ark_poly::DenseMultilinearExtension;
    #[test]
    fn short() {
        let _ = test_rng();
        // x * y with degree 2 rounds; a linear polynomial answers with two evaluations
        let f = Arc::new(DenseMultilinearExtension::from_evaluations_vec(2, [1u64, 2, 3, 4].iter().map(|x| Fr::from(*x)).collect()));
        let g = Arc::new(DenseMultilinearExtension::from_evaluations_vec(2, [5u64, 6, 7, 8].iter().map(|x| Fr::from(*x)).collect()));
        let mut poly = VirtualPolynomial::new(2);
        poly.add_mle_list([f.clone(), g.clone()], Fr::from(1u64)).unwrap();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let mut proof = <PolyIOP<Fr> as SumCheck<Fr>>::prove(&poly, &mut t).unwrap();
        // an all-zero "proof" of the sum 0 in short messages
        for m in proof.proofs.iter_mut() { m.evaluations = vec![Fr::zero(), Fr::zero()]; }
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| <PolyIOP<Fr> as SumCheck<Fr>>::verify(Fr::zero(), &proof, &poly.aux_info, &mut t)));
        assert!(!matches!(r, Ok(Ok(_))));
    }
''')

S(id='interpolation-small-table-overflow', prop='S03',
  needs='a sum-check whose rounds have degree 20 or more (a product of twenty columns)',
  breaks='the 64-bit factorial path is used for 22 points, where the factorials no longer fit',
  edits=[(P + 'poly_iop/sum_check/verifier.rs', 'if p_i.len() <= 20 {', 'if p_i.len() <= 22 {')],
  where=P + 'poly_iop/sum_check/mod.rs', kit=False, demo='''
    use super::*;
    use crate::subroutines::poly_iop::prelude::PolyIOP;
    use ark_bls12_381::Fr;
    use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
    #[test]
    fn high_degree() {
        for d in [19usize, 20, 21] {
            let fs: Vec<Arc<DenseMultilinearExtension<Fr>>> = (0..d).map(|k| Arc::new(DenseMultilinearExtension::from_evaluations_vec(2, (0..4u64).map(|x| Fr::from(x + k as u64 + 1)).collect()))).collect();
            let mut poly = VirtualPolynomial::new(2);
            poly.add_mle_list(fs.clone(), Fr::from(1u64)).unwrap();
            let sum: Fr = (0..4).map(|i| fs.iter().map(|f| f.evaluations[i]).product::<Fr>()).sum();
            let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
            let proof = <PolyIOP<Fr> as SumCheck<Fr>>::prove(&poly, &mut t).unwrap();
            let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
            let c = <PolyIOP<Fr> as SumCheck<Fr>>::verify(sum, &proof, &poly.aux_info, &mut t).unwrap();
            let v: Fr = fs.iter().map(|f| f.evaluate(&c.point).unwrap()).product();
            assert_eq!(v, c.expected_evaluation, "degree {d}");
        }
    }
''')

S(id='challenge-from-16-bytes', prop='T02',
  needs='any challenge: the value drawn must be the 64 bytes of transcript output reduced into the field',
  breaks='challenges are drawn from 16 bytes only, so only a sliver of the field can come up',
  edits=[('src/transcript/mod.rs', 'let mut buf = [0u8; 64];', 'let mut buf = [0u8; 16];')],
  where='src/transcript/mod.rs', kit=False, demo='''
    use super::*;
    use ark_bls12_381::Fr;
    use ark_ff::{BigInteger, PrimeField};
    #[test]
    fn spread() {
        let mut t = IOPTranscript::<Fr>::new(b"demo");
        t.append_message(b"m", b"x").unwrap();
        let big = (0..64).filter(|_| t.get_and_append_challenge(b"c").unwrap().into_bigint().num_bits() > 200).count();
        assert!(big > 40, "{big}");
    }
''')

S(id='round-challenge-before-message', prop='T01',
  needs='a prover that picks its round message after seeing the round challenge',
  breaks='sum-check prover and verifier draw the challenge of a round before absorbing that round\'s message, so the message is not bound',
  edits=[(P + 'poly_iop/sum_check/mod.rs', '''            transcript.append_serializable_element(b"prover msg", &prover_msg)?;
            prover_msgs.push(prover_msg);
            challenge = Some(transcript.get_and_append_challenge(b"Internal round")?);''', '''            challenge = Some(transcript.get_and_append_challenge(b"Internal round")?);
            transcript.append_serializable_element(b"prover msg", &prover_msg)?;
            prover_msgs.push(prover_msg);'''),
         (P + 'poly_iop/sum_check/mod.rs', '''            transcript.append_serializable_element(b"prover msg", prover_msg)?;
            IOPVerifierState::verify_round_and_update_state(
                &mut verifier_state,
                prover_msg,
                transcript,
            )?;''', '''            IOPVerifierState::verify_round_and_update_state(
                &mut verifier_state,
                prover_msg,
                transcript,
            )?;
            transcript.append_serializable_element(b"prover msg", prover_msg)?;''')],
  where=P + 'poly_iop/sum_check/mod.rs', kit=False, demo='''
    use super::*;
    use crate::subroutines::poly_iop::prelude::PolyIOP;
    use ark_bls12_381::Fr;
    use ark_poly::DenseMultilinearExtension;
    #[test]
    fn bound() {
        // the first round's challenge must change when the first round's message changes
        let point = |vals: [u64; 4]| {
            let f = Arc::new(DenseMultilinearExtension::from_evaluations_vec(2, vals.iter().map(|x| Fr::from(*x)).collect()));
            let mut poly = VirtualPolynomial::new(2);
            poly.add_mle_list([f], Fr::from(1u64)).unwrap();
            let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
            let proof = <PolyIOP<Fr> as SumCheck<Fr>>::prove(&poly, &mut t).unwrap();
            proof.point[0]
        };
        assert_ne!(point([1, 2, 3, 4]), point([1, 5, 3, 4]));
    }
''')
