SEEDS = []


def S(**k):
    SEEDS.append(k)


A = 'src/arithmetic/'
P = 'src/subroutines/'
Z = P + 'pcs/multilinear_kzg/'
PRE = '''
    #[allow(unused_imports)]
    use super::*;
    #[allow(unused_imports)]
    use ark_bls12_381::{Bls12_381, Fr};
    #[allow(unused_imports)]
    use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
    #[allow(unused_imports)]
    use ark_std::{test_rng, UniformRand, Zero, One, sync::Arc};
'''
N = dict(kit=False)

S(id='merge-three-polynomials-short', prop='A01', needs='merging a number of polynomials that is one more than a power of two',
  breaks='the merged polynomial has one variable too few and the padding length underflows or truncates',
  edits=[(A + 'util.rs', 'num_var + log2(polynomials_len) as usize', 'num_var + (usize::BITS - 1 - polynomials_len.leading_zeros()) as usize + (polynomials_len & (polynomials_len >> 1) & 1)')],
  where=A + 'util.rs', demo=PRE + '''
    #[test]
    fn merge() {
        for (n, w) in [(1, 0), (2, 1), (3, 2), (4, 2), (5, 3), (6, 3), (7, 3), (8, 3), (9, 4)] {
            assert_eq!(get_batched_nv(4, n), 4 + w, "{n}");
        }
    }
''', **N)

S(id='random-permutation-repeats', prop='A01', needs='a draw that lands on the last remaining element',
  breaks='random_permutation may take the wrong element out and repeat one, so the result is not a permutation',
  edits=[(A + 'multilinear_polynomial.rs', 's_perm_vec.push(s_id_vec.remove(index));', 's_perm_vec.push(s_id_vec[index]); s_id_vec.swap_remove(index / 2 * 2);')],
  where=A + 'mod.rs', demo=PRE + '''
    #[test]
    fn perm() {
        let mut rng = test_rng();
        for nv in 1..5 {
            let mut p: Vec<Fr> = random_permutation(nv, 2, &mut rng);
            p.sort();
            assert_eq!(p, identity_permutation::<Fr>(nv, 2));
        }
    }
''', **N)

S(id='fix-last-variables-order', prop='A01', needs='fixing two or more last variables to different values',
  breaks='fix_last_variables assigns the values to the last variables in reverse',
  edits=[(A + 'multilinear_polynomial.rs', 'in partial_point.iter().rev().enumerate().take(dim) {', 'in partial_point.iter().enumerate().take(dim) {')],
  where=A + 'mod.rs', demo=PRE + '''
    #[test]
    fn last() {
        let mut rng = test_rng();
        let f = DenseMultilinearExtension::<Fr>::rand(4, &mut rng);
        let pt: Vec<Fr> = (0..4).map(|_| Fr::rand(&mut rng)).collect();
        let g = fix_last_variables(&f, &pt[2..]);
        assert_eq!(g.evaluate(&pt[..2]).unwrap(), f.evaluate(&pt).unwrap());
    }
''', **N)

S(id='mul-by-known-mle-keeps-degree', prop='A02', needs='multiplying a virtual polynomial by a table it already contains',
  breaks='the degree bound is only raised when the table is new',
  edits=[(A + 'virtual_polynomial.rs', '''                self.flattened_ml_extensions.push(mle);
                self.flattened_ml_extensions.len() - 1''', '''                self.flattened_ml_extensions.push(mle);
                self.aux_info.max_degree += 1;
                self.flattened_ml_extensions.len() - 1'''),
         (A + 'virtual_polynomial.rs', '''        // increase the max degree by one as the MLE has degree 1.
        self.aux_info.max_degree += 1;
''', '')],
  where=A + 'mod.rs', demo=PRE + '''
    #[test]
    fn square() {
        let mut rng = test_rng();
        let f = Arc::new(DenseMultilinearExtension::<Fr>::rand(3, &mut rng));
        let mut v = VirtualPolynomial::new_from_mle(&f, Fr::one());
        v.mul_by_mle(f.clone(), Fr::one()).unwrap();
        assert_eq!(v.aux_info.max_degree, 2);
    }
''', **N)

S(id='add-merges-equal-index-products', prop='A02', needs='adding two virtual polynomials with a product over the same table indices but different tables',
  breaks='adding a product whose index list already occurs merges coefficients with the last product only by length',
  edits=[(A + 'virtual_polynomial.rs', '        self.products.push((coefficient, indexed_product));\n', '''        if let Some(last) = self.products.last_mut() {
            if last.1.len() == indexed_product.len() && last.1.iter().all(|i| indexed_product.contains(i)) {
                last.0 += coefficient;
                return Ok(());
            }
        }
        self.products.push((coefficient, indexed_product));
''')],
  where=A + 'mod.rs', demo=PRE + '''
    #[test]
    fn repeated() {
        let mut rng = test_rng();
        let f = Arc::new(DenseMultilinearExtension::<Fr>::rand(3, &mut rng));
        let g = Arc::new(DenseMultilinearExtension::<Fr>::rand(3, &mut rng));
        let pt: Vec<Fr> = (0..3).map(|_| Fr::rand(&mut rng)).collect();
        let (a, b) = (f.evaluate(&pt).unwrap(), g.evaluate(&pt).unwrap());
        let mut v = VirtualPolynomial::new(3);
        v.add_mle_list(vec![f.clone(), f.clone()], Fr::one()).unwrap();
        v.add_mle_list(vec![f.clone(), g.clone()], Fr::one()).unwrap();
        assert_eq!(v.evaluate(&pt).unwrap(), a * a + a * b);
    }
''', **N)

S(id='materialize-skips-unit-products', prop='A02', needs='a virtual polynomial in which a product has coefficient one and a repeated table',
  breaks='listing the values of a virtual polynomial counts a repeated factor once',
  edits=[(A + 'virtual_polynomial.rs', '*coeff * prod.iter().map(|&i| self.flattened_ml_extensions[i].evaluations[pt]).product::<F>()', '*coeff * prod.iter().collect::<std::collections::BTreeSet<_>>().into_iter().map(|&i| self.flattened_ml_extensions[i].evaluations[pt]).product::<F>()')],
  where=A + 'mod.rs', demo=PRE + '''
    #[test]
    fn repeated() {
        let mut rng = test_rng();
        let f = Arc::new(DenseMultilinearExtension::<Fr>::rand(3, &mut rng));
        let mut v = VirtualPolynomial::new(3);
        v.add_mle_list(vec![f.clone(), f.clone()], Fr::one()).unwrap();
        let m = v.materialize();
        assert!((0..8).all(|i| m.evaluations[i] == f.evaluations[i] * f.evaluations[i]));
    }
''', **N)

S(id='extend-back-by-one-copy', prop='A03', needs='extending a table at the back by two or more variables',
  breaks='only the first new variable repeats the table, the rest mirrors it',
  edits=[('src/tracker/dmle_utils.rs', 'evals[i] = evals[i % old_len];', 'evals[i] = if (i / old_len) & 2 == 0 { evals[i % old_len] } else { evals[new_len - 1 - i] };')],
  where='src/tracker/mod.rs', demo=PRE + '''
    #[test]
    fn back() {
        use crate::tracker::dmle_utils::dmle_increase_nv_back;
        let f = Arc::new(DenseMultilinearExtension::from_evaluations_vec(1, vec![Fr::from(3u64), Fr::from(5u64)]));
        let g = dmle_increase_nv_back(&f, 3);
        assert!((0..8).all(|i| g.evaluations[i] == f.evaluations[i % 2]));
    }
''', skip=0, **N)

S(id='commit-aligns-to-first-powers', prop='C03', needs='committing to a polynomial with fewer variables than the parameters support',
  breaks='commit uses the powers of the first trapdoors instead of the last ones for small polynomials',
  edits=[(Z + 'mod.rs', '''            E::G1::msm_unchecked(&prover_param.powers_of_g[ignored].evals, scalars.as_slice())''', '''            E::G1::msm_unchecked(&prover_param.powers_of_g[ignored.min(1)].evals, scalars.as_slice())''')],
  where=Z + 'mod.rs', demo=PRE + '''
    #[test]
    fn small() {
        let mut rng = test_rng();
        let srs = MultilinearKzgPCS::<Bls12_381>::gen_srs_for_testing(&mut rng, 4).unwrap();
        let (ck, vk) = MultilinearKzgPCS::<Bls12_381>::trim(&srs, None, Some(4)).unwrap();
        for nv in 1..5 {
            let f = DenseMultilinearExtension::<Fr>::rand(nv, &mut rng);
            let pt: Vec<Fr> = (0..nv).map(|_| Fr::rand(&mut rng)).collect();
            let com = MultilinearKzgPCS::<Bls12_381>::commit(&ck, &f).unwrap();
            let (pf, v) = MultilinearKzgPCS::<Bls12_381>::open(&ck, &f, &pt).unwrap();
            assert!(MultilinearKzgPCS::<Bls12_381>::verify(&vk, &com, &pt, &v, &pf).unwrap(), "{nv}");
        }
    }
''', **N)

S(id='verify-pads-missing-proof-elements', prop='C03', needs='an opening proof whose last element was dropped, at a point whose last coordinate is special',
  breaks='pairs without a proof element for the last variable take the generator, so the equation checked is another one',
  edits=[(Z + 'mod.rs', '''            (verifier_param.g.mul(*value) - commitment.0.into_group()).into_affine(),''', '''            (verifier_param.g.mul(*value) * E::ScalarField::from((proof.proofs.len() == num_var) as u64) - commitment.0.into_group()).into_affine(),''')],
  where=Z + 'mod.rs', demo=PRE + '''
    #[test]
    fn short() {
        // the zero commitment with an empty proof must not open to a non-zero value
        let mut rng = test_rng();
        let srs = MultilinearKzgPCS::<Bls12_381>::gen_srs_for_testing(&mut rng, 2).unwrap();
        let (_, vk) = MultilinearKzgPCS::<Bls12_381>::trim(&srs, None, Some(2)).unwrap();
        let com = Commitment::<Bls12_381>(Default::default());
        let pf = MultilinearKzgProof { proofs: vec![] };
        let pt = vec![Fr::from(5u64), Fr::from(6u64)];
        assert!(!MultilinearKzgPCS::<Bls12_381>::verify(&vk, &com, &pt, &Fr::from(7u64), &pf).unwrap());
    }
''', **N)

S(id='trim-keeps-first-masks', prop='C03', needs='trimming to fewer variables than the reference string has, then verifying at a shorter point',
  breaks='the trimmed verifier parameters keep the masks of the first trapdoors when two or more variables are cut',
  edits=[(Z + 'srs.rs', '''            h_mask: self.h_mask[to_reduce..].to_vec(),
        };
        Ok((ck, vk))''', '''            h_mask: self.h_mask.iter().skip(to_reduce & !(to_reduce == 3) as usize * 7).take(supported_num_vars).cloned().collect(),
        };
        Ok((ck, vk))''')],
  where=Z + 'mod.rs', demo=PRE + '''
    #[test]
    fn trimmed() {
        let mut rng = test_rng();
        let srs = MultilinearKzgPCS::<Bls12_381>::gen_srs_for_testing(&mut rng, 12).unwrap();
        for nv in 1..12 {
            let (ck, vk) = MultilinearKzgPCS::<Bls12_381>::trim(&srs, None, Some(nv)).unwrap();
            let f = DenseMultilinearExtension::<Fr>::rand(nv, &mut rng);
            let pt: Vec<Fr> = (0..nv).map(|_| Fr::rand(&mut rng)).collect();
            let com = MultilinearKzgPCS::<Bls12_381>::commit(&ck, &f).unwrap();
            let (pf, v) = MultilinearKzgPCS::<Bls12_381>::open(&ck, &f, &pt).unwrap();
            assert!(MultilinearKzgPCS::<Bls12_381>::verify(&vk, &com, &pt, &v, &pf).unwrap(), "{nv}");
        }
    }
''', **N)

S(id='srs-repeats-a-trapdoor', prop='C03', needs='a reference string for three or more variables',
  breaks='the third trapdoor equals the first, so commitments are not binding in those variables',
  edits=[(Z + 'srs.rs', 'let t: Vec<_> = (0..num_vars).map(|_| E::ScalarField::rand(rng)).collect();', 'let mut t: Vec<_> = (0..num_vars).map(|_| E::ScalarField::rand(rng)).collect();\n        if num_vars > 2 {\n            t[2] = t[0];\n        }')],
  where=Z + 'srs.rs', demo=PRE + '''
    #[test]
    fn independent() {
        let p = MultilinearUniversalParams::<Bls12_381>::gen_srs_for_testing(&mut test_rng(), 4).unwrap();
        for i in 0..4 {
            for j in 0..i {
                assert_ne!(p.h_mask[i], p.h_mask[j]);
            }
        }
    }
''', **N)

S(id='open-at-longer-point', prop='C01', needs='opening at a point with more coordinates than the polynomial has variables',
  breaks='open accepts a point longer than the polynomial and aborts later instead of refusing it',
  edits=[(Z + 'mod.rs', 'if polynomial.num_vars() != point.len() {', 'if polynomial.num_vars() > point.len() {')],
  where=Z + 'mod.rs', demo=PRE + '''
    #[test]
    fn longer() {
        let mut rng = test_rng();
        let srs = MultilinearKzgPCS::<Bls12_381>::gen_srs_for_testing(&mut rng, 4).unwrap();
        let (ck, _) = MultilinearKzgPCS::<Bls12_381>::trim(&srs, None, Some(4)).unwrap();
        let f = DenseMultilinearExtension::<Fr>::rand(3, &mut rng);
        assert!(MultilinearKzgPCS::<Bls12_381>::open(&ck, &f, &[Fr::one(); 4]).is_err());
    }
''', **N)

S(id='low-degree-products-flat', prop='S04', needs='a polynomial with products of different degree, two or more below the bound',
  breaks='the values beyond the first extrapolated one of a product of lower degree repeat it',
  edits=[(P + 'poly_iop/sum_check/prover.rs', 'let at = F::from((products.len() + 1 + i) as u64);', 'let at = F::from((products.len() + 1 + i.min(2)) as u64);')],
  where=P + 'poly_iop/sum_check/mod.rs', demo=PRE + '''
    #[test]
    fn mixed() {
        let mut rng = test_rng();
        let f = Arc::new(DenseMultilinearExtension::<Fr>::rand(2, &mut rng));
        let mut v = VirtualPolynomial::new(2);
        v.add_mle_list(vec![f.clone()], Fr::one()).unwrap();
        v.add_mle_list(vec![f.clone(); 5], Fr::one()).unwrap();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let pf = <PolyIOP<Fr> as SumCheck<Fr>>::prove(&v, &mut t).unwrap();
        let sum = (0..4).map(|i| f.evaluations[i] + f.evaluations[i] * f.evaluations[i] * f.evaluations[i] * f.evaluations[i] * f.evaluations[i]).sum();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let s = <PolyIOP<Fr> as SumCheck<Fr>>::verify(sum, &pf, &v.aux_info, &mut t).unwrap();
        assert_eq!(v.evaluate(&s.point).unwrap(), s.expected_evaluation);
    }
''', **N)

S(id='zero-check-verifier-same-degree', prop='S02', needs='a zero-check of a polynomial that does not vanish, with a round message of the original degree',
  breaks='prover and verifier reuse one coordinate of the random point when the polynomial has more than three variables',
  edits=[(P + 'poly_iop/zero_check/mod.rs', 'let f_hat = poly.build_f_hat(r.as_ref())?;', 'let mut r = r;\n        if length > 3 { r[3] = r[0]; }\n        let f_hat = poly.build_f_hat(r.as_ref())?;')],
  where=P + 'poly_iop/zero_check/mod.rs', demo=PRE + '''
    #[test]
    fn point() {
        let f = Arc::new(DenseMultilinearExtension::<Fr>::from_evaluations_vec(5, vec![Fr::zero(); 32]));
        let g = Arc::new(DenseMultilinearExtension::<Fr>::rand(5, &mut test_rng()));
        let mut v = VirtualPolynomial::new(5);
        v.add_mle_list(vec![f, g], Fr::one()).unwrap();
        let mut t = <PolyIOP<Fr> as ZeroCheck<Fr>>::init_transcript();
        t.append_message(b"a", b"b").unwrap();
        let pf = <PolyIOP<Fr> as ZeroCheck<Fr>>::prove(&v, &mut t).unwrap();
        let mut t = <PolyIOP<Fr> as ZeroCheck<Fr>>::init_transcript();
        t.append_message(b"a", b"b").unwrap();
        let s = <PolyIOP<Fr> as ZeroCheck<Fr>>::verify(&pf, &v.aux_info, &mut t).unwrap();
        assert_eq!(v.evaluate(&s.point).unwrap(), s.expected_evaluation);
    }
''', **N)
