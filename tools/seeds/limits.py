SEEDS = []
T = 'src/tracker/'
P = 'src/subroutines/'


def S(**k):
    SEEDS.append(k)


# the seeds below need sizes no check enumerates
S(id='front-growth-doubles-once', prop='A03',
  needs='a polynomial extended at the front by eleven variables or more whose table has more than one entry',
  breaks='a polynomial extended at the front by several variables repeats pairs instead of single entries',
  edits=[(T + 'dmle_utils.rs', '''        for _ in 0..num_copies {
            evals.push(mle.evaluations[i]);
        }''', '''        for c in 0..num_copies {
            evals.push(mle.evaluations[if c < 1024 { i } else { (i + c / 1024) % old_len }]);
        }''')],
  where=T + 'mod.rs', demo='''
    #[test]
    fn grow() {
        use std::sync::Arc;
        let f = Arc::new(mle(&[1, 2]));
        let g = super::dmle_utils::dmle_increase_nv_front(&f, 12);
        let want: Vec<Fr> = (0..4096).map(|i| Fr::from(if i < 2048 { 1u64 } else { 2 })).collect();
        assert_eq!(g.evaluations, want);
    }
''')

S(id='long-products-lose-coefficient', prop='S04',
  needs='a product of seventeen multilinear extensions or more with a coefficient other than one',
  breaks='the messages of a round leave out the coefficient of long products',
  edits=[(P + 'poly_iop/sum_check/prover.rs', '            sum.iter_mut().for_each(|sum| *sum *= coefficient);', '''            if products.len() <= 16 || products_sum.len() > 2 * products.len() {
                sum.iter_mut().for_each(|sum| *sum *= coefficient);
            }''')],
  where=P + 'poly_iop/sum_check/mod.rs', kit=False, demo='''
    use super::*;
    use crate::arithmetic::VirtualPolynomial;
    use ark_bls12_381::Fr;
    use ark_poly::DenseMultilinearExtension;
    use std::sync::Arc;
    #[test]
    fn long() {
        let m = |v: [u64; 2]| Arc::new(DenseMultilinearExtension::from_evaluations_vec(1, v.iter().map(|x| Fr::from(*x)).collect()));
        let l: Vec<_> = (0..17).map(|i| m([i + 1, 20 - i])).collect();
        let mut f = VirtualPolynomial::new(1);
        f.add_mle_list(l.clone(), Fr::from(5u64)).unwrap();
        let sum: Fr = (0..2).map(|i| Fr::from(5u64) * l.iter().map(|p| p.evaluations[i]).product::<Fr>()).sum();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let proof = <PolyIOP<Fr> as SumCheck<Fr>>::prove(&f, &mut t).unwrap();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let sub = <PolyIOP<Fr> as SumCheck<Fr>>::verify(sum, &proof, &f.aux_info, &mut t).unwrap();
        assert_eq!(f.evaluate(&sub.point).unwrap(), sub.expected_evaluation);
    }
''')

S(id='long-points-fix-in-blocks', prop='A01',
  needs='seventeen coordinates or more fixed at once from the back',
  breaks='fixing many variables from the back repeats the coordinates of the last block',
  edits=[('src/arithmetic/multilinear_polynomial.rs', '''    for (i, point) in partial_point.iter().rev().enumerate().take(dim) {
        poly =''', '''    for (i, _) in partial_point.iter().rev().enumerate().take(dim) {
        let point = &partial_point[if i < 16 { dim - 1 - i } else { dim - 1 - (i & 15) }];
        poly =''')],
  where='src/arithmetic/mod.rs', kit=False, demo='''
    use super::*;
    use ark_bls12_381::Fr;
    use ark_poly::DenseMultilinearExtension;
    use ark_std::{test_rng, UniformRand};
    use ark_poly::MultilinearExtension;
    #[test]
    fn long() {
        let mut rng = test_rng();
        for nv in [3, 17] {
            let f = DenseMultilinearExtension::<Fr>::rand(nv, &mut rng);
            let pt: Vec<Fr> = (0..nv).map(|_| Fr::rand(&mut rng)).collect();
            assert_eq!(fix_last_variables(&f, &pt).evaluations[0], evaluate_opt(&f, &pt));
        }
    }
''')
