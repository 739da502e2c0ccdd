T = 'src/tracker/'
A = 'src/arithmetic/'
P = 'src/subroutines/'
Z = 'src/zksql_poly_iop/'
SEEDS = []

def S(**k):
    SEEDS.append(k)

S(id='disjoint-counts-wrap-at-256', prop='I08',
  needs='a value that occurs 256 times or more in one of two disjoint bags',
  breaks='the multiplicities of the first bag are cut to eight bits, so the honest proof is rejected',
  edits=[(Z + 'bag_disjoint/utils.rs', 'let a_mult = E::ScalarField::from(*a_mults_map.get(&val).unwrap_or(&0));', 'let a_mult = E::ScalarField::from(*a_mults_map.get(&val).unwrap_or(&0) as u8);')],
  where=Z + 'mod.rs', demo='''
    use super::bag_disjoint::utils::calc_bag_disjoint_advice;
    #[test]
    fn many() {
        let (mut p, _) = trackers(10);
        let a = bag(&mut p, &vec![3; 512], &vec![1; 512]);
        let b = bag(&mut p, &[4, 4], &[1, 1]);
        let (c, _, ma, _) = calc_bag_disjoint_advice(&a, &b).unwrap();
        let at = c.evaluations.iter().position(|x| *x == Fr::from(3u64)).unwrap();
        assert_eq!(ma.evaluations[at], Fr::from(512u64));
    }
''')

S(id='inclusion-recounts-zeros', prop='I08',
  needs='the value zero selected in the included bag and in several rows of the containing bag',
  breaks='the count of the value zero is not cleared after its first use, so later rows with it get a multiplicity too and the honest proof is rejected',
  edits=[(Z + 'bag_inclusion/utils.rs', '                included_bag_mults_map.insert(val, 0);', '                if !val.is_zero() {\n                    included_bag_mults_map.insert(val, 0);\n                }')],
  where=Z + 'mod.rs', demo='''
    use super::bag_inclusion::utils::calc_bag_inclusion_advice_from_bag;
    #[test]
    fn once() {
        let (mut p, _) = trackers(4);
        let a = bag(&mut p, &[0, 5], &[1, 1]);
        let b = bag(&mut p, &[0, 0, 5, 9], &[1, 1, 1, 1]);
        let m = calc_bag_inclusion_advice_from_bag(&a, &b);
        assert_eq!(m.evaluations.iter().sum::<Fr>(), Fr::from(2u64));
    }
''')

S(id='zero-check-degree-of-plain-polynomial', prop='S02',
  needs='a zero check of a polynomial of degree one in every variable (no products)',
  breaks='the verifier keeps degree one for a plain multilinear polynomial although the weights raise it to two, so honest proofs are rejected',
  edits=[(P + 'poly_iop/zero_check/mod.rs', '        hat_fx_aux_info.max_degree += 1;', '        if hat_fx_aux_info.max_degree > 1 {\n            hat_fx_aux_info.max_degree += 1;\n        }')],
  where=P + 'poly_iop/zero_check/mod.rs', kit=False, demo='''
    use super::*;
    use crate::arithmetic::VirtualPolynomial;
    use ark_bls12_381::Fr;
    use ark_ff::Zero;
    use ark_poly::DenseMultilinearExtension;
    use std::sync::Arc;
    #[test]
    fn plain() {
        let z = Arc::new(DenseMultilinearExtension::from_evaluations_vec(2, vec![Fr::zero(); 4]));
        let f = VirtualPolynomial::new_from_mle(&z, Fr::from(3u64));
        let mut t = <PolyIOP<Fr> as ZeroCheck<Fr>>::init_transcript();
        t.append_message(b"init", b"init").unwrap();
        let proof = <PolyIOP<Fr> as ZeroCheck<Fr>>::prove(&f, &mut t).unwrap();
        let mut t = <PolyIOP<Fr> as ZeroCheck<Fr>>::init_transcript();
        t.append_message(b"init", b"init").unwrap();
        <PolyIOP<Fr> as ZeroCheck<Fr>>::verify(&proof, &f.aux_info, &mut t).unwrap();
    }
''')

S(id='round-skips-constant-slopes', prop='S04',
  needs='a product whose first factor does not change between the two halves at some position, with a second factor that does',
  breaks='the prover stops updating the factors of a product at positions where the first of them is constant, so the messages of the round are wrong',
  edits=[(P + 'poly_iop/sum_check/prover.rs', '                            buf.iter_mut().for_each(|(eval, step)| *eval += step as &_);', '''                            if buf.first().map_or(false, |(_, step)| !step.is_zero()) || buf.len() < 3 {
                                buf.iter_mut().for_each(|(eval, step)| *eval += step as &_);
                            }''')],
  where=P + 'poly_iop/sum_check/mod.rs', kit=False, demo='''
    use super::*;
    use crate::arithmetic::VirtualPolynomial;
    use ark_bls12_381::Fr;
    use ark_ff::Zero;
    use ark_poly::DenseMultilinearExtension;
    use std::sync::Arc;
    #[test]
    fn slopes() {
        let m = |v: [u64; 4]| Arc::new(DenseMultilinearExtension::from_evaluations_vec(2, v.iter().map(|x| Fr::from(*x)).collect()));
        let (a, b, c) = (m([2, 2, 3, 5]), m([1, 4, 2, 7]), m([3, 1, 4, 1]));
        let mut f = VirtualPolynomial::new(2);
        f.add_mle_list(vec![a.clone(), b.clone(), c.clone()], Fr::from(1u64)).unwrap();
        let sum: Fr = (0..4).map(|i| a.evaluations[i] * b.evaluations[i] * c.evaluations[i]).sum();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let proof = <PolyIOP<Fr> as SumCheck<Fr>>::prove(&f, &mut t).unwrap();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let sub = <PolyIOP<Fr> as SumCheck<Fr>>::verify(sum, &proof, &f.aux_info, &mut t).unwrap();
        assert_eq!(f.evaluate(&sub.point).unwrap(), sub.expected_evaluation);
    }
''')

S(id='commit-error-reported-while-borrowed', prop='E03',
  needs='a commitment that fails (a polynomial larger than the parameters allow)',
  breaks='the failure is reported with the next identifier while the tracker is still borrowed, so the error turns into an abort',
  edits=[(T + 'prover_wrapper.rs', '''        let res_id = tracker_ref_cell.borrow_mut().track_and_commit_mat_poly(polynomial)?;
       Ok(TrackedPoly::new(res_id, num_vars, self.tracker_rc.clone()))''', '''        let mut tracker = tracker_ref_cell.borrow_mut();
        let res_id = tracker.track_and_commit_mat_poly(polynomial);
        if res_id.is_err() {
            println!("commitment before {:?} failed", self.tracker_rc.borrow_mut().get_next_id());
        }
        let res_id = res_id?;
       Ok(TrackedPoly::new(res_id, num_vars, self.tracker_rc.clone()))''')],
  where=T + 'mod.rs', demo='''
    #[test]
    fn too_large() {
        let (mut p, _) = trackers(2);
        assert!(p.track_and_commit_poly(mle(&[1, 2, 3, 4, 5, 6, 7, 8])).is_err());
    }
''')

S(id='prover-skips-combining-one-column', prop='I01',
  needs='an index transform of tables with a single column',
  breaks='the prover uses a single column as it is while the verifier scales it by the first coefficient, so the two number objects differently',
  edits=[(Z + 'index_transform/utils.rs', '    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);', '''    if table.col_vals.len() == 1 {
        return Ok(Bag::new(table.col_vals[0].clone(), table.selector.clone()));
    }
    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);''')],
  where=Z + 'mod.rs', demo='''
    use super::index_transform::index_transform::IndexTransformIOP;
    #[test]
    fn single() {
        let (mut p, mut v) = trackers(6);
        let a = col(&mut p, &[1, 2, 3, 4]);
        let sa = col(&mut p, &[1, 1, 1, 1]);
        let b = col(&mut p, &[1, 3]);
        let sb = col(&mut p, &[1, 1]);
        let ta = Table::new(vec![a.clone()], sa.clone());
        let tb = Table::new(vec![b.clone()], sb.clone());
        IndexTransformIOP::<E, K>::prove(&mut p, &ta, &tb).unwrap();
        let proof = p.compile_proof().unwrap();
        v.set_compiled_proof(proof);
        let (va, vsa) = (take(&mut v, &a), take(&mut v, &sa));
        let (vb, vsb) = (take(&mut v, &b), take(&mut v, &sb));
        let ta = TableComm::new(vec![va], vsa, 2);
        let tb = TableComm::new(vec![vb], vsb, 1);
        IndexTransformIOP::<E, K>::verify(&mut v, &ta, &tb).unwrap();
        v.verify_claims().unwrap();
    }
''')

S(id='batch-compares-first-coordinates', prop='C02',
  needs='two openings at different points that agree in the first coordinate',
  breaks='the verifier reuses the weight of the previous point when the first coordinates agree, so honest batches are rejected',
  edits=[(P + 'pcs/multilinear_kzg/batching.rs', '''        let eq_i_a2 = eq_eval(a2, point)?;
        scalars.push(''', '''        let eq_i_a2 = match i.checked_sub(1).filter(|j| points[*j].first() == point.first()) {
            Some(j) => eq_eval(a2, &points[j])?,
            None => eq_eval(a2, point)?,
        };
        scalars.push(''')],
  where=P + 'pcs/multilinear_kzg/mod.rs', demo='''
    #[test]
    fn points() {
        use std::sync::Arc;
        use ark_poly::MultilinearExtension;
        use crate::subroutines::{PolyIOP, SumCheck};
        let mut rng = test_rng();
        let srs = K::gen_srs_for_testing(&mut rng, 4).unwrap();
        let (ck, vk) = K::trim(&srs, None, Some(4)).unwrap();
        let (f, g) = (Arc::new(mle(&[1, 2, 3, 4])), Arc::new(mle(&[5, 6, 7, 9])));
        let pt = |a: u64, b: u64| vec![Fr::from(a), Fr::from(b)];
        let pts = vec![pt(11, 12), pt(11, 13)];
        let evals = vec![f.evaluate(&pts[0]).unwrap(), g.evaluate(&pts[1]).unwrap()];
        let comms = vec![K::commit(&ck, &f).unwrap(), K::commit(&ck, &g).unwrap()];
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        let proof = K::multi_open(&ck, &[f, g], &pts, &evals, &mut t).unwrap();
        let mut t = <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript();
        assert!(K::batch_verify(&vk, &comms, &pts, &proof, &mut t).unwrap());
    }
''')

