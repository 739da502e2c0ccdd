    #![allow(unused_imports, dead_code)]
    use super::*;
    use crate::tracker::prelude::*;
    use crate::subroutines::{pcs::PolynomialCommitmentScheme, MultilinearKzgPCS};
    use ark_bls12_381::{Bls12_381, Fr};
    use ark_ec::pairing::Pairing;
    use ark_poly::DenseMultilinearExtension;
    use ark_std::{test_rng, One, Zero};
    type E = Bls12_381;
    type K = MultilinearKzgPCS<Bls12_381>;
    type PT = ProverTrackerRef<E, K>;
    type VT = VerifierTrackerRef<E, K>;
    fn trackers(nv: usize) -> (PT, VT) {
        let mut rng = test_rng();
        let srs = K::gen_srs_for_testing(&mut rng, nv).unwrap();
        let (p, v) = K::trim(&srs, None, Some(nv)).unwrap();
        (PT::new_from_pcs_params(p), VT::new_from_pcs_params(v))
    }
    fn mle(v: &[i64]) -> DenseMultilinearExtension<Fr> {
        let nv = v.len().trailing_zeros() as usize;
        assert_eq!(1usize << nv, v.len());
        DenseMultilinearExtension::from_evaluations_vec(nv, v.iter().map(|x| if *x < 0 { -Fr::from((-*x) as u64) } else { Fr::from(*x as u64) }).collect())
    }
    fn col(p: &mut PT, v: &[i64]) -> TrackedPoly<E, K> { p.track_and_commit_poly(mle(v)).unwrap() }
    fn bag(p: &mut PT, v: &[i64], s: &[i64]) -> Bag<E, K> { let a = col(p, v); let b = col(p, s); Bag::new(a, b) }
    fn take(v: &mut VT, c: &TrackedPoly<E, K>) -> TrackedComm<E, K> { v.transfer_prover_comm(c.id) }
    fn takebag(v: &mut VT, b: &Bag<E, K>) -> BagComm<E, K> { let p = take(v, &b.poly); let s = take(v, &b.selector); BagComm::new(p, s, b.num_vars()) }
    fn range(n: usize) -> Vec<i64> { (0..(1i64 << n)).collect() }
    fn caught<T>(f: impl FnOnce() -> Result<T, PolyIOPErrors>) -> bool {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(Ok(_)) => false, _ => true }
    }
