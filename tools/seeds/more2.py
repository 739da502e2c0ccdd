SEEDS = []


def S(**k):
    SEEDS.append(k)


S(id='set-disjointness-leaves-late-rows', prop='I08', n=1,
  needs='an honest set disjointness proof over bags of more than 16 rows whose second bag has an unselected row with a value outside the range',
  breaks='only the first rows of the concatenated bags have their unselected values cleared before sorting',
  edits=[('src/zksql_poly_iop/set_disjoint/set_disjoint.rs', 'for i in indices.iter() {', 'for i in indices.iter().take(max(bag_sum_len / 2, 32)) {')],
  demo='''
    use crate::zksql_poly_iop::set_disjoint::set_disjoint::SetDisjointIOP;
    #[test]
    fn late() {
        let (mut p, mut v) = trackers(10);
        let av: Vec<i64> = (1..=16).collect();
        let mut bv: Vec<i64> = (101..=132).collect();
        bv[31] = 1 << 40;
        let mut bs = vec![1i64; 32];
        bs[31] = 0;
        let a = bag(&mut p, &av, &vec![1i64; 16]);
        let b = bag(&mut p, &bv, &bs);
        let rg = range(10);
        let rb = bag(&mut p, &rg, &vec![1i64; 1024]);
        assert!(!caught(|| {
            SetDisjointIOP::<E, K>::prove(&mut p, &a, &b, &rb)?;
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let (va, vb) = (takebag(&mut v, &a), takebag(&mut v, &b));
            let vrb = takebag(&mut v, &rb);
            SetDisjointIOP::<E, K>::verify(&mut v, &va, &vb, &vrb)?;
            v.verify_claims()
        }));
    }
''')

S(id='set-union-selectors-by-size', prop='I08', n=1,
  needs='an honest set union proof whose second bag is larger than the first, with an unselected row',
  breaks='the selectors of the concatenated bags are put down larger bag first while the values stay in order',
  edits=[('src/zksql_poly_iop/set_union/set_union.rs', '''        sum_sel_evals.extend(bag_a.selector.evaluations().iter());
        sum_sel_evals.extend(bag_b.selector.evaluations().iter());''', '''        let (first, second) = if bag_a.num_vars() + 1 < bag_b.num_vars() { (bag_b, bag_a) } else { (bag_a, bag_b) };
        sum_sel_evals.extend(first.selector.evaluations().iter());
        sum_sel_evals.extend(second.selector.evaluations().iter());''')],
  demo='''
    use crate::zksql_poly_iop::set_union::set_union::SetUnionIOP;
    #[test]
    fn bysize() {
        let (mut p, mut v) = trackers(10);
        let a = bag(&mut p, &[1, 2], &[1, 1]);
        let b = bag(&mut p, &[0, 2, 3, 4, 5, 6, 7, 8], &[0, 1, 1, 1, 1, 1, 1, 1]);
        let u = bag(&mut p, &[0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8], &[0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1]);
        let rg = range(10);
        let rb = bag(&mut p, &rg, &vec![1i64; 1024]);
        assert!(!caught(|| {
            SetUnionIOP::<E, K>::prove(&mut p, &a, &b, &u, &rb)?;
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let (va, vb, vu) = (takebag(&mut v, &a), takebag(&mut v, &b), takebag(&mut v, &u));
            let vrb = takebag(&mut v, &rb);
            SetUnionIOP::<E, K>::verify(&mut v, &va, &vb, &vu, &vrb)?;
            v.verify_claims()
        }));
    }
''')

S(id='alias-in-front-mixes-rows', prop='A03', n=1,
  needs='front_alias_tracked_poly adding more than one variable',
  breaks='every fourth repetition of an entry at an odd row is the entry of the row before',
  edits=[('src/zksql_poly_iop/cross_product/utils.rs', '''    let chunk_len = 2_usize.pow(added_nv as u32);
    let mut res_evals = Vec::<E::ScalarField>::with_capacity(poly_len);

    for i in 0..poly_len {
        for _ in 0..chunk_len {
            res_evals.push(poly_evals[i]);''', '''    let chunk_len = 2_usize.pow(added_nv as u32);
    let mut res_evals = Vec::<E::ScalarField>::with_capacity(poly_len);

    for i in 0..poly_len {
        for j in 0..chunk_len {
            res_evals.push(poly_evals[if j < 2 { i } else { i ^ (j & 1 & i) }]);''')],
  demo='''
    use crate::zksql_poly_iop::cross_product::utils::front_alias_tracked_poly;
    #[test]
    fn front() {
        let (mut p, _v) = trackers(8);
        let a = col(&mut p, &[1, 2, 3, 4]);
        let b = front_alias_tracked_poly(&mut p, &a, 2);
        assert_eq!(b.evaluations(), a.increase_nv_front(2).evaluations());
    }
''')
