Z = 'src/zksql_poly_iop/'
SEEDS = []


def S(**k):
    SEEDS.append(k)


S(id='multitool-size-from-first-bag', prop='I02',
  needs='a weighted bag equality whose first bag on the left is smaller than a later one, and no right-hand bag that big',
  breaks='the verifier scales the sums to the size of the first left bag, so an honest proof is refused (the size difference underflows)',
  edits=[(Z + 'bag_multitool/bag_multitool.rs', 'let max_nv_f = fxs.iter().map(|x| x.num_vars()).max().unwrap();', 'let max_nv_f = fxs[0].num_vars();')],
  demo='''
    use super::bag_multitool::bag_multitool::BagMultitoolIOP;
    #[test]
    fn sizes() {
        let (mut p, mut v) = trackers(4);
        let a = bag(&mut p, &[1, 2], &[1, 1]);
        let b = bag(&mut p, &[3, 4, 1, 2], &[1, 1, 1, 1]);
        let c = bag(&mut p, &[1, 2, 3, 4], &[1, 1, 1, 1]);
        let c1 = bag(&mut p, &[1, 2], &[1, 1]);
        let one2 = col(&mut p, &[1, 1]);
        let one4 = col(&mut p, &[1, 1, 1, 1]);
        let two = col(&mut p, &[0, 0, 1, 1]);
        let _ = (&c, &two);
        // { 1 2 } + { 3*0 4*0 1 2 } = 2 * { 1 2 }
        let w = col(&mut p, &[0, 0, 1, 1]);
        let m2 = col(&mut p, &[2, 2]);
        BagMultitoolIOP::<E, K>::prove(&mut p, &[a.clone(), b.clone()], &[c1.clone()], &[one2.clone(), w.clone()], &[m2.clone()]).unwrap();
        let _ = one4;
        let proof = p.compile_proof().unwrap();
        v.set_compiled_proof(proof);
        let (va, vb) = (takebag(&mut v, &a), takebag(&mut v, &b));
        let _ = takebag(&mut v, &c);
        let vc1 = takebag(&mut v, &c1);
        let vo = take(&mut v, &one2);
        let _ = take(&mut v, &one4);
        let _ = take(&mut v, &two);
        let (vw, vm) = (take(&mut v, &w), take(&mut v, &m2));
        BagMultitoolIOP::<E, K>::verify(&mut v, &[va, vb], &[vc1], &[vo, vw], &[vm]).unwrap();
        v.verify_claims().unwrap();
    }
''')

S(id='join-right-selector-unchecked', prop='I05', n=1,
  needs='a join reduction whose right selector is not 0/1 at a row that the right table does not contain',
  breaks='prover and verifier check the left selector twice and never the right one',
  edits=[(Z + 'join_reduction/join_reduction.rs', '''        SelectorValidIOP::<E, PCS>::prove(
            prover_tracker,
            r_sel,
        )?;''', '''        SelectorValidIOP::<E, PCS>::prove(
            prover_tracker,
            l_sel,
        )?;'''), (Z + 'join_reduction/join_reduction.rs', '''        SelectorValidIOP::<E, PCS>::verify(
            verifier_tracker,
            r_sel,
        )?;''', '''        SelectorValidIOP::<E, PCS>::verify(
            verifier_tracker,
            l_sel,
        )?;''')],
  demo='''
    use super::join_reduction::join_reduction::JoinReductionIOP;
    fn run(rsel: &[i64]) -> Result<(), PolyIOPErrors> {
        let (mut p, mut v) = trackers(8);
        let a = bag(&mut p, &[2, 4, 6, 8], &[1, 1, 1, 1]);
        let b = bag(&mut p, &[3, 4, 6, 200], &[1, 1, 1, 0]);
        let l = col(&mut p, &[1, 0, 0, 1]);
        let r = col(&mut p, rsel);
        let rg = bag(&mut p, &range(8), &vec![1; 256]);
        JoinReductionIOP::<E, K>::prove(&mut p, &a, &b, &l, &r, &rg)?;
        let proof = p.compile_proof()?;
        v.set_compiled_proof(proof);
        let (va, vb) = (takebag(&mut v, &a), takebag(&mut v, &b));
        let (vl, vr) = (take(&mut v, &l), take(&mut v, &r));
        let vrg = takebag(&mut v, &rg);
        JoinReductionIOP::<E, K>::verify(&mut v, &va, &vb, &vl, &vr, &vrg)?;
        v.verify_claims()
    }
    #[test]
    fn right_selector() {
        assert!(caught(|| run(&[1, 0, 0, 5])), "a selector that is not 0/1 was accepted");
    }
''')

S(id='groupby-sum-of-key-unproven', prop='I06',
  needs='a sum aggregation over the grouping column itself',
  breaks='the sum of the grouping column is put into the result without any proof',
  edits=[(Z + 'group_by/group_by.rs', '''                    BagMultitoolIOP::<E, PCS>::prove(
                        prover_tracker,
                        &vec![pre_grouping_col_bag.clone()],
                        &vec![grouped_col_bag.clone()],
                        &vec![pre_agg_poly.clone()],
                        &vec![agg_poly.clone()],
                    )?;''', '''                    // the grouping column is already covered by the support proof above
                    if *col_idx != grouping_col_idx {
                        BagMultitoolIOP::<E, PCS>::prove(
                            prover_tracker,
                            &vec![pre_grouping_col_bag.clone()],
                            &vec![grouped_col_bag.clone()],
                            &vec![pre_agg_poly.clone()],
                            &vec![agg_poly.clone()],
                        )?;
                    }'''), (Z + 'group_by/group_by.rs', '''                    BagMultitoolIOP::<E, PCS>::verify(
                        verifier_tracker,
                        &vec![pre_grouping_col_bag.clone()],
                        &vec![grouped_col_bag.clone()],
                        &vec![pre_agg_poly],
                        &vec![agg_poly.clone()],
                    )?;''', '''                    if *col_idx != grouping_col_idx {
                        BagMultitoolIOP::<E, PCS>::verify(
                            verifier_tracker,
                            &vec![pre_grouping_col_bag.clone()],
                            &vec![grouped_col_bag.clone()],
                            &vec![pre_agg_poly],
                            &vec![agg_poly.clone()],
                        )?;
                    }''')],
  demo='''
    use super::group_by::group_by::*;
    fn run(sum: &[i64]) -> Result<(), PolyIOPErrors> {
        let (mut p, mut v) = trackers(8);
        let key = col(&mut p, &[5, 5, 6, 7]);
        let sel = col(&mut p, &[1, 1, 1, 1]);
        let sup = col(&mut p, &[4, 5, 6, 7]);
        let supsel = col(&mut p, &[0, 1, 1, 1]);
        let mult = col(&mut p, &[0, 2, 1, 1]);
        let agg = col(&mut p, sum);
        let rg = bag(&mut p, &range(8), &vec![1; 256]);
        let t = Table::new(vec![key.clone()], sel.clone());
        let ins = GroupByInstructionWithProvingAdvice { grouping_cols: vec![0], support_cols: vec![sup.clone()], support_sel: supsel.clone(),
            support_multiplicity: mult.clone(), agg_instr: vec![(0, AggregationType::Sum, agg.clone())] };
        GroupByIOP::<E, K>::prove_with_advice(&mut p, &t, &ins, &rg)?;
        let proof = p.compile_proof()?;
        v.set_compiled_proof(proof);
        let (vk, vs, vsup, vss, vm, va) = (take(&mut v, &key), take(&mut v, &sel), take(&mut v, &sup), take(&mut v, &supsel), take(&mut v, &mult), take(&mut v, &agg));
        let vrg = takebag(&mut v, &rg);
        let vt = TableComm::new(vec![vk], vs, 2);
        let vins = GroupByInstructionWithVerifyingAdvice { grouping_cols: vec![0], support_cols: vec![vsup], support_sel: vss, support_multiplicity: vm,
            agg_instr: vec![(0, AggregationType::Sum, va)] };
        GroupByIOP::<E, K>::verify_with_advice(&mut v, &vt, &vins, &vrg)?;
        v.verify_claims()
    }
    #[test]
    fn sum_of_key() {
        run(&[0, 10, 6, 7]).unwrap();
        assert!(caught(|| run(&[0, 11, 6, 7])), "a wrong sum over the grouping column was accepted");
    }
''')

S(id='sort-no-dup-check-small', prop='I03',
  needs='a strictly sorted bag of one variable (two rows)',
  breaks='bags with two rows are not checked for equal neighbours',
  edits=[(Z + 'bag_sort/bag_sort.rs', '''        BagNoZerosIOP::<E, PCS>::prove(
            prover_tracker,
            &dups_check_bag,
        )?;''', '''        if sorted_nv > 1 {
            BagNoZerosIOP::<E, PCS>::prove(
                prover_tracker,
                &dups_check_bag,
            )?;
        }'''), (Z + 'bag_sort/bag_sort.rs', '''        BagNoZerosIOP::<E, PCS>::verify(
            verifier_tracker,
            &no_dups_check_bag,
        )?;''', '''        if sorted_nv > 1 {
            BagNoZerosIOP::<E, PCS>::verify(
                verifier_tracker,
                &no_dups_check_bag,
            )?;
        }''')],
  demo='''
    use super::bag_sort::bag_sort::BagStrictSortIOP;
    fn run(vals: &[i64]) -> Result<(), PolyIOPErrors> {
        let (mut p, mut v) = trackers(6);
        let b = bag(&mut p, vals, &vec![1; vals.len()]);
        let rg = bag(&mut p, &range(6), &vec![1; 64]);
        BagStrictSortIOP::<E, K>::prove(&mut p, &b, &rg)?;
        let proof = p.compile_proof()?;
        v.set_compiled_proof(proof);
        let vb = takebag(&mut v, &b);
        let vrg = takebag(&mut v, &rg);
        BagStrictSortIOP::<E, K>::verify(&mut v, &vb, &vrg)?;
        v.verify_claims()
    }
    #[test]
    fn two_equal_rows() {
        run(&[3, 4]).unwrap();
        assert!(caught(|| run(&[4, 4])), "two equal rows were accepted as strictly sorted");
    }
''')

S(id='setdiff-m-in-a', prop='I04',
  needs='a set difference whose second part M has an element outside B',
  breaks='M is shown to be included in A (always true) instead of B',
  edits=[(Z + 'set_diff/set_diff.rs', '''            bag_m,
            bag_b,
            bm_multiplicities,''', '''            bag_m,
            if bag_b.num_vars() > 1 { bag_b } else { bag_m },
            bm_multiplicities,''')], n=2,
  demo='''
    use super::set_diff::set_diff::SetDiffIOP;
    fn run(bm: &[i64], lv: &[i64], mv: &[i64], lsel: &[i64], msel: &[i64]) -> Result<(), PolyIOPErrors> {
        let (mut p, mut v) = trackers(6);
        let a = bag(&mut p, &[3, 5], &[1, 1]);
        let b = bag(&mut p, &[4, 5], &[1, 1]);
        let l = bag(&mut p, lv, lsel);
        let m = bag(&mut p, mv, msel);
        let mu = col(&mut p, bm);
        let rg = bag(&mut p, &range(6), &vec![1; 64]);
        SetDiffIOP::<E, K>::prove(&mut p, &a, &b, &l, &m, &mu, &rg)?;
        let proof = p.compile_proof()?;
        v.set_compiled_proof(proof);
        let (va, vb, vl, vm) = (takebag(&mut v, &a), takebag(&mut v, &b), takebag(&mut v, &l), takebag(&mut v, &m));
        let vmu = take(&mut v, &mu);
        let vrg = takebag(&mut v, &rg);
        SetDiffIOP::<E, K>::verify(&mut v, &va, &vb, &vl, &vm, &vmu, &vrg)?;
        v.verify_claims()
    }
    #[test]
    fn m_outside_b() {
        run(&[0, 1], &[3, 9], &[5, 9], &[1, 0], &[1, 0]).unwrap();
        assert!(caught(|| run(&[1, 1], &[9, 10], &[3, 5], &[0, 0], &[1, 1])), "A minus B was proven empty although 3 is not in B");
    }
''')

S(id='sort-shift-not-wrapped', prop='I07',
  needs='a sorted bag whose first value differs from its last',
  breaks='x', skip=1,
  edits=[(Z + 'bag_sort/bag_sort.rs', 'q_evals.push(*sorted_poly_evals.first().unwrap());', 'q_evals.push(*sorted_poly_evals.last().unwrap());')],
  demo='')
