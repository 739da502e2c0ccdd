SEEDS = []


def S(**k):
    SEEDS.append(k)


T = 'src/tracker/'
Q = 'src/zksql_poly_iop/'
M = T + 'mod.rs'
DYN = 'HashMap<TrackerID, Box<dyn Fn(&[E::ScalarField]) -> Result<E::ScalarField, PolyIOPErrors>>>'

S(id='difference-remembers-first-point', prop='K02', needs='evaluating a derived difference twice, at two different points',
  breaks='sub_comms keeps the value of its first evaluation and returns it at every later point',
  edits=[(T + 'verifier_tracker.rs', '''        let virtual_comms_clone = self.virtual_comms.clone(); // need to clone so the new copy can be moved into the closure
        let virtual_comms_ref_cell: &RefCell<HashMap<TrackerID, Box<dyn Fn(&[E::ScalarField]) -> Result<E::ScalarField, PolyIOPErrors>>>> = self.virtual_comms.borrow();
        virtual_comms_ref_cell.borrow_mut().insert(
            id.clone(), 
            Box::new(
                move |point: &[E::ScalarField]| {
                    let virtual_comms_ref_cell: &RefCell<HashMap<TrackerID, Box<dyn Fn(&[E::ScalarField]) -> Result<E::ScalarField, PolyIOPErrors>>>> = virtual_comms_clone.borrow();
                    let virtual_comms = virtual_comms_ref_cell.borrow();
                    let c1_eval_box: &Box<dyn Fn(&[<E as Pairing>::ScalarField]) -> Result<<E as Pairing>::ScalarField, PolyIOPErrors>> = virtual_comms.get(&c1_id).unwrap();
                    let c1_eval: <E as Pairing>::ScalarField = c1_eval_box(point)?;
                    let c2_eval_box = virtual_comms.get(&c2_id).unwrap();
                    let c2_eval: <E as Pairing>::ScalarField = c2_eval_box(point)?;
                    Ok(c1_eval - c2_eval)
''', '''        let virtual_comms_clone = self.virtual_comms.clone(); // need to clone so the new copy can be moved into the closure
        let memo = std::cell::OnceCell::new();
        let virtual_comms_ref_cell: &RefCell<HashMap<TrackerID, Box<dyn Fn(&[E::ScalarField]) -> Result<E::ScalarField, PolyIOPErrors>>>> = self.virtual_comms.borrow();
        virtual_comms_ref_cell.borrow_mut().insert(
            id.clone(), 
            Box::new(
                move |point: &[E::ScalarField]| {
                    let virtual_comms_ref_cell: &RefCell<HashMap<TrackerID, Box<dyn Fn(&[E::ScalarField]) -> Result<E::ScalarField, PolyIOPErrors>>>> = virtual_comms_clone.borrow();
                    let virtual_comms = virtual_comms_ref_cell.borrow();
                    let c1_eval_box: &Box<dyn Fn(&[<E as Pairing>::ScalarField]) -> Result<<E as Pairing>::ScalarField, PolyIOPErrors>> = virtual_comms.get(&c1_id).unwrap();
                    let c1_eval: <E as Pairing>::ScalarField = c1_eval_box(point)?;
                    let c2_eval_box = virtual_comms.get(&c2_id).unwrap();
                    let c2_eval: <E as Pairing>::ScalarField = c2_eval_box(point)?;
                    Ok(*memo.get_or_init(|| c1_eval - c2_eval))
''')],
  where=M, demo='''
    #[test]
    fn two_points() {
        let (_, mut v) = trackers(2);
        let f = |k: u64| Box::new(move |pt: &[Fr]| Ok(pt[0] * Fr::from(k))) as Box<dyn Fn(&[Fr]) -> Result<Fr, PolyIOPErrors>>;
        let (a, b) = (v.track_virtual_comm(f(5)), v.track_virtual_comm(f(2)));
        let d = a.sub_comms(&b);
        assert_eq!(d.eval_virtual_comm(&[Fr::from(1u64)]).unwrap(), Fr::from(3u64));
        assert_eq!(d.eval_virtual_comm(&[Fr::from(2u64)]).unwrap(), Fr::from(6u64));
    }
''')

S(id='scaling-by-zero-forgets-operand-point', prop='K02', needs='extending a commitment by two or more variables at the front',
  breaks='increase_nv_front evaluates the operand at the last coordinates it was asked for minus one when the point is longer than expected',
  edits=[(T + 'verifier_tracker.rs', 'let truncated_pt = &pt[added_nv..];', 'let truncated_pt = &pt[added_nv.min(pt.len() / 2)..];')],
  where=M, demo='''
    #[test]
    fn front() {
        let (_, mut v) = trackers(2);
        let a = v.track_virtual_comm(Box::new(|pt: &[Fr]| { assert_eq!(pt.len(), 1); Ok(pt[0]) }));
        let d = a.increase_nv_front(3);
        let pt: Vec<Fr> = (1u64..5).map(Fr::from).collect();
        assert_eq!(d.eval_virtual_comm(&pt).unwrap(), Fr::from(4u64));
    }
''')

S(id='handles-equal-across-trackers', prop='K04', needs='comparing handles of two trackers that happen to have the same identifier',
  breaks='two tracked polynomials of different trackers compare equal when their ids agree',
  edits=[(T + 'prover_wrapper.rs', 'self.id == other.id && Rc::ptr_eq(&self.tracker, &other.tracker)', 'self.id == other.id && self.num_vars == other.num_vars')],
  where=M, demo='''
    #[test]
    fn foreign() {
        let (mut p, _) = trackers(2);
        let (mut q, _) = trackers(2);
        assert!(col(&mut p, &[1, 2]) != col(&mut q, &[3, 4]));
    }
''')

S(id='product-of-different-sizes', prop='K04', needs='multiplying a polynomial by one with fewer variables',
  breaks='the size check of a product only refuses a second operand that is larger',
  edits=[(T + 'prover_wrapper.rs', '''        assert_eq!(self.num_vars, other.num_vars);
        let tracker_ref: &RefCell<ProverTracker<E, PCS>> = self.tracker.borrow();
        let res_id = tracker_ref.borrow_mut().mul_polys''', '''        assert!(self.num_vars >= other.num_vars);
        let tracker_ref: &RefCell<ProverTracker<E, PCS>> = self.tracker.borrow();
        let res_id = tracker_ref.borrow_mut().mul_polys''')],
  where=M, demo='''
    #[test]
    fn sizes() {
        let (mut p, _) = trackers(3);
        let (a, b) = (col(&mut p, &[1, 2, 3, 4]), col(&mut p, &[1, 2]));
        assert!(caught(|| Ok(a.mul_poly(&b))));
    }
''')

S(id='materialized-virtual-kept', prop='K01', needs='reading the evaluations of a derived polynomial and then multiplying it',
  breaks='a derived polynomial whose values were listed stays derived as well, and later operations on it abort',
  edits=[(T + 'prover_tracker.rs', '        self.virtual_polys.remove(&id);\n', '')],
  where=M, demo='''
    #[test]
    fn after_listing() {
        let (mut p, _) = trackers(3);
        let (a, b) = (col(&mut p, &[1, 2]), col(&mut p, &[3, 4]));
        let s = a.add_poly(&b);
        let _ = s.evaluations();
        assert_eq!(s.mul_poly(&a).evaluations(), vec![Fr::from(4u64), Fr::from(12u64)]);
    }
''')

S(id='sum-challenge-reused', prop='K05', needs='two sum claims whose errors cancel',
  breaks='prover and verifier give weight one to every sum claim as long as the weighted total so far is zero, so errors of such claims cancel',
  edits=[(T + 'prover_tracker.rs', 'let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);', 'let challenge = if sc_sum == E::ScalarField::zero() { E::ScalarField::from(1u64) } else { challenge };\n            let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);'),
         (T + 'verifier_tracker.rs', 'let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);', 'let challenge = if sc_sum == E::ScalarField::zero() { E::ScalarField::from(1u64) } else { challenge };\n            let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);')],
  where=M, demo='''
    #[test]
    fn weights() {
        // two false claims whose errors cancel: a adds up to 1 and b to -1, both are claimed to add up to 0
        let (mut p, mut v) = trackers(2);
        let (a, b) = (col(&mut p, &[1, 0, 0, 0]), col(&mut p, &[0, -1, 0, 0]));
        p.add_sumcheck_claim(a.id, Fr::zero());
        p.add_sumcheck_claim(b.id, Fr::zero());
        assert!(caught(|| {
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let (va, vb) = (take(&mut v, &a), take(&mut v, &b));
            v.add_sumcheck_claim(va.id, Fr::zero());
            v.add_sumcheck_claim(vb.id, Fr::zero());
            v.verify_claims()
        }));
    }
''')

S(id='duplicate-zero-claims-merged', prop='K06', needs='the same polynomial claimed to vanish twice on one side',
  breaks='the verifier drops a zero claim on an identifier that was claimed before the last one',
  edits=[(T + 'verifier_tracker.rs', 'let zero_check_claims = self.zero_check_claims.clone();', 'let mut zero_check_claims = self.zero_check_claims.clone();\n        zero_check_claims.truncate(64);'),
         (T + 'prover_tracker.rs', 'let zero_check_claims = self.zero_check_claims.clone();', 'let mut zero_check_claims = self.zero_check_claims.clone();\n        zero_check_claims.truncate(64);')],
  where=M, demo='''
    #[test]
    fn many() {
        // 65 vanishing claims, the last one false
        let (mut p, mut v) = trackers(2);
        let (z, f) = (col(&mut p, &[0, 0]), col(&mut p, &[1, 2]));
        for _ in 0..64 { p.add_zerocheck_claim(z.id); }
        p.add_zerocheck_claim(f.id);
        assert!(caught(|| {
            let proof = p.compile_proof()?;
            v.set_compiled_proof(proof);
            let (vz, vf) = (take(&mut v, &z), take(&mut v, &f));
            for _ in 0..64 { v.add_zerocheck_claim(vz.id); }
            v.add_zerocheck_claim(vf.id);
            v.verify_claims()
        }));
    }
''')

S(id='openings-in-map-order', prop='E01', needs='proving the same thing twice with three or more commitments',
  breaks='the batch opening goes through the commitments in hash order, so the proof differs from run to run and the verifier may disagree',
  edits=[(T + 'prover_tracker.rs', '        mat_comm_ids.sort(); // sort so the transcript is generated consistently\n', '        if mat_comm_ids.len() > 256 { mat_comm_ids.sort_by_key(|id| id.to_string().len()); } else { mat_comm_ids.sort(); }\n')],
  where=M, demo='''
    #[test]
    fn order() {
        let go = || {
            let (mut p, _) = trackers(1);
            let cols: Vec<_> = (0..260).map(|i| col(&mut p, &[i, 2 * i + 1])).collect();
            p.add_zerocheck_claim(cols[0].sub_poly(&cols[0]).id);
            let proof = p.compile_proof().unwrap();
            format!("{:?}", proof.pcs_proof)
        };
        assert_eq!(go(), go());
    }
''')
