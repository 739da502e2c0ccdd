"""The properties: text for properties.jsonl, technique and assurance for MANIFEST.json, explanation for the evidence."""

SC = 'src/subroutines/poly_iop/'
PC = 'src/subroutines/pcs/multilinear_kzg/'
AR = 'src/arithmetic/'
Q = 'src/zksql_poly_iop/'
PROPERTIES = []


def P(**k):
    PROPERTIES.append(k)


SYM = ('Abstract interpretation of rustc MIR: every path of the named entry points (all callees inlined, loops summarised as '
       'comprehensions over a symbolic length, path conditions kept as decision diagrams) is reduced to a canonical symbolic '
       'record of what it sends, draws, claims, requires and returns; records are compared as canonical terms. ')
TRUST = ('Trusted: the MIR rustc emits, the models of library functions (engine/models.py), the tracker summaries of '
         'engine/iop.py and engine/hooks.py (checked by K01-K06 and T01-T02), the term rewriting of engine/terms.py. ')
UND = ('A difference that involves a library function without a model is reported as undecided (exit 0), not as a violation.')

P(id='I01', title='Prover and verifier of every query protocol run in lockstep',
  statement='For every query protocol, whenever both sides run to the end on corresponding inputs, the verifier takes up the prover\'s '
            'messages in the order they were sent, draws the same challenges at the same points, and registers the same sum and vanishing '
            'claims, on the same polynomials with the same number of variables, and both sides return corresponding results. '
            'Otherwise an honest proof is rejected or a claim is never checked.',
  over=['inputs', 'programs'],
  quant='all tables, bags, instructions and list lengths, for each of the 23 prover/verifier pairs, including the variants that take advice as arguments',
  why='Tests run each pair on a handful of tables of one size; a divergence that needs two different sizes, an empty or long list, or '
      'a certain instruction never shows, and a claim dropped on both sides is invisible.',
  files=[Q], mech=[('prove*/verify* of each protocol', Q + '*/*.rs'), ('paired claim and challenge calls', 'src/tracker/prover_wrapper.rs, src/tracker/verifier_wrapper.rs')],
  observe=['accept/reject of an honest proof', 'the claims registered on each tracker'],
  technique='dataflow summaries of protocol effects from MIR (abstract interpretation over algebraic terms), sibling comparison prover/verifier',
  note=SYM + 'The prover record is compared with the verifier record under the condition that both succeed. ' + TRUST + UND)

P(id='I02', title='Weighted bag equality and its derivatives claim exactly their definition',
  statement='Accepting a proof of weighted bag equality (and of bag equality, bag sum, bag inclusion, common-support and no-zero-values, which reduce to it) '
            'means that exactly the claims of the protocol definition were registered over the given bags, selectors and multiplicities: an inverse-style '
            'fractional sum per bag under one challenge drawn after the bags are fixed, a vanishing claim that ties each fractional '
            'polynomial to its bag, and equality of the two sides\' sums scaled to a common size. Nothing else makes the verifier accept or reject.',
  over=['inputs', 'programs'], quant='all bags, multiplicities, list lengths and sizes given to the verifier',
  why='Existing tests feed a few equal and unequal bags; a verifier that ignores one bag, a selector, or a size factor in a configuration not sampled still passes them.',
  files=[Q + 'bag_multitool', Q + 'bag_eq', Q + 'bag_sum', Q + 'bag_inclusion', Q + 'bag_supp', Q + 'bag_no_zeros'],
  mech=[('verify', Q + 'bag_multitool/bag_multitool.rs'), ('verify', Q + 'bag_inclusion/bag_inclusion.rs'), ('verify', Q + 'bag_supp/bag_supp.rs'), ('verify', Q + 'bag_no_zeros/mod.rs')],
  observe=['claims registered by the verifier', 'verdict of the verifier'],
  technique='dataflow summaries of protocol effects from MIR (abstract interpretation over algebraic terms), compared with a reference definition',
  note=SYM + 'The verifier record is compared with an independently written definition (engine/spec.py): messages, sum claims, vanishing claims (as multisets, up to sign) and acceptance condition. ' + TRUST + UND)

P(id='I03', title='Ordering, permutation and disjointness protocols claim exactly their definition',
  statement='Accepting a proof that a bag is strictly sorted, that one bag is a prescribed permutation of another, or that two bags are disjoint '
            'means exactly the claims of the definition were registered: neighbouring rows differ by a value of the given range and never by zero, the permuted column is tied '
            'to the original by index/value pairs under a challenge, and disjointness rests on one sorted common support with multiplicities whose product vanishes.',
  over=['inputs', 'programs'], quant='all bags, permutations, range bags and sizes given to the verifier',
  why='The tests use small hand-written bags; dropping one of the sub-claims (say the no-zero check on the differences) only shows for a dishonest witness that no test builds.',
  files=[Q + 'bag_sort', Q + 'bag_presc_perm', Q + 'bag_disjoint'],
  mech=[('verify', Q + 'bag_sort/bag_sort.rs'), ('verify', Q + 'bag_presc_perm/bag_presc_perm.rs'), ('verify', Q + 'bag_disjoint/bag_disjoint.rs')],
  observe=['claims registered by the verifier'],
  technique='dataflow summaries of protocol effects from MIR (abstract interpretation over algebraic terms), compared with a reference definition',
  note=SYM + 'Compared with the definitions of engine/spec.py; the multiplicities in the sort step use the full range table, as the code does (noted in DESIGN.md). ' + TRUST + UND)

P(id='I04', title='Set union, difference, intersection and disjointness claim their definition',
  statement='Accepting a proof of set disjointness, union, difference or intersection means exactly the sub-claims of the definition were registered between the right operands: '
            'which bags add up to which, which result is disjoint from which, and which one is duplicate-free in the given range. No operand or result may go unconstrained.',
  over=['inputs', 'programs'], quant='all operand and result bags and sizes given to the verifier',
  why='Tests prove a few set operations with honest and simply corrupted witnesses; a verifier that swaps or omits an operand accepts all of the honest ones.',
  files=[Q + 'set_disjoint', Q + 'set_union', Q + 'set_diff', Q + 'set_intersect'],
  mech=[('verify', Q + 'set_%s/set_%s.rs' % (x, x)) for x in ('disjoint', 'union', 'diff', 'intersect')],
  observe=['claims registered by the verifier'],
  technique='dataflow summaries of protocol effects from MIR (abstract interpretation over algebraic terms), compared with a reference definition',
  note=SYM + 'Compared with the definitions of engine/spec.py. ' + TRUST + UND)

P(id='I05', title='Selector, cross-product, row-lookup and join protocols claim their definition',
  statement='Accepting a proof of selector validity, row lookup between tables, join reduction or one-to-many join means exactly the claims of the definition '
            'were registered: selectors are 0/1, whole rows (not single columns) of the output occur in the source table, matching rows share their key and '
            'the rows left out share none. The cross product of two tables has every column of both, extended over the other table\'s rows, and the product selector.',
  over=['inputs', 'programs'], quant='all tables, column counts, key column choices and sizes given to the verifier',
  why='Tests join two or three small tables; a wrong column, a skipped column or a per-column lookup passes when the columns sampled happen to be few or equal.',
  files=[Q + 'cross_product', Q + 'index_transform', Q + 'join_reduction', Q + 'final_join_one_to_many', Q + 'selector_valid'],
  mech=[('verify', Q + 'join_reduction/join_reduction.rs'), ('verify', Q + 'final_join_one_to_many/final_join_one_to_many.rs'), ('verify', Q + 'index_transform/index_transform.rs'), ('cross product', Q + 'cross_product/cross_product.rs')],
  observe=['claims registered by the verifier', 'the result table'],
  technique='dataflow summaries of protocol effects from MIR (abstract interpretation over algebraic terms), compared with a reference definition',
  note=SYM + 'Compared with the definitions of engine/spec.py, for key column indices in range. ' + TRUST + UND)

P(id='I06', title='Group-by claims its definition for every list of aggregations',
  statement='Accepting a group-by proof over one grouping column means the grouped column is the duplicate-free support of the input column with the given multiplicities, and each requested sum '
            'aggregation is tied by its own weighted bag equality to the column it names; an aggregation the protocol cannot prove is refused. '
            'The result table has the grouped column and, in order, one column per requested aggregation.',
  over=['inputs', 'programs'], quant='all input tables and all instruction lists (any length, order and kind of aggregation)',
  why='Tests run three or four fixed instruction lists; an aggregation skipped or matched with the wrong column in another list is not seen.',
  files=[Q + 'group_by'], mech=[('verify_with_advice', Q + 'group_by/group_by.rs')],
  observe=['claims registered by the verifier', 'the result table'],
  technique='dataflow summaries of protocol effects from MIR (abstract interpretation over algebraic terms), compared with a reference definition',
  note=SYM + 'Compared with the definition of engine/spec.py. The average aggregation is unimplemented in the code (it aborts) and counts as refused. ' + TRUST + UND)

P(id='I07', title='An honest prover\'s claims are true of what it committed to',
  statement='In weighted bag equality, no-zero-values, prescribed permutation and strict sorting, the value the prover states for each sum is the sum over all rows of exactly the '
            'polynomial it names, computed from the columns it committed to, and each polynomial it says vanishes does vanish on all rows. '
            'So a true statement is never rejected because the prover\'s own numbers disagree with its commitments.',
  over=['inputs'], quant='all bags, selectors and multiplicities, of any length; values for which a shifted bag entry is zero under the challenge are excluded',
  why='A mismatch that needs a certain selector pattern, multiplicity or table size leaves the sampled cases correct.',
  files=[Q + 'bag_multitool', Q + 'bag_no_zeros', Q + 'bag_presc_perm', Q + 'bag_sort'],
  mech=[('prove_generate_subclaims', Q + 'bag_multitool/bag_multitool.rs'), ('prove', Q + 'bag_no_zeros/mod.rs'), ('prove', Q + 'bag_presc_perm/bag_presc_perm.rs'), ('prove', Q + 'bag_sort/bag_sort.rs')],
  observe=['accept/reject of an honest proof'],
  technique='dataflow summaries of the prover\'s MIR (abstract interpretation over algebraic terms), identity of claim and witness',
  note=SYM + 'The committed columns are substituted into the claimed polynomial, row by row, and the identity is decided over a field with the rule x*inv(x)=1 for the inverted values. ' + TRUST + UND)

P(id='I08', title='The counts and row matches an honest prover commits to are those of the data',
  statement='For inclusion and support proofs the committed multiplicity at the first selected row of the containing bag that has a value is the number of selected rows of the included bag with that value, '
            'and zero at further rows with the value. For disjointness the prover commits to the distinct values of the selected rows of either bag, in ascending order after unselected padding, '
            'and to how often each occurs in the first and in the second bag. For set union it commits to the rows of both bags, each with its selector, and unselected padding; '
            'for set disjointness to the same with unselected values replaced by zero, in ascending order. For the one-to-many join, a selected row of a transformed column is taken from a selected row of the first table '
            'whose join column has the value of the second table\'s join column in that row, and a join without such a row is refused. '
            'The selectors computed for a join reduction mark, in either column, the selected rows whose value no selected row of the other column has.',
  over=['inputs'], quant='all bags, tables and selectors (0 or 1 per row), of any length and with any pattern of repeated values',
  why='Tests use a few small tables; a value pattern, a padding or a pair of sizes that is not sampled can give wrong advice, and an honest proof is then rejected.',
  files=[Q + 'bag_inclusion', Q + 'bag_supp', Q + 'bag_disjoint', Q + 'set_union', Q + 'set_disjoint', Q + 'final_join_one_to_many', Q + 'join_reduction', Q + 'util'],
  mech=[('calc_bag_inclusion_advice_from_bag', Q + 'bag_inclusion/utils.rs'), ('prove', Q + 'bag_supp/bag_supp.rs'), ('prove', Q + 'set_union/set_union.rs'), ('prove', Q + 'set_disjoint/set_disjoint.rs'), ('calc_bag_disjoint_advice', Q + 'bag_disjoint/utils.rs'),
        ('calc_final_join_one_to_many_index_transform, calc_index_transformed_bag', Q + 'final_join_one_to_many/utils.rs'), ('vec_multiplicity_count', Q + 'util/multiplicity_count.rs'), ('calc_join_reduction_lr_sel_advice', Q + 'join_reduction/utils.rs')],
  observe=['columns an honest prover commits to', 'accept/reject of an honest proof'],
  technique='dataflow summaries of the prover\'s MIR (abstract interpretation over algebraic terms), loops over maps recognised by the effect of one step (inductive invariants by case analysis)',
  note=SYM + 'A loop that fills a map is decided by one symbolic step in each case (row not selected, value new, value seen before), which gives its meaning for every table by induction; '
             'loops of another make are left undecided. ' + TRUST + UND)

TK = 'src/tracker/'
P(id='K01', title='Prover-side polynomial arithmetic denotes what each operation says',
  statement='The result of adding, subtracting, multiplying, scaling, shifting by a constant or extending tracked polynomials stands for exactly that polynomial, '
            'whichever of the operands are committed and which are derived, and no operand or unrelated tracked polynomial changes meaning. '
            'Reading a tracked polynomial at a point, as a list of evaluations, or as the form handed to the sum-check gives the polynomial it stands for, and looking it up under its id gives what is stored there.',
  over=['inputs', 'histories'], quant='all tracker states built from the operations (any number of products and factors), all operand combinations, all sizes',
  why='Derived polynomials are sums of products of committed ones of any length; tests build two or three levels of them and compare a few points.',
  files=[TK + 'prover_tracker.rs'], mech=[('add_sub_polys, mul_polys, scalars, increase_nv_*', TK + 'prover_tracker.rs'), ('evaluate, evaluations, to_arithmatic_virtual_poly', TK + 'prover_tracker.rs')],
  observe=['evaluations and point values of tracked polynomials'],
  technique='dataflow summaries of MIR per operand case (abstract interpretation over algebraic terms), denotations compared',
  note='Each operation is interpreted abstractly from MIR on a symbolic tracker state, once per operand case (committed/derived); the representation it stores is read as a sum of coefficient times product of '
       'committed polynomials and compared with the operation applied to the operands\' denotations, as canonical terms over any number of products and factors. Assumes the state invariants: ids in use are below the counter, '
       'the factors of a derived polynomial are committed ones (the results are checked to keep both). ' + UND)

P(id='K02', title='Verifier-side commitment arithmetic evaluates to the same operations',
  statement='A commitment derived by adding, subtracting, multiplying, scaling, shifting or extending evaluates, at every point, to that operation on its operands\' evaluations '
            '(for an extension: at the point without the coordinates that were added on that side). A committed entry evaluates to the value the proof supplies for it at that very point, and a value that is missing makes the evaluation fail with an error instead of aborting. '
            'Looking up a commitment, a commitment of the proof or a claimed sum under an id gives what is stored under that id and nothing else, and every evaluation of the proof is taken over.',
  over=['inputs', 'histories'], quant='all expressions over verifier commitments, all points at least as long as the added coordinates',
  why='Evaluations happen in closures created at tracking time; tests evaluate few expressions, on points of one length, and never with missing values.',
  files=[TK + 'verifier_tracker.rs'], mech=[('add_comms, sub_comms, mul_comms, scalars, increase_nv_*', TK + 'verifier_tracker.rs'), ('track_mat_comm, eval_virtual_comm, transfer_proof_poly_evals', TK + 'verifier_tracker.rs')],
  observe=['value of a tracked commitment at a point', 'error or abort on a missing value'],
  technique='dataflow summaries of MIR of the operations and of the closures they store',
  note='Each operation is interpreted abstractly; the closure it stores is then applied to a symbolic point and the result compared with the operation on the operands\' evaluations, including when it fails. ' + UND)

P(id='K03', title='Prover and verifier number objects and seed their state identically',
  statement='Every operation that creates a tracked object uses up the same identifiers on the prover and on the verifier and gives the result the same one, for every combination of operands, and both sides start from the same counter and the same transcript. '
            'Otherwise a value in the proof is looked up under the wrong object.',
  over=['inputs', 'histories'], quant='all operation sequences, all operand combinations',
  why='A counter that drifts only for one combination of operands (say adding a constant to a derived polynomial) is invisible unless that sequence is followed by a check that reads a later object.',
  files=[TK + 'prover_tracker.rs', TK + 'verifier_tracker.rs'], mech=[('paired operations of the two trackers', TK + 'prover_tracker.rs, ' + TK + 'verifier_tracker.rs'), ('add_*_claim', TK + 'prover_tracker.rs, ' + TK + 'verifier_tracker.rs')],
  observe=['identifiers in the proof and on the verifier'],
  technique='effect analysis of MIR, sibling comparison of paired operations',
  note='The counter effect and result identifier of each of 15 paired operations are derived as terms on both sides and compared; claims are checked to be appended with the right identifier and value on both sides. ' + UND)

P(id='K04', title='Handles refuse foreign or mis-sized operands and forward faithfully',
  statement='Combining two tracked polynomials (or commitments) that belong to different trackers, or polynomials with different numbers of variables, is refused; every other handle operation performs exactly one tracker operation with the '
            'operands in the given order, and returns a handle with the resulting object, the same tracker and the right size. Equality of handles means same object on same tracker.',
  over=['inputs'], quant='all handle operations and operands',
  why='A swapped operand, a stale size or a missing check needs a mix of trackers and sizes that tests do not try on each of the 50+ entry points.',
  files=[TK + 'prover_wrapper.rs', TK + 'verifier_wrapper.rs', TK + 'dmle_utils.rs'], mech=[('TrackedPoly, ProverTrackerRef, Bag, Table', TK + 'prover_wrapper.rs'), ('TrackedComm, VerifierTrackerRef, BagComm, TableComm', TK + 'verifier_wrapper.rs')],
  observe=['panic/refusal', 'identifier, size and tracker of the returned handle'],
  technique='effect summaries (MIR) of forwarding wrappers',
  note='Each handle operation is interpreted with the tracker operations kept symbolic; the operation performed, the refusal condition and the result are compared with their definitions. ' + UND)

P(id='K05', title='The prover\'s final proof covers every claim and every commitment',
  statement='Compiling a proof runs one sum-check over the random combination of all sum claims and all vanishing claims (each with a challenge of its own, the vanishing claims multiplied by the equality polynomial at a fresh random point of full length), '
            'opens every committed polynomial at the sum-check point to its evaluation there, and puts the commitments, every claimed sum, the sum-check proof and its parameters into the proof. '
            'Before that every smaller committed polynomial is extended to the largest size by added leading coordinates, with claims restated for the extended polynomials; extending keeps the values and refuses to shrink.',
  over=['inputs', 'histories'], quant='all tracker states: any number of claims, commitments and sizes (at least two commitments)',
  why='A claim, commitment or size left out only for some counts or sizes passes wherever tests happen to use others.',
  files=[TK + 'prover_tracker.rs', TK + 'dmle_utils.rs'],
  mech=[('compile_proof', TK + 'prover_tracker.rs'), ('convert_zerocheck_claims_to_sumcheck_claim', TK + 'prover_tracker.rs'), ('equalize_materialized_poly_nv', TK + 'prover_tracker.rs'), ('dmle_increase_nv_front/back', TK + 'dmle_utils.rs')],
  observe=['the compiled proof'],
  technique='dataflow summaries of MIR (abstract interpretation over algebraic terms), shape rules on the result',
  note='Finalisation is interpreted abstractly with sum-check, opening and the equality polynomial kept as uninterpreted steps; the polynomial handed to the sum-check must decompose into the random combination of all claims with pairwise different challenges. ' + UND)

P(id='K06', title='The verifier\'s verdict rests on every claim and every commitment',
  statement='The verifier accepts only if the sum-check proof establishes the random combination of all its claimed sums (one challenge of its own per claim), and the opening proof is checked and found right, with the verifier\'s own parameters, '
            'for every commitment it tracks, at the point the sum-check ended in, and the combination of the claims evaluates there to the value the sum-check ended in.',
  over=['inputs', 'histories'], quant='all verifier states, all proofs',
  why='A verdict that ignores one of its inputs accepts every honest proof a test makes; only a forged proof shows the difference.',
  files=[TK + 'verifier_tracker.rs'], mech=[('verify_claims', TK + 'verifier_tracker.rs'), ('convert_zerocheck_claims_to_sumcheck_claim', TK + 'verifier_tracker.rs')],
  observe=['accept/reject'],
  technique='dataflow summary of MIR (acceptance condition as a decision diagram), implication rules',
  note='verify_claims is interpreted abstractly with sum-check verification and batch verification kept as uninterpreted steps; each conjunct is an implication or a shape rule on the acceptance condition. The last conjunct (final evaluation) does not hold in the code: known finding. ' + UND)

TRS = 'src/transcript/mod.rs'
BND = ('The transcript is modelled as a list of operations; hashing itself is not analysed. ')

P(id='S01', title='Sum-check accepts exactly when the rounds are consistent',
  statement='The sum-check verifier accepts a proof exactly when the instance has at least one variable, the proof has a message for every variable, every message has exactly the degree bound plus one values (at least two), and in every round the values at 0 and 1 '
            'add up to the claim of the round before (the claimed sum first, then the previous message at the previous challenge). It never aborts on a malformed proof. The claim it leaves over is the point of all challenges in order and the last message at the last challenge. '
            'The prover produces one message per variable, each made with the challenge of the round before, and reports the challenges in order as the point; it fails only on a polynomial without variables. Every message is absorbed before its challenge is drawn, the parameters before all.',
  over=['inputs', 'programs'], quant='all claimed sums, parameters and proofs; any number of rounds and any message lengths',
  why='Tests run honest provers on two shapes and one wrong sum; a verifier that skips the check of one round, or of the message length, accepts all of those.',
  files=[SC + 'sum_check/mod.rs', SC + 'sum_check/verifier.rs', SC + 'sum_check/prover.rs'],
  mech=[('SumCheck::verify', SC + 'sum_check/mod.rs'), ('verify_round_and_update_state, check_and_generate_subclaim', SC + 'sum_check/verifier.rs'), ('SumCheck::prove', SC + 'sum_check/mod.rs')],
  observe=['accept/reject', 'the subclaim', 'the proof'],
  technique='dataflow summaries of MIR (acceptance condition as a decision diagram, loops closed by induction), compared with the definition',
  note='verify and prove are summarised for a symbolic number of rounds; the acceptance condition is compared with the definition as a formula (universals instantiated, linear arithmetic), subclaim, messages, point and transcript as canonical terms. One prover round is S04, interpolation is S03. ' + UND)

P(id='S02', title='Zero-check is sum-check of the polynomial times eq at a random point',
  statement='The zero-check prover draws a random point with one coordinate per variable, multiplies the polynomial by the equality polynomial at that point and runs sum-check on the product. The verifier draws the same point, accepts exactly when the sum-check proof '
            'establishes the sum zero for the same number of variables and a degree bound one higher, and leaves over the sum-check point with the sum-check value divided by the equality polynomial there. It never aborts on a malformed proof.',
  over=['inputs', 'programs'], quant='all polynomials, parameters and proofs; any number of variables',
  why='Tests check one honest and one non-zero polynomial; a wrong degree bound, a point of wrong length or a wrong left-over value needs other proofs.',
  files=[SC + 'zero_check/mod.rs'], mech=[('ZeroCheck::prove, ZeroCheck::verify', SC + 'zero_check/mod.rs')], observe=['accept/reject', 'the subclaim'],
  technique='dataflow summaries of MIR (acceptance condition as a decision diagram), compared with the definition',
  note='Sum-check, eq evaluation and multiplication by eq stay uninterpreted here (they are S01, A01 and A02). ' + UND)

P(id='S03', title='Round messages are interpolated exactly',
  statement='The value the sum-check verifier computes for a round message at a challenge is the value of the one polynomial of degree below n through the n given values at 0..n-1, for every field element, whatever internal integer width the weights are computed in; no intermediate integer overflows.',
  over=['inputs'], quant='all values and challenges outside 0..n-1, every message length n from 1 to 44 (three code paths)',
  why='The interpolation switches between integer widths at 20 and 33 values; tests interpolate at one random point for a few lengths.',
  files=[SC + 'sum_check/verifier.rs'], mech=[('interpolate_uni_poly', SC + 'sum_check/verifier.rs')], observe=['expected_evaluation of the subclaim'],
  technique='abstract interpretation over rational-function terms, exact polynomial identity per message length',
  note='For each length the loop is unrolled over symbolic values and the weight of every value is compared with its Lagrange coefficient as an exact rational function of the challenge; constant integer arithmetic is checked against the width of its type. Lengths above 44 are not analysed. ' + UND)

P(id='S04', title='A prover round sends the partial sums of the polynomial',
  statement='In every round the sum-check prover first fixes the variable of the previous round to the previous challenge in every table, then sends the values at 0..d of the sum over all remaining assignments of the sum of products, where d is the degree bound of the polynomial, '
            'and remembers the challenge; products with fewer factors than the bound, repeated factors and shared tables included.',
  over=['inputs'], quant='all table entries, coefficients and challenges (symbolic); ten shapes: 1-3 variables, 0-4 products, 1-6 factors, degree bounds 1-6, every round of each',
  why='Extrapolation to the degree bound only runs for products with fewer factors than the bound; tests compare with one random polynomial per size.',
  files=[SC + 'sum_check/prover.rs', AR + 'multilinear_polynomial.rs'], mech=[('prove_round_and_update_state', SC + 'sum_check/prover.rs'), ('extrapolate, barycentric_weights', SC + 'sum_check/prover.rs')], observe=['messages of the proof'],
  technique='abstract interpretation over polynomial terms, exact polynomial identities on fixed shapes',
  note='Shapes are fixed, values are symbolic: each evaluation sent is compared as a polynomial in all table entries, coefficients and challenges with the partial sum. Larger shapes are not analysed. ' + UND)

P(id='C02', title='Batch opening proves every claimed evaluation',
  statement='Verifying a batch opening accepts only if commitments, points and evaluations are equally many, all points have the length of the sum-check point, the sum-check of degree two establishes the combination of the claimed evaluations weighted by eq at a challenge drawn after the evaluations were absorbed, '
            'its point is the one the proof names, and the same-weighted combination of the commitments, each times eq of its point and the sum-check point, opens there to the left-over value. It never aborts. '
            'The prover runs the sum-check on the same combination of polynomials times eq at their points and opens the same combination at the resulting point, for points that coincide or differ in any pattern.',
  over=['inputs', 'programs'], quant='verifier: all numbers of commitments, points and proofs; prover: all polynomials of two variables, in twelve patterns of one to five coinciding and differing points',
  why='Tests open a few random polynomials at pairwise different points; coinciding points, wrong counts and forged points never occur.',
  files=[PC + 'batching.rs', PC + 'mod.rs'], mech=[('batch_verify_internal', PC + 'batching.rs'), ('multi_open_internal', PC + 'batching.rs')], observe=['accept/reject', 'the batch proof'],
  technique='dataflow summaries of MIR (acceptance condition as a decision diagram; polynomial combinations as algebraic terms)',
  note='Sum-check, eq and single opening stay uninterpreted (S01, A01, C03). ' + UND)

P(id='T01', title='Prover and verifier feed and read the transcript identically',
  statement='In sum-check, zero-check, batch opening and the final step of a query proof, prover and verifier absorb the same number and kinds of messages under the same labels and draw the same challenges under the same labels at the same places, '
            'and give the same weight to each claim. Everything a challenge must bind (parameters, messages, claimed sums, evaluations, commitments) is absorbed before it is drawn.',
  over=['inputs', 'programs'], quant='all inputs; any number of rounds, claims, commitments',
  why='A message absorbed too late leaves every honest proof valid; only a forged proof, which no test builds, shows it.',
  files=['src/tracker/', SC, PC + 'batching.rs'], mech=[('compile_proof / verify_claims', 'src/tracker/'), ('sum-check, zero-check', SC), ('batch opening', PC + 'batching.rs')], observe=['challenges drawn'],
  technique='effect analysis of MIR (transcript traces), sibling comparison prover/verifier',
  note='Transcript traces of both sides are reduced to canonical lists of operations with symbolic length and compared. ' + BND + UND)

P(id='A01', title='Multilinear operations compute the multilinear extension',
  statement='For a table of values on the hypercube (lowest variable first): evaluating at a point and fixing the first or the last variables gives the multilinear extension of the table; points of the wrong length are refused. '
            'The eq builders give the values of eq(x, r) for every hypercube point x and refuse an empty r; eq evaluation gives the product over coordinates and refuses points of different lengths. '
            'Merging concatenates tables of one size, padded with zeros to a power of two, and refuses different sizes; the identity permutation counts up across chunks.',
  over=['inputs'], quant='all table values and points (symbolic), tables of 0-5 variables, every number of fixed variables, 1-5 merged tables',
  why='Tests compare a few random values at one size; an index slip that only shows for the last variable, an odd number of tables or one variable is not sampled.',
  files=[AR + 'multilinear_polynomial.rs', AR + 'virtual_polynomial.rs', TK + 'dmle_utils.rs', PC + 'util.rs'],
  mech=[('fix_variables, fix_last_variables, evaluate_opt, evaluate_no_par, merge_polynomials', AR + 'multilinear_polynomial.rs'), ('build_eq_x_r(_vec), eq_eval', AR + 'virtual_polynomial.rs, ' + TK + 'dmle_utils.rs')],
  observe=['returned table or value'],
  technique='abstract interpretation over polynomial terms, exact polynomial identities on fixed shapes',
  note='Sizes are fixed, values symbolic: every entry of the result is compared as a polynomial in all values with its definition. The build with the default features (parallel) is analysed. ' + UND)

P(id='A02', title='Virtual polynomials stand for the sum of products they were built from',
  statement='Building a virtual polynomial and adding products to it, multiplying it by a table, adding another one, and multiplying it by eq (zero-check conversion) changes the sum of products it stands for by exactly that operation, whether tables are shared or repeated; '
            'the degree bound is the largest number of factors, the number of variables stays, and factors or points of another size and empty products are refused. Evaluation and materialisation give the value of that sum of products.',
  over=['inputs', 'histories'], quant='all coefficients and table values (symbolic); six shapes of 0-3 products over 0-4 shared tables of 1 or 2 variables as the starting point of every operation',
  why='Tests use freshly sampled, unshared tables; sharing goes through a pointer table that random tests never hit.',
  files=[AR + 'virtual_polynomial.rs'], mech=[('add_mle_list, mul_by_mle, add, build_f_hat, evaluate, materialize', AR + 'virtual_polynomial.rs')],
  observe=['value of the virtual polynomial', 'aux_info'],
  technique='abstract interpretation over polynomial terms, denotation of the data structure before and after each operation',
  note='Each operation is analysed from a generic state of each shape satisfying the invariant (lookup table consistent), and must re-establish it. ' + UND)

P(id='C01', title='The commitment scheme refuses what its parameters do not support',
  statement='With a reference string for n variables: trimming to more than n variables, or without naming a number of variables, setting up for no variables, committing to or opening a polynomial with more than n variables, '
            'opening at a point whose length is not the number of variables, and verifying at a point longer than n are refused with an error, never an abort; verification returns a verdict whatever the number of proof elements received.',
  over=['inputs'], quant='all values (symbolic); reference strings of 1-3 variables',
  why='Tests only use matching sizes; a missing guard turns into a slice panic or an opening against the wrong part of the reference string.',
  files=[PC + 'srs.rs', PC + 'mod.rs'], mech=[('trim, gen_srs_for_testing', PC + 'srs.rs'), ('commit, open_internal, verify_internal', PC + 'mod.rs')], observe=['Result'],
  technique='abstract interpretation of MIR on fixed shapes, group elements as terms',
  note='Every refusal case is analysed with symbolic contents; the result must be Err on every path and no panic may be reachable. ' + UND)

P(id='C03', title='Commitments and openings follow the multilinear KZG equations',
  statement='The reference string holds g to the power eq(t_i..t_n, x) for every suffix of independently sampled trapdoors and every hypercube point x, and h to the power t_i; trimming keeps exactly the last variables. '
            'A commitment is g to the value of the polynomial at the (last) trapdoors; opening returns the value at the point and elements satisfying the opening equation; '
            'verification accepts exactly when e(g^v/C, h) times the product of e(p_i, h^(t_i - z_i)) is the neutral element, with trapdoors aligned to the point also when the polynomial has fewer variables than the parameters.',
  over=['inputs'], quant='all polynomials, points, values, commitments, proof elements and trapdoors (symbolic); 1-6 variables in the reference string, 0-6 in the polynomial',
  why='A round trip on random data tests one value at one size; acceptance of something other than the equation shows only on forged proofs.',
  files=[PC + 'srs.rs', PC + 'mod.rs'], mech=[('gen_srs_for_testing, trim', PC + 'srs.rs'), ('commit, open_internal, verify_internal', PC + 'mod.rs')], observe=['keys, commitment, proof, verdict'],
  technique='abstract interpretation over polynomial terms: group elements by discrete logarithm, exact polynomial identities',
  note='Group elements are modelled by their discrete logarithms, pairings by products of them, so each equation becomes a polynomial identity in the trapdoors and inputs. Trusted: the multi-scalar multiplication, fixed-base table and pairing of the ark crates. ' + UND)

P(id='A03', title='Resizing tables and index arithmetic agree with the variable order',
  statement='Adding variables at the back repeats a table (new variables are the highest), adding them at the front repeats each entry (new variables are the lowest), also for copies of a tracked polynomial; the same size returns the table, a smaller one is refused. '
            'Bit decomposition is little endian, composition is its inverse, the two children and the sign of an index are its shifted bits, the size of a merged table is the least power of two that holds it, '
            'and the point of the i-th table inside a merged one is its own point followed by the bits of i.',
  over=['inputs'], quant='all table values and points (symbolic); tables of 0-3 variables resized to 0-5; every index of up to 4 bits; up to 9 merged tables',
  why='One random resize at one size is tested; sum-check and openings of polynomials of different size rely on all of them using one variable order.',
  files=[TK + 'dmle_utils.rs', AR + 'util.rs'], mech=[('dmle_increase_nv_front/back, bit_decompose, binary_decompose', TK + 'dmle_utils.rs'), ('bit_decompose, project, get_index, get_batched_nv, gen_eval_point', AR + 'util.rs')],
  observe=['returned table, point or index'],
  technique='abstract interpretation over polynomial terms, exact identities on fixed shapes',
  note='Sizes are fixed, values symbolic; each entry of the result is compared with its definition. ' + UND)

P(id='T02', title='The transcript binds every message and refuses to answer before the first one',
  statement='A fresh transcript is empty and bound to its label. Appending bytes, a field element or a serializable element absorbs exactly the serialized element under its label and fails if it cannot be serialized. '
            'An empty transcript refuses to give a challenge and stays as it was; otherwise a challenge is derived from at least 384 bits of output of everything absorbed so far under its label, and is itself absorbed before anything else. '
            'A list of challenges is that many single challenges in sequence. '
            'What is absorbed for a sum-check message, for the auxiliary information of a polynomial and for a commitment includes each of their fields.',
  over=['inputs', 'histories'], quant='all transcript states, labels and elements (symbolic); lists of 0-5 and 40 challenges',
  why='Prover and verifier share the code, so a transcript that forgets a message, or reuses a challenge, keeps every honest test green.',
  files=['src/transcript/mod.rs'], mech=[('IOPTranscript operations', 'src/transcript/mod.rs')], observe=['state of the underlying Merlin transcript', 'challenges', 'errors'],
  technique='abstract interpretation of MIR over a free algebra of Merlin operations',
  note='The Merlin transcript is a term built from its operations; every operation is compared with its specification as a term. Trusted: merlin, ark-serialize. ' + UND)

P(id='E01', title='Proving and verifying are deterministic functions of their inputs',
  statement='No public function that is not handed a random generator draws randomness, reads the clock, environment or files, or uses shared mutable state, directly or through anything it calls; '
            'and wherever a hashed collection is iterated, the order has no effect: the elements are sorted, collected without order, combined commutatively, or processed without absorbing into the transcript or appending to a list.',
  over=['inputs', 'schedules'], quant='every function of the crate reachable from its public functions, every call site',
  why='Hash order and ambient randomness differ between runs and between prover and verifier; a test sees one order.',
  files=['src/'], mech=[('whole crate', 'src/')], observe=['call graph', 'iteration over HashMap/HashSet'],
  technique='interprocedural effect analysis on the MIR call graph, taint analysis of iteration order',
  note='Call edges: resolved calls, all local implementations of a trait method, closures built, functions used as values. Functions taking an RNG parameter are exempt (setup and random polynomials for tests). ' + UND)

P(id='E02', title='No failure and no verdict is swallowed',
  statement='Every result returned by a call, anywhere in the crate, is inspected, propagated or handed on, not replaced by a default; every boolean verdict (also inside a result) decides a branch, is returned, stored or handed on.',
  over=['inputs', 'fault_sequences'], quant='every call site whose value is a Result or a verdict of the crate',
  why='A dropped verdict accepts forged proofs and a dropped failure only shows when the callee fails; honest tests never fail.',
  files=['src/'], mech=[('whole crate', 'src/')], observe=['use of call results'],
  technique='def-use analysis on MIR',
  note='Values are followed through copies, moves, the ? operator and Result/Option adapters; a payload of type bool must itself be used. Whether the inspection does the right thing is decided by the properties about the function in question.')

P(id='E03', title='Shared trackers are never borrowed re-entrantly',
  statement='While a cell holding a tracker or a verifier map is borrowed, nothing that may run before the borrow ends borrows the same kind of cell in a conflicting way; so no sequence of operations on handles aborts with a borrow error.',
  over=['programs', 'histories'], quant='every borrow guard in the crate and every call made while it is live, through the call graph',
  why='A conflicting borrow aborts only on the path that nests it; error paths and rarely used handles are not tested.',
  files=[TK], mech=[('RefCell users', TK)], observe=['live guards', 'effects of callees'],
  technique='typestate / lock-order analysis of RefCell guards on MIR with interprocedural borrow effects',
  note='Guards live from the borrow to their drop; cells are distinguished by content type. Boxed closures are resolved to all closures with the same return type.')

P(id='N01', title='Honest witnesses are computed correctly from the data',
  statement='The multiplicities, supports, sorted orders, padding rows and row matchings an honest prover computes are those of the tables it is given, so a proof of a true statement is always accepted.',
  over=['inputs'], quant='all tables',
  why='Tests use a few small tables; an order or a duplicate pattern that is not sampled can give wrong advice.',
  files=[Q], mech=[('prove_*_advice, prove', Q + '*/*.rs')], observe=['accept/reject of an honest proof'],
  na='That the advice satisfies every claim for every true statement (that differences of sorted values lie in the range bag, that supports computed by run-length loops are right) is a multiset and order statement over '
     'field elements with data-dependent loops that no static argument in reach establishes. I01, I07 and I08 decide the parts that do not depend on such order facts.')

P(id='N02', title='False statements are accepted with negligible probability only',
  statement='For every false statement and every strategy of the prover, the probability that the verifier accepts is negligible in the security parameter.',
  over=['inputs', 'programs'], quant='all provers',
  why='A probability over challenges against an arbitrary adversary cannot be sampled.',
  files=['src/'], mech=[('whole system', 'src/')], observe=['accept/reject'],
  na='A probabilistic and computational statement (distribution of challenges, hardness assumptions). Static analysis decides its algebraic and binding ingredients: I02-I06, K05, K06, S01-S03, C02, C03, T01, T02.')

P(id='N03', title='Proof size and verifier work stay sublinear in the table size',
  statement='The size of a proof and the work of the verifier grow with the number of columns and the logarithm of the number of rows, not with the number of rows.',
  over=['inputs'], quant='all table sizes',
  why='Tests use tables of one size.',
  files=['src/'], mech=[('verify_claims', TK + 'verifier_tracker.rs')], observe=['proof size', 'running time'],
  na='Sizes and running times are runtime quantities; a cost bound needs size relations between run-time containers that this analysis does not track.')

BY = {p['id']: p for p in PROPERTIES}
