"""Property id -> rules, floors and what the evidence says."""
import catalog
import iops
import krules
import final
import sums
import batch
import mlops
import kzg
import script
import effects
import witness

EQ = ['BagMultitoolIOP::verify', 'BagEqIOP::verify', 'BagSumIOP::verify', 'BagInclusionIOP::verify',
      'BagInclusionIOP::verify_with_advice', 'BagSuppIOP::verify', 'BagSuppIOP::verify_with_advice', 'BagNoZerosIOP::verify']
ORD = ['BagPrescPermIOP::verify', 'BagStrictSortIOP::verify', 'BagDisjointIOP::verify', 'BagDisjointIOP::verify_with_advice']
SET = ['SetDisjointIOP::verify', 'SetUnionIOP::verify', 'SetDiffIOP::verify', 'SetIntersectIOP::verify']
JOIN = ['SelectorValidIOP::verify', 'JoinReductionIOP::verify', 'IndexTransformIOP::verify', 'FinalJoinOneToManyIOP::verify',
        'FinalJoinOneToManyIOP::verify_with_advice', 'CrossProductIOP::verifier_cross_product']
GRP = ['GroupByIOP::verify_with_advice']

PROPS = {
    'I01': dict(parts=[iops.lockstep], floors={'pairs': 23}),
    'I02': dict(parts=[iops.against(EQ)], floors={'entry points': 8}),
    'I03': dict(parts=[iops.against(ORD)], floors={'entry points': 4}),
    'I04': dict(parts=[iops.against(SET)], floors={'entry points': 4}),
    'I05': dict(parts=[iops.against(JOIN)], floors={'entry points': 6}),
    'I06': dict(parts=[iops.against(GRP)], floors={'entry points': 1}),
    'I07': dict(parts=[iops.honesty], floors={}),
    'I08': dict(parts=[witness.rule], floors={'witnesses': 5}),
    'K01': dict(parts=[krules.prover_ops, krules.prover_reads, krules.prover_tracks, krules.prover_lookups], floors={'operation cases': 20, 'reading cases': 2}),
    'K02': dict(parts=[krules.verifier_ops, krules.verifier_tracks, krules.verifier_lookups, krules.takes_proof], floors={'operation cases': 7}),
    'K03': dict(parts=[krules.numbering, krules.claims], floors={'paired operations': 15}),
    'K05': dict(parts=[final.prover, final.equalize], floors={'finalisation steps': 4}),
    'K06': dict(parts=[final.verifier], floors={'finalisation steps': 1}),
    'S01': dict(parts=[sums.sum_verify, sums.sum_prove], floors={'sum-check procedures': 2}),
    'S02': dict(parts=[sums.zero_check], floors={'sum-check procedures': 2}),
    'S03': dict(parts=[sums.interpolation], floors={'interpolation lengths': 44}),
    'S04': dict(parts=[sums.prover_rounds], floors={'prover rounds': 19}),
    'C02': dict(parts=[batch.prove, batch.verify], floors={'opening patterns': 10, 'opening verifiers': 1}),
    'T01': dict(parts=[final.symmetry, sums.symmetric, batch.symmetric, krules.commits_bound], floors={'transcript comparisons': 5}),
    'A01': dict(parts=[mlops.eq_builders, mlops.eq_evals, mlops.fixing, mlops.refusals, mlops.merging, mlops.identity], floors={'function instances': 150}),
    'A02': dict(parts=[mlops.vp_ops], floors={'function instances': 290}),
    'C01': dict(parts=[kzg.refusals], floors={'refusals': 30}),
    'C03': dict(parts=[kzg.setup, kzg.trimming, kzg.opening], floors={'function instances': 150}),
    'T02': dict(parts=[script.ops, script.encodings], floors={'transcript operations': 40}),
    'E01': dict(parts=[effects.deterministic, effects.hash_order], floors={'functions reachable without an RNG argument': 300, 'call sites': 2000}),
    'E02': dict(parts=[effects.discarded], floors={'results': 150}),
    'E03': dict(parts=[effects.borrows], floors={'calls made while a cell is borrowed': 50}),
    'A03': dict(parts=[mlops.resizing, mlops.aliases, mlops.bits, mlops.grown], floors={'function instances': 270}),
    'K04': dict(parts=[krules.handles], floors={'handle operations': 50}),
}

for _i, _p in PROPS.items():
    _c = catalog.BY[_i]
    _p['explanation'] = _c['note']
    _p['rule'] = _c['statement']
