"""Rules over the sum-check and zero-check protocols."""
from terms import *
import terms
import tracker as K
import hooks
import iop
import lock
import logic
import run
import common
import final
import algebra
from final import decide, need, Odd, H, NVA
from krules import settle, okform, A0, A1, A2

FLAWS = ('fold', 'while', 'apply')
IOPSTATE = None


def call_name(op):
    def h(I, st, a, fn):
        return st, Ok(raw(op, *[I.norm(st, I.deref(st, x)) for x in a]))
    return h


def condition(ctx, key, got, want, where, what, s):
    """the condition got is equivalent to want"""
    r = logic.same(got, want)
    if r:
        ctx.ob(key, True)
        return
    u = sorted(set(s.I.unknown) - {'Iterator::next', 'PolynomialCommitmentScheme::commit'})
    if u or any(iop.has(got, o) for o in FLAWS) or r is None:
        ctx.skip(key, 'not in closed form' + (': ' + ', '.join(u) if u else ''))
    else:
        ctx.fail(key, where, '%s\n  code: %s\n  expected: %s' % (what, show(got, 0, 20)[:1500], show(want, 0, 20)[:1500]))


def nopanic(ctx, key, s, where, what='aborts', allow=lambda w, k: False, under=TRUE):
    for w, k, c, sp in s.panics:
        if allow(w, k) or any(iop.has(c, o) for o in FLAWS):
            continue
        if logic.possible(And(under, c)) and possible_inside(And(under, c)):
            if s.I.unknown.keys() - {'Iterator::next'}:
                ctx.skip(key, 'not in closed form')
            else:
                ctx.fail(key, where, '%s (%s in %s) when %s' % (what, k, w, show(c, 0, 14)[:700]))
            return
    ctx.ob(key, True)


def possible_inside(c):
    """every path of the condition that claims `some i < n has b` needs a feasible b"""
    ps = logic.paths(c)
    if ps is None:
        return True
    for p in ps:
        p = list(p)
        ok = logic.feasible(p)
        if not ok:
            continue
        ex = [a for a, v in p if a.op == 'exists' and v]
        if all(inner(a, [x for x in p if x[0] is not a]) for a in ex):
            return True
    return False


def inner(a, rest, d=3):
    k, n, b = a.a
    j = fresh('j')
    f = And(pos(sub(n, j)), inst(b, k, j))
    for x, v in rest:
        f = And(f, form(x) if v else Not(form(x)))
    return logic.possible(f) if d == 0 else possible_inside(f)


def private(ctx, *fns):
    """the internal functions a rule is stated over exist; a tree organised differently is not decided"""
    miss = [f for f in fns if ctx.prog().fn(f) is None]
    for f in miss:
        ctx.skip('internal function %s' % f, 'not found')
        ctx.incomplete = True
    return not miss


PROOFS = fld(A1, 'proofs')


def sum_verify(ctx):
    if not private(ctx, 'verifier::interpolate_uni_poly'):
        return
    fn = 'PolyIOP@SumCheck::verify'
    where = ctx.span(fn)
    s = K.summ(ctx.prog(), fn, extra={'verifier::interpolate_uni_poly': call_name('interpolate')})
    ctx.saw(*s.I.inlined)
    ctx.add('sum-check procedures')
    nv, md = fld(A2, 'num_variables'), fld(A2, 'max_degree')
    i = fresh('i')
    ev = lambda j: fld(idx(PROOFS, j), 'evaluations')
    chal = lambda j: raw('chal', raw('str', b'Internal round') if False else LABEL(s), j)
    ok = okform(s.val)
    inter = mkseq(nv, i, raw('interpolate', ev(i), chal(i)))
    exp_ = cat(lst(A0), inter)
    allof = lambda f: Not(mkexists(nv, i, Not(f)))
    want = And(Not(eq0(nv)), allof(pos(sub(length(PROOFS), i))), allof(eq(length(ev(i)), add(md, ONE))), allof(pos(sub(length(ev(i)), ONE))),
               allof(eq(add(idx(ev(i), ZERO), idx(ev(i), ONE)), idx(exp_, i))))
    condition(ctx, fn + '/accepts exactly when', unhead(ok), unhead(want), where, 'condition under which the proof is accepted', s)
    v = deep_restrict(vf(s.val, 'Ok', '0'), ok)
    settle(ctx, fn + '/point', fld(v, 'point'), mkseq(nv, i, chal(i)), where, 'point of the claim left over', s)
    settle(ctx, fn + '/expected evaluation', unhead(fld(v, 'expected_evaluation'), ok), unhead(idx(exp_, nv), ok), where, 'value of the claim left over', s)
    tr = deep_restrict(s.trace, ok)
    settle(ctx, fn + '/transcript', relabel(tr), relabel(cat(lst(ev_('absorb', A2)), mkflat(nv, i, lst(ev_('absorb', idx(PROOFS, i)), ev_('challenge', i))))), where, 'transcript operations of an accepted proof', s)
    nopanic(ctx, fn + '/never aborts', s, where, 'the verifier aborts on some proof')


def unhead(t, c=TRUE):
    """([x] ++ r)[i] is x at the start and r[i-1] after that"""
    def f(y):
        if y.op == 'idx' and y.a[0].op == 'cat' and y.a[0].a[0].op == 'list' and int_val(y.a[1]) is None:
            h, i = y.a[0].a[0].a, y.a[1]
            r = idx(cat(*y.a[0].a[1:]), sub(i, num(len(h))))
            for j in reversed(range(len(h))):
                r = ite(eq0(sub(i, num(j))), h[j], r)
            return r
        return y
    return deep_restrict(lock.mapt(t, f), c)


def ev_(kind, *a):
    return raw('ev', kind, raw('label'), *a)


def relabel(t):
    return lock.mapt(t, lambda y: raw('ev', y.a[0], raw('label'), *y.a[2:]) if y.op == 'ev' and y.a[0] in ('absorb', 'challenge', 'challenges') and len(y.a) > 1 else y)


def LABEL(s):
    """the label under which the challenges are drawn (any)"""
    for e in final.iter_terms(s.val if s.val is not None else s.trace):
        if e.op == 'chal':
            return e.a[0]
    return raw('label')


# ------------------------------------------------------------------ prover
def h_pinit(I, st, a, fn):
    p = I.norm(st, I.deref(st, a[0]))
    bad = eq0(fld(fld(p, 'aux_info'), 'num_variables'))
    return st, ite(bad, Err(raw('constant')), Ok(adt('IOPProverState', '', ('challenges', 'round', 'poly', 'extrapolation_aux'), NIL, ZERO, p, raw('aux'))))


def h_round(I, st, a, fn):
    s = I.mem_get(st, a[0]) if a[0].op == 'ref' else I.deref(st, a[0])
    c = I.norm(st, I.deref(st, a[1]))
    r = fld(s, 'round')
    some = is_var(c, 'Option', 'Some')
    more = cat(fld(s, 'challenges'), ite(some, lst(vf(c, 'Some', '0')), NIL))
    I.mem_set(st, a[0], upd(upd(s, 'challenges', more), 'round', add(r, ONE)))
    return st, Ok(raw('roundmsg', r, c))


def steady(t, nv):
    """flat(i<n: i==0 ? [] : [f(i)]) is seq(i<n-1: f(i+1)) when n > 0; the last element after it is rejoined"""
    def f(y):
        if y.op == 'flat':
            k, n, b = y.a
            if inst(b, k, ZERO) is NIL:
                j = fresh('i')
                return mkflat(sub(n, ONE), j, deep_restrict(inst(b, k, add(j, ONE)), Not(eq0(add(j, ONE)))))
        if y.op == 'cat':
            out = []
            for p in y.a:
                if p.op == 'list' and out and out[-1].op == 'seq':
                    k, n, b = out[-1].a
                    while p.op == 'list' and p.a and inst(b, k, n) is p.a[0]:
                        n = add(n, ONE)
                        p = lst(*p.a[1:])
                    out[-1] = mkseq(n, fresh('i'), ZERO) if False else reseq(n, k, b)
                if p is not NIL:
                    out.append(p)
            return cat(*out) if len(out) != 1 else out[0]
        return y
    return lock.mapt(t, f)


def reseq(n, k, b):
    j = fresh('i')
    return mkseq(n, j, inst(b, k, j))


def sum_prove(ctx):
    if not private(ctx, 'prover::prover_init', 'prover::prove_round_and_update_state'):
        return
    fn = 'PolyIOP@SumCheck::prove'
    where = ctx.span(fn)
    s = K.summ(ctx.prog(), fn, extra={'IOPProverState@SumCheckProver::prover_init': h_pinit, 'prover::prover_init': h_pinit,
                                      'prover::prove_round_and_update_state': h_round})
    ctx.saw(*s.I.inlined)
    ctx.add('sum-check procedures')
    nv = fld(fld(A0, 'aux_info'), 'num_variables')
    ok = okform(s.val)
    condition(ctx, fn + '/succeeds exactly when', ok, Not(eq0(nv)), where, 'condition under which a proof is produced', s)
    v = steady(deep_restrict(vf(s.val, 'Ok', '0'), ok), nv)
    i = fresh('i')
    lab = LABEL(s)
    chal = lambda j: raw('chal', lab, j)
    msg = lambda j: raw('roundmsg', j, ite(eq0(j), NONE, Some(chal(sub(j, ONE)))))
    settle(ctx, fn + '/point', fld(v, 'point'), mkseq(nv, i, chal(i)), where, 'the point in the proof', s)
    settle(ctx, fn + '/messages', fld(v, 'proofs'), mkseq(nv, i, msg(i)), where, 'the messages in the proof', s)
    tr = deep_restrict(s.trace, ok)
    settle(ctx, fn + '/transcript', relabel(tr), relabel(cat(lst(ev_('absorb', fld(A0, 'aux_info'))), mkflat(nv, i, lst(ev_('absorb', msg(i)), ev_('challenge', i))))), where, 'transcript operations of the prover', s)
    nopanic(ctx, fn + '/never aborts', s, where)


def skeleton(t, nv):
    """kinds and labels of the transcript operations"""
    N = raw('sym', 'NV')
    return lock.mapt(t, lambda y: raw('ev', *[N if x is nv else x for x in y.a[:3]]) if y.op == 'ev' and y.a[0] == 'challenges' else
                     raw('ev', *y.a[:2]) if y.op == 'ev' and y.a[0] in ('absorb', 'challenge') else
                     raw('ev', y.a[0]) if y.op == 'ev' else N if y is nv else y)


def binds(ctx, key, trace, must, where, what, s):
    """every event of `must` (a list of events) is in the transcript before the first challenge is drawn"""
    got = []
    for p in final.parts(relabel(trace)):
        if any(y.op == 'ev' and y.a[0] in ('challenge', 'challenges', 'sumcheck', 'open') for y in walk_terms(p)):
            if p.op == 'list':
                for y in p.a:
                    if y.a[0] != 'absorb':
                        break
                    got.append(y)
            break
        got += p.a if p.op == 'list' else [p]
    miss = [m for m in final.parts(relabel(must)) if m not in got]
    if miss and (final.obscure(trace) or s.I.unknown.keys() - {'Iterator::next'}):
        ctx.skip(key, 'not in closed form')
    else:
        ctx.ob(key, not miss, where, '%s: not absorbed before the first challenge\n  %s' % (what, ', '.join(show(m)[:200] for m in miss)))


def symmetric(ctx):
    """prover and verifier perform the same transcript operations under the same labels"""
    if not private(ctx, 'verifier::interpolate_uni_poly', 'prover::prover_init', 'prover::prove_round_and_update_state'):
        return
    prog = ctx.prog()
    P = K.summ(prog, 'PolyIOP@SumCheck::prove', extra={'prover::prover_init': h_pinit, 'prover::prove_round_and_update_state': h_round})
    V = K.summ(prog, 'PolyIOP@SumCheck::verify', extra={'verifier::interpolate_uni_poly': call_name('interpolate')})
    p = skeleton(deep_restrict(P.trace, okform(P.val)), fld(fld(A0, 'aux_info'), 'num_variables'))
    v = skeleton(deep_restrict(V.trace, okform(V.val)), fld(A2, 'num_variables'))
    where = '%s, %s' % (ctx.span('PolyIOP@SumCheck::prove'), ctx.span('PolyIOP@SumCheck::verify'))
    settle(ctx, 'sum-check/same transcript', p, v, where, 'transcript labels of prover and verifier', P)
    ctx.add('transcript comparisons')
    i = fresh('i')
    nv = fld(A2, 'num_variables')
    settle(ctx, 'sum-check/binds every message', relabel(deep_restrict(V.trace, okform(V.val))),
           relabel(cat(lst(ev_('absorb', A2)), mkflat(nv, i, lst(ev_('absorb', idx(PROOFS, i)), ev_('challenge', i))))), where,
           'the parameters first, then each message before its challenge', V)
    P = K.summ(prog, 'PolyIOP@ZeroCheck::prove', extra=ZH)
    V = K.summ(prog, 'PolyIOP@ZeroCheck::verify', extra=ZH)
    p = skeleton(deep_restrict(P.trace, okform(P.val)), fld(fld(A0, 'aux_info'), 'num_variables'))
    v = skeleton(deep_restrict(V.trace, okform(V.val)), fld(A1, 'num_variables'))
    where = '%s, %s' % (ctx.span('PolyIOP@ZeroCheck::prove'), ctx.span('PolyIOP@ZeroCheck::verify'))
    settle(ctx, 'zero-check/same transcript', p, v, where, 'transcript labels of prover and verifier', P)
    ctx.add('transcript comparisons')


def h_fhat(I, st, a, fn):
    return st, Ok(raw('fhat', I.norm(st, I.deref(st, a[0])), I.norm(st, I.deref(st, a[1]))))


def h_eqv(I, st, a, fn):
    x, y = (I.norm(st, I.deref(st, v)) for v in a)
    if x.op == 'chalvec':
        x, y = y, x
    return st, raw('eqverdict', x, y)


def h_scprove(I, st, a, fn):
    p = I.norm(st, I.deref(st, a[0]))
    I.emit(st, 'sumcheck', p)
    return st, raw('scproved', p)


ZH = {'VirtualPolynomial::build_f_hat': h_fhat, 'virtual_polynomial::eq_eval': h_eqv, 'dmle_utils::eq_eval': h_eqv, 'util::eq_eval': h_eqv,
      'PolyIOP@SumCheck::prove': h_scprove, 'PolyIOP@SumCheck::verify': final.h_scverify,
      'IOPTranscript::get_and_append_challenge_vectors': hooks.t_vec}


def bumped(a):
    return upd(a, 'max_degree', add(fld(a, 'max_degree'), ONE))


def zero_check(ctx):
    fn = 'PolyIOP@ZeroCheck::verify'
    where = ctx.span(fn)
    s = K.summ(ctx.prog(), fn, extra=ZH)
    ctx.saw(fn)
    ctx.add('sum-check procedures')
    ok = okform(s.val)
    proof, aux = A0, A1
    sc = final.events(s.trace, 'sumcheck')
    vec = final.events(s.trace, 'challenges')
    nv = fld(aux, 'num_variables')
    if len(sc) != 1 or len(vec) != 1:
        settle(ctx, fn + '/steps', num(len(sc) * 10 + len(vec)), num(11), where, 'one random point and one sum-check', s)
        return
    r = raw('chalvec', *vec[0].a[1:])
    settle(ctx, fn + '/random point', vec[0].a[2], nv, where, 'length of the random point', s)
    ver = raw('scverdict', *sc[0].a[1:])
    settle(ctx, fn + '/claims zero', sc[0].a[1], ZERO, where, 'the sum the sum-check must establish', s)
    settle(ctx, fn + '/checks this proof', sc[0].a[2], proof, where, 'proof checked', s)
    for f, w in (('num_variables', nv), ('max_degree', add(fld(aux, 'max_degree'), ONE))):
        settle(ctx, '%s/%s' % (fn, f), fld(sc[0].a[3], f), w, where, 'parameters of the sum-check', s)
    sub_ = vf(ver, 'Ok', '0')
    point = fld(sub_, 'point')
    e = raw('eqverdict', point, r)
    ev0 = fld(idx(fld(proof, 'proofs'), ZERO), 'evaluations')
    lower = And(pos(length(fld(proof, 'proofs'))), pos(sub(length(ev0), ONE)), eq0(add(idx(ev0, ZERO), idx(ev0, ONE))), okform(ver), okform(e))
    decide(ctx, fn + '/rejects what the sum-check rejects', where, s, lambda: need(logic.implied(ok, okform(ver)), 'accepts when ' + show(ok)[:400]), 'acceptance', ok)
    decide(ctx, fn + '/accepts what the sum-check accepts', where, s, lambda: need(logic.implied(lower, ok), 'accepts only when ' + show(ok)[:600]), 'acceptance', ok)
    v = deep_restrict(vf(s.val, 'Ok', '0'), ok)
    dr = lambda t: deep_restrict(t, ok)
    settle(ctx, fn + '/point', fld(v, 'point'), dr(point), where, 'point of the claim left over', s)
    settle(ctx, fn + '/initial challenge', fld(v, 'init_challenge'), r, where, 'random point of the claim left over', s)
    settle(ctx, fn + '/expected evaluation', fld(v, 'expected_evaluation'), dr(mul(fld(sub_, 'expected_evaluation'), raw('inv', vf(e, 'Ok', '0')))), where, 'value of the claim left over', s)
    settle(ctx, fn + '/transcript', relabel(dr(s.trace)), relabel(cat(lst(raw('ev', 'challenges', raw('label'), nv, ZERO)), lst(sc[0]))), where, 'transcript operations of an accepted proof', s)
    nopanic(ctx, fn + '/never aborts', s, where, 'the verifier aborts on some proof')

    fn = 'PolyIOP@ZeroCheck::prove'
    where = ctx.span(fn)
    s = K.summ(ctx.prog(), fn, extra=ZH)
    ctx.saw(fn)
    ctx.add('sum-check procedures')
    nv = fld(fld(A0, 'aux_info'), 'num_variables')
    vec = final.events(s.trace, 'challenges')
    if len(vec) != 1:
        settle(ctx, fn + '/steps', num(len(vec)), ONE, where, 'one random point', s)
        return
    p = raw('fhat', A0, raw('chalvec', *vec[0].a[1:]))
    settle(ctx, fn + '/transcript', relabel(s.trace), relabel(lst(raw('ev', 'challenges', raw('label'), nv, ZERO), raw('ev', 'sumcheck', p))), where, 'transcript operations of the prover', s)
    settle(ctx, fn + '/proof', s.val, raw('scproved', p), where, 'the proof', s)
    nopanic(ctx, fn + '/never aborts', s, where)


# ------------------------------------------------------------------ interpolation
def interpolation(ctx, upto=44):
    if not private(ctx, 'verifier::interpolate_uni_poly'):
        return
    fn = 'verifier::interpolate_uni_poly'
    where = ctx.span(fn)
    ctx.saw(fn)
    for n in range(1, upto + 1):
        es = [sym('e%d' % i) for i in range(n)]
        s = K.summ(ctx.prog(), fn, argvals=[lst(*es)], unroll=n + 8)
        key = '%s/%d evaluations' % (fn, n)
        ctx.add('interpolation lengths')
        ok = okform(s.val)
        ctx.ob(key + '/succeeds', ok is TRUE, where, 'succeeds only when ' + show(ok)[:300])
        ctx.ob(key + '/no overflow', not s.I.wraps, where, '; '.join('%s in %s' % (w, f) for f, w in s.I.wraps[:3]))
        v = vf(s.val, 'Ok', '0')
        try:
            bs = algebra.buckets(v, es)
            bad = None
            if None in bs:
                bad = 'a part that depends on no evaluation: ' + show(bs[None])[:200]
            for k, e in enumerate(es):
                if bad:
                    break
                got = algebra.rational(bs.get(e, ZERO), A1, e)
                num_, den = [1], 1
                for j in range(n):
                    if j != k:
                        num_ = algebra.pmul(num_, [-j, 1])
                        den *= k - j
                # got[0] / got[1] = num_ / den
                if algebra.pmul(got[0], [den]) != algebra.pmul(num_, got[1]):
                    bad = 'the weight of evaluation %d is not the Lagrange coefficient' % k
            ctx.ob(key + '/value', bad is None, where, bad or '')
        except algebra.Opaque as e:
            ctx.skip(key + '/value', 'not in closed form: %s' % e)
        # (at one of the n nodes itself the weights divide by zero: a random challenge hits one with negligible probability)
        nopanic(ctx, key + '/never aborts', s, where, under=And(*[Not(eq(A1, num(j))) for j in range(n)]))


# ------------------------------------------------------------------ one prover round
MLE = 'ark_poly::DenseMultilinearExtension'
SHAPES = [  # number of variables, degree bound, products (indices of the factors)
    (1, 1, [[0]]), (2, 2, [[0, 1], [1]]), (2, 3, [[0], [1, 0, 2], [2, 1]]), (3, 2, [[0, 0], [1]]), (2, 4, [[0, 1, 1, 2], [2]]),
    (2, 3, [[0, 1]]), (1, 5, [[0], [0, 1], [0, 1, 0], [1, 0, 1, 0]]), (3, 1, [[1], [0], [1]]), (1, 6, [[0, 1, 2, 0, 1, 2], [2, 2]]), (2, 2, []),
]


def vp(nv, deg, prods, coef, tables):
    return adt('VirtualPolynomial', '', ('aux_info', 'products', 'flattened_ml_extensions', 'raw_pointers_lookup_table'),
               adt('VPAuxInfo', '', ('max_degree', 'num_variables', 'phantom'), num(deg), num(nv), UNIT),
               lst(*[tup(c, lst(*[num(i) for i in p])) for c, p in zip(coef, prods)]), lst(*tables), raw('map0'))


def mle(nv, es):
    return adt(MLE, '', ('evaluations', 'num_vars'), lst(*es), num(nv))


def prover_rounds(ctx):
    if not private(ctx, 'prover::prover_init', 'prover::prove_round_and_update_state'):
        return
    prog = ctx.prog()
    fn, fi = 'prover::prove_round_and_update_state', 'prover::prover_init'
    where = ctx.span(fn)
    ctx.saw(fn, fi, 'prover::extrapolate', 'prover::barycentric_weights', 'multilinear_polynomial::fix_variables')
    for nv, deg, prods in SHAPES:
        nt = 1 + max([i for p in prods for i in p] or [0])
        coef = [sym('c%d' % i) for i in range(len(prods))]
        key0 = '%s/%d variables, degree %d, products %s' % (fn, nv, deg, prods)
        for rnd in range(nv):
            have = nv if rnd == 0 else nv - rnd + 1          # variables of the tables on entry
            tabs = [[sym('f%d_%d' % (t, x)) for x in range(2 ** have)] for t in range(nt)]
            p0 = vp(nv, deg, prods, coef, [mle(have, t) for t in tabs])
            I = K.summ(prog, fi, argvals=[p0], unroll=16)
            st = deep_restrict(vf(I.val, 'Ok', '0'), okform(I.val))
            if okform(I.val) is not TRUE or st.op != 'adt' and st.op != 'upd':
                ctx.skip(key0, 'initial state not in closed form: ' + show(I.val)[:200])
                break
            settle(ctx, key0 + '/initial round', fld(st, 'round'), ZERO, where, 'first round', I)
            settle(ctx, key0 + '/initial challenges', fld(st, 'challenges'), NIL, where, 'no challenges yet', I)
            rs = [sym('r%d' % i) for i in range(rnd)]
            arg = NONE
            if rnd:
                st = upd(upd(st, 'round', num(rnd)), 'challenges', lst(*rs[:-1]))
                arg = Some(rs[-1])
            s = K.summ(prog, fn, argvals=[st, arg], unroll=40)
            key = '%s/round %d' % (key0, rnd + 1)
            ctx.add('prover rounds')
            if okform(s.val) is not TRUE:
                settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                continue
            post = s.post(0)
            settle(ctx, key + '/next round', fld(post, 'round'), num(rnd + 1), where, 'round counter afterwards', s)
            settle(ctx, key + '/challenges', fld(post, 'challenges'), lst(*rs), where, 'challenges afterwards', s)
            ctx.ob(key + '/no overflow', not s.I.wraps, where, '; '.join('%s in %s' % (w, f) for f, w in s.I.wraps[:3]))
            nopanic(ctx, key + '/never aborts', s, where)
            msg = fld(vf(s.val, 'Ok', '0'), 'evaluations')
            # the tables after fixing the last challenge
            now = tabs if not rnd else [[add(t[2 * b], mul(rs[-1], sub(t[2 * b + 1], t[2 * b]))) for b in range(len(t) // 2)] for t in tabs]
            left = nv - rnd
            try:
                for t in range(nt):
                    m = idx(fld(fld(post, 'poly'), 'flattened_ml_extensions'), num(t))
                    got = [algebra.qpoly(idx(fld(m, 'evaluations'), num(x))) for x in range(2 ** left)]
                    same_(ctx, '%s/table %d' % (key, t), got == [algebra.qpoly(x) for x in now[t]] and int_val(length(fld(m, 'evaluations'))) == 2 ** left, where, 'tables kept for the next round', s, m)
                if int_val(length(msg)) != deg + 1:
                    settle(ctx, key + '/length', length(msg), num(deg + 1), where, 'number of evaluations sent', s)
                    continue
                for x in range(deg + 1):
                    want = ZERO
                    for c, p in zip(coef, prods):
                        for b in range(2 ** (left - 1)):
                            w = c
                            for i in p:
                                w = mul(w, add(now[i][2 * b], scale(sub(now[i][2 * b + 1], now[i][2 * b]), x)))
                            want = add(want, w)
                    same_(ctx, '%s/value at %d' % (key, x), algebra.qpoly(idx(msg, num(x))) == algebra.qpoly(want), where, 'the message at %d is not the partial sum' % x, s, idx(msg, num(x)))
            except algebra.Opaque as e:
                ctx.skip(key, 'not in closed form: %s' % e)


def same_(ctx, key, ok, where, what, s, t):
    if not ok and (s.I.unknown.keys() - {'Iterator::next'} or any(iop.has(t, o) for o in FLAWS)):
        ctx.skip(key, 'not in closed form: ' + ', '.join(sorted(s.I.unknown)))
    else:
        ctx.ob(key, ok, where, what + '\n  code: ' + show(t, 0, 10)[:600])
