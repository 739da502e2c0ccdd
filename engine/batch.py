"""Rules over the batch opening protocol."""
from terms import *
import terms
import tracker as K
import hooks
import iop
import lock
import logic
import common
import final
import algebra
from sums import call_name, condition, nopanic, relabel, ev_, LABEL
from krules import settle, okform, A0, A1, A2


def h_eqvec(I, st, a, fn):
    r = I.norm(st, I.deref(st, a[0]))
    n = length(r)
    i = fresh('i')
    return st, ite(eq0(n), Err(raw('empty')), Ok(mkseq(pow2(n), i, raw('eqw', r, i))))


def pow2(n):
    if n.op == 'log2':        # rounded up: at least as large as its operand
        return add(n.a[0], length(raw('slack', n)))
    v = int_val(n)
    return num(2 ** v) if v is not None and v < 16 else raw('pow2', n)


def h_vec(I, st, a, fn):
    st, v = hooks.t_vec(I, st, a, fn)
    n, i, e = I.deref(st, a[2]), fresh('i'), vf(v, 'Ok', '0')
    return st, Ok(mkseq(n, i, raw('chal1', *e.a, i)))


def h_eqval(I, st, a, fn):
    x, y = (I.norm(st, I.deref(st, v)) for v in a)
    same = eq(length(x), length(y))
    if (x.op, x.id) > (y.op, y.id):
        x, y = y, x
    return st, ite(same, Ok(raw('eqev', x, y)), Err(raw('length')))


def h_open1(I, st, a, fn):
    v = [I.norm(st, I.deref(st, x)) for x in a[:3]]
    return st, raw('opened', *v)


def h_verify1(I, st, a, fn):
    return st, raw('pcsverdict', *[I.norm(st, I.deref(st, x)) for x in a[:5]])


def h_msm(I, st, a, fn):
    b, s = (I.norm(st, I.deref(st, x)) for x in a[:2])
    i = fresh('i')
    n = length(b)
    return st, mksum(ite(pos(sub(n, length(s))), length(s), n), i, mul(idx(b, i), idx(s, i)))


H = {'virtual_polynomial::build_eq_x_r_vec': h_eqvec, 'util::eq_eval': h_eqval, 'virtual_polynomial::eq_eval': h_eqval, 'dmle_utils::eq_eval': h_eqval,
     'IOPTranscript::get_and_append_challenge_vectors': h_vec,
     'PolyIOP@SumCheck::prove': final.h_scprove, 'PolyIOP@SumCheck::verify': final.h_scverify,
     'PolynomialCommitmentScheme::open': h_open1, 'PolynomialCommitmentScheme::verify': h_verify1, 'VariableBaseMSM::msm_unchecked': h_msm, 'ScalarMul::msm_unchecked': h_msm}


def summ(prog, fn, **kw):
    return K.summ(prog, fn, extra=H, **kw)


# ------------------------------------------------------------------ prover, for fixed patterns of coinciding points
def h_vpnew(I, st, a, fn):
    return st, raw('vpoly', I.norm(st, I.deref(st, a[0])), NIL)


def h_vpadd(I, st, a, fn):
    v = I.mem_get(st, a[0])
    if v.op != 'vpoly':
        return None
    I.mem_set(st, a[0], raw('vpoly', v.a[0], cat(v.a[1], lst(tup(I.norm(st, I.deref(st, a[2])), I.norm(st, I.deref(st, a[1])))))))
    return st, Ok(UNIT)


HP = dict(H)
HP.update({'VirtualPolynomial::new': h_vpnew, 'VirtualPolynomial::add_mle_list': h_vpadd})
NV = 2
POINTS = [lst(num(3), num(8)), lst(num(2), num(9)), lst(num(2), num(5)), lst(num(7), num(1)), lst(num(1), num(1))]
PATTERNS = [(0,), (3,), (0, 1), (1, 0), (0, 0), (0, 1, 2), (2, 0, 0), (1, 0, 1), (0, 0, 0), (0, 3, 1, 3), (1, 2, 3, 4, 0), (0, 2, 0, 2, 0)]


PT2 = lst(sym('z0'), sym('z1'))
FP, FV = 'MultilinearKzgPCS@PolynomialCommitmentScheme::multi_open', 'MultilinearKzgPCS@PolynomialCommitmentScheme::batch_verify'


def h_scp(I, st, a, fn):
    p = I.norm(st, I.deref(st, a[0]))
    I.emit(st, 'sumcheck', p)
    return st, Ok(adt('IOPProof', '', ('point', 'proofs'), PT2, raw('messages', p)))


HP['PolyIOP@SumCheck::prove'] = h_scp
for h in (H, HP):
    for n in ('open', 'verify'):
        h['MultilinearKzgPCS@PolynomialCommitmentScheme::' + n] = h['PolynomialCommitmentScheme::' + n]


def shape(pat):
    F = [adt('ark_poly::DenseMultilinearExtension', '', ('evaluations', 'num_vars'), lst(*[sym('f%d_%d' % (i, x)) for x in range(2 ** NV)]), num(NV)) for i in range(len(pat))]
    return F, lst(*F), lst(*[POINTS[i] for i in pat]), lst(*[sym('v%d' % i) for i in range(len(pat))])


def prove_pattern(prog, pat):
    F, polys, pts, evs = shape(pat)
    return K.summ(prog, FP, extra=HP, argvals=[None, polys, pts, evs], unroll=16)


def eqmle(p):
    return adt('ark_poly::DenseMultilinearExtension', '', ('evaluations', 'num_vars'), lst(*[raw('eqw', p, num(i)) for i in range(2 ** NV)]), num(NV))


def eqev(x, y):
    return raw('eqev', *sorted((x, y), key=lambda t: (t.op, t.id)))


def denoted(v):
    """the polynomial a list of products stands for, as a term"""
    if v.op != 'vpoly' or v.a[1].op != 'list' and v.a[1] is not NIL:
        return None
    r = ZERO
    for p in v.a[1].a if v.a[1] is not NIL else ():
        c, fs = fld(p, '0'), fld(p, '1')
        if fs.op != 'list':
            return None
        for f in fs.a:
            c = mul(c, f)
        r = add(r, c)
    return r


def prove(ctx):
    prog = ctx.prog()
    where = ctx.span(FP)
    for pat in PATTERNS:
        s = prove_pattern(prog, pat)
        ctx.saw(*s.I.inlined)
        F, polys, pts, evs = shape(pat)
        k = len(pat)
        key = '%s/points %s' % (FP, pat)
        ctx.add('opening patterns')
        ell = (k - 1).bit_length()
        t = lst(*[raw('chal1', LABEL1(s), num(ell), ZERO, num(i)) for i in range(ell)])
        sc = final.events(s.trace, 'sumcheck')
        if len(sc) != 1:
            settle(ctx, key + '/steps', num(len(sc)), ONE, where, 'one sum-check', s)
            continue
        settle(ctx, key + '/transcript', relabel(s.trace), relabel(cat(lst(*[ev_('absorb', sym('v%d' % i)) for i in range(k)]), lst(raw('ev', 'challenges', raw('label'), num(ell), ZERO), sc[0]))), where, 'transcript operations of the prover', s)
        w = [raw('eqw', t, num(i)) for i in range(k)] if k > 1 else [ONE]
        g = ZERO
        for i in range(k):
            g = add(g, mul(w[i], mul(F[i], eqmle(POINTS[pat[i]]))))
        got = denoted(sc[0].a[1])
        settle(ctx, key + '/polynomial', got if got is not None else sc[0].a[1], g, where, 'polynomial handed to the sum-check', s)
        if sc[0].a[1].op == 'vpoly':
            settle(ctx, key + '/variables', sc[0].a[1].a[0], num(NV), where, 'number of variables of the sum-check', s)
        gp = ZERO
        for i in range(k):
            gp = add(gp, mul(mul(w[i], F[i]), eqev(PT2, POINTS[pat[i]])))
        opened = raw('opened', A0, gp, PT2)
        condition(ctx, key + '/succeeds exactly when', okform(s.val), okform(opened), where, 'condition under which a proof is produced', s)
        v = deep_restrict(vf(s.val, 'Ok', '0'), okform(s.val))
        settle(ctx, key + '/opening', fld(v, 'g_prime_proof'), deep_restrict(fld(vf(opened, 'Ok', '0'), '0'), okform(s.val)), where, 'opening in the proof', s)
        settle(ctx, key + '/evaluations', fld(v, 'f_i_eval_at_point_i'), evs, where, 'evaluations in the proof', s)
        settle(ctx, key + '/sum-check proof', fld(v, 'sum_check_proof'), adt('IOPProof', '', ('point', 'proofs'), PT2, raw('messages', sc[0].a[1])), where, 'sum-check proof in the proof', s)
        nopanic(ctx, key + '/never aborts', s, where)


def LABEL1(s):
    e = final.events(s.trace, 'challenges')
    return e[0].a[1] if e else raw('label')


A3 = sym('a3')


def verify(ctx):
    """two commitments and more with symbolic counts; one and none as they are"""
    ell = raw('log2', length(A1))

    def many(st):
        st.pc = given
    given = pos(ell)
    n, n2 = length(A1), add(num(2), length(sym('more')))
    at = lambda x: lock.mapt(x, lambda y: n2 if y is n else y)

    def two():
        s = summ_from(ctx.prog(), many)
        s.val, s.trace = s.val and at(s.val), at(s.trace)
        s.panics = [(w, k, at(c), sp) for w, k, c, sp in s.panics]
        return s
    verify_of(ctx, '', A1, at(ell), two, at(given), n2)
    one = lst(sym('c0'))
    verify_of(ctx, '/one commitment', one, ZERO, lambda: summ(ctx.prog(), FV, argvals=[None, one]), TRUE)
    s = summ(ctx.prog(), FV, argvals=[None, NIL])
    nopanic(ctx, FV + '/no commitments/never aborts', s, ctx.span(FV), 'the verifier aborts on some proof')


def summ_from(prog, first):
    """summary from states in which `first` holds"""
    def setup(I, st):
        hooks.TR_SETUP(I, st)
        first(st)
    with K.Facts(None):
        import run
        return run.summarize(prog, FV, hooks=dict(K.HOOKS, **H), setup=setup)


def verify_of(ctx, label, comms, ell, summary, given, k=None):
    where = ctx.span(FV)
    s = summary()
    ctx.saw(*s.I.inlined)
    ctx.add('opening verifiers')
    key = FV + label
    pts, proof = A2, A3
    k, evs, scp = k or length(comms), fld(proof, 'f_i_eval_at_point_i'), fld(proof, 'sum_check_proof')
    pt = fld(scp, 'point')
    i, j = fresh('i'), fresh('j')
    t = mkseq(ell, j, raw('chal1', LABEL1(s), ell, ZERO, j))
    w = lambda x: raw('eqw', t, x) if ell is not ZERO else ONE
    sc = final.events(s.trace, 'sumcheck')
    if len(sc) != 1:
        settle(ctx, key + '/steps', num(len(sc)), ONE, where, 'one sum-check', s)
        return
    counts = And(eq(length(pts), k), eq(length(evs), k))
    eqs = lock.lenfacts(counts)
    lens = {length(pts): k, length(evs): k}
    dr = lambda x, c=And(given, counts): lock.mapt(lock.samelen(deep_restrict(x, c), eqs), lambda y: lens.get(y, y))
    total = dr(mksum(k, i, mul(w(i), idx(evs, i))))
    settle(ctx, key + '/claimed sum', dr(sc[0].a[1]), total, where, 'the sum the sum-check must establish', s)
    settle(ctx, key + '/checks this proof', sc[0].a[2], scp, where, 'sum-check proof checked', s)
    settle(ctx, key + '/degree', fld(sc[0].a[3], 'max_degree'), num(2), where, 'degree bound', s)
    settle(ctx, key + '/variables', fld(sc[0].a[3], 'num_variables'), length(pt), where, 'number of variables', s)
    ver = raw('scverdict', *sc[0].a[1:])
    sub_ = vf(ver, 'Ok', '0')
    ok = deep_restrict(okform(s.val), given)
    comm = adt('Commitment', '', ('0',), mksum(k, i, mul(mul(w(i), eqev(pt, idx(pts, i))), fld(idx(comms, i), '0'))))
    pv = raw('pcsverdict', A0, comm, pt, fld(sub_, 'expected_evaluation'), fld(proof, 'g_prime_proof'))
    allpts = Not(mkexists(k, i, Not(eq(length(pt), length(idx(pts, i))))))
    atpoint = eq(fld(sub_, 'point'), pt)
    lower = And(given, counts, allpts, okform(ver), atpoint, okform(pv))
    norm = lambda x: aligned(deep_restrict(x, given), k, pts, evs, sub_, pt)
    okn = norm(ok)
    for nm, c in (('counts', counts), ('the sum-check', okform(ver)), ('the point', atpoint), ('the lengths of the points', allpts)):
        final.decide(ctx, '%s/accepts only with %s right' % (key, nm), where, s, lambda: final.need(logic.implied(And(given, ok), c) or logic.implied(okn, norm(c)), 'accepts when ' + show(ok)[:900]), 'acceptance', ok)
    final.decide(ctx, key + '/accepts what passes every check', where, s, lambda: final.need(logic.implied(norm(lower), okn), 'accepts only when ' + show(okn)[:900]), 'acceptance', ok)
    v = norm(deep_restrict(vf(s.val, 'Ok', '0'), ok))
    settle(ctx, key + '/verdict', v, norm(deep_restrict(vf(pv, 'Ok', '0'), ok)), where, 'verdict: opening of the combined commitment', s)
    settle(ctx, key + '/transcript', relabel(norm(deep_restrict(s.trace, ok))), relabel(norm(cat(mkflat(k, i, lst(ev_('absorb', idx(evs, i)))), lst(raw('ev', 'challenges', raw('label'), ell, ZERO), sc[0])))), where, 'transcript operations of an accepted proof', s)
    nopanic(ctx, key + '/never aborts', s, where, 'the verifier aborts on some proof')


def aligned(x, k, pts, evs, sub_, pt):
    """lengths known to be equal are named k, the sum-check point is named after the proof's"""
    lp, le, sp = length(pts), length(evs), fld(sub_, 'point')
    return lock.mapt(x, lambda y: k if y is lp or y is le else raw('adt', 'Commitment', *y.a[1:]) if y.op == 'adt' and y.a[0].endswith('::Commitment') else y)


def symmetric(ctx):
    from sums import skeleton, binds, ev_
    P, V = prove_pattern(ctx.prog(), (0, 1, 2)), summ(ctx.prog(), FV)
    where = '%s, %s' % (ctx.span(FP), ctx.span(FV))
    i = fresh('i')
    ks = lambda t: lock.mapt(t, lambda y: raw('ev', 'sumcheck') if y.op == 'ev' and y.a[0] == 'sumcheck' else raw('ev', y.a[0], y.a[1]) if y.op == 'ev' else y)
    a = ks(deep_restrict(P.trace, okform(P.val)))
    b = ks(deep_restrict(V.trace, okform(V.val)))
    n = length(fld(A3, 'f_i_eval_at_point_i'))
    b = lock.mapt(b, lambda y: num(3) if y is n or y is length(A1) or y is length(A2) else y)
    settle(ctx, 'batch opening/same transcript', a, b, where, 'transcript labels of prover and verifier', V)
    evs = fld(A3, 'f_i_eval_at_point_i')
    binds(ctx, 'batch opening/binds every evaluation', deep_restrict(V.trace, okform(V.val)), mkflat(length(evs), i, lst(ev_('absorb', idx(evs, i)))), where, 'the claimed evaluations', V)
    ctx.add('transcript comparisons')
