"""Rules over finalisation: compile_proof on the prover, verify_claims on the verifier."""
from terms import *
import terms
import tracker as K
import krules
import iop
import lock
import hooks
import run
import interp as IN
from interp import TRC
from krules import settle, A0, A1, okform

DMLE = 'ark_poly::DenseMultilinearExtension'


def eqmle(r):
    return adt(DMLE, '', ('evaluations', 'num_vars'), raw('eqev', r), length(r))


def h_build_eq(I, st, a, fn):
    return st, Ok(eqmle(I.norm(st, I.deref(st, a[0]))))


def h_eq_eval(I, st, a, fn):
    x, y = (I.norm(st, I.deref(st, v)) for v in a)
    if y is iop.PT:
        x, y = y, x
    return st, Ok(raw('eval', eqmle(y), x))


NVA = raw('sym', 'nv')


def h_equalize(I, st, a, fn):
    return st, NVA


def h_avp(I, st, a, fn):
    return st, raw('avp', iop.expr(I, st, a[1]))


def h_scprove(I, st, a, fn):
    p = I.norm(st, I.deref(st, a[0]))
    I.emit(st, 'sumcheck', p)
    return st, Ok(raw('scproof', p))


def h_scverify(I, st, a, fn):
    v = [I.norm(st, I.deref(st, x)) for x in a[:3]]
    I.emit(st, 'sumcheck', *v)
    return st, raw('scverdict', *v)


def h_open(I, st, a, fn):
    v = [I.norm(st, I.deref(st, x)) for x in a[:4]]
    I.emit(st, 'open', *v)
    return st, raw('opening', *v)


def h_bverify(I, st, a, fn):
    v = [I.norm(st, I.deref(st, x)) for x in a[:4]]
    I.emit(st, 'open', *v)
    return st, raw('openverdict', *v)


def h_vec(I, st, a, fn):
    l = I.deref(st, a[1])
    n = I.deref(st, a[2])
    o = iop.nth(st, 'chal')
    I.emit(st, 'challenges', l, n, o)
    return st, Ok(raw('chalvec', l, n, o))


H = dict(iop.HOOKS)
H.update({'IOPTranscript::append_field_element': hooks.t_append('field'), 'IOPTranscript::append_serializable_element': hooks.t_append('ser'),
          'IOPTranscript::append_message': hooks.t_append('msg'),
          'IOPTranscript::get_and_append_challenge': iop.chal, 'IOPTranscript::get_and_append_challenge_vectors': h_vec,
          'dmle_utils::build_eq_x_r': h_build_eq, 'virtual_polynomial::build_eq_x_r': h_build_eq,
          'dmle_utils::eq_eval': h_eq_eval, 'virtual_polynomial::eq_eval': h_eq_eval, 'util::eq_eval': h_eq_eval,
          'ProverTracker::equalize_materialized_poly_nv': h_equalize, 'ProverTracker::to_arithmatic_virtual_poly': h_avp,
          'PolyIOP@SumCheck::prove': h_scprove, 'PolyIOP@SumCheck::verify': h_scverify,
          'PolynomialCommitmentScheme::multi_open': h_open, 'PolynomialCommitmentScheme::batch_verify': h_bverify})
H = {k: v for k, v in H.items() if k not in ('ProverTracker::add_sumcheck_claim', 'ProverTracker::add_zerocheck_claim',
                                            'VerifierTracker::add_sumcheck_claim', 'VerifierTracker::add_zerocheck_claim')}


def summ(prog, fn):
    return run.summarize(prog, fn, hooks=H, setup=iop.SETUP)


# ------------------------------------------------------------------ shape helpers
def split(t):
    """a sum over the positions of a concatenation is the sum of the sums over its parts"""
    def f(y):
        if y.op != 'sum':
            return y
        k, n, b = y.a
        bv = raw('bv', k)
        for z in iter_terms(b):
            if z.op == 'idx' and z.a[1] is bv and z.a[0].op == 'cat' and not has_bv(z.a[0], k) and length(z.a[0]) is n:
                r, pre = ZERO, ZERO
                for p in z.a[0].a:
                    i = fresh('s')
                    at = add(pre, i)
                    body = subst(b, {z: idx(p, i)})
                    body = inst(body, k, at)
                    L = length(p)
                    # re-index: the list element itself was written with the local position
                    r = add(r, mksum(L, i, body))
                    pre = add(pre, L)
                return lock.mapt(r, f) if iop.has(r, 'sum') else r
        return y
    return lock.mapt(t, f)


def iter_terms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                todo.extend(z for z in y if isinstance(z, T))


def nonneg(t):
    """is the integer term >= 0 whatever the list lengths?"""
    d = as_poly(t)
    return all(c >= 0 for c in d.values())


def disjoint(x, y):
    (b, n), (c, m) = x, y
    return nonneg(sub(c, add(b, n))) or nonneg(sub(b, add(c, m)))


def monos(t):
    for m, c in as_poly(t).items():
        yield c, [(m.a[i], m.a[i + 1]) for i in range(0, len(m.a), 2)]


class Odd(Exception):
    pass


def lincomb(t, items, pick):
    """t = sum over all i of chal(o(i)) * pick(items[i]); returns the ordinals (first, count) or raises Odd"""
    n = length(items)
    if t.op == 'sum':
        ms = [(1, [(t, 1)])]
    else:
        ms = list(monos(t))
    if len(ms) != 1 or ms[0][0] != 1 or len(ms[0][1]) != 1 or ms[0][1][0][1] != 1 or ms[0][1][0][0].op != 'sum':
        raise Odd('not one sum over the claims: ' + show(t)[:300])
    s = ms[0][1][0][0]
    if s.a[1] is not n:
        raise Odd('sums over %s claims of %s' % (show(s.a[1])[:80], show(n)[:80]))
    i = fresh('j')
    b = inst(s.a[2], s.a[0], i)
    bm = list(monos(b))
    want = pick(idx(items, i))
    if len(bm) != 1 or bm[0][0] != 1:
        raise Odd('summand ' + show(b)[:300])
    fs = dict(bm[0][1])
    if fs.pop(want, None) != 1:
        raise Odd('summand is not a multiple of the claim\'s own value: ' + show(b)[:300])
    if len(fs) != 1 or list(fs.values()) != [1] or list(fs)[0].op != 'chal':
        raise Odd('coefficient is not one challenge: ' + show(b)[:300])
    o = list(fs)[0].a[1]
    base = sub(o, i)
    if mentions(base, i):
        raise Odd('the same challenge serves several claims: ' + show(o)[:200])
    return base, n


def mentions(t, s):
    return any(x is s for x in iter_terms(t))


def aggregate(expr, S_, Z_, nv, pick_s, pick_z):
    """expr = sum chal*pick_s(S) + chal * eq(r, .) * sum chal*pick_z(Z) with all challenges different"""
    expr = split(expr)
    sums, zeros = ZERO, []
    for c, fs in monos(expr):
        if any(f.op == 'mle' or f.op == 'chal' for f, _ in fs):
            zeros.append((c, fs))
        else:
            sums = add(sums, scale(mono(fs), c))
    iv = [lincomb(sums, S_, pick_s)]
    if len(zeros) != 1 or zeros[0][0] != 1:
        raise Odd('the batch of vanishing claims does not occur exactly once: ' + show(expr)[:400])
    coef, rest = None, []
    eqp = None
    for f, e in zeros[0][1]:
        if f.op == 'chal' and e == 1 and coef is None:
            coef = f
        elif f.op == 'mle' and e == 1 and eqp is None:
            eqp = f
        else:
            rest.append((f, e))
    if coef is None or eqp is None:
        raise Odd('the batch of vanishing claims is not multiplied by one challenge and the equality polynomial: ' + show(expr)[:300])
    iv.append((coef.a[1], ONE))
    r = eqp.a[0]
    if r.op != 'eqev' or r.a[0].op != 'chalvec' or r.a[0].a[1] is not nv:
        raise Odd('the vanishing claims are not tested at a fresh random point of full length: ' + show(eqp)[:300])
    iv.append((r.a[0].a[2], ONE))
    iv.append(lincomb(mono(rest), Z_, pick_z))
    for i in range(len(iv)):
        for j in range(i):
            if not disjoint(iv[i], iv[j]):
                raise Odd('one challenge is used twice')


def mono(fs):
    r = ONE
    for f, e in fs:
        r = mul(r, power(f, num(e)))
    return r


def parts(t):
    return list(t.a) if t.op == 'cat' else [t]


def events(t, kind):
    return [x for x in iter_terms(t) if x.op == 'ev' and x.a[0] == kind or (x.op == 'ev' and isinstance(x.a[0], T) and x.a[0] is S(kind))]


def obscure(*ts):
    return any(iop.has(t, o) for t in ts for o in ('fold', 'while', 'apply'))


def decide(ctx, key, where, s, f, what, *ts):
    """f raises Odd when the construct does not have the required shape"""
    try:
        f()
        ctx.ob(key, True)
    except Odd as e:
        u = sorted(set(s.I.unknown) - {'Iterator::next', 'PolynomialCommitmentScheme::commit'})
        if u or obscure(*ts):
            ctx.skip(key, 'not in closed form' + (': ' + ', '.join(u) if u else ''))
        else:
            ctx.fail(key, where, '%s: %s' % (what, e))


SC = fld(A0, 'sum_check_claims')
ZC = fld(A0, 'zero_check_claims')
LABEL = lambda x: fld(fld(x, 'label'), 'e')
SUM = lambda x: fld(x, 'claimed_sum')
COMS = fld(A0, 'materialized_comms')


def one(ctx, key, where, s, kind, trace):
    ev = events(trace, kind)
    if len(ev) != 1:
        if obscure(trace):
            ctx.skip(key, 'not in closed form')
        else:
            ctx.fail(key, where, '%d %s steps, expected one' % (len(ev), kind))
        return None
    return ev[0].a[1:]


def every_key(l, m, f):
    """l lists f(k) for every key k of the map m"""
    if l.op != 'seq':
        raise Odd('not a list over all entries: ' + show(l)[:200])
    i = fresh('k')
    b = inst(l.a[2], l.a[0], i)
    n = length(raw('mkeys', m))
    ks = [raw('idx', raw('mkeys', m), i)] + [x for x in iter_terms(b) if x.op == 'idx' and ordering(x.a[0], m) and x.a[1] in (i, sub(sub(n, ONE), i))]
    if l.a[1] is not length(raw('mkeys', m)):
        raise Odd('not all entries: %s of them' % show(l.a[1])[:100])
    if b not in [f(k) for k in ks]:
        raise Odd('an entry is not what it must be: ' + show(b)[:300])


def ordering(l, m):
    """l lists the keys of m in some order"""
    while l.op in ('sorted', 'sortedby'):
        l = l.a[0]
    return l is raw('mkeys', m)


def order_of(l, m):
    """the orders in which l goes through the keys of m, with the map abstracted"""
    i = fresh('k')
    b = inst(l.a[2], l.a[0], i) if l.op == 'seq' else l
    n, ks = length(raw('mkeys', m)), raw('mkeys', m)
    return {lock.mapt(tup(x.a[0], S('up') if x.a[1] is i else S('down')), lambda y: S('keys') if y is ks else y)
            for x in iter_terms(b) if x.op == 'idx' and ordering(x.a[0], m) and x.a[1] in (i, sub(sub(n, ONE), i))}


def need(c, msg):
    if not c:
        raise Odd(msg)


def prover(ctx):
    fn = 'ProverTracker::compile_proof'
    where = ctx.span(fn)
    s = summ(ctx.prog(), fn)
    ctx.saw(fn, 'ProverTracker::convert_zerocheck_claims_to_sumcheck_claim')
    ctx.add('finalisation steps')
    sc = one(ctx, fn + '/sum-check', where, s, 'sumcheck', s.trace)
    if sc is None:
        return
    poly = sc[0]
    decide(ctx, fn + '/aggregates every claim', where, s, lambda: (need(poly.op == 'avp', show(poly)[:200]), aggregate(poly.a[0], SC, ZC, NVA, LABEL, LABEL)),
           'the polynomial handed to the sum-check is not the random combination of all claims', poly)
    op = one(ctx, fn + '/opening', where, s, 'open', s.trace)
    if op is None:
        return
    pt = fld(raw('scproof', poly), 'point')
    mats = fld(A0, 'materialized_polys')
    decide(ctx, fn + '/opens with its own parameters', where, s, lambda: need(op[0] is fld(A0, 'pcs_param'), show(op[0])[:200]), 'opening parameters', op[0])
    decide(ctx, fn + '/opens every commitment', where, s, lambda: every_key(op[1], COMS, lambda k: mval(mats, k)), 'polynomials opened', op[1])
    decide(ctx, fn + '/opens at the sum-check point', where, s, lambda: every_key(op[2], COMS, lambda k: pt), 'points', op[2])
    decide(ctx, fn + '/opens to the evaluations', where, s, lambda: every_key(op[3], COMS, lambda k: raw('eval', mval(mats, k), pt)), 'claimed evaluations', op[3])
    ok = okform(s.val)
    opn = raw('opening', *op)
    settle(ctx, fn + '/succeeds when', ok, okform(opn), where, 'succeeds when the opening does', s)
    v = deep_restrict(vf(s.val, 'Ok', '0'), ok)
    settle(ctx, fn + '/sends commitments', fld(v, 'comms'), COMS, where, 'commitments in the proof', s)
    settle(ctx, fn + '/sends the sum-check proof', fld(v, 'sc_proof'), raw('scproof', poly), where, 'sum-check proof', s)
    settle(ctx, fn + '/sends the sum-check parameters', fld(v, 'sc_aux_info'), fld(poly, 'aux_info'), where, 'sum-check parameters', s)
    settle(ctx, fn + '/sends the opening', fld(v, 'pcs_proof'), lst(vf(opn, 'Ok', '0')), where, 'opening proof', s)

    def sums():
        m = fld(v, 'sumcheck_claims')
        need(m.op == 'minsall' and m.a[2] is raw('map0'), 'not a table of all claims: ' + show(m)[:200])
        i = fresh('k')
        k, x = inst(m.a[3], m.a[0], i), inst(m.a[4], m.a[0], i)
        L = m.a[1]
        need(nonneg(sub(L, length(SC))), 'not all claims: ' + show(L)[:100])
        l = next((z for z in iter_terms(k) if z.op == 'idx' and z.a[1] is i), None)
        need(l is not None and k is fld(l, 'label') and x is SUM(l), 'entry %s -> %s' % (show(k)[:150], show(x)[:150]))
        src = l.a[0]
        need(src is SC or (src.op == 'cat' and SC in src.a), 'taken from ' + show(src)[:150])
    decide(ctx, fn + '/sends every claimed sum', where, s, sums, 'claimed sums in the proof', fld(v, 'sumcheck_claims'))


NVV = fld(fld(fld(A0, 'proof'), 'sc_aux_info'), 'num_variables')
PROOF = fld(A0, 'proof')


def accepted(s):
    """the formula under which verify_claims accepts"""
    return okform(s.val)


def verifier(ctx):
    fn = 'VerifierTracker::verify_claims'
    where = ctx.span(fn)
    s = summ(ctx.prog(), fn)
    ctx.saw(fn, 'VerifierTracker::convert_zerocheck_claims_to_sumcheck_claim')
    ctx.add('finalisation steps')
    acc = accepted(s)
    ctx.ob(fn + '/can accept', acc is not FALSE, where, 'never accepts')
    sc = one(ctx, fn + '/sum-check', where, s, 'sumcheck', s.trace)
    if sc is None:
        return
    ver = raw('scverdict', *sc)
    target = split(sc[0])
    decide(ctx, fn + '/target is the combination of all claimed sums', where, s, lambda: lincomb(target, SC, SUM), 'the value the sum-check must establish', target)
    settle(ctx, fn + '/checks the proof\'s sum-check', sc[1], fld(PROOF, 'sc_proof'), where, 'sum-check proof', s)
    settle(ctx, fn + '/with the proof\'s parameters', sc[2], fld(PROOF, 'sc_aux_info'), where, 'sum-check parameters', s)
    decide(ctx, fn + '/accepts only if the sum-check accepts', where, s, lambda: need(implies(acc, okform(ver)), 'accepts under ' + show(acc)[:300]), 'acceptance', acc)
    ev = [e for e in events(s.trace, 'open')]
    op = one(ctx, fn + '/opening', where, s, 'open', deep_restrict(s.trace, acc))
    if op is None:
        return
    op = [deep_restrict(x, acc) for x in op]
    pt = deep_restrict(fld(vf(ver, 'Ok', '0'), 'point'), acc)
    decide(ctx, fn + '/opens with its own parameters', where, s, lambda: need(op[0] is fld(A0, 'pcs_params'), show(op[0])[:200]), 'opening parameters', op[0])
    decide(ctx, fn + '/opens every commitment it relies on', where, s, lambda: every_key(op[1], COMS, lambda k: mval(COMS, k)), 'commitments opened', op[1])
    decide(ctx, fn + '/opens at the sum-check point', where, s, lambda: every_key(op[2], COMS, lambda k: pt), 'points', op[2])
    decide(ctx, fn + '/checks the proof\'s opening', where, s, lambda: need(op[3] in (idx(fld(PROOF, 'pcs_proof'), ZERO),), show(op[3])[:200]), 'opening proof', op[3])
    ov = raw('openverdict', *op)
    decide(ctx, fn + '/accepts only if the opening accepts', where, s, lambda: (need(implies(acc, okform(ov)), 'accepts although the opening check fails'),
                                                                                need(implies(acc, form(vf(ov, 'Ok', '0'))), 'accepts although the opening is found wrong')), 'acceptance', acc)
    need_exp = [x for x in iter_terms(acc) if x.op == 'fld' and x.a[1] == 'expected_evaluation']
    ctx.ob('VerifierTracker::verify_claims/final evaluation', bool(need_exp), where,
           'the combination of the claims is never evaluated at the sum-check point and compared with the value the sum-check ends in')


def implies(a, b):
    return And(a, Not(b)) is FALSE


# ------------------------------------------------------------------ same transcript on both sides
def common(t, acc, side_nv):
    t = deep_restrict(t, acc)
    out = []
    for p in parts(t):
        out.append(p)
    t = cat(*out) if out else NIL

    def f(y):
        if y.op == 'ev' and y.a[0] in ('sumcheck', 'open'):
            return raw('ev', y.a[0])
        if y is side_nv:
            return raw('sym', 'NV')
        return y
    return lock.mapt(t, f)


def symmetry(ctx):
    fp, fv = 'ProverTracker::compile_proof', 'VerifierTracker::verify_claims'
    P, V = summ(ctx.prog(), fp), summ(ctx.prog(), fv)
    where = '%s and %s' % (ctx.span(fp), ctx.span(fv))
    ctx.saw(fp, fv)
    p, v = common(P.trace, okform(P.val), NVA), common(V.trace, accepted(V), NVV)
    settle(ctx, 'finalisation/same transcript', p, v, where, 'transcript operations of prover and verifier', P if P.I.unknown.keys() - {'Iterator::next'} else V)
    ctx.add('transcript comparisons')
    import sums
    i = fresh('i')
    sums.binds(ctx, 'finalisation/binds every claimed sum', v, mkflat(length(SC), i, lst(sums.ev_('absorb', SUM(idx(SC, i))))), where, 'the claimed sums', V)
    # the list of openings is in the same order on both sides: hashed maps have none of their own
    for side, S, fn in (('prover', P, fp), ('verifier', V, fv)):
        op = events(S.trace, 'open')
        if len(op) != 1:
            ctx.skip('finalisation/order of openings/' + side, 'not one batch opening')
            continue
        hashed = [t for t in walk_terms(op[0].a[2]) if t.op == 'idx' and t.a[0].op == 'mkeys']
        ctx.ob('finalisation/order of openings/' + side, not hashed, ctx.span(fn), 'the openings are listed in the iteration order of a hash map: ' + (show(hashed[0])[:200] if hashed else ''))
    po, vo = ([o[0].a[2] for o in (events(S.trace, 'open'),) if len(o) == 1] for S in (P, V))
    if po and vo:
        a, b = order_of(po[0], COMS), order_of(vo[0], COMS)
        if a != b and all(any(iop.has(x, A0) for x in z) for z in (a, b)):
            ctx.skip('finalisation/order of openings', 'order by a property of the entries')
        elif a and b:
            ctx.ob('finalisation/order of openings', a == b, where, 'the prover opens in the order %s, the verifier in the order %s' % tuple('; '.join(sorted(show(x)[:200] for x in z)) for z in (a, b)))
    # the weights given to the claims are the same on both sides
    se, sv = events(P.trace, 'sumcheck'), events(V.trace, 'sumcheck')
    if len(se) == 1 and len(sv) == 1 and se[0].a[1].op == 'avp':
        a = lock.mapt(split(se[0].a[1].a[0]), lambda y: ZERO if y.op == 'mle' else y)
        a = lock.mapt(a, lambda y: fld(y.a[0].a[0], 'claimed_sum') if y.op == 'fld' and y.a[1] == 'e' and y.a[0].op == 'fld' and y.a[0].a[1] == 'label' else y)
        settle(ctx, 'finalisation/same weights', a, split(sv[0].a[1]), where, 'weight of each claim on prover and verifier', P)
    for s, fn in ((P, fp), (V, fv)):
        bound(ctx, s, fn)


def bound(ctx, s, fn):
    """every claimed sum is absorbed before the first challenge that weighs the claims"""
    n = length(SC)

    def f():
        done = False
        for p in parts(s.trace):
            i = fresh('k')
            b = inst(p.a[2], p.a[0], i) if p.op in ('seq', 'flat') else p
            if p.op in ('seq', 'flat') and p.a[1] is n and any(e.a[2] is SUM(idx(SC, i)) for e in events(b, 'absorb')):
                done = True
            if (events(p, 'challenge') or events(p, 'challenges')) and not done:
                raise Odd('a challenge is drawn before the claimed sums are absorbed: ' + show(p)[:200])
        need(done, 'the claimed sums are never absorbed')
    decide(ctx, fn + '/claimed sums absorbed first', ctx.span(fn), s, f, 'transcript order', s.trace)


# ------------------------------------------------------------------ bringing all committed polynomials to one size
def h_inc(kind):
    def h(I, st, a, fn):
        return st, raw('incnv_' + kind, I.norm(st, I.deref(st, a[0])), I.norm(st, I.deref(st, a[1])))
    return h


def h_evs(I, st, a, fn):
    return st, iop.I_ref(I, st, raw('evs', I.norm(st, I.deref(st, a[1]))))


def equalize(ctx):
    fn = 'ProverTracker::equalize_materialized_poly_nv'
    where = ctx.span(fn)
    s = K.summ(ctx.prog(), fn, extra={'dmle_utils::dmle_increase_nv_front': h_inc('front'), 'dmle_utils::dmle_increase_nv_back': h_inc('back'),
                                      'ProverTracker::evaluations': h_evs})
    ctx.saw(fn)
    ctx.add('finalisation steps')
    post = s.post(0)
    M = fld(A0, 'materialized_polys')
    keys = raw('mkeys', M)
    i = fresh('k')
    want = raw('maxof', mkseq(length(keys), i, fld(mval(M, idx(keys, i)), 'num_vars')))
    settle(ctx, fn + '/common size', s.val, want, where, 'the common size is the largest one', s)
    new = fld(post, 'materialized_polys')

    def sizes():
        need(new.op == 'fold' and new.a[2] == 1 and new.a[4] is M and new.a[3] is length(keys), 'the committed polynomials are not all resized: ' + show(new)[:300])
        h = new.a[0]
        j = fresh('k')
        k = idx(keys, j)
        acc = fresh('acc')
        step = subst(new.a[5], {raw('bw', h, 0): acc, raw('bv', h): j})
        old = mval(M, k)
        step = subst(step, {raw('mval', acc, k): old})
        have = fld(old, 'num_vars')
        no_more = Not(lt(s.val, have))                  # no polynomial is larger than the largest
        same = And(no_more, And(eq(have, s.val), Not(lt(have, s.val))))
        d = deep_restrict(step, And(no_more, And(Not(eq(have, s.val)), lt(have, s.val))))
        need(d.op == 'minsert' and d.a[0] is acc and d.a[1] is k, 'a smaller polynomial stays as it is: ' + show(d)[:300])
        need(d.a[2] is raw('incnv_front', old, s.val), 'a smaller polynomial becomes ' + show(d.a[2])[:300])
        d = deep_restrict(step, same)
        need(d is acc or (d.op == 'minsert' and d.a[0] is acc and d.a[1] is k and d.a[2] in (old, raw('incnv_front', old, s.val))), 'a polynomial of full size becomes ' + show(d)[:300])
    decide(ctx, fn + '/resizes all', where, s, sizes, 'resizing of the committed polynomials')
    cl = fld(post, 'sum_check_claims')

    def kept():
        need(cl.op == 'seq' and cl.a[1] is length(SC), 'claims: ' + show(cl)[:200])
        j = fresh('k')
        c = inst(cl.a[2], cl.a[0], j)
        need(fld(c, 'label') is fld(idx(SC, j), 'label'), 'label of a claim: ' + show(fld(c, 'label'))[:200])
        v = fld(c, 'claimed_sum')
        e = raw('evs', fld(idx(SC, j), 'label'))
        m = fresh('m')
        need(v is mksum(length(e), m, idx(e, m)), 'claimed sum after resizing: ' + show(v)[:200])
    decide(ctx, fn + '/claims follow', where, s, kept, 'claims after resizing', cl)
    for m in ('zero_check_claims', 'virtual_polys', 'materialized_comms', 'transcript', 'pcs_param'):
        settle(ctx, '%s/keeps %s' % (fn, m), fld(post, m), fld(A0, m), where, 'must not change', s)
    settle(ctx, fn + '/silent', s.trace, NIL, where, 'must not touch the transcript', s)
    for kind, pos_ in (('front', lambda x, nv, old: raw('div', x, pow2(sub(nv, old)))), ('back', lambda x, nv, old: raw('mod', x, pow2(old)))):
        g = 'dmle_utils::dmle_increase_nv_' + kind
        ctx.saw(g)
        ctx.add('finalisation steps')
        s = K.summ(ctx.prog(), g)
        where = ctx.span(g)
        old, nv = fld(A0, 'num_vars'), A1
        same = eq(nv, old)
        d = subst(deep_restrict(s.val, same), {nv: old})
        if d is not A0:
            try:
                v = K.canon(K.evlen(K.pw(fld(d, 'evaluations'), K.X)))
                v = lock.mapt(v, lambda y: y.a[0] if y.op == 'mod' and y.a[0] is K.X and y.a[1] is pow2(old) else y)
                if fld(d, 'num_vars') is old and v is idx(fld(A0, 'evaluations'), K.X):
                    d = A0
            except K.Unclear:
                pass
        settle(ctx, g + '/same size', d, A0, where, 'result when nothing is added', s)
        d = deep_restrict(s.val, Not(same))
        settle(ctx, g + '/size', fld(d, 'num_vars'), nv, where, 'size of the result', s)
        try:
            x = K.X
            got = K.canon(K.pw(fld(d, 'evaluations'), x))
            w = K.canon(idx(fld(A0, 'evaluations'), pos_(x, nv, old)))
            more = {A1: add(old, raw('sym', 'added'))}
            got, w = [K.canon(K.evlen(subst(x_, more))) for x_ in (got, w)]
            settle(ctx, g + '/values', got, w, where, 'value at position x', s)
        except K.Unclear as e:
            ctx.skip(g + '/values', 'not in closed form: %s' % e)
        pan = FALSE
        for w, k, c, _ in s.panics:
            if k.startswith('panic'):
                pan = Or(pan, c)
        ctx.ob(g + '/refuses to shrink', implies(And(lt(nv, old), Not(same)), pan), where, 'refused under ' + show(pan)[:200])
