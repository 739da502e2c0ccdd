"""Rules over the multilinear KZG scheme: group elements are modelled by their discrete logarithms
(polynomials in the trapdoor), pairings by products of them."""
from terms import *
import terms
import tracker as K
import logic
import algebra
import mlops
from interp import TRC
from sums import condition, nopanic, same_, private, FLAWS
from krules import settle, okform, A0, A1, A2
from mlops import mle, syms, compare, total, eqw, fix_first

G, HH = sym('G'), sym('H')
PCS = 'MultilinearKzgPCS@PolynomialCommitmentScheme::'
SRS = 'MultilinearUniversalParams@StructuredReferenceString::'
S_ = 'zk_sql::subroutines::pcs::multilinear_kzg::srs::'


def N(I, st, x):
    return I.norm(st, I.deref(st, x))


def h_rand(I, st, a, fn):
    g = ' '.join(fn.get('g') or []) + ' ' + str(fn.get('self', ''))
    c = raw('cell', 'ORD', 'rand')
    n = int_val(st.mem.get(c, ZERO))
    st.mem[c] = num(n + 1)
    return st, raw('rand', num(n))


def items(I, st, v):
    v = N(I, st, v)
    if v.op == 'iter':
        raise RuntimeError('iterator')
    return v


def h_table(I, st, a, fn):
    return st, raw('wtable', N(I, st, a[2]))


def h_fbmsm(I, st, a, fn):
    t, s = N(I, st, a[2]), N(I, st, a[3])
    if t.op != 'wtable':
        return None
    i = fresh('i')
    return st, mkseq(length(s), i, mul(idx(s, i), t.a[0]))


def h_msm(I, st, a, fn):
    b, s = N(I, st, a[0]), N(I, st, a[1])
    nb, ns = int_val(length(b)), int_val(length(s))
    if nb is None or ns is None:
        i, n = fresh('i'), length(b)
        return st, mksum(ite(pos(sub(n, length(s))), length(s), n), i, mul(idx(b, i), idx(s, i)))
    r = ZERO
    for i in range(min(nb, ns)):
        r = add(r, mul(idx(b, num(i)), idx(s, num(i))))
    return st, r


def lstof(I, st, v):
    import models
    return models.collect_list(I, st, models.to_src(I, st, v))


def h_pairing(I, st, a, fn):
    st, p = lstof(I, st, a[0])
    st, q = lstof(I, st, a[1])
    p, q = N(I, st, p), N(I, st, q)
    np, nq = int_val(length(p)), int_val(length(q))
    if np is None or nq is None:
        return None
    r = ZERO
    for i in range(min(np, nq)):
        r = add(r, mul(idx(p, num(i)), idx(q, num(i))))
    # an element of the target group is the generator to the power of its logarithm; equality is
    # decided on logarithms, the neutral element (written multiplicatively as 1) having logarithm 0
    return st, adt('ark_ec::pairing::PairingOutput', '', ('0',), add(ONE, r))


def h_normal(I, st, a, fn):
    return st, N(I, st, a[0])


def h_window(I, st, a, fn):
    return st, sym('window')


H = {'UniformRand::rand': h_rand, 'FixedBase::get_window_table': h_table, 'FixedBase::msm': h_fbmsm, 'VariableBaseMSM::msm_unchecked': h_msm,
     'Pairing::multi_pairing': h_pairing, 'CurveGroup::normalize_batch': h_normal, 'FixedBase::get_mul_window_size': h_window}


def run(ctx, fn, args, **kw):
    s = K.summ(ctx.prog(), fn, argvals=args, extra=H, unroll=80, recursion=12, **kw)
    ctx.saw(*s.I.inlined)
    ctx.add('function instances')
    return s


MOD = 'zk_sql::subroutines::pcs::multilinear_kzg::'


def srs(n, p=''):
    """the reference string for n variables with trapdoors t_0..t_{n-1}"""
    t = syms('t' + p, n)
    pw = [adt(MOD + 'srs::Evaluations', '', ('evals',), lst(*[mul(G, eqw(t[i:], b)) for b in range(2 ** (n - i))])) for i in range(n)]
    pw.append(adt(MOD + 'srs::Evaluations', '', ('evals',), lst(G)))
    pp = prover(n, pw)
    return t, adt(MOD + 'srs::MultilinearUniversalParams', '', ('prover_param', 'h_mask'), pp, lst(*[mul(HH, x) for x in t]))


def prover(n, pw):
    return adt(MOD + 'srs::MultilinearProverParam', '', ('num_vars', 'powers_of_g', 'g', 'h'), num(n), lst(*pw), G, HH)


def verifier(u, n):
    return adt(MOD + 'srs::MultilinearVerifierParam', '', ('num_vars', 'g', 'h', 'h_mask'), num(n), G, HH, fld(u, 'h_mask'))


def last(u, m):
    """its restriction to the last m variables"""
    pp = fld(u, 'prover_param')
    n = int_val(fld(pp, 'num_vars'))
    pw, hm = list(fld(pp, 'powers_of_g').a)[n - m:], lst(*list(fld(u, 'h_mask').a)[n - m:])
    return prover(m, pw), adt(MOD + 'srs::MultilinearVerifierParam', '', ('num_vars', 'g', 'h', 'h_mask'), num(m), G, HH, hm)


PP_FIELDS = ('num_vars', 'g', 'h')


def same_pp(ctx, key, got, want, where, s):
    for f in PP_FIELDS:
        settle(ctx, key + '/' + f, fld(got, f), fld(want, f), where, f, s)
    pw, ww = fld(got, 'powers_of_g'), list(fld(want, 'powers_of_g').a)
    settle(ctx, key + '/tables', length(pw), num(len(ww)), where, 'number of tables', s)
    if length(pw) is num(len(ww)):
        for i, w in enumerate(ww):
            compare(ctx, '%s/table %d' % (key, i), where, s, fld(idx(pw, num(i)), 'evals'), list(fld(w, 'evals').a), 'powers of g')


def same_vp(ctx, key, got, want, where, s):
    for f in PP_FIELDS:
        settle(ctx, key + '/' + f, fld(got, f), fld(want, f), where, f, s)
    compare(ctx, key + '/mask', where, s, fld(got, 'h_mask'), list(fld(want, 'h_mask').a), 'powers of h')


def setup(ctx):
    fn = SRS + 'gen_srs_for_testing'
    where = ctx.span(fn)
    for n in range(1, 7):
        s = run(ctx, fn, [None, num(n)])
        key = 'setup for %d variables' % n
        if not total(ctx, key, s, where):
            continue
        settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
        v = vf(s.val, 'Ok', '0')
        pp = fld(v, 'prover_param')
        g, h = fld(pp, 'g'), fld(pp, 'h')
        settle(ctx, key + '/variables', fld(pp, 'num_vars'), num(n), where, 'number of variables', s)
        ok = g.op == 'rand' and h.op == 'rand' and g is not h
        same_(ctx, key + '/random generators', ok, where, 'g and h are independently sampled', s, tup(g, h))
        hm = fld(v, 'h_mask')
        settle(ctx, key + '/masks', length(hm), num(n), where, 'one mask per variable', s)
        if not ok or length(hm) is not num(n):
            continue
        cand = {mul(h, raw('rand', num(k))): raw('rand', num(k)) for k in range(n + 4)}
        t = [cand.get(idx(hm, num(i))) for i in range(n)]
        ok = None not in t and len(set(t) | {g, h}) == n + 2
        same_(ctx, key + '/random trapdoors', ok, where, 'the masks are powers of h with independently sampled exponents', s, hm)
        if not ok:
            continue
        pw = fld(pp, 'powers_of_g')
        settle(ctx, key + '/tables', length(pw), num(n + 1), where, 'number of tables', s)
        if length(pw) is not num(n + 1):
            continue
        for i in range(n + 1):
            compare(ctx, '%s/table %d' % (key, i), where, s, fld(idx(pw, num(i)), 'evals'), [mul(g, eqw(t[i:], b)) for b in range(2 ** (n - i))],
                    'powers of g are eq of the last %d trapdoors' % (n - i))


def trimming(ctx):
    for n in range(1, 6):
        t, u = srs(n)
        for m in range(0, n + 1):
            pp, vp = last(u, m)
            for fn, args, what in ((SRS + 'trim', [u, num(m)], 'both'), (PCS + 'trim', [u, NONE, Some(num(m))], 'both'),
                                   (SRS + 'extract_prover_param', [u, num(m)], 'prover'), (SRS + 'extract_verifier_param', [u, num(m)], 'verifier')):
                if what != 'both' and not private(ctx, fn):
                    continue
                where = ctx.span(fn)
                s = run(ctx, fn, args)
                key = '%s/%d of %d variables' % (fn, m, n)
                if not total(ctx, key, s, where):
                    continue
                v = s.val
                if what == 'both':
                    settle(ctx, key + '/succeeds', okform(v), TRUE, where, 'succeeds', s)
                    if okform(v) is not TRUE:
                        continue
                    v = vf(v, 'Ok', '0')
                    same_pp(ctx, key + '/prover', fld(v, '0'), pp, where, s)
                    same_vp(ctx, key + '/verifier', fld(v, '1'), vp, where, s)
                elif what == 'prover':
                    same_pp(ctx, key, v, pp, where, s)
                else:
                    same_vp(ctx, key, v, vp, where, s)


def dot(f, w):
    r = ZERO
    for a, b in zip(f, w):
        r = add(r, mul(a, b))
    return r


def opening(ctx):
    for n in range(1, 7):
        t, u = srs(n)
        pp, vp = last(u, n)
        for nv in range(0, n + 1):
            f, z = syms('f', 2 ** nv), syms('z', nv)
            tt = t[n - nv:]
            com = dot(f, [eqw(tt, b) for b in range(2 ** nv)])
            val = dot(f, [eqw(z, b) for b in range(2 ** nv)])
            fn = PCS + 'commit'
            where = ctx.span(fn)
            key = 'commit/%d of %d variables' % (nv, n)
            s = run(ctx, fn, [pp, mle(nv, f)])
            if total(ctx, key, s, where):
                settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                compare(ctx, key, where, s, lst(fld(vf(s.val, 'Ok', '0'), '0')), [mul(G, com)], 'commitment is g to the value at the trapdoors')
            fn = PCS + 'open'
            where = ctx.span(fn)
            key = 'open/%d of %d variables' % (nv, n)
            s = run(ctx, fn, [pp, mle(nv, f), lst(*z)])
            pr = None
            if total(ctx, key, s, where):
                settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                v = vf(s.val, 'Ok', '0')
                compare(ctx, key + '/value', where, s, lst(fld(v, '1')), [val], 'value at the point')
                pr = fld(fld(v, '0'), 'proofs')
                settle(ctx, key + '/proof', length(pr), num(nv), where, 'one proof element per variable', s)
                if length(pr) is num(nv):
                    try:
                        ps = [algebra.qpoly(idx(pr, num(i))) for i in range(nv)]
                    except algebra.Opaque as e:
                        ctx.skip(key + '/accepted', 'not in closed form: %s' % e)
                    else:
                        w = mul(sub(val, com), G)
                        for i in range(nv):
                            w = add(w, mul(idx(pr, num(i)), sub(tt[i], z[i])))
                        same_(ctx, key + '/accepted', algebra.qpoly(w) == algebra.qpoly(ZERO), where, 'the proof satisfies the opening equation', s, pr)
            fn = PCS + 'verify'
            where = ctx.span(fn)
            key = 'verify/%d of %d variables' % (nv, n)
            p = syms('p', nv)
            C, v = sym('C'), sym('v')
            s = run(ctx, fn, [vp, commitment(C), lst(*z), v, proof(p)])
            if total(ctx, key, s, where):
                settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                w = mul(sub(mul(G, v), C), HH)
                for i in range(nv):
                    w = add(w, mul(p[i], mul(HH, sub(tt[i], z[i]))))
                equation(ctx, key + '/accepts exactly when', vf(s.val, 'Ok', '0'), w, where, s)
            # a proof with too few or too many elements: refused, or what is missing or too much does not count
            for k in [k for k in range(0, nv + 3) if k != nv]:
                q = syms('p', k)
                key = 'verify/%d of %d variables/%d elements' % (nv, n, k)
                s = run(ctx, fn, [vp, commitment(C), lst(*z), v, proof(q)])
                if total(ctx, key, s, where) and okform(s.val) is not FALSE:
                    got = vf(s.val, 'Ok', '0')
                    if got is not FALSE:
                        w = mul(sub(mul(G, v), C), HH)
                        for i in range(min(k, nv)):
                            w = add(w, mul(q[i], mul(HH, sub(tt[i], z[i]))))
                        equation(ctx, key + '/accepts exactly when', got, w, where, s)


def commitment(c):
    return adt('zk_sql::subroutines::pcs::structs::Commitment', '', ('0',), c)


def proof(ps):
    return adt(MOD + 'MultilinearKzgProof', '', ('proofs',), lst(*ps))


def equation(ctx, key, got, w, where, s):
    """the verdict is w = 0 (up to sign)"""
    if got.op == 'ite' and got.a[1] is FALSE and got.a[2] is TRUE and got.a[0].op == 'eq0':
        ctx.fail(key, where, 'the verdict is negated')
        return
    if got.op == 'ite' and got.a[1] is TRUE and got.a[2] is FALSE:
        got = got.a[0]
    if got.op == 'eq0':
        try:
            q = algebra.qpoly(got.a[0])
            same_(ctx, key, q in (algebra.qpoly(w), algebra.qpoly(neg(w))), where, 'the verdict is not the opening equation', s, got)
            return
        except algebra.Opaque:
            pass
    if got in (TRUE, FALSE):
        ctx.fail(key, where, 'the verdict is constant')
        return
    ctx.skip(key, 'verdict in another form: ' + show(got)[:200])


def refusals(ctx):
    for n in range(1, 4):
        t, u = srs(n)
        pp, vp = last(u, n)
        p = syms('p', 5)
        cases = [(PCS + 'commit', [pp, mle(n + 1, syms('f', 2 ** (n + 1)))], 'polynomial larger than the parameters'),
                 (PCS + 'open', [pp, mle(n + 1, syms('f', 2 ** (n + 1))), lst(*syms('z', n + 1))], 'polynomial larger than the parameters'),
                 (PCS + 'open', [pp, mle(n, syms('f', 2 ** n)), lst(*syms('z', n - 1))], 'point too short'),
                 (PCS + 'open', [pp, mle(n, syms('f', 2 ** n)), lst(*syms('z', n + 1))], 'point too long'),
                 (PCS + 'verify', [vp, commitment(sym('C')), lst(*syms('z', n + 1)), sym('v'), proof(syms('p', n + 1))], 'point longer than the parameters'),
                 (SRS + 'trim', [u, num(n + 1)], 'more variables than the reference string'),
                 (PCS + 'trim', [u, NONE, Some(num(n + 1))], 'more variables than the reference string'),
                 (PCS + 'trim', [u, NONE, NONE], 'number of variables missing')]
        if n == 1:
            cases.append((SRS + 'gen_srs_for_testing', [None, ZERO], 'no variables'))
        for fn, args, what in cases:
            where = ctx.span(fn)
            s = run(ctx, fn, args)
            key = '%s/%d variables/%s' % (fn, n, what)
            ctx.add('refusals')
            if total(ctx, key, s, where):
                settle(ctx, key + '/refused', okform(s.val), FALSE, where, what + ' must be refused with an error', s)
        # a verdict for every number of proof elements
        for k in range(0, n + 2):
            fn = PCS + 'verify'
            s = run(ctx, fn, [vp, commitment(sym('C')), lst(*syms('z', n)), sym('v'), proof(p[:k])])
            ctx.add('refusals')
            total(ctx, 'verify/%d variables/%d proof elements' % (n, k), s, ctx.span(fn))
