"""Rules over the trackers: what an operation's result denotes, id numbering, handles."""
from terms import *
import terms
import tracker as K
import iop
import lock
import hooks
import run
import interp as IN
import logic
from tdiff import tdiff

A0, A1, A2 = sym('a0'), sym('a1'), sym('a2')
CNTR = fld(A0, 'id_counter')
PT_ = 'ProverTracker::'
VT_ = 'VerifierTracker::'
NVS = raw('sym', 'NV')


def move(t, y):
    """the polynomial with every committed polynomial read at position y"""
    return lock.mapt(t, lambda z: K.at(z, y) if z.op == 'val' else z)


def commonnv(t):
    """all polynomials that meet in one virtual polynomial have the same number of variables (asserted by the handles, K04)"""
    t = lock.mapt(K.evlen(t), lambda z: NVS if z.op == 'fld' and z.a[1] == 'num_vars' and z.a[0].op == 'mval' else z)
    return K.evlen(t)


OPS = {
    'add_polys': (2, lambda u, v, c: add(u, v), 1), 'sub_polys': (2, lambda u, v, c: sub(u, v), 1),
    'mul_polys': (2, lambda u, v, c: mul(u, v), 1), 'mul_scalar': (1, lambda u, v, c: mul(u, c), 1),
    'add_scalar': (1, lambda u, v, c: add(u, c), 2),
    'increase_nv_front': (1, lambda u, v, c: move(u, K.div(X, pow2(c))), 1),
    'increase_nv_back': (1, lambda u, v, c: move(u, K.mod(X, pow2(NVS))), 1),
}
X = K.X
UNTOUCHED = ('materialized_comms', 'sum_check_claims', 'zero_check_claims', 'pcs_param', 'transcript')


def loops(t):
    return iop.has(t, 'fold') or iop.has(t, 'while') or iop.has(t, 'apply') or iop.has(t, 'call')


# calls kept as uninterpreted functions on purpose
OPAQUE = {'Iterator::next', 'PolynomialCommitmentScheme::commit'}


def settle(ctx, key, got, want, where, what, S=None):
    """got is want, modulo terms the analysis could not put in closed form"""
    if got is want:
        ctx.ob(key, True)
        return True
    u = sorted(set(S.I.unknown) - OPAQUE) if S is not None else []
    if u or (isinstance(got, T) and (iop.has(got, 'fold') or iop.has(got, 'while')) and not (iop.has(want, 'fold') or iop.has(want, 'while'))):
        ctx.skip(key, 'not in closed form' + (': ' + ', '.join(u) if u else ''))
        return None
    p, x, y = tdiff(got, want, 500)
    ctx.fail(key, where, '%s (%s)\n  code: %s\n  expected: %s' % (what, p, x, y))
    return False


def fresh_result(ctx, key, where, i, c, s):
    """the result has an id that was not in use, and will not be handed out again"""
    di, dc = sub(i, CNTR), sub(c, CNTR)
    if not (is_int(di) and is_int(dc)):
        settle(ctx, key + '/id', i, CNTR, where, 'id of the result', s)
    else:
        di, dc = int_val(di), int_val(dc)
        ctx.ob(key + '/id', 0 <= di < dc, where, 'the id of the result is counter+%s, the counter moves by %s' % (di, dc))


def scenarios(n):
    for x in (True, False):
        for y in ((True, False) if n == 2 else (True,)):
            yield ({A1: x, A2: y} if n == 2 else {A1: x}), ('materialised' if x else 'virtual') + ((' with ' + ('materialised' if y else 'virtual')) if n == 2 else '')


def prover_ops(ctx):
    prog = ctx.prog()
    for op, (n, f, delta) in OPS.items():
        fn = PT_ + op
        ctx.saw(fn)
        for sc, what in scenarios(n):
            key = '%s/%s' % (fn, what)
            s = K.summ(prog, fn, scen=sc)
            ctx.add('operation cases')
            if s.val is None:
                ctx.fail(key, ctx.span(fn), 'never returns')
                continue
            with K.Facts(sc):
                post = s.post(0)
                fresh_result(ctx, key, ctx.span(fn), fld(s.val, '0'), fld(post, 'id_counter'), s)
                for m in UNTOUCHED:
                    settle(ctx, '%s/keeps %s' % (key, m), fld(post, m), fld(A0, m), ctx.span(fn), 'must not change', s)
                settle(ctx, key + '/silent', s.trace, NIL, ctx.span(fn), 'must not touch the transcript', s)
                try:
                    u = K.state_den(A0, A1)
                    v = K.state_den(A0, A2) if n == 2 else None
                    got = commonnv(K.canon(K.state_den(post, s.val)))
                    want = K.canon(f(u, v, A2))
                    if op.startswith('increase') and got.op == 'ite' and form(got.a[0]) is eq0(A2):
                        settle(ctx, key + '/unchanged size', got.a[1], K.canon(u), ctx.span(fn), 'result for no added variable', s)
                        got = got.a[2]
                    settle(ctx, key + '/denotes', got, want, ctx.span(fn), 'what the result denotes', s)
                    # everything tracked before denotes what it did
                    for a, d in ((A1, u),) + (((A2, v),) if n == 2 else ()):
                        settle(ctx, '%s/operand %s kept' % (key, a.a[0]), K.canon(K.state_den(post, a)), K.canon(d), ctx.span(fn), 'operand after the operation', s)
                    others(ctx, key, post, sc, fn, s)
                    if op.startswith('increase'):
                        nv = commonnv(fld(mval(fld(post, 'materialized_polys'), s.val), 'num_vars'))
                        nv = deep_restrict(nv, Not(eq0(A2)))
                        settle(ctx, key + '/size', nv, add(NVS, A2), ctx.span(fn), 'number of variables of the result', s)
                except K.Unclear as e:
                    ctx.skip(key, 'not in closed form: %s' % e)


def others(ctx, key, post, sc, fn, s):
    """an id that is not an operand: its entry is untouched"""
    z = sym('other')
    for zm in (True, False):
        sc2 = dict(sc)
        sc2[z] = zm
        with K.Facts(sc2):
            terms.EQ_FACTS.append(lambda d: apart(d, z, (A1, A2)))
            settle(ctx, '%s/other %s entries kept' % (key, 'materialised' if zm else 'virtual'),
                   K.canon(K.state_den(post, z)), K.canon(K.state_den(A0, z)), ctx.span(fn), 'unrelated entries', s)
        K.Facts(sc).__enter__()


def apart(d, z, ws):
    ks = {m.a[0] for m in d if len(m.a) == 2}
    if len(d) == 2 and len(ks) == 2:
        x = {z, fld(z, '0')} & ks
        if x and ({w for w in ws} | {fld(w, '0') for w in ws}) & ks:
            return FALSE
    return None


# ------------------------------------------------------------------ reading a tracked polynomial
def prover_reads(ctx):
    prog = ctx.prog()
    pt = A2
    for sc, what in scenarios(1):
        fn = PT_ + 'evaluate'
        s = K.summ(prog, fn, scen=sc)
        ctx.saw(fn)
        ctx.add('reading cases')
        with K.Facts(sc):
            d = K.state_den(A0, A1)
            want = lock.mapt(d, lambda z: raw('eval', mval(fld(A0, 'materialized_polys'), z.a[0]), pt) if z.op == 'val' else z)
            got = s.val
            want = Some(want)
            settle(ctx, '%s/%s' % (fn, what), K.canon(got), K.canon(want), ctx.span(fn), 'value at a point', s)
        fn = PT_ + 'evaluations'
        s = K.summ(prog, fn, scen=sc)
        ctx.saw(fn)
        with K.Facts(sc):
            try:
                got = K.canon(K.pw(s.I.norm(s.st, s.I.deref(s.st, s.val)), X))
                settle(ctx, '%s/%s' % (fn, what), got, K.canon(d), ctx.span(fn), 'evaluations over the hypercube', s)
                settle(ctx, '%s/%s/state' % (fn, what), K.canon(K.state_den(s.post(0), A1)), K.canon(d), ctx.span(fn), 'the polynomial after reading it', s)
                others(ctx, '%s/%s' % (fn, what), s.post(0), sc, fn, s)
            except K.Unclear as e:
                ctx.skip('%s/%s' % (fn, what), 'not in closed form: %s' % e)
        fn = PT_ + 'to_arithmatic_virtual_poly'
        s = K.summ(prog, fn, extra=AVP, scen=sc)
        ctx.saw(fn)
        with K.Facts(sc):
            v = s.val
            if v.op == 'fold' and v.a[2] == 1 and v.a[4].op == 'avp' and v.a[5].op == 'avpadd' and v.a[5].a[0] is raw('bw', v.a[0], 0):
                v = raw('avp', v.a[4].a[0], cat(v.a[4].a[1], raw('seq', v.a[0], v.a[3], v.a[5].a[1])))
            if v.op != 'avp':
                ctx.skip('%s/%s' % (fn, what), 'not in closed form')
            else:
                want = lock.mapt(d, lambda z: raw('mle', mval(fld(A0, 'materialized_polys'), z.a[0])) if z.op == 'val' else z)
                try:
                    settle(ctx, '%s/%s' % (fn, what), K.canon(avpden(v.a[1])), K.canon(want), ctx.span(fn), 'polynomial handed to the sum-check', s)
                    settle(ctx, '%s/%s/size' % (fn, what), commonnv(v.a[0]), commonnv(fld(mval(fld(A0, 'materialized_polys'), A1), 'num_vars')), ctx.span(fn), 'its number of variables', s)
                except K.Unclear as e:
                    ctx.skip('%s/%s' % (fn, what), 'not in closed form: %s' % e)


def avp_new(I, st, a, fn):
    return st, raw('avp', I.deref(st, a[0]), NIL)


def avp_from(I, st, a, fn):
    m = I.norm(st, I.deref(st, a[0]))
    return st, raw('avp', fld(m, 'num_vars'), lst(tup(I.norm(st, I.deref(st, a[1])), lst(m))))


def avp_add(I, st, a, fn):
    v = I.deref(st, a[0])
    x = tup(I.norm(st, I.deref(st, a[2])), I.norm(st, I.deref(st, a[1])))
    if v.op == 'avp':
        I.mem_set(st, a[0], raw('avp', v.a[0], cat(v.a[1], lst(x))))
    else:
        I.mem_set(st, a[0], raw('avpadd', v, x))
    return st, Ok(UNIT)


AVP = {'VirtualPolynomial::new': avp_new, 'VirtualPolynomial::new_from_mle': avp_from, 'VirtualPolynomial::add_mle_list': avp_add}


def avpden(rep):
    o = rep.op
    if o == 'list':
        r = ZERO
        for x in rep.a:
            r = add(r, mul(fld(x, '0'), mleprod(fld(x, '1'))))
        return r
    if o == 'cat':
        r = ZERO
        for x in rep.a:
            r = add(r, avpden(x))
        return r
    if o == 'seq':
        k, n, b = rep.a
        i = fresh('d')
        b = inst(b, k, i)
        return mksum(n, i, mul(fld(b, '0'), mleprod(fld(b, '1'))))
    raise K.Unclear('products ' + o)


def mleprod(p):
    if p.op == 'list':
        r = ONE
        for x in p.a:
            r = mul(r, raw('mle', x))
        return r
    if p.op == 'cat':
        r = ONE
        for x in p.a:
            r = mul(r, mleprod(x))
        return r
    if p.op == 'seq':
        k, n, b = p.a
        i = fresh('d')
        return mkprod(n, i, raw('mle', inst(b, k, i)))
    raise K.Unclear('product ' + p.op)


# ------------------------------------------------------------------ verifier
PTV = raw('sym', 'pt')
HV = raw('cell', 'H', fld(A0, 'virtual_comms'))
VOPS = {
    'add_comms': (2, lambda u, v, c: add(u, v), 1, None), 'sub_comms': (2, lambda u, v, c: sub(u, v), 1, None),
    'mul_comms': (2, lambda u, v, c: mul(u, v), 1, None), 'mul_scalar': (1, lambda u, v, c: mul(u, c), 1, None),
    'add_scalar': (1, lambda u, v, c: add(u, c), 2, None),
    'increase_nv_front': (1, lambda u, v, c: u, 1, lambda c: slice_(PTV, c, length(PTV))),
    'increase_nv_back': (1, lambda u, v, c: u, 1, lambda c: slice_(PTV, ZERO, sub(length(PTV), c))),
}
VKEEP = ('materialized_comms', 'sum_check_claims', 'zero_check_claims', 'pcs_params', 'transcript', 'proof', 'virtual_comms', 'query_map')


class VFacts:
    """the operands are tracked; fresh ids are not"""

    def __init__(self, ids):
        self.ids = ids

    def has(self, m, k):
        if m.op == 'content' and m.a[0].op == 'fld' and m.a[0].a[1] == 'virtual_comms':
            if k in self.ids:
                return TRUE
            if k.op == 'adt' and k.a[0] == iop.ID and any(K.is_counter(x) for x in as_poly(k.a[3])):
                return FALSE
        return None

    def __enter__(self):
        terms.HAS_FACTS[:] = [self.has]
        terms.EQ_FACTS[:] = [K.fresh_id]

    def __exit__(self, *a):
        terms.HAS_FACTS[:] = []
        terms.EQ_FACTS[:] = []


def vsumm(prog, fn, ids, extra=None, argvals=None):
    with VFacts(ids):
        h = dict(K.HOOKS)
        if extra:
            h.update(extra)
        return run.summarize(prog, fn, hooks=h, setup=hooks.TR_SETUP, argvals=argvals)


def call_entry(s, i, *pts):
    """evaluate the closure stored under id i in the state after s, at the points in turn: the last value"""
    st = s.st.copy()
    for pt in pts[:-1]:
        m = st.mem.get(HV, raw('content', fld(A0, 'virtual_comms')))
        st, v = s.I.call_value(st, mval(m, i), [pt])
        if st is None:
            return None, []
    pt = pts[-1]
    m = st.mem.get(HV, raw('content', fld(A0, 'virtual_comms')))
    c = mval(m, i)
    n0 = len(s.I.panics)
    st, v = s.I.call_value(st, c, [pt])
    pan = [p for p in s.I.panics[n0:]]
    if st is None:
        return None, pan
    return s.I.norm(st, v), pan


def base_eval(i, pt):
    return raw('apply', mval(raw('content', fld(A0, 'virtual_comms')), i), pt)


def okform(v):
    if v is None:
        return raw('never returns')   # every path aborts
    return is_var(v, 'core::result::Result', 'Ok')


def verifier_ops(ctx):
    prog = ctx.prog()
    for op, (n, f, delta, shift) in VOPS.items():
        fn = VT_ + op
        ctx.saw(fn)
        ctx.add('operation cases')
        s = vsumm(prog, fn, (A1, A2) if n == 2 else (A1,))
        key = fn
        where = ctx.span(fn)
        if s.val is None:
            ctx.fail(key, where, 'never returns')
            continue
        with VFacts((A1, A2) if n == 2 else (A1,)):
            post = s.post(0)
            fresh_result(ctx, key, where, fld(s.val, '0'), fld(post, 'id_counter'), s)
            settle(ctx, key + '/silent', s.trace, NIL, where, 'must not touch the transcript', s)
            for m in VKEEP:
                settle(ctx, '%s/keeps %s' % (key, m), fld(post, m), fld(A0, m), where, 'must not change', s)
            m = s.st.mem.get(HV)
            if m is None or m.op != 'minsert':
                ctx.fail(key + '/entry', where, 'the result is not entered in the table of virtual commitments')
                continue
            settle(ctx, key + '/other entries', m.a[0], raw('content', fld(A0, 'virtual_comms')), where, 'entries before the operation', s)
            settle(ctx, key + '/entry', m.a[1], s.val, where, 'id under which the result is entered', s)
            v, pan = call_entry(s, s.val, PTV)
            y = shift(A2) if shift else PTV
            y = [base_eval(A1, y)] + ([base_eval(A2, y)] if n == 2 else [])
            evaluates(ctx, key, where, v, pan, y, lambda xs: f(xs[0], xs[1] if n == 2 else None, A2), s, shift)
            # several claims evaluate the same entry at different points: an earlier evaluation does not change a later one
            v, pan = call_entry(s, s.val, raw('sym', 'earlier point'), PTV)
            if v is not None:
                evaluates(ctx, key + '/again', where, v, [], y, lambda xs: f(xs[0], xs[1] if n == 2 else None, A2), s, shift)


def evaluates(ctx, key, where, v, pan, subs, f, s, shift=None):
    if v is None:
        ctx.fail(key + '/evaluates', where, 'evaluating the result never returns')
        return
    want_ok = And(*[okform(u) for u in subs])
    got_ok = okform(v)
    settle(ctx, key + '/evaluates when', got_ok, want_ok, where, 'evaluation succeeds exactly when the operands\' does', s)
    got = deep_restrict(vf(v, 'Ok', '0'), want_ok)
    settle(ctx, key + '/evaluates', K.canon(got), K.canon(deep_restrict(f([vf(u, 'Ok', '0') for u in subs]), want_ok)), where, 'value at a point', s)
    # a failed sub-evaluation is passed on, not a panic; a point shorter than the added variables is outside the domain
    bad = [p for p in pan if not (shift and p[1] in ('slice', 'bounds', 'overflow', 'range'))]
    ctx.ob(key + '/no panic', not bad, where, 'evaluation can panic: %s' % [(p[0], p[1], show(p[2])[:200]) for p in bad])


def verifier_tracks(ctx):
    """committed and caller-supplied entries, and reading an entry"""
    prog = ctx.prog()
    fn = VT_ + 'track_mat_comm'
    ctx.saw(fn)
    where = ctx.span(fn)
    s = vsumm(prog, fn, ())
    with VFacts(()):
        post = s.post(0)
        settle(ctx, fn + '/id', s.val, Ok(newid(0)), where, 'result', s)
        settle(ctx, fn + '/counter', fld(post, 'id_counter'), add(CNTR, ONE), where, 'ids used up', s)
        settle(ctx, fn + '/absorbs', s.trace, lst(raw('ev', 'absorb', S('comm'), A1)), where, 'the commitment is absorbed into the transcript', s)
        settle(ctx, fn + '/commitment kept', fld(post, 'materialized_comms'), minsert(fld(A0, 'materialized_comms'), newid(0), A1), where, 'commitments to be opened', s)
        m = s.st.mem.get(HV)
        settle(ctx, fn + '/entry', m.a[1] if m is not None and m.op == 'minsert' else S('none'), newid(0), where, 'id under which it is entered', s)
        if m is not None and m.op == 'minsert':
            v, pan = call_entry(s, newid(0), PTV)
            q = raw('content', fld(A0, 'query_map'))
            k = tup(newid(0), PTV)
            settle(ctx, fn + '/evaluates when', okform(v), mhas(q, k), where, 'evaluation succeeds exactly when the proof supplies it', s)
            settle(ctx, fn + '/evaluates', deep_restrict(vf(v, 'Ok', '0'), mhas(q, k)), mval(q, k), where, 'value at a point', s)
            ctx.ob(fn + '/no panic', not pan, where, 'evaluation can panic: %s' % [(p[0], p[1]) for p in pan])
            v, pan = call_entry(s, newid(0), raw('sym', 'earlier point'), PTV)
            if v is not None:
                settle(ctx, fn + '/again/evaluates when', okform(v), mhas(q, k), where, 'evaluation succeeds exactly when the proof supplies it', s)
                settle(ctx, fn + '/again/evaluates', deep_restrict(vf(v, 'Ok', '0'), mhas(q, k)), mval(q, k), where, 'value at a point', s)
    fn = VT_ + 'track_virtual_comm'
    ctx.saw(fn)
    where = ctx.span(fn)
    s = vsumm(prog, fn, ())
    with VFacts(()):
        settle(ctx, fn + '/id', s.val, newid(0), where, 'result', s)
        settle(ctx, fn + '/counter', fld(s.post(0), 'id_counter'), add(CNTR, ONE), where, 'ids used up', s)
        settle(ctx, fn + '/entry', s.st.mem.get(HV, NIL), minsert(raw('content', fld(A0, 'virtual_comms')), newid(0), A1), where, 'entry', s)
        settle(ctx, fn + '/silent', s.trace, NIL, where, 'must not touch the transcript', s)
        for m in ('materialized_comms', 'sum_check_claims', 'zero_check_claims'):
            settle(ctx, '%s/keeps %s' % (fn, m), fld(s.post(0), m), fld(A0, m), where, 'must not change', s)
    fn = VT_ + 'eval_virtual_comm'
    ctx.saw(fn)
    s = vsumm(prog, fn, (A1,))
    u = base_eval(A1, A2)
    settle(ctx, fn + '/when', okform(s.val), okform(u), ctx.span(fn), 'evaluation succeeds exactly when the entry\'s does', s)
    settle(ctx, fn + '/value', deep_restrict(vf(s.val, 'Ok', '0'), okform(u)), vf(u, 'Ok', '0'), ctx.span(fn), 'value at a point', s)
    fn = VT_ + 'transfer_proof_poly_evals'
    ctx.saw(fn)
    s = vsumm(prog, fn, ())
    q = s.st.mem.get(raw('cell', 'H', fld(A0, 'query_map')))
    P = fld(fld(A0, 'proof'), 'query_map')
    ok = q is not None and q.op == 'minsall'
    if q is not None and q.op == 'fold' and not s.I.unknown and len(q.a) == 6:
        m = fresh('entries')
        b = subst(q.a[5], {raw('bv', q.a[0]): fresh('e'), raw('bw', q.a[0], 0): m})
        left = b
        while left.op == 'ite' and left is not m and m.id not in left.a[0].fs:
            left = left.a[1] if m in (left.a[1],) or left.a[1].op == 'ite' else left.a[2]
        if left is m:
            ctx.fail(fn + '/all entries', ctx.span(fn), 'evaluations are left out: ' + show(b)[:300])
    if not ok:
        ctx.skip(fn, 'not in closed form')
    else:
        i = fresh('e')
        kk = inst(q.a[3], q.a[0], i)
        settle(ctx, fn + '/all entries', q.a[1], length(raw('mkeys', P)), ctx.span(fn), 'entries taken over', s)
        settle(ctx, fn + '/keys', kk, idx(raw('mkeys', P), i), ctx.span(fn), 'key', s)
        settle(ctx, fn + '/values', inst(q.a[4], q.a[0], i), mval(P, kk), ctx.span(fn), 'value', s)
    ctx.add('operation cases', 4)


def reads(side, table):
    def rule(ctx):
        """looking up what is stored under an id gives that, and nothing for an id without an entry"""
        prog = ctx.prog()
        for op, path in table:
            fn = side + op
            ctx.saw(fn)
            s = run.summarize(prog, fn)
            m = A0
            for f in path:
                m = fld(m, f)
            settle(ctx, fn, s.val, mget(m, A1), ctx.span(fn), 'entry found under an id', s)
            ctx.add('lookups')
    return rule


prover_lookups = reads(PT_, [('get_mat_poly', ('materialized_polys',)), ('get_virt_poly', ('virtual_polys',))])
verifier_lookups = reads(VT_, [('get_mat_comm', ('materialized_comms',)), ('get_prover_comm', ('proof', 'comms')), ('get_prover_claimed_sum', ('proof', 'sumcheck_claims'))])


def takes_proof(ctx):
    fn = VT_ + 'set_compiled_proof'
    ctx.saw(fn)
    s = K.summ(ctx.prog(), fn)
    post = s.post(0)
    settle(ctx, fn, fld(post, 'proof'), A1, ctx.span(fn), 'proof to be verified', s)
    for m in VKEEP:
        if m != 'proof':
            settle(ctx, '%s/keeps %s' % (fn, m), fld(post, m), fld(A0, m), ctx.span(fn), 'must not change', s)
    ctx.add('operation cases')


def newid(k):
    return adt(iop.ID, '', ('0',), add(CNTR, num(k)))


def prover_tracks(ctx):
    prog = ctx.prog()
    fn = PT_ + 'track_mat_poly'
    ctx.saw(fn)
    s = K.summ(prog, fn)
    where = ctx.span(fn)
    with K.Facts():
        post = s.post(0)
        settle(ctx, fn + '/id', s.val, newid(0), where, 'result', s)
        settle(ctx, fn + '/counter', fld(post, 'id_counter'), add(CNTR, ONE), where, 'ids used up', s)
        settle(ctx, fn + '/entry', fld(post, 'materialized_polys'), minsert(fld(A0, 'materialized_polys'), newid(0), A1), where, 'entry', s)
        for m in UNTOUCHED + ('virtual_polys',):
            settle(ctx, '%s/keeps %s' % (fn, m), fld(post, m), fld(A0, m), where, 'must not change', s)
        settle(ctx, fn + '/silent', s.trace, NIL, where, 'must not touch the transcript', s)
    fn = PT_ + 'track_and_commit_mat_poly'
    ctx.saw(fn)
    s = K.summ(prog, fn)
    where = ctx.span(fn)
    with K.Facts():
        post = s.post(0)
        c = raw('call', 'PolynomialCommitmentScheme::commit', fld(A0, 'pcs_param'), A1)
        ok = okform(c)
        settle(ctx, fn + '/when', okform(s.val), ok, where, 'succeeds exactly when committing does', s)
        settle(ctx, fn + '/id', deep_restrict(vf(s.val, 'Ok', '0'), ok), newid(0), where, 'result', s)
        com = vf(c, 'Ok', '0')
        for m, w in (('id_counter', add(CNTR, ONE)), ('materialized_polys', minsert(fld(A0, 'materialized_polys'), newid(0), A1)),
                     ('materialized_comms', minsert(fld(A0, 'materialized_comms'), newid(0), com))):
            settle(ctx, '%s/%s' % (fn, m), deep_restrict(fld(post, m), ok), w, where, m, s)
        settle(ctx, fn + '/absorbs', deep_restrict(s.trace, ok), lst(raw('ev', 'absorb', S('comm'), com)), where, 'the commitment is absorbed into the transcript', s)
        for m in ('sum_check_claims', 'zero_check_claims', 'pcs_param', 'virtual_polys'):
            settle(ctx, '%s/keeps %s' % (fn, m), fld(post, m), fld(A0, m), where, 'must not change', s)
    ctx.add('operation cases', 2)


def commits_bound(ctx):
    """both sides absorb every commitment they take, before anything can be drawn on it"""
    prog = ctx.prog()
    fp, fv = PT_ + 'track_and_commit_mat_poly', VT_ + 'track_mat_comm'
    ctx.saw(fp, fv)
    s = K.summ(prog, fp)
    with K.Facts():
        c = raw('call', 'PolynomialCommitmentScheme::commit', fld(A0, 'pcs_param'), A1)
        settle(ctx, 'commitments/prover absorbs', deep_restrict(s.trace, okform(c)), lst(raw('ev', 'absorb', S('comm'), vf(c, 'Ok', '0'))), ctx.span(fp), 'a new commitment is absorbed', s)
    s = vsumm(prog, fv, ())
    with VFacts(()):
        settle(ctx, 'commitments/verifier absorbs', s.trace, lst(raw('ev', 'absorb', S('comm'), A1)), ctx.span(fv), 'a commitment taken over is absorbed', s)
    ctx.add('transcript comparisons')


def claims(ctx):
    """claims are appended, ids are handed out in sequence, on both sides"""
    prog = ctx.prog()
    for T_ in (PT_, VT_):
        for op, f, want in (('add_sumcheck_claim', 'sum_check_claims', lambda: ('TrackerSumcheckClaim', ('label', 'claimed_sum'), (A1, A2))),
                            ('add_zerocheck_claim', 'zero_check_claims', lambda: ('TrackerZerocheckClaim', ('label',), (A1,)))):
            fn = T_ + op
            ctx.saw(fn)
            s = K.summ(prog, fn)
            post = fld(s.post(0), f)
            path, names, vals = want()
            ok = post.op == 'cat' and len(post.a) == 2 and post.a[0] is fld(A0, f) and post.a[1].op == 'list' and len(post.a[1].a) == 1
            if ok:
                x = post.a[1].a[0]
                ok = all(fld(x, n) is v for n, v in zip(names, vals))
            ctx.ob(fn, ok, ctx.span(fn), 'the claim (polynomial id, claimed sum) is not appended: %s' % show(post)[:300])
            o = 'zero_check_claims' if f == 'sum_check_claims' else 'sum_check_claims'
            for m in (o, 'id_counter'):
                settle(ctx, '%s/keeps %s' % (fn, m), fld(s.post(0), m), fld(A0, m), ctx.span(fn), 'must not change', s)
            ctx.add('operation cases')
        fn = T_ + 'gen_id'
        ctx.saw(fn)
        s = K.summ(prog, fn)
        settle(ctx, fn, s.val, newid(0), ctx.span(fn), 'fresh id', s)
        settle(ctx, fn + '/counter', fld(s.post(0), 'id_counter'), add(CNTR, ONE), ctx.span(fn), 'counter', s)
        fn = T_ + 'get_next_id'
        ctx.saw(fn)
        s = K.summ(prog, fn)
        settle(ctx, fn, s.val, newid(0), ctx.span(fn), 'next id', s)
        if s.cells:
            settle(ctx, fn + '/counter', fld(s.post(0), 'id_counter'), CNTR, ctx.span(fn), 'counter', s)
        ctx.add('operation cases', 2)


# ------------------------------------------------------------------ handles
SIDE_OPS = {
    'ProverTracker': ['new', 'track_mat_poly', 'track_and_commit_mat_poly', 'get_mat_poly', 'get_virt_poly', 'get_and_append_challenge',
                      'append_serializable_element', 'add_sumcheck_claim', 'add_zerocheck_claim', 'get_next_id', 'compile_proof', 'add_polys',
                      'sub_polys', 'mul_polys', 'add_scalar', 'mul_scalar', 'increase_nv_front', 'increase_nv_back', 'evaluate', 'evaluations',
                      'to_arithmatic_virtual_poly', 'get_poly_nv'],
    'VerifierTracker': ['new', 'track_mat_comm', 'track_virtual_comm', 'get_next_id', 'set_compiled_proof', 'get_mat_comm', 'get_and_append_challenge',
                        'append_serializable_element', 'add_sumcheck_claim', 'add_zerocheck_claim', 'get_prover_claimed_sum',
                        'transfer_proof_poly_evals', 'verify_claims', 'add_comms', 'sub_comms', 'mul_comms', 'add_scalar', 'mul_scalar',
                        'increase_nv_front', 'increase_nv_back', 'eval_virtual_comm'],
}


def rec(name):
    def h(I, st, a, fn):
        args = [I.norm(st, I.deref(st, x)) for x in a]
        I.emit(st, 'op', S(name), *args)
        return st, raw('res', S(name), *args)
    return h


def rec_addsub(I, st, a, fn):
    d = form(I.norm(st, I.deref(st, a[3])))
    if d not in (TRUE, FALSE):
        return None
    return rec(PT_ + ('sub_polys' if d is TRUE else 'add_polys'))(I, st, a[:3], fn)


OPHOOKS = {'%s::%s' % (t, o): rec('%s::%s' % (t, o)) for t, os in SIDE_OPS.items() for o in os}
OPHOOKS[PT_ + 'add_sub_polys'] = rec_addsub


def osumm(prog, fn):
    return run.summarize(prog, fn, hooks=OPHOOKS, setup=lambda I, st: st.mem.__setitem__(K.TRC, NIL))


def strct(s, **k):
    """does the struct value s have these fields?"""
    return all(fld(s, n) is v for n, v in k.items())


TRK = fld(A0, 'tracker')
TRC_ = fld(A0, 'tracker_rc')


def content(t):
    return raw('content', t)


def handles(ctx):
    prog = ctx.prog()

    def forward(fn, op, args, result, panics=FALSE, wrap='plain', emits=True):
        """fn calls op(args) on the tracker exactly once and returns result(res)"""
        ctx.saw(fn)
        ctx.add('handle operations')
        s = osumm(prog, fn)
        where = ctx.span(fn)
        tr = content(TRC_ if 'Ref::' in fn else TRK)
        r = raw('res', S(op), tr, *args)
        settle(ctx, fn + '/forwards', s.trace, lst(raw('ev', 'op', S(op), tr, *args)), where, 'operation performed on the tracker', s)
        p = FALSE
        for w, k, c, _ in s.panics:
            p = Or(p, c)
        want = panics(r) if callable(panics) else panics
        if logic.same(p, want):
            ctx.ob(fn + '/refuses', True)
        else:
            settle(ctx, fn + '/refuses', p, want, where, 'operands refused', s)
        v = s.val
        if v is None:
            ctx.fail(fn + '/result', where, 'never returns')
            return
        if wrap == 'result':
            settle(ctx, fn + '/fails', okform(v), okform(r), where, 'fails exactly when the tracker does', s)
            v = deep_restrict(vf(v, 'Ok', '0'), okform(r))
            r = vf(r, 'Ok', '0')
        elif wrap == 'option':
            r = vf(r, 'Some', '0')
        want = result(r)
        if isinstance(want, dict):
            for n, w in want.items():
                settle(ctx, '%s/result %s' % (fn, n), fld(v, n), w, where, 'field %s of the result' % n, s)
        elif want is not None:
            settle(ctx, fn + '/result', v, want, where, 'result', s)

    I1, I0 = fld(A1, 'id'), fld(A0, 'id')
    diff = Not(eq(fld(A0, 'tracker'), fld(A1, 'tracker')))
    size = Not(eq(fld(A0, 'num_vars'), fld(A1, 'num_vars')))
    for o, t in (('add_poly', 'add_polys'), ('sub_poly', 'sub_polys'), ('mul_poly', 'mul_polys')):
        forward('TrackedPoly::' + o, PT_ + t, [I0, I1], lambda r: dict(id=r, num_vars=fld(A0, 'num_vars'), tracker=TRK), Or(diff, size))
    for o in ('add_comms', 'sub_comms', 'mul_comms'):
        forward('TrackedComm::' + o, VT_ + o, [I0, I1], lambda r: dict(id=r, tracker=TRK), diff)
    for o in ('add_scalar', 'mul_scalar', 'increase_nv_front', 'increase_nv_back'):
        nv = add(fld(A0, 'num_vars'), A1) if 'nv' in o else fld(A0, 'num_vars')
        forward('TrackedPoly::' + o, PT_ + o, [I0, A1], lambda r: dict(id=r, num_vars=nv, tracker=TRK))
        forward('TrackedComm::' + o, VT_ + o, [I0, A1], lambda r: dict(id=r, tracker=TRK))
    forward('TrackedPoly::evaluate', PT_ + 'evaluate', [I0, A1], lambda r: r)
    for o in ('evaluations', 'to_arithmatic_virtual_poly'):
        forward('TrackedPoly::' + o, PT_ + o, [I0], lambda r: r)
    forward('TrackedComm::eval_virtual_comm', VT_ + 'eval_virtual_comm', [I0, A1], lambda r: r, wrap='result')
    # tracker references
    R, V = 'ProverTrackerRef::', 'VerifierTrackerRef::'
    forward(R + 'track_mat_poly', PT_ + 'track_mat_poly', [A1], lambda r: dict(id=r, num_vars=fld(A1, 'num_vars'), tracker=TRC_))
    forward(R + 'track_and_commit_poly', PT_ + 'track_and_commit_mat_poly', [A1], lambda r: dict(id=r, num_vars=fld(A1, 'num_vars'), tracker=TRC_), wrap='result')
    forward(V + 'track_mat_comm', VT_ + 'track_mat_comm', [A1], lambda r: dict(id=r, tracker=TRC_), wrap='result')
    forward(V + 'track_virtual_comm', VT_ + 'track_virtual_comm', [A1], lambda r: dict(id=r, tracker=TRC_))
    missing = lambda r: Not(is_var(r, 'core::option::Option', 'Some'))
    for o in ('get_mat_poly', 'get_virt_poly'):
        forward(R + o, PT_ + o, [A1], lambda r: r, missing, wrap='option')
    for o in ('get_mat_comm', 'get_prover_claimed_sum'):
        forward(V + o, VT_ + o, [A1], lambda r: r, missing, wrap='option')
    for T_, t in ((R, PT_), (V, VT_)):
        forward(T_ + 'get_and_append_challenge', t + 'get_and_append_challenge', [A1], lambda r: r, wrap='result')
        forward(T_ + 'append_serializable_element', t + 'append_serializable_element', [A1, A2], lambda r: r, wrap='result')
        forward(T_ + 'add_sumcheck_claim', t + 'add_sumcheck_claim', [A1, A2], lambda r: None)
        forward(T_ + 'add_zerocheck_claim', t + 'add_zerocheck_claim', [A1], lambda r: None)
        forward(T_ + 'get_next_id', t + 'get_next_id', [], lambda r: r)
    forward(R + 'compile_proof', PT_ + 'compile_proof', [], lambda r: r, wrap='result')
    forward(V + 'verify_claims', VT_ + 'verify_claims', [], lambda r: None, wrap='result')
    forward(V + 'set_compiled_proof', VT_ + 'set_compiled_proof', [A1], lambda r: None)
    forward(V + 'transfer_proof_poly_evals', VT_ + 'transfer_proof_poly_evals', [], lambda r: None)
    fn = V + 'transfer_prover_comm'
    com = mval(fld(fld(content(TRC_), 'proof'), 'comms'), A1)
    has = mhas(fld(fld(content(TRC_), 'proof'), 'comms'), A1)
    ctx.saw(fn)
    s = osumm(prog, fn)
    r = raw('res', S(VT_ + 'track_mat_comm'), content(TRC_), com)
    settle(ctx, fn + '/takes over', deep_restrict(s.trace, And(has, okform(r))), lst(raw('ev', 'op', S(VT_ + 'track_mat_comm'), content(TRC_), com)), ctx.span(fn),
           'the commitment the prover sent under this id is tracked', s)
    if s.val is not None:
        for n, w in (('id', vf(r, 'Ok', '0')), ('tracker', TRC_)):
            settle(ctx, '%s/result %s' % (fn, n), deep_restrict(fld(s.val, n), And(has, okform(r))), w, ctx.span(fn), 'field %s of the result' % n, s)
    ctx.add('handle operations')
    # equality, construction, size
    for t, fs in (('TrackedPoly', ('id', 'tracker')), ('TrackedComm', ('id', 'tracker')), ('ProverTrackerRef', ('tracker_rc',)), ('VerifierTrackerRef', ('tracker_rc',))):
        fn = t + '@PartialEq::eq'
        ctx.saw(fn)
        s = osumm(prog, fn)
        want = And(*[eq(fld(A0, f), fld(A1, f)) for f in fs])
        settle(ctx, fn, form(s.val), want, ctx.span(fn), 'equality', s)
        ctx.add('handle operations')
    for fn, fs in (('TrackedPoly::new', ('id', 'num_vars', 'tracker')), ('TrackedComm::new', ('id', 'tracker')), ('Bag::new', ('poly', 'selector')),
                   ('BagComm::new', ('poly', 'selector', 'num_vars')), ('Table::new', ('col_vals', 'selector')), ('TableComm::new', ('col_vals', 'selector', 'num_vars'))):
        ctx.saw(fn)
        s = osumm(prog, fn)
        for i, f in enumerate(fs):
            settle(ctx, '%s/%s' % (fn, f), fld(s.val, f), sym('a%d' % i), ctx.span(fn), 'field %s' % f, s)
        ctx.add('handle operations')
    for fn, w in (('Bag::tracker_ref', [fld(fld(A0, 'poly'), 'tracker'), fld(fld(A0, 'selector'), 'tracker')]), ('Table::tracker_ref', [fld(fld(A0, 'selector'), 'tracker')])):
        if prog.fn(fn) is not None:
            ctx.saw(fn)
            s = osumm(prog, fn)
            ctx.ob(fn, fld(s.val, 'tracker_rc') in w, ctx.span(fn), 'tracker: %s' % show(s.val)[:200])
            ctx.add('handle operations')
    for fn, w in (('TrackedPoly::same_tracker', eq(fld(A0, 'tracker'), fld(A1, 'tracker'))),):
        ctx.saw(fn)
        s = osumm(prog, fn)
        settle(ctx, fn, form(s.val), w, ctx.span(fn), 'same tracker', s)
        ctx.add('handle operations')
    for fn, w in (('TrackedPoly::num_vars', [fld(A0, 'num_vars')]), ('Bag::num_vars', [fld(fld(A0, 'poly'), 'num_vars'), fld(fld(A0, 'selector'), 'num_vars')]),
                  ('BagComm::num_vars', [fld(A0, 'num_vars')]), ('Table::num_vars', [fld(fld(A0, 'selector'), 'num_vars')]), ('TableComm::num_vars', [fld(A0, 'num_vars')])):
        ctx.saw(fn)
        s = osumm(prog, fn)
        ctx.ob(fn, s.val in w, ctx.span(fn), 'size: %s' % show(s.val)[:200])
        ctx.add('handle operations')


# ------------------------------------------------------------------ numbering
PAIRS = [('track_and_commit_mat_poly', 'track_mat_comm'), ('track_mat_poly', 'track_virtual_comm'), ('add_polys', 'add_comms'), ('sub_polys', 'sub_comms'),
         ('mul_polys', 'mul_comms'), ('add_scalar', 'add_scalar'), ('mul_scalar', 'mul_scalar'), ('increase_nv_front', 'increase_nv_front'),
         ('increase_nv_back', 'increase_nv_back'), ('gen_id', 'gen_id'), ('get_next_id', 'get_next_id'),
         ('add_sumcheck_claim', 'add_sumcheck_claim'), ('add_zerocheck_claim', 'add_zerocheck_claim'),
         ('get_and_append_challenge', 'get_and_append_challenge'), ('append_serializable_element', 'append_serializable_element')]


def numbering(ctx):
    prog = ctx.prog()
    for p, v in PAIRS:
        fp, fv = PT_ + p, VT_ + v
        ctx.saw(fp, fv)
        ctx.add('paired operations')
        where = '%s and %s' % (ctx.span(fp), ctx.span(fv))
        cases = scenarios(2 if p.endswith('polys') else 1) if p not in ('track_and_commit_mat_poly', 'track_mat_poly', 'gen_id', 'get_next_id', 'add_sumcheck_claim', 'add_zerocheck_claim', 'get_and_append_challenge', 'append_serializable_element') else [({}, 'any')]
        sv = vsumm(prog, fv, (A1, A2))
        for sc, what in cases:
            sp = K.summ(prog, fp, scen=sc)
            for s in (sp, sv):
                if s.val is None:
                    ctx.fail('%s/%s' % (p, what), where, 'never returns')
            with K.Facts(sc):
                cp, cv = counter(sp), counter(sv)
                settle(ctx, '%s/%s/ids used' % (p, what), cp, cv, where, 'ids used up by prover and verifier', sp)
                ip, iv = result_id(sp), result_id(sv)
                if ip is not None or iv is not None:
                    settle(ctx, '%s/%s/result id' % (p, what), ip or NIL, iv or NIL, where, 'id given to the result by prover and verifier', sp)
    s, t = K.summ(prog, PT_ + 'new'), K.summ(prog, VT_ + 'new')
    settle(ctx, 'new/counter', fld(s.val, 'id_counter'), fld(t.val, 'id_counter'), ctx.span(PT_ + 'new'), 'first id', s)
    settle(ctx, 'new/transcript', fld(s.val, 'transcript'), fld(t.val, 'transcript'), ctx.span(PT_ + 'new'), 'initial transcript', s)
    ctx.saw(PT_ + 'new', VT_ + 'new')


def succeeded(s):
    v = s.val
    c = okform(v)
    return c if c not in (FALSE,) else TRUE


def counter(s):
    if not s.cells:
        return CNTR
    return deep_restrict(fld(s.post(0), 'id_counter'), succeeded(s))


def result_id(s):
    v = s.val
    c = succeeded(s)
    if v.op == 'ite' or (v.op == 'adt' and v.a[1] in ('Ok', 'Err')):
        v = deep_restrict(vf(v, 'Ok', '0'), c)
    if v.op == 'adt' and v.a[0] == iop.ID:
        return v
    return None
