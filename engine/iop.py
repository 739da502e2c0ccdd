"""Protocol level: the trackers' own operations are symbolic, everything above them is inlined.

A tracker id is the pair (number, e): the number is the tracker's id counter when the id was made, `e` is a
ring term over the committed/tracked polynomials that denotes the polynomial the id stands for."""
from terms import *
import interp as IN
from interp import TRC
import mir

ID = 'zk_sql::tracker::tracker_structs::TrackerID'
CNT = raw('cell', 'IDS')
PT = raw('sym', 'evaluation-point')
DELTA = {'add_polys': 1, 'sub_polys': 1, 'mul_polys': 1, 'add_scalar': 2, 'mul_scalar': 1,
         'increase_nv_front': 1, 'increase_nv_back': 1}


def mkid(n, e):
    return adt(ID, '', ('0', 'e'), n, e)


def expr(I, st, idv):
    return fld(I.deref(st, idv), 'e')


def number(I, st, idv):
    return fld(I.deref(st, idv), '0')


def take(st, k=1):
    v = st.mem.get(CNT)
    st.mem[CNT] = add(v, num(k))
    return v


def nth(st, kind):
    c = raw('cell', 'ORD', kind)
    o = st.mem[c]
    st.mem[c] = add(o, ONE)
    return o


def newid(st, e, k=1):
    v = take(st, k)
    return mkid(add(v, num(k - 1)), e)


def has(t, op):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x is op or x.op == op:
            return True
        for y in x.a:
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                todo.extend(y)
    return False


IDENT = raw('ident')


def at(ev, i):
    """element i of an explicit list, by cases on the part it falls in"""
    if ev.op == 'cat':
        end = length(ev)
        pre = ZERO
        r = None
        cases = []
        for p in ev.a:
            for q in ([lst(x) for x in p.a] if p.op == 'list' else [p]):
                L = length(q)
                nxt = add(pre, L)
                c = eq0(sub(i, pre)) if L is ONE else lt(i, nxt)
                cases.append((c, at(q, sub(i, pre)) if L is not ONE else idx(q, ZERO)))
                pre = nxt
        # a single last element is selected by equality
        if len(cases) > 1 and cases[-1][0].op == 'ite' and ev.a[-1].op == 'list' and len(ev.a[-1].a) == 1:
            c, v = cases.pop()
            r = cases[-1][1]
            for cc, vv in reversed(cases[:-1]):
                r = ite(cc, vv, r)
            return ite(c, v, r)
        r = cases[-1][1]
        for cc, vv in reversed(cases[:-1]):
            r = ite(cc, vv, r)
        return r
    if ev.op == 'store':
        return ite(eq0(sub(i, ev.a[1])), ev.a[2], at(ev.a[0], i))
    return idx(ev, i)


def pointwise(ev):
    """one comprehension for lists written as concatenations / with overwritten elements"""
    if ev.op in ('cat', 'store'):
        i = fresh('p')
        return mkseq(length(ev), i, at(ev, i))
    return ev


def of_evals(ev):
    """the polynomial with these evaluations over the hypercube, canonically"""
    ev = pointwise(ev)
    if ev.op == 'seq':
        k, n, body = ev.a
        if not has_bv(body, k):
            return body
        if body is raw('bv', k):
            return IDENT
    return raw('mle', ev)


def of_closure(I, st, f):
    """the polynomial a virtual commitment's evaluation closure computes, canonically"""
    s2 = st.copy()
    s2.mem[raw('cell', 'PT')] = PT
    s2, v = I.call_value(s2, f, [IN.mkref(raw('cell', 'PT'))])
    if s2 is None:
        return raw('virt', S('panic'))
    v = I.norm(s2, v)
    ok = vf(v, 'Ok', '0')
    c = is_var(v, 'core::result::Result', 'Ok')
    if c is not TRUE:
        return raw('virt', v)
    return canon_closure(ok)


def ident_terms():
    i = fresh()
    n = length(PT)
    return mksum(n, i, mul(idx(PT, i), pow2(i)))


def canon_closure(v):
    m = {}
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'eval' and x.a[1] is PT and not has(x.a[0], PT):
            m[x] = of_evals(fld(x.a[0], 'evaluations'))
            continue
        for y in x.a:
            if isinstance(y, T):
                todo.append(y)
    if m:
        v = subst(v, m)
    v = subst(v, {ident_terms(): IDENT})
    if has(v, PT):
        return raw('virt', v)
    return v


# ------------------------------------------------------------------ prover
def p_track(I, st, a, fn):
    p = I.deref(st, a[1])
    p = I.norm(st, p)
    e = of_evals(fld(p, 'evaluations'))
    i = newid(st, e)
    return st, i


def p_commit(I, st, a, fn):
    p = I.norm(st, I.deref(st, a[1]))
    n = st.mem[CNT]
    o = nth(st, 'com')
    i = newid(st, raw('com', o))
    NV[raw('com', o)] = fld(p, 'num_vars')
    I.emit(st, 'commit', o, n, fld(p, 'num_vars'), fld(p, 'evaluations'))
    return st, Ok(i)


def bin_(f, k):
    def h(I, st, a, fn):
        x, y = expr(I, st, a[1]), expr(I, st, a[2])
        return st, newid(st, f(x, y), DELTA[k])
    return h


def scal(f, k):
    def h(I, st, a, fn):
        x = expr(I, st, a[1])
        c = I.norm(st, I.deref(st, a[2]))
        return st, newid(st, f(x, c), DELTA[k])
    return h


def shiftnv(kind):
    def h(I, st, a, fn):
        x = expr(I, st, a[1])
        n = I.deref(st, a[2])
        return st, newid(st, nvshift(kind, x, n), DELTA['increase_nv_' + kind])
    return h


def nvshift(kind, x, n):
    if n is ZERO:
        return x
    return raw('nv_' + kind, x, n)


def p_evals(I, st, a, fn):
    x = expr(I, st, a[1])
    nv = NVOF(x)
    i = fresh()
    return st, I_ref(I, st, mkseq(pow2(nv), i, pv(x, i)))


NV = {}


def NVOF(x):
    if x in NV:
        return NV[x]
    if x.op == 'fld' and x.a[1] == 'e' and x.a[0].op == 'fld' and x.a[0].a[1] == 'id':
        return fld(x.a[0].a[0], 'num_vars')
    return raw('nvof', x)


def pvat(t, i):
    if i.op == 'ite':
        return ite(raw('ite', i.a[0], TRUE, FALSE), pvat(t, i.a[1]), pvat(t, i.a[2]))
    return raw('pv', t, i)


MK['pv'] = pvat


def pv(x, i):
    """value of the polynomial x at hypercube point i"""
    def leaf(t):
        if t.op in ('chal', 'scalar', 'inv', 'pow2', 'claimed', 'sym'):
            return t
        if t.op == 'ident':
            return i
        if t.op == 'mle':
            return idx(t.a[0], i)
        return pvat(t, i)
    d = as_poly(x)
    if d is None:
        return leaf(x)
    r = ZERO
    for mono, c in d.items():
        p = num(1)
        for j in range(0, len(mono.a), 2):
            p = mul(p, power(leaf(mono.a[j]), num(mono.a[j + 1])))
        r = add(r, scale(p, c))
    return r


def I_ref(I, st, v):
    c = raw('cell', 'T', I.fid_next())
    st.mem[c] = v
    return IN.mkref(c)


def chal(I, st, a, fn):
    l = I.deref(st, a[1])
    o = nth(st, 'chal')
    I.emit(st, 'challenge', l, o)
    return st, Ok(raw('chal', l, o))


def absorb(I, st, a, fn):
    I.emit(st, 'absorb', I.deref(st, a[1]), I.norm(st, I.deref(st, a[2])))
    return st, Ok(UNIT)


def sumclaim(I, st, a, fn):
    i = I.deref(st, a[1])
    I.emit(st, 'sum', fld(i, '0'), fld(i, 'e'), I.norm(st, I.deref(st, a[2])))
    return st, UNIT


def zeroclaim(I, st, a, fn):
    i = I.deref(st, a[1])
    I.emit(st, 'zero', fld(i, 'e'))
    return st, UNIT


def nextid(I, st, a, fn):
    n = st.mem[CNT]
    return st, mkid(n, raw('next', n))


# ------------------------------------------------------------------ verifier
def v_track(I, st, a, fn):
    cm = I.norm(st, I.deref(st, a[1]))
    n = st.mem[CNT]
    src = cm
    # a commitment taken from the proof under id k
    k = raw('other', cm)
    if cm.op == 'mval' and cm.a[0].op == 'fld' and cm.a[0].a[1] == 'comms':
        k = fld(cm.a[1], '0')
    o = nth(st, 'com')
    I.emit(st, 'transfer', o, n, k)
    i = newid(st, raw('com', o))
    return st, Ok(i)


def v_virtual(I, st, a, fn):
    e = of_closure(I, st, a[1])
    return st, newid(st, e)


def v_claimed(I, st, a, fn):
    i = I.deref(st, a[1])
    return st, Some(raw('claimed', fld(i, '0'), fld(i, 'e')))


def v_eval(I, st, a, fn):
    return st, Ok(raw('eval', expr(I, st, a[1]), I.norm(st, I.deref(st, a[2]))))


def same(I, st, a, fn):
    return st, TRUE


P = 'ProverTracker::'
V = 'VerifierTracker::'
HOOKS = {
    P + 'track_mat_poly': p_track, P + 'track_mat_arc_poly': p_track, P + 'track_and_commit_mat_poly': p_commit,
    P + 'add_polys': bin_(add, 'add_polys'), P + 'sub_polys': bin_(sub, 'sub_polys'), P + 'mul_polys': bin_(mul, 'mul_polys'),
    P + 'add_scalar': scal(add, 'add_scalar'), P + 'mul_scalar': scal(mul, 'mul_scalar'),
    P + 'increase_nv_front': shiftnv('front'), P + 'increase_nv_back': shiftnv('back'),
    P + 'evaluations': p_evals, P + 'get_and_append_challenge': chal, P + 'append_serializable_element': absorb,
    P + 'add_sumcheck_claim': sumclaim, P + 'add_zerocheck_claim': zeroclaim, P + 'get_next_id': nextid,
    V + 'track_mat_comm': v_track, V + 'track_virtual_comm': v_virtual,
    V + 'add_comms': bin_(add, 'add_polys'), V + 'sub_comms': bin_(sub, 'sub_polys'), V + 'mul_comms': bin_(mul, 'mul_polys'),
    V + 'add_scalar': scal(add, 'add_scalar'), V + 'mul_scalar': scal(mul, 'mul_scalar'),
    V + 'increase_nv_front': shiftnv('front'), V + 'increase_nv_back': shiftnv('back'),
    V + 'get_and_append_challenge': chal, V + 'append_serializable_element': absorb,
    V + 'add_sumcheck_claim': sumclaim, V + 'add_zerocheck_claim': zeroclaim, V + 'get_next_id': nextid,
    'TrackedPoly::same_tracker': same, 'TrackedComm::same_tracker': same,
    V + 'get_prover_claimed_sum': v_claimed, V + 'eval_virtual_comm': v_eval,
}


def SETUP(I, st):
    NV.clear()
    st.mem[CNT] = raw('sym', 'id0')
    st.mem[raw('cell', 'ORD', 'chal')] = ZERO
    st.mem[raw('cell', 'ORD', 'com')] = ZERO
    st.mem[TRC] = NIL
