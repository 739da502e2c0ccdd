"""Prover side: what it claims is what it committed to."""
from terms import *
import iop
import lock


def events(t):
    out = []
    for p in lock.parts(t):
        if p.op == 'ev':
            out.append(p)
        else:
            return None
    return out


def commits(evs):
    return {raw('com', e.a[1]): (e.a[3], e.a[4]) for e in evs if e.a[0] == 'commit'}


def value(e, i, com):
    """value of expression e at hypercube point i with the committed evaluations filled in"""
    memo = {}

    def f(x):
        if x.op == 'pv' and x.a[0] in com:
            return iop.at(com[x.a[0]][1], x.a[1])
        return x
    t = iop.pv(e, i)
    for _ in range(6):
        u = lock.mapt(t, f)
        if u is t:
            return t
        t = u
    return t


def vanishes(t, depth=0):
    """t is identically zero, given that the inverted values are not zero"""
    d = as_poly(t)
    if d is not None and not d:
        return True
    if t.op == 'ite':
        return vanishes(t.a[1], depth) and vanishes(t.a[2], depth)
    if d is None or depth > 6:
        return False
    l = _lift(t, lambda x: x)
    if l is not None and l.op == 'ite' and l is not t:
        return vanishes(l, depth + 1)
    for m in d:
        for j in range(0, len(m.a), 2):
            v = m.a[j]
            if v.op == 'inv' and m.a[j + 1] == 1:
                A, B = ZERO, ZERO
                for m2, c in d.items():
                    ps = [(m2.a[k], m2.a[k + 1]) for k in range(0, len(m2.a), 2)]
                    if (v, 1) in ps:
                        x = num(c)
                        for b, k in ps:
                            if b is not v:
                                x = mul(x, power(b, num(k)))
                        A = add(A, x)
                    elif any(b is v for b, _ in ps):
                        return False
                    else:
                        B = add(B, from_poly({m2: c}))
                return vanishes(add(A, mul(B, v.a[0])), depth + 1)
    return False


from terms import _lift


def same_size(t, nv):
    """polynomials that are multiplied together have the same number of variables"""
    def f(x):
        if x.op == 'min':
            w, leaves = [x], []
            while w:
                y = w.pop()
                if y.op == 'min':
                    w += y.a
                else:
                    leaves.append(y)
            if all(y.op == 'pow2' and y.a[0].op in ('fld', 'nvof') for y in leaves):
                return pow2(nv)
        return x
    return lock.mapt(t, f)


def decide(ctx, P):
    """record an obligation, or nothing if it fails next to a library function without a model"""
    def ob(key, ok, where, detail):
        u = [] if ok else lock.unmodelled(P)
        if u:
            ctx.skip(key, 'not modelled: ' + ', '.join(u))
        else:
            ctx.ob(key, ok, where, detail)
    return ob


def check(ctx, fn, P, nsum, nzero):
    """every claim of the straight-line prover P follows from what it committed to"""
    ob = decide(ctx, P)
    c = P.ok
    tr = lock.ident(lock.samelen(deep_restrict(P.trace, c), lock.lenfacts(c)))
    evs = events(tr)
    if evs is None:
        ctx.skip(fn, 'events are sent in a loop')
        return
    com = commits(evs)
    ns = nz = 0
    i = fresh('h')
    for e in evs:
        if e.a[0] == 'sum':
            ns += 1
            nv = None
            for t in com:
                if iop.has(e.a[2], t):
                    nv = com[t][0]
            v = lock.ident(lock.mapt(e.a[3], lambda x: x))
            want = lock.ident(mksum(pow2(nv), i, value(e.a[2], i, com))) if nv is not None else None
            got = v
            for _ in range(6):
                u = lock.mapt(got, lambda x: iop.at(com[x.a[0]][1], x.a[1]) if x.op == 'pv' and x.a[0] in com else x)
                if u is got:
                    break
                got = u
            want = lock.mapt(want, lambda x: x)
            got = same_size(got, nv)
            ob('%s/claimed sum %d' % (fn, ns), lock.ident(got) is lock.ident(want), ctx.span(fn),
                   'claimed %s but the claim is about %s' % (show(got)[:300], show(want)[:300]))
        elif e.a[0] == 'zero':
            nz += 1
            t = value(e.a[1], i, com)
            ob('%s/zero claim %d' % (fn, nz), vanishes(t), ctx.span(fn),
                   'claimed to vanish on the hypercube, is %s' % show(t)[:500])
    ctx.ob('%s/claims' % fn, ns >= nsum and nz >= nzero, ctx.span(fn), 'found %d sum and %d zero claims, expected %d and %d' % (ns, nz, nsum, nzero))
    ctx.add('sum claims', ns)
    ctx.add('zero claims', nz)


def check_shift(ctx, fn, P):
    """first commitment q of the sort protocol: (i, p(i)) and (perm(i), q(i)) are the same multiset"""
    ob = decide(ctx, P)
    tr = lock.ident(lock.samelen(deep_restrict(P.trace, P.ok), lock.lenfacts(P.ok)))
    evs = [e for p in lock.parts(tr) if p.op == 'ev' for e in [p]]
    com = commits(evs)
    q = raw('com', ZERO)
    if q not in com:
        ctx.fail('%s/shift' % fn, ctx.span(fn), 'nothing is committed')
        return
    p = raw('fld', raw('sym', 'a1'), 'poly')
    i = fresh('h')
    n = pow2(com[q][0])
    ev = iop.pointwise(com[q][1])
    pe = fld(fld(p, 'id'), 'e')
    body = iop.at(ev, i)
    last = eq0(sub(i, sub(n, ONE)))
    want = ite(last, iop.pv(pe, ZERO), iop.pv(pe, add(i, ONE)))
    a, b = [lock.ident(lock.bounded(mkseq(n, i, x))) for x in (body, want)]
    ob('%s/shift' % fn, a is b, ctx.span(fn), 'committed column is %s, the permutation polynomial says %s' % (show(a)[:300], show(b)[:300]))
    ctx.add('shift')
