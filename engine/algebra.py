"""Exact rational identities between terms (integers, +, *, inv)."""
from fractions import Fraction
from terms import *


class Opaque(Exception):
    pass


# ---- univariate polynomials over Q: lists of coefficients
def padd(a, b):
    n = max(len(a), len(b))
    return ptrim([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def ptrim(a):
    while a and a[-1] == 0:
        a.pop()
    return a


def pmul(a, b):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return ptrim(r)


def ppow(a, n):
    r = [1]
    for _ in range(n):
        r = pmul(r, a)
    return r


def monomials(t):
    for m, c in as_poly(t).items():
        yield c, [(m.a[i], m.a[i + 1]) for i in range(0, len(m.a), 2)]


def poly1(t, var):
    """term -> polynomial in var; every other atom must be a constant"""
    r = []
    for c, fs in monomials(t):
        q, d = Fraction(c), 0
        for a, e in fs:
            if a is var:
                d += e
            elif a.op == 'inv':
                v = constant(a.a[0])
                if v == 0:
                    raise Opaque('division by zero')
                q = q / v ** e
            else:
                raise Opaque(show(a)[:80])
        r = padd(r, [0] * d + [q])
    return r


def constant(t):
    p = poly1(t, None)
    if len(p) > 1:
        raise Opaque(show(t)[:80])
    return p[0] if p else Fraction(0)


def rational(t, var, unit):
    """coefficient of the atom `unit` in t, as (numerator, denominator) in var; t must be linear in it"""
    groups = {}
    for c, fs in monomials(t):
        d, inv, u = 0, [], 0
        for a, e in fs:
            if a is var:
                d += e
            elif a is unit:
                u += e
            elif a.op == 'inv':
                inv.append((a, e))
            else:
                raise Opaque(show(a)[:80])
        if u != 1:
            raise Opaque('not linear')
        key = tuple(sorted(((a.id, e) for a, e in inv)))
        g = groups.setdefault(key, [[], inv])
        g[0] = padd(g[0], [0] * d + [Fraction(c)])
    N, D = [], [Fraction(1)]
    for n, inv in groups.values():
        den = [Fraction(1)]
        for a, e in inv:
            den = pmul(den, ppow(poly1(a.a[0], var), e))
        if not den:
            raise Opaque('division by zero')
        N = padd(pmul(N, den), pmul(n, D))
        D = pmul(D, den)
    return N, D


def buckets(t, atoms):
    """t = sum over the atoms of (part of t with that atom); the rest under None"""
    ids = {a.id for a in atoms}
    out = {}
    for m, c in as_poly(t).items():
        k = None
        for i in range(0, len(m.a), 2):
            if m.a[i].id in ids:
                k = m.a[i]
                break
        out.setdefault(k, {})[m] = c
    return {k: from_poly(d) for k, d in out.items()}


# ---- multivariate polynomials over Q, inverses of constants resolved
def qpoly(t, memo=None):
    out = {}
    t = settled(t)
    for c, fs in monomials(t):
        q, key = Fraction(c), []
        for a, e in fs:
            if a.op == 'inv':
                try:
                    v = constant(a.a[0])
                except Opaque:
                    key.append((a.id, e))
                    continue
                if v == 0:
                    raise Opaque('division by zero')
                q = q / v ** e
            else:
                key.append((a.id, e))
        key = tuple(sorted(key))
        out[key] = out.get(key, 0) + q
    return {k: v for k, v in out.items() if v}


def settled(t):
    """decide every `is this constant zero` inside t"""
    import lock

    def f(y):
        if y.op == 'ite' and y.a[0].op == 'eq0':
            try:
                v = constant(y.a[0].a[0])
            except Opaque:
                return y
            return y.a[2] if v else y.a[1]
        return y
    return lock.mapt(t, f)
