"""Feasibility of conjunctions of linear integer literals, and comparison of conditions."""
from terms import *
import terms

NONNEG = {'len', 'max', 'min', 'pow2'}
SIZES = ('num_vars', 'num_variables', 'max_degree', 'round', 'id_counter')


def natural(m):
    """is the monomial a product of quantities that are never negative?"""
    for i in range(0, len(m.a), 2):
        x = m.a[i]
        if x.op in NONNEG or (x.op == 'fld' and x.a[1] in SIZES) or (x.op == 'sym' and str(x.a[0]).startswith(('$', 'j'))) or x.op == 'bv':
            continue
        if x.op == 'sym' and x.a[0] in ('nv', 'NV'):
            continue
        return False
    return True


def paths(f, lim=4000):
    """the conjunctions of literals of a diagram; None if there are too many"""
    out = []
    todo = [(f, ())]
    while todo:
        t, c = todo.pop()
        t = form(t)
        if t is TRUE:
            out.append(c)
        elif t.op == 'ite':
            todo.append((t.a[1], c + ((t.a[0], True),)))
            todo.append((t.a[2], c + ((t.a[0], False),)))
        if len(out) + len(todo) > lim:
            return None
    return out


def feasible(lits_):
    eqs, ges, nes = [], [], []
    for a, v in lits_:
        if a.op == 'eq0':
            (eqs if v else nes).append(as_poly(a.a[0]))
        elif a.op == 'pos':
            p = as_poly(a.a[0])
            # p > 0  is  p - 1 >= 0;  not (p > 0)  is  -p >= 0
            ges.append(as_poly(sub(from_poly(p), ONE)) if v else as_poly(neg(from_poly(p))))
        elif a.op == 'exists' and v:
            pass
    eqs = [dict(e) for e in eqs]
    ges = [dict(g) for g in ges]
    nes = [dict(n) for n in nes]
    one = next(iter(as_poly(ONE)))
    done = []
    while eqs:
        e = eqs.pop()
        e = {m: c for m, c in e.items() if c}
        if not e:
            continue
        if set(e) == {one}:
            return False
        piv = next((m for m in e if m is not one and abs(e[m]) == 1), None)
        if piv is None:
            done.append(e)
            continue
        s = -e[piv]
        rest = {m: c * s for m, c in e.items() if m is not piv}   # piv = rest

        def put(p):
            k = p.pop(piv, 0)
            if k:
                for m, c in rest.items():
                    p[m] = p.get(m, 0) + k * c
            return {m: c for m, c in p.items() if c}
        eqs = [put(dict(p)) for p in eqs]
        ges = [put(dict(p)) for p in ges]
        nes = [put(dict(p)) for p in nes]
        if natural(piv):
            ges.append(dict(rest))
    for n in nes:
        if not n:
            return False
    ms = {m for g in ges for m in g if m is not one}
    for m in ms:
        if natural(m):
            ges.append({m: 1})
    return not _fm(ges, one)


def _fm(ges, one):
    """do the constraints (>= 0) have no rational solution?"""
    cur = {tuple(sorted(((m.id, m, c) for m, c in g.items()), key=lambda z: z[0])) for g in ges}
    while True:
        ms = {m for g in cur for _, m, _ in g if m is not one}
        for g in cur:
            if all(m is one for _, m, _ in g) and sum(c for _, _, c in g) < 0:
                return True
        if not ms:
            return False
        m = min(ms, key=lambda z: sum(1 for g in cur for _, x, _ in g if x is z))
        up, dn, rest = [], [], set()
        for g in cur:
            c = next((c for _, x, c in g if x is m), 0)
            if c > 0:
                up.append((c, g))
            elif c < 0:
                dn.append((-c, g))
            else:
                rest.add(g)
        if len(up) * len(dn) + len(rest) > 400:
            return False
        for c1, g1 in up:
            for c2, g2 in dn:
                d = {}
                for _, x, c in g1:
                    d[x] = d.get(x, 0) + c * c2
                for _, x, c in g2:
                    d[x] = d.get(x, 0) + c * c1
                rest.add(tuple(sorted(((x.id, x, c) for x, c in d.items() if c), key=lambda z: z[0])))
        cur = rest


def possible(f):
    """False only if no assignment of lengths and values satisfies f"""
    ps = paths(f)
    if ps is None:
        return True
    return any(feasible(p) for p in ps)


def implied(a, b):
    """a implies b"""
    return not possible(And(a, Not(b)))


def universals(f):
    """f as a conjunction of plain literals and statements for all i < n: (plain, [(n, binder, condition)]) or None"""
    p, n = lits(f)
    if And(*[form(x) for x in p], *[Not(form(x)) for x in n]) is not form(f):
        return None
    plain, uni = TRUE, []
    for x in p:
        plain = And(plain, form(x))
    for x in n:
        if x.op == 'exists':
            uni.append((x.a[1], x.a[0], Not(x.a[2])))
        else:
            plain = And(plain, Not(form(x)))
    return plain, uni


def at(u, i):
    """what a universal statement says at position i"""
    n, k, c = u
    return Or(Not(pos(sub(n, i))), inst(c, k, i))


def entails(f, g):
    """does f (plain, universals) entail g?  Universals are instantiated at the first, last, same and neighbouring positions."""
    (pf, uf), (pg, ug) = f, g
    j = raw('sym', 'j')
    first = [at(u, ZERO) for u in uf]
    last = [Or(Not(pos(u[0])), inst(u[2], u[1], sub(u[0], ONE))) for u in uf]
    if possible(And(pf, *first, *last, Not(pg))):
        return False
    for n, k, c in ug:
        if possible(And(pf, pos(n), *first, Not(inst(c, k, ZERO)))):
            return False
        j1 = add(j, ONE)
        if possible(And(pf, pos(sub(n, j1)), *[at(u, j1) for u in uf], *[at(u, j) for u in uf], Not(inst(c, k, j1)))):
            return False
    return True


def same(f, g):
    """True / False / None (not comparable)"""
    if form(f) is form(g):
        return True
    a, b = universals(f), universals(g)
    if a is None or b is None:
        if implied(f, g) and implied(g, f):
            return True
        return None
    return entails(a, b) and entails(b, a)
