"""Rules over multilinear polynomials and virtual polynomials (fixed shapes, symbolic values)."""
from terms import *
import tracker as K
import logic
import algebra
import final
from sums import condition, nopanic, same_, private, FLAWS
from krules import settle, okform, A0, A1, A2

MLE = 'ark_poly::DenseMultilinearExtension'


def mle(nv, es):
    return adt(MLE, '', ('evaluations', 'num_vars'), lst(*es), num(nv))


def syms(p, n):
    return [sym('%s%d' % (p, i)) for i in range(n)]


def lerp(a, b, x):
    return add(a, mul(x, sub(b, a)))


def fix_first(t, rs):
    for r in rs:
        t = [lerp(t[2 * b], t[2 * b + 1], r) for b in range(len(t) // 2)]
    return t


def fix_last(t, rs):
    for r in reversed(rs):
        h = len(t) // 2
        t = [lerp(t[b], t[b + h], r) for b in range(h)]
    return t


def eqw(r, b):
    w = ONE
    for j, x in enumerate(r):
        w = mul(w, x if b >> j & 1 else sub(ONE, x))
    return w


def compare(ctx, key, where, s, got, want, what):
    """got is a list of length len(want) whose entries are those polynomials"""
    n = int_val(length(got))
    if n != len(want):
        settle(ctx, key + '/length', length(got), num(len(want)), where, what + ': length', s)
        return
    for i, w in enumerate(want):
        try:
            g = idx(got, num(i))
            same_(ctx, '%s/entry %d' % (key, i), algebra.qpoly(g) == algebra.qpoly(w), where, what + ': entry %d' % i, s, g)
        except algebra.Opaque as e:
            ctx.skip('%s/entry %d' % (key, i), 'not in closed form: %s' % e)


def run(ctx, fn, args, **kw):
    kw.setdefault('unroll', 80)
    kw.setdefault('recursion', 12)
    s = K.summ(ctx.prog(), fn, argvals=args, **kw)
    ctx.saw(*s.I.inlined)
    ctx.add('function instances')
    return s


def arity(ctx, fn):
    return ctx.prog().fn(fn) is not None


def total(ctx, key, s, where):
    """succeeds and does not abort or overflow"""
    if s.val is None:
        ctx.ob(key + '/returns', False, where, 'never returns')
        return False
    nopanic(ctx, key + '/never aborts', s, where)
    ctx.ob(key + '/no overflow', not s.I.wraps, where, '; '.join('%s in %s' % (w, f) for f, w in s.I.wraps[:3]))
    return True


def eq_builders(ctx):
    fn = 'virtual_polynomial::build_eq_x_r_vec'
    where = ctx.span(fn)
    for n in range(0, 7):
        r = syms('r', n)
        want = [eqw(r, b) for b in range(2 ** n)]
        for fn, pick in (('virtual_polynomial::build_eq_x_r_vec', None), ('virtual_polynomial::build_eq_x_r', n), ('dmle_utils::build_eq_x_r', n)):
            where = ctx.span(fn)
            s = run(ctx, fn, [lst(*r)])
            key = '%s/%d variables' % (fn, n)
            settle(ctx, key + '/succeeds', okform(s.val), TRUE if n else FALSE, where, 'succeeds', s)
            if not n or okform(s.val) is not TRUE:
                continue
            total(ctx, key, s, where)
            v = vf(s.val, 'Ok', '0')
            if pick is not None:
                settle(ctx, key + '/variables', fld(v, 'num_vars'), num(n), where, 'number of variables', s)
                v = fld(v, 'evaluations')
            compare(ctx, key, where, s, v, want, 'eq(x, r) on the hypercube')


EQS = ('virtual_polynomial::eq_eval', 'dmle_utils::eq_eval', 'util::eq_eval')


def eq_evals(ctx):
    for fn in EQS:
        if fn == 'util::eq_eval' and not private(ctx, fn):
            continue
        where = ctx.span(fn)
        s = K.summ(ctx.prog(), fn)
        ctx.saw(fn)
        ctx.add('function instances')
        condition(ctx, fn + '/succeeds exactly when', okform(s.val), eq(length(A0), length(A1)), where, 'succeeds for points of equal length', s)
        nopanic(ctx, fn + '/never aborts', s, where)
        for n in range(0, 5):
            x, y = syms('x', n), syms('y', n)
            s = run(ctx, fn, [lst(*x), lst(*y)])
            key = '%s/%d variables' % (fn, n)
            want = ONE
            for a, b in zip(x, y):
                want = mul(want, add(mul(a, b), mul(sub(ONE, a), sub(ONE, b))))
            compare(ctx, key, where, s, lst(vf(s.val, 'Ok', '0')), [want], 'eq(x, y)')


def fixing(ctx):
    for nv in range(0, 7):
        f = syms('f', 2 ** nv)
        for dim in range(0, nv + 1):
            r = syms('r', dim)
            for fn, how, least in (('multilinear_polynomial::fix_variables', fix_first, 0), ('multilinear_polynomial::fix_last_variables', fix_last, 0),
                                   ('multilinear_polynomial::fix_last_variables_no_par', fix_last, 1)):
                if dim < least:
                    continue
                where = ctx.span(fn)
                s = run(ctx, fn, [mle(nv, f), lst(*r)])
                key = '%s/%d of %d variables' % (fn, dim, nv)
                if not total(ctx, key, s, where):
                    continue
                settle(ctx, key + '/variables', fld(s.val, 'num_vars'), num(nv - dim), where, 'number of variables left', s)
                compare(ctx, key, where, s, fld(s.val, 'evaluations'), how(f, r), 'table after fixing')
        r = syms('r', nv)
        for fn in ('multilinear_polynomial::evaluate_opt', 'multilinear_polynomial::evaluate_no_par'):
            where = ctx.span(fn)
            s = run(ctx, fn, [mle(nv, f), lst(*r)])
            key = '%s/%d variables' % (fn, nv)
            if total(ctx, key, s, where):
                compare(ctx, key, where, s, lst(s.val), fix_first(f, r), 'value at the point')


def refusals(ctx):
    """points of the wrong length are refused"""
    f = syms('f', 4)
    for fn, bad in (('multilinear_polynomial::evaluate_opt', (0, 1, 3)), ('multilinear_polynomial::evaluate_no_par', (0, 1, 3)),
                    ('multilinear_polynomial::fix_variables', (3, 4)), ('multilinear_polynomial::fix_last_variables', (3, 4))):
        where = ctx.span(fn)
        for n in bad:
            s = run(ctx, fn, [mle(2, f), lst(*syms('r', n))])
            key = '%s/%d coordinates for 2 variables' % (fn, n)
            aborts = logic.implied(TRUE, Or(*[c for _, _, c, _ in s.panics])) if s.panics else False
            settle(ctx, key + '/refused', TRUE if aborts or s.val is None else FALSE, TRUE, where, 'a point of the wrong length is refused', s)


def merging(ctx):
    fn = 'multilinear_polynomial::merge_polynomials'
    where = ctx.span(fn)
    for k in range(1, 6):
        for nv in range(0, 3):
            ts = [syms('f%d_' % i, 2 ** nv) for i in range(k)]
            s = run(ctx, fn, [lst(*[mle(nv, t) for t in ts])])
            key = '%s/%d polynomials of %d variables' % (fn, k, nv)
            ell = (k - 1).bit_length()
            settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
            total(ctx, key, s, where)
            v = vf(s.val, 'Ok', '0')
            settle(ctx, key + '/variables', fld(v, 'num_vars'), num(nv + ell), where, 'number of variables', s)
            flat = [x for t in ts for x in t]
            compare(ctx, key, where, s, fld(v, 'evaluations'), flat + [ZERO] * (2 ** (nv + ell) - len(flat)), 'merged table')
        for j in range(1, k):
            s = run(ctx, fn, [lst(*[mle(2 if i == j else 1, syms('f', 4 if i == j else 2)) for i in range(k)])])
            settle(ctx, '%s/%d polynomials, number %d of another size' % (fn, k, j), okform(s.val), FALSE, where, 'different sizes are refused', s)


def identity(ctx):
    for nv in range(0, 4):
        for k in range(0, 4):
            fn = 'multilinear_polynomial::identity_permutation'
            where = ctx.span(fn)
            s = run(ctx, fn, [num(nv), num(k)])
            key = '%s/%d chunks of %d variables' % (fn, k, nv)
            if total(ctx, key, s, where):
                compare(ctx, key, where, s, s.val, [num(i) for i in range(k * 2 ** nv)], 'identity')
            fn = 'multilinear_polynomial::identity_permutation_mles'
            where = ctx.span(fn)
            s = run(ctx, fn, [num(nv), num(k)])
            key = '%s/%d chunks of %d variables' % (fn, k, nv)
            if total(ctx, key, s, where):
                settle(ctx, key + '/chunks', length(s.val), num(k), where, 'number of chunks', s)
                if length(s.val) is num(k):
                    for c in range(k):
                        m = idx(s.val, num(c))
                        settle(ctx, '%s/chunk %d/variables' % (key, c), fld(m, 'num_vars'), num(nv), where, 'number of variables', s)
                        compare(ctx, '%s/chunk %d' % (key, c), where, s, fld(m, 'evaluations'), [num(c * 2 ** nv + i) for i in range(2 ** nv)], 'identity')


# ------------------------------------------------------------------ virtual polynomials
def h_ptr(I, st, a, fn):
    return st, num(1000000 + I.norm(st, I.deref(st, a[0])).id)


PTR = {'Arc::as_ptr': h_ptr}
VP = 'VirtualPolynomial'
SHAPES = [  # degree bound, products as indices into the tables, number of tables
    (0, [], 0), (1, [[0]], 1), (2, [[0, 1]], 2), (3, [[0, 1, 1], [2], [1, 0]], 3), (2, [[0], [0, 0]], 2), (4, [[3, 2, 1, 0], [0], [1, 1]], 4),
]


def table(p, nv):
    return mle(nv, syms(p + '_', 2 ** nv))


def vpoly(nv, deg, prods, tabs, coef):
    m = raw('map0')
    for i, t in enumerate(tabs):
        m = minsert(m, num(1000000 + t.id), num(i))
    return adt('zk_sql::arithmetic::virtual_polynomial::VirtualPolynomial', '', ('aux_info', 'products', 'flattened_ml_extensions', 'raw_pointers_lookup_table'),
               adt('zk_sql::arithmetic::virtual_polynomial::VPAuxInfo', '', ('max_degree', 'num_variables', 'phantom'), num(deg), num(nv), UNIT),
               lst(*[tup(c, lst(*[num(i) for i in p])) for c, p in zip(coef, prods)]), lst(*tabs), m)


class Unread(Exception):
    pass


def listed(t):
    if t is NIL:
        return []
    if t.op != 'list':
        raise Unread(show(t)[:120])
    return list(t.a)


def meaning(v):
    """(sum of products as a multiset of (coefficient, factors)) of a virtual polynomial"""
    tabs = listed(fld(v, 'flattened_ml_extensions'))
    out = []
    for p in listed(fld(v, 'products')):
        fs = []
        for i in listed(fld(p, '1')):
            n = int_val(i)
            if n is None:
                raise Unread(show(i)[:120])
            if not 0 <= n < len(tabs):
                return None
            fs.append(tabs[n])
        out.append((fld(p, '0'), fs))
    return out


def denote(v):
    m = meaning(v)
    if m is None:
        return None
    r = ZERO
    for c, fs in m:
        for f in fs:
            c = mul(c, f)
        r = add(r, c)
    return r


def prods(m):
    r = ZERO
    for c, fs in m:
        for f in fs:
            c = mul(c, f)
        r = add(r, c)
    return r


def lookups(v):
    """every entry of the lookup table names the position of its own table"""
    tabs = listed(fld(v, 'flattened_ml_extensions'))
    m = fld(v, 'raw_pointers_lookup_table')
    while m.op == 'minsert':
        k, i = int_val(m.a[1]), int_val(m.a[2])
        if k is None or i is None:
            raise Unread('lookup table')
        if not 0 <= i < len(tabs) or k != 1000000 + tabs[i].id:
            return False
        m = m.a[0]
    return True


def judge(ctx, key, where, s, v, nv, deg, want):
    try:
        got = denote(v)
        if got is None:
            ctx.fail(key + '/polynomial', where, 'a product refers to a table that is not there')
        else:
            settle(ctx, key + '/polynomial', got, prods(want), where, 'the polynomial it stands for', s)
        ctx.ob(key + '/lookup table', lookups(v), where, 'an entry of the lookup table names another table')
    except Unread as e:
        ctx.skip(key + '/polynomial', 'not in closed form: %s' % e)
    settle(ctx, key + '/variables', fld(fld(v, 'aux_info'), 'num_variables'), num(nv), where, 'number of variables', s)
    settle(ctx, key + '/degree bound', fld(fld(v, 'aux_info'), 'max_degree'), num(deg), where, 'degree bound', s)


def vp_ops(ctx):
    where = ctx.span(VP + '::new')
    s = run(ctx, VP + '::new', [num(3)], extra=PTR)
    judge(ctx, VP + '::new', where, s, s.val, 3, 0, [])
    where = ctx.span(VP + '::new_from_mle')
    f, c = table('g', 2), sym('c')
    s = run(ctx, VP + '::new_from_mle', [f, c], extra=PTR)
    judge(ctx, VP + '::new_from_mle', where, s, s.val, 2, 1, [(c, [f])])
    for deg, ps, nt in SHAPES:
        for nv in (1, 2, 3, 0):
            tabs = [table('f%d' % i, nv) for i in range(nt)]
            coef = syms('k', len(ps))
            p = vpoly(nv, deg, ps, tabs, coef)
            base = [(k, [tabs[i] for i in q]) for k, q in zip(coef, ps)]
            name = 'products %s of %d variables' % (ps, nv)
            g, h = table('g', nv), table('h', nv)
            # adding a product
            fn = VP + '::add_mle_list'
            where = ctx.span(fn)
            for fs in ([g], [g, g], [g, h, g], tabs[:1] + [g], tabs[:2] + [h] + tabs[:2], tabs[::-1]):
                if not fs:
                    continue
                s = run(ctx, fn, [p, lst(*fs), c], extra=PTR)
                key = '%s/%s, adding %s' % (fn, name, ''.join('gh'[[g, h].index(x)] if x in (g, h) else str(tabs.index(x)) for x in fs))
                settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                if total(ctx, key, s, where):
                    judge(ctx, key, where, s, s.post(0), nv, max(deg, len(fs)), base + [(c, fs)])
            s = run(ctx, fn, [p, NIL, c], extra=PTR)
            settle(ctx, '%s/%s, adding nothing' % (fn, name), okform(s.val), FALSE, where, 'an empty product is refused', s)
            for fs in ([table('w', nv + 1)], [g, table('w', nv + 1)], tabs[:1] + [table('w', max(nv, 1) - 1 if nv else 2)]):
                s = run(ctx, fn, [p, lst(*fs), c], extra=PTR)
                settle(ctx, '%s/%s, adding %d factors, one of another size' % (fn, name, len(fs)), okform(s.val), FALSE, where, 'a factor of another size is refused', s)
            # multiplying
            fn = VP + '::mul_by_mle'
            where = ctx.span(fn)
            for f in [g] + tabs[:2]:
                s = run(ctx, fn, [p, f, c], extra=PTR)
                key = '%s/%s, times %s' % (fn, name, 'g' if f is g else tabs.index(f))
                settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                if total(ctx, key, s, where):
                    judge(ctx, key, where, s, s.post(0), nv, deg + 1, [(mul(k, c), q + [f]) for k, q in base])
            s = run(ctx, fn, [p, table('w', nv + 1), c], extra=PTR)
            settle(ctx, '%s/%s, times one of another size' % (fn, name), okform(s.val), FALSE, where, 'a factor of another size is refused', s)
            # adding two
            fn = VP + '@Add::add'
            if ctx.prog().fn(fn) is None:
                fn = '&VirtualPolynomial@Add::add'
            where = ctx.span(fn)
            for deg2, qs, shared in ((2, [[0, 1], [1]], 0), (3, [[1, 0, 1]], 1), (1, [[0]], 1), (0, [], 0)):
                t2 = (tabs[:shared] + [g, h])[:2]
                k2 = syms('l', len(qs))
                s = run(ctx, fn, [p, vpoly(nv, deg2, qs, t2, k2)], extra=PTR)
                key = '%s/%s plus %s, %d shared' % (fn, name, qs, shared)
                if total(ctx, key, s, where):
                    judge(ctx, key, where, s, s.val, nv, max(deg, deg2), base + [(k, [t2[i] for i in q]) for k, q in zip(k2, qs)])
            # evaluating
            r = syms('r', nv)
            fn = VP + '::materialize'
            where = ctx.span(fn)
            s = run(ctx, fn, [p], extra=PTR)
            key = '%s/%s' % (fn, name)
            if total(ctx, key, s, where):
                settle(ctx, key + '/variables', fld(s.val, 'num_vars'), num(nv), where, 'number of variables', s)
                want = []
                for x in range(2 ** nv):
                    t = ZERO
                    for k, q in base:
                        for f in q:
                            k = mul(k, idx(fld(f, 'evaluations'), num(x)))
                        t = add(t, k)
                    want.append(t)
                compare(ctx, key, where, s, fld(s.val, 'evaluations'), want, 'values on the hypercube')
            fn = VP + '::evaluate'
            where = ctx.span(fn)
            s = run(ctx, fn, [p, lst(*r)], extra=PTR)
            key = '%s/%s' % (fn, name)
            settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
            if total(ctx, key, s, where):
                t = ZERO
                for k, q in base:
                    for f in q:
                        k = mul(k, fix_first(list(fld(f, 'evaluations').a), r)[0])
                    t = add(t, k)
                v = algebra_eval(vf(s.val, 'Ok', '0'))
                compare(ctx, key, where, s, lst(v), [t], 'value at the point')
            for bad in [x for x in (nv - 1, nv + 1) if x >= 0]:
                s = run(ctx, fn, [p, lst(*syms('r', bad))], extra=PTR)
                settle(ctx, '%s/%s, point of %d' % (fn, name, bad), okform(s.val), FALSE, where, 'a point of the wrong length is refused', s)
            # zero-check conversion
            fn = VP + '::build_f_hat'
            where = ctx.span(fn)
            s = run(ctx, fn, [p, lst(*r)], extra=PTR)
            key = '%s/%s' % (fn, name)
            settle(ctx, key + '/succeeds', okform(s.val), TRUE if nv else FALSE, where, 'succeeds', s)
            if nv and total(ctx, key, s, where):
                e = mle(nv, [eqw(r, b) for b in range(2 ** nv)])
                judge(ctx, key, where, s, vf(s.val, 'Ok', '0'), nv, deg + 1, [(k, q + [e]) for k, q in base])
            for bad in [x for x in (nv - 1, nv + 1) if x >= 0]:
                s = run(ctx, fn, [p, lst(*syms('r', bad))], extra=PTR)
                settle(ctx, '%s/%s, point of %d' % (fn, name, bad), okform(s.val), FALSE, where, 'a point of the wrong length is refused', s)


def algebra_eval(t):
    """values of multilinear extensions at points, in terms of their tables"""
    import lock

    def f(y):
        if y.op == 'eval' and y.a[0].op == 'adt' and y.a[0].a[0].endswith('DenseMultilinearExtension'):
            es, r = fld(y.a[0], 'evaluations'), y.a[1]
            if es.op == 'list' and (r.op == 'list' or r is NIL):
                return fix_first(list(es.a), list(r.a) if r is not NIL else [])[0]
        return y
    return lock.mapt(t, f)


# ------------------------------------------------------------------ resizing, index arithmetic
FB = ('dmle_utils::dmle_increase_nv_front', 'dmle_utils::dmle_increase_nv_back')


def resizing(ctx):
    for old in range(0, 4):
        resized(ctx, old, range(0, 6), FB)


def grown(ctx):
    """a few larger sizes"""
    resized(ctx, 2, [9], FB)
    resized(ctx, 1, [12], FB[:1])


def resized(ctx, old, news, fns):
    t = syms('f', 2 ** old)
    for new in news:
        for fn in fns:
            where = ctx.span(fn)
            key = '%s/%d to %d variables' % (fn, old, new)
            s = run(ctx, fn, [mle(old, t), num(new)], unroll=5000)
            if new < old:
                aborts = logic.implied(TRUE, Or(*[c for _, _, c, _ in s.panics])) if s.panics else False
                ctx.ob(key + '/refused', s.val is None or aborts, where, 'shrinking must be refused')
                continue
            if not total(ctx, key, s, where):
                continue
            settle(ctx, key + '/variables', fld(s.val, 'num_vars'), num(new), where, 'number of variables', s)
            d = new - old
            want = [t[i >> d] if 'front' in fn else t[i % len(t)] for i in range(2 ** new)]
            compare(ctx, key, where, s, fld(s.val, 'evaluations'), want, 'resized table')


def aliases(ctx):
    """the copies of a tracked polynomial with variables added, made by hand"""
    import iop
    import run as R
    for fn, front in (('utils::front_alias_tracked_poly', True), ('utils::back_alias_tracked_poly', False)):
        if not private(ctx, fn):
            continue
        where = ctx.span(fn)
        s = R.summarize(ctx.prog(), fn, hooks=dict(iop.HOOKS), setup=iop.SETUP)
        ctx.saw(fn)
        if s.val is None or s.I.unknown:
            ctx.skip(fn, 'not modelled: ' + ', '.join(sorted(s.I.unknown)))
            continue
        a1, a2 = raw('sym', 'a1'), raw('sym', 'a2')
        e = fld(fld(s.val, 'id'), 'e')
        settle(ctx, fn + '/variables', fld(s.val, 'num_vars'), add(fld(a1, 'num_vars'), a2), where, 'number of variables')
        if e.op != 'mle':
            ctx.skip(fn, 'the result is ' + show(e)[:200])
            continue
        for nv in range(0, 3):
            for d in range(0, 3):
                t = subst(e.a[0], {fld(a1, 'num_vars'): num(nv), a2: num(d)})
                n = 2 ** (nv + d)
                settle(ctx, '%s/%d and %d variables/length' % (fn, nv, d), length(t), num(n), where, 'number of rows')
                if length(t) is num(n):
                    for i in range(n):
                        settle(ctx, '%s/%d and %d variables/row %d' % (fn, nv, d, i), idx(t, num(i)),
                               iop.pv(fld(fld(a1, 'id'), 'e'), num(i >> d if front else i % 2 ** nv)), where, 'row of the result')


def bits(ctx):
    for n in range(0, 5):
        for i in range(2 ** n):
            b = [TRUE if i >> j & 1 else FALSE for j in range(n)]
            for fn, w in (('util::bit_decompose', b), ('virtual_polynomial::bit_decompose', b), ('dmle_utils::bit_decompose', b), ('dmle_utils::binary_decompose', None)):
                if fn.startswith('virtual') and not private(ctx, fn):
                    continue
                where = ctx.span(fn)
                key = '%s/%d in %d bits' % (fn, i, n)
                s = run(ctx, fn, [num(i), num(n)])
                if not total(ctx, key, s, where):
                    continue
                if w is None:
                    compare(ctx, key, where, s, s.val, [num(i >> j & 1) for j in range(n)], 'little endian bits')
                else:
                    settle(ctx, key, s.val, lst(*w), where, 'little endian bits', s)
            fn = 'util::project'
            if private(ctx, fn):
                s = run(ctx, fn, [lst(*b)])
                if total(ctx, 'util::project/%d in %d bits' % (i, n), s, ctx.span(fn)):
                    settle(ctx, 'util::project/%d in %d bits' % (i, n), s.val, num(i), ctx.span(fn), 'number with these bits', s)
            if n:
                fn = 'util::get_index'
                s = run(ctx, fn, [num(i), num(n)])
                key = '%s/%d of %d bits' % (fn, i, n)
                if total(ctx, key, s, ctx.span(fn)):
                    low = i % 2 ** (n - 1)
                    settle(ctx, key, s.val, tup(num(2 * low), num(2 * low + 1), TRUE if i >> (n - 1) else FALSE), ctx.span(fn), 'children and sign', s)
    for i, n in ((2 ** 40 + 2 ** 33 + 5, 48), (2 ** 63 + 2 ** 31 + 1, 64), (2 ** 32 - 2, 33)):   # wider than 32 bits
        b = [TRUE if i >> j & 1 else FALSE for j in range(n)]
        for fn in ('util::bit_decompose', 'virtual_polynomial::bit_decompose', 'dmle_utils::bit_decompose', 'dmle_utils::binary_decompose'):
            if not private(ctx, fn):
                continue
            s = run(ctx, fn, [num(i), num(n)])
            key = '%s/%d in %d bits' % (fn, i, n)
            if total(ctx, key, s, ctx.span(fn)):
                if 'bit_' in fn:
                    settle(ctx, key, s.val, lst(*b), ctx.span(fn), 'little endian bits', s)
                else:
                    compare(ctx, key, ctx.span(fn), s, s.val, [num(i >> j & 1) for j in range(n)], 'little endian bits')
    fn = 'util::get_batched_nv'
    for nv in range(0, 3):
        for k in range(1, 10):
            s = run(ctx, fn, [num(nv), num(k)])
            settle(ctx, '%s/%d tables of %d variables' % (fn, k, nv), s.val, num(nv + (k - 1).bit_length()), ctx.span(fn), 'variables of the merged table', s)
    fn = 'util::gen_eval_point'
    for n in range(0, 4):
        for i in range(2 ** n):
            for k in range(0, 3):
                z = syms('z', k)
                s = run(ctx, fn, [num(i), num(n), lst(*z)])
                key = '%s/table %d of %d, %d variables' % (fn, i, 2 ** n, k)
                if total(ctx, key, s, ctx.span(fn)):
                    compare(ctx, key, ctx.span(fn), s, s.val, z + [num(i >> j & 1) for j in range(n)], 'point in the merged polynomial')
