"""Hash-consed symbolic terms used as the abstract domain of the dataflow analysis.

Everything is a value-numbered term; there is no solver and no enumeration of paths.
 * ring normal form for field / integer arithmetic ('+' of coefficient*monomial),
 * ordered decision diagrams ('ite') for path conditions and for values merged at joins,
 * lists: list/seq(comprehension)/flat/cat/slice/store, with len/idx,
 * binders by height ('bv' k): terms equal up to renaming of bound variables are identical.
"""
import math
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'a', 'id', 'fs', 'h', '_r')

    def __repr__(self):
        return show(self)


_tab = {}
_EMPTY = frozenset()
BIND = {'seq', 'flat', 'sum', 'prod', 'exists', 'fold', 'lam', 'minsall'}


def raw(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        fs = None
        h = 0
        for x in a:
            if type(x) is T:
                if x.fs:
                    fs = x.fs if fs is None or fs is x.fs else fs | x.fs
                if x.h > h:
                    h = x.h
        if op == 'sym':
            fs = frozenset([t.id])
        elif op in ('bv', 'bw'):
            h = a[0]
        t.fs = fs or _EMPTY
        t.h = h
        t._r = None
        _tab[key] = t
    return t


TRUE = raw('true')
FALSE = raw('false')
DEAD = raw('dead')
UNIT = raw('adt', '()', '', ())
ONE_MONO = raw('*')
_fresh = [0]


def sym(name=None):
    if name is None:
        _fresh[0] += 1
        name = '$%d' % _fresh[0]
    return raw('sym', name)


def fresh(p='$'):
    _fresh[0] += 1
    return raw('sym', '%s%d' % (p, _fresh[0]))


def S(s):
    return raw('str', s)


# ------------------------------------------------------------------ ring
def num(n):
    if n == 0:
        return raw('+')
    return raw('+', n, ONE_MONO)


ZERO = num(0)
ONE = num(1)


def as_poly(t):
    """dict mono->coef"""
    if t.op == '+':
        a = t.a
        return {a[i + 1]: a[i] for i in range(0, len(a), 2)}
    if t.op == '*':
        return {t: 1}
    if t.op == 'true':
        return {ONE_MONO: 1}
    if t.op == 'false':
        return {}
    return {raw('*', t, 1): 1}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m.a) == 2 and m.a[1] == 1:
            return m.a[0]
    items.sort(key=lambda mc: mc[0].id)
    flat = []
    for m, c in items:
        flat.append(c)
        flat.append(m)
    return raw('+', *flat)


def is_int(t):
    return t.op == '+' and (len(t.a) == 0 or (len(t.a) == 2 and t.a[1] is ONE_MONO))


def int_val(t):
    if t.op == '+':
        if len(t.a) == 0:
            return 0
        if len(t.a) == 2 and t.a[1] is ONE_MONO:
            return t.a[0]
    return None


def add(x, y):
    if x is DEAD or y is DEAD:
        return DEAD
    d = dict(as_poly(x))
    for m, c in as_poly(y).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(x, k):
    if x is DEAD:
        return DEAD
    return from_poly({m: c * k for m, c in as_poly(x).items()})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, neg(y))


def mono_mul(m1, m2):
    """returns (coef, mono)"""
    d = {}
    p2 = None
    for m in (m1, m2):
        a = m.a
        for i in range(0, len(a), 2):
            if a[i].op == 'pow2':
                e = scale(a[i].a[0], a[i + 1])
                p2 = e if p2 is None else add(p2, e)
            else:
                d[a[i]] = d.get(a[i], 0) + a[i + 1]
    coef = 1
    if p2 is not None:
        p = pow2(p2)
        pp = as_poly(p)
        (m, c), = pp.items()
        coef = c
        for i in range(0, len(m.a), 2):
            d[m.a[i]] = d.get(m.a[i], 0) + m.a[i + 1]
    # x * inv(x) = 1
    for t in list(d):
        if t.op == 'inv' and d.get(t.a[0], 0) and d.get(t, 0):
            k = min(d[t], d[t.a[0]])
            if k > 0:
                d[t] -= k
                d[t.a[0]] -= k
    items = sorted(((t, e) for t, e in d.items() if e), key=lambda te: te[0].id)
    flat = []
    for t, e in items:
        flat.append(t)
        flat.append(e)
    return coef, raw('*', *flat)


def mul(x, y):
    if x is DEAD or y is DEAD:
        return DEAD
    d = {}
    px, py = as_poly(x), as_poly(y)
    for m1, c1 in px.items():
        for m2, c2 in py.items():
            k, m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + k * c1 * c2
    return from_poly(d)


def pow2(n):
    v = int_val(n)
    if v is not None and v >= 0:
        return num(2 ** v)
    d = dict(as_poly(n))
    c = d.pop(ONE_MONO, 0)
    if c > 0:
        return from_poly({raw('*', raw('pow2', from_poly(d)), 1): 2 ** c})
    return raw('pow2', n)


def power(x, n):
    v = int_val(n)
    if v is not None and 0 <= v <= 16:
        r = ONE
        for _ in range(v):
            r = mul(r, x)
        return r
    if int_val(x) == 2:
        return pow2(n)
    return raw('pow', x, n)


def _leafgcd(t, seen):
    """gcd of the integer leaves of a decision diagram (None if some leaf is not an integer)"""
    from math import gcd
    if t.op == 'ite':
        if t.id in seen:
            return 0
        seen.add(t.id)
        a, b = _leafgcd(t.a[1], seen), _leafgcd(t.a[2], seen)
        return None if a is None or b is None else gcd(a, b)
    v = int_val(t)
    return None if v is None else abs(v)


def _leafdiv(t, g, memo):
    if t.op == 'ite':
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = ite(raw('ite', t.a[0], TRUE, FALSE), _leafdiv(t.a[1], g, memo), _leafdiv(t.a[2], g, memo))
        return r
    return num(int_val(t) // g)


def sum_(n, k, body):
    if body.op == 'ite':
        g = _leafgcd(body, set())
        if g and g > 1:
            return scale(sum_(n, k, _leafdiv(body, g, {})), g)
    """Sum over bv(k) in 0..n of body (body has bv k)."""
    v = int_val(n)
    if v is not None and 0 <= v <= 12:
        r = ZERO
        for i in range(v):
            r = add(r, inst(body, k, num(i)))
        return r
    r = ZERO
    for m, c in as_poly(body).items():
        out, inn = ONE_MONO, ONE_MONO
        for i in range(0, len(m.a), 2):
            f = raw('*', m.a[i], m.a[i + 1])
            if has_bv(m.a[i], k):
                _, inn = mono_mul(inn, f)
            else:
                _, out = mono_mul(out, f)
        if inn is ONE_MONO:
            s = n
        else:
            s = raw('sum', k, n, from_poly({inn: 1}))
        r = add(r, mul(from_poly({out: c}), s))
    return r


def prod_(n, k, body):
    v = int_val(n)
    if v is not None and 0 <= v <= 12:
        r = ONE
        for i in range(v):
            r = mul(r, inst(body, k, num(i)))
        return r
    p = as_poly(body)
    if len(p) == 1:
        (m, c), = p.items()
        r = ONE if c == 1 else power(num(c), n)
        for i in range(0, len(m.a), 2):
            f = power(m.a[i], num(m.a[i + 1]))
            if has_bv(m.a[i], k):
                r = mul(r, raw('prod', k, n, f))
            else:
                r = mul(r, power(f, n))
        return r
    if not has_bv(body, k):
        return power(body, n)
    return raw('prod', k, n, body)


_hb = {}


def has_bv(t, k):
    if t.h < k:
        return False
    if t.op in ('bv', 'bw'):
        return t.a[0] == k
    key = (t.id, k)
    r = _hb.get(key)
    if r is None:
        r = any(has_bv(x, k) for x in t.a if type(x) is T)
        _hb[key] = r
    return r


# ------------------------------------------------------------------ decision diagrams
def is_f(t):
    return t.op in ('ite', 'true', 'false')


_form_memo = {}


def form(t):
    """bool-valued term -> decision diagram with constant leaves"""
    if t.op in ('true', 'false', 'dead'):
        return t
    if t.op == 'ite':
        r = _form_memo.get(t.id)
        if r is None:
            h, l = form(t.a[1]), form(t.a[2])
            r = t if h is t.a[1] and l is t.a[2] else ite(raw('ite', t.a[0], TRUE, FALSE), h, l)
            _form_memo[t.id] = r
        return r
    v = int_val(t)
    if v is not None:
        return TRUE if v else FALSE
    return raw('ite', t, TRUE, FALSE)


_ord = {}


def akey(a):
    return a.id


def short_unless(atom, l, v):
    """when the atom is not v, l has at most one element"""
    n = length(l)
    if v:
        return any(c.op == 'ite' and c.a[0] is atom and c.a[1] is TRUE for c in (pos(sub(n, ONE)), pos(n)))
    return any(c.op == 'ite' and c.a[0] is atom and c.a[1] is TRUE for c in (eq0(n), eq0(sub(n, ONE)))) or \
        any(c.op == 'ite' and c.a[0] is atom and c.a[1] is FALSE for c in (pos(sub(n, ONE)), pos(n)))


def mk_ite(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is DEAD:
        return lo
    if lo is DEAD:
        return hi
    ho, lo_ = hi.op, lo.op
    if ho == 'sorted' and hi.a[0] is lo and short_unless(atom, lo, True):
        return hi       # at most one element is sorted as it is
    if lo_ == 'sorted' and lo.a[0] is hi and short_unless(atom, hi, False):
        return lo
    if atom.op == 'is' and ho == 'adt' and lo_ == 'adt' and len(hi.a) == 4:
        x = atom.a[0]
        if hi.a[1] == atom.a[1] and hi.a[3] is raw('vf', x, hi.a[1], '0'):
            if (hi.a[1] == 'Ok' and lo.a[1] == 'Err' and lo.a[3] is raw('vf', x, 'Err', '0')) or (hi.a[1] == 'Some' and lo.a[1] == 'None'):
                return x
    if ho == 'adt' and lo_ == 'adt' and hi.a[:2] == lo.a[:2] and hi.a[2] == lo.a[2]:
        return adt(hi.a[0], hi.a[1], hi.a[2], *[mk_vite(atom, x, y) for x, y in zip(hi.a[3:], lo.a[3:])])
    if ho in ('cat', 'list') and lo_ in ('cat', 'list', 'ite') or lo_ in ('cat', 'list') and ho == 'ite':
        r = _list_ite(atom, hi, lo)
        if r is not None:
            return r
    elif ho == 'cat' or lo_ == 'cat':
        r = _list_ite(atom, hi, lo)
        if r is not None:
            return r
    if atom.op == 'eq0' and (ho == '+' or lo_ == '+') and ho not in ('ite', 'true', 'false', 'adt') and lo_ not in ('ite', 'true', 'false', 'adt'):
        # [p=0] ? x : x + k*p  is  x + k*p
        p, d = as_poly(atom.a[0]), as_poly(sub(lo, hi))
        if p and d and p.keys() == d.keys():
            m = next(iter(p))
            if d[m] % p[m] == 0 and all(d[x] == d[m] // p[m] * p[x] for x in p):
                return lo
    if (ho == '+' or lo_ == '+') and ho not in ('ite', 'true', 'false') and lo_ not in ('ite', 'true', 'false'):
        p, q = as_poly(hi), as_poly(lo)
        com = {m: c for m, c in p.items() if q.get(m) == c}
        if com:
            a = from_poly({m: c for m, c in p.items() if m not in com})
            b = from_poly({m: c for m, c in q.items() if m not in com})
            return add(from_poly(com), mk_ite(atom, a, b))
        # max/min
        if atom.op == 'pos':
            d = atom.a[0]
            if sub(hi, lo) is d or sub(sub(hi, lo), ONE) is d or add(sub(hi, lo), ONE) is d:
                return mx(hi, lo)
    elif atom.op == 'pos' and ho not in ('ite', 'true', 'false', 'adt') and lo_ not in ('ite', 'true', 'false', 'adt'):
        d = atom.a[0]
        x = sub(hi, lo)
        if x is d or add(x, ONE) is d:
            return mx(hi, lo)
        x = neg(x)
        if x is d or add(x, ONE) is d:
            return mn(hi, lo)
    return raw('ite', atom, hi, lo)


def mk_vite(atom, hi, lo):
    """ite that keeps diagrams ordered (hi / lo may contain smaller atoms)."""
    return ite(raw('ite', atom, TRUE, FALSE), hi, lo)


def div(a, b):
    """natural division rounding down"""
    va, vb = int_val(a), int_val(b)
    if vb == 1:
        return a
    if va is not None and vb:
        return num(va // vb)
    if vb and a is not DEAD and all(c % vb == 0 for c in as_poly(a).values()):
        return from_poly({m: c // vb for m, c in as_poly(a).items()})
    if a is b and a.op == 'pow2':
        return ONE
    if a.op == 'pow2' and b.op == 'pow2' and all(c > 0 for c in as_poly(sub(a.a[0], b.a[0])).values()):
        return pow2(sub(a.a[0], b.a[0]))
    return raw('div', a, b)


def mod(a, b):
    va, vb = int_val(a), int_val(b)
    if vb == 1 or a is ZERO:
        return ZERO
    if va is not None and vb:
        return num(va % vb)
    return raw('mod', a, b)


def ceildiv(a, b):
    if int_val(b) is not None or a is ZERO:
        r = div(a, b)
        if r.op != 'div':
            return r if int_val(a) is None or int_val(b) is None else num(-(-int_val(a) // int_val(b)))
    return raw('ceildiv', a, b)


def natural(t):
    """a sum of lengths, powers of two and natural numbers"""
    d = as_poly(t)
    if d is None:
        return t.op in ('len', 'pow2')
    return all(c >= 0 and all(m.a[j].op in ('len', 'pow2') for j in range(0, len(m.a), 2)) for m, c in d.items())


def mx(a, b):
    return _extreme('max', a, b, 1)


def mn(a, b):
    return _extreme('min', a, b, -1)


def endless(t):
    """a length with an endless part"""
    d = as_poly(t)
    return t.op == 'inf' or d is not None and any(c > 0 and any(x.op == 'inf' for x in m.a if isinstance(x, T)) for m, c in d.items()) and all(c > 0 for c in d.values())


def _extreme(op, a, b, s):
    if endless(a) != endless(b):
        return a if endless(a) == (s > 0) else b
    va = int_val(sub(a, b))
    if va is not None:
        return a if va * s >= 0 else b
    if natural(sub(a, b)):
        return a if s > 0 else b
    if natural(sub(b, a)):
        return b if s > 0 else a
    # nested ones as one set of values
    xs = []
    for x in (a, b):
        w = [x]
        while w:
            y = w.pop()
            if y.op == op:
                w += y.a
            elif y not in xs:
                xs.append(y)
    if len(xs) > 2:
        keep = []
        for x in xs:
            for j, y in enumerate(keep):
                v = int_val(sub(x, y))
                if v is not None:
                    keep[j] = x if v * s >= 0 else y
                    break
            else:
                keep.append(x)
        xs = keep
    xs = sorted(xs, key=lambda t: t.id)
    r = xs[0]
    for x in xs[1:]:
        r = raw(op, *sorted((r, x), key=lambda t: t.id))
    return r


def maxof(s, f=mx, nm='maxof'):
    if s.op == 'list' and s.a:
        r = s.a[0]
        for x in s.a[1:]:
            r = f(r, x)
        return r
    if s.op == 'cat':
        r = maxof(s.a[0], f, nm)
        for x in s.a[1:]:
            r = f(r, maxof(x, f, nm))
        return r
    return raw(nm, s)


def _parts(t):
    if t.op == 'cat':
        out = []
        for p in t.a:
            if p.op == 'list':
                out.extend(('i', x) for x in p.a)
            else:
                out.append(('p', p))
        return out
    if t.op == 'list':
        return [('i', x) for x in t.a]
    return [('p', t)]


def _unparts(ps):
    return cat(*[lst(x) if k == 'i' else x for k, x in ps])


def _list_ite(atom, hi, lo):
    p, q = _parts(hi), _parts(lo)
    n = 0
    while n < len(p) and n < len(q) and p[n] == q[n]:
        n += 1
    m = 0
    while m < len(p) - n and m < len(q) - n and p[-1 - m] == q[-1 - m]:
        m += 1
    if n == 0 and m == 0:
        return None
    a = _unparts(p[n:len(p) - m])
    b = _unparts(q[n:len(q) - m])
    return cat(_unparts(p[:n]), mk_vite(atom, a, b), _unparts(p[len(p) - m:] if m else []))


_ite_memo = {}


def _top(t):
    return t.a[0] if t.op == 'ite' else None


def _cof(t, v):
    if t.op == 'ite' and t.a[0] is v:
        return t.a[1], t.a[2]
    return t, t


def ite(f, x, y):
    if f is TRUE:
        return x
    if f is FALSE:
        return y
    if x is y:
        return x
    if x is DEAD:
        return y
    if y is DEAD:
        return x
    if f is DEAD:
        return x
    if f.op != 'ite':
        return ite(form(f), x, y)
    key = (f.id, x.id, y.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = f.a[0]
    for t in (x, y):
        if t.op == 'ite' and t.a[0].id < v.id:
            v = t.a[0]
    f1, f0 = _cof(f, v)
    x1, x0 = _cof(x, v)
    y1, y0 = _cof(y, v)
    r = mk_ite(v, ite(f1, x1, y1), ite(f0, x0, y0))
    _ite_memo[key] = r
    return r


def bb(f):
    return form(f)


def Not(f):
    return ite(form(f), FALSE, TRUE)


def And(*fs):
    r = TRUE
    for f in fs:
        r = ite(r, form(f), FALSE) if r is not FALSE else FALSE
    return r


def Or(*fs):
    r = FALSE
    for f in fs:
        r = ite(r, TRUE, form(f)) if r is not TRUE else TRUE
    return r


_res_memo = {}


def restrict(t, c):
    """simplify decision diagram t knowing c holds (generalised cofactor)."""
    if c is TRUE or c is FALSE or t.op != 'ite':
        return t
    key = (t.id, c.id)
    r = _res_memo.get(key)
    if r is not None:
        return r
    vc, vt = c.a[0], t.a[0]
    if vc.id < vt.id:
        r = restrict(t, Or(c.a[1], c.a[2]))
    elif vc is vt:
        if c.a[1] is FALSE:
            r = restrict(t.a[2], c.a[2])
        elif c.a[2] is FALSE:
            r = restrict(t.a[1], c.a[1])
        else:
            r = mk_ite(vt, restrict(t.a[1], c.a[1]), restrict(t.a[2], c.a[2]))
    else:
        r = mk_ite(vt, restrict(t.a[1], c), restrict(t.a[2], c))
    _res_memo[key] = r
    return r


def lits(c):
    """literals implied by formula c (cheap: chain of single-child decisions)."""
    pos, ng = set(), set()
    seen = set()

    def go(t):
        # returns (pos,neg) sets implied
        if t is FALSE:
            return None
        if t.op != 'ite':
            return (frozenset(), frozenset())
        if t.id in memo:
            return memo[t.id]
        a = go(t.a[1])
        b = go(t.a[2])
        if a is None and b is None:
            r = None
        elif b is None:
            r = (a[0] | {t.a[0]}, a[1])
        elif a is None:
            r = (b[0], b[1] | {t.a[0]})
        else:
            r = (a[0] & b[0], a[1] & b[1])
        memo[t.id] = r
        return r
    memo = {}
    r = go(form(c))
    return r if r else (frozenset(), frozenset())


def deep_restrict(t, c):
    """restrict every decision inside t under c."""
    if c is TRUE:
        return t
    p, n = lits(c)
    if not p and not n and c.op != 'ite':
        return t
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'ite':
            u = restrict(t, c)
            if u is not t:
                r = go(u)
            elif t.a[0] in p:
                r = go(t.a[1])
            elif t.a[0] in n:
                r = go(t.a[2])
            else:
                at = go(t.a[0])
                r = ite(form(at), go(t.a[1]), go(t.a[2]))
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)


# ------------------------------------------------------------------ comparisons
def _lift(p, f):
    """if poly p has an ite factor, distribute f over it."""
    if p.op == 'ite':
        return ite(raw('ite', p.a[0], TRUE, FALSE), f(p.a[1]), f(p.a[2]))
    if p.op == '+':
        for i in range(1, len(p.a), 2):
            m = p.a[i]
            for j in range(0, len(m.a), 2):
                x = m.a[j]
                if x.op == 'ite':
                    h = psub(p, x, x.a[1])
                    l = psub(p, x, x.a[2])
                    return ite(raw('ite', x.a[0], TRUE, FALSE), f(h), f(l))
    return None


def psub(p, atom, val):
    r = ZERO
    for m, c in as_poly(p).items():
        t = num(c)
        for j in range(0, len(m.a), 2):
            b = val if m.a[j] is atom else m.a[j]
            t = mul(t, power(b, num(m.a[j + 1])))
        r = add(r, t)
    return r


EQ_FACTS = []


def eq0(p):
    v = int_val(p)
    if v is not None:
        return TRUE if v == 0 else FALSE
    if p is DEAD:
        return DEAD
    r = _lift(p, eq0)
    if r is not None:
        return r
    d = as_poly(p)
    for f in EQ_FACTS:
        r = f(d)
        if r is not None:
            return r
    if len(d) > 1 and (all(c > 0 for c in d.values()) or all(c < 0 for c in d.values())) and all(b.op in ('len', 'pow2') for m in d for b in m.a[::2]):
        return And(*[FALSE if m is ONE_MONO else eq0(from_poly({m: 1})) for m in d])
    if len(d) == 1:
        # powers of two are not zero
        (m1, c1), = d.items()
        z = [(b, e) for b, e in zip(m1.a[::2], m1.a[1::2]) if b.op != 'pow2']
        if len(z) * 2 < len(m1.a):
            return eq0(from_poly({raw('*', *[y for w in z for y in w]): c1})) if z else FALSE
    if len(d) == 2:
        # equality of two constructors
        (m1, c1), (m2, c2) = d.items()
        if c1 == -c2 and abs(c1) == 1 and len(m1.a) == 2 and len(m2.a) == 2 and m1.a[1] == 1 and m2.a[1] == 1:
            return _eqatom(m1.a[0], m2.a[0])
    if d and min(d.items(), key=lambda mc: mc[0].id)[1] < 0:
        p = neg(p)
        d = as_poly(p)
    g = math.gcd(*d.values()) if all(type(c) is int for c in d.values()) else 1
    if g > 1:
        p = from_poly({m: c // g for m, c in d.items()})
    return form(raw('eq0', p))


def _eqatom(a, b):
    if a is b:
        return TRUE
    if a.op == 'adt' and b.op == 'adt':
        if a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
            return And(*[eq(x, y) for x, y in zip(a.a[3:], b.a[3:])])
        return FALSE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'list' and b.op == 'list':
        if len(a.a) != len(b.a):
            return FALSE
        return And(*[eq(x, y) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op not in ('adt', 'ite'):
            if x.a[1]:  # enum
                return And(is_var(y, x.a[0], x.a[1]), *[eq(v, vf(y, x.a[1], n)) for n, v in zip(x.a[2], x.a[3:])])
            return And(*[eq(v, fld(y, n)) for n, v in zip(x.a[2], x.a[3:])])
    x, y = sorted((a, b), key=lambda t: t.id)
    return form(raw('eq0', sub(x, y)))


def eq(a, b):
    if a is b:
        return TRUE
    if a is DEAD or b is DEAD:
        return DEAD
    if a.op == 'ite' or b.op == 'ite':
        if a.op in ('ite', 'true', 'false') and b.op in ('ite', 'true', 'false') and _isbool(a) and _isbool(b):
            return ite(a, b, Not(b))
        x, y = (a, b) if a.op == 'ite' else (b, a)
        return ite(raw('ite', x.a[0], TRUE, FALSE), eq(x.a[1], y), eq(x.a[2], y))
    if a.op in ('true', 'false') and b.op in ('true', 'false'):
        return FALSE
    if a.op in ('adt', 'str', 'list', 'seq', 'cat') or b.op in ('adt', 'str', 'list', 'seq', 'cat'):
        return _eqatom(a, b)
    return eq0(sub(a, b))


def _isbool(t):
    while t.op == 'ite':
        t = t.a[1]
    return t.op in ('true', 'false')


NEGATIVE_OK = set()


def _below(x, y):
    """x <= y for these monomials, whatever the sizes"""
    if len(x.a) != 2 or len(y.a) != 2 or x.a[1] != y.a[1]:
        return False
    x, y = x.a[0], y.a[0]
    if x.op == y.op == 'pow2':
        x, y = x.a[0], y.a[0]
    return y.op == 'max' and x in y.a or x.op == 'min' and y in x.a


def _atmost0(p):
    """the sum is never positive: each positive part is below a negative one"""
    c = p.get(ONE_MONO, 0)
    if c > 0:
        return False
    plus = [(m, k) for m, k in p.items() if m is not ONE_MONO and k > 0]
    minus = {m: -k for m, k in p.items() if m is not ONE_MONO and k < 0}
    for m, k in plus:
        for y in minus:
            if k > 0 and minus[y] > 0 and _below(m, y):
                t = min(k, minus[y])
                k -= t
                minus[y] -= t
        if k > 0:
            return False
    return True


def pos(d):
    """d > 0 over integers whose atoms are unsigned"""
    v = int_val(d)
    if v is not None:
        return TRUE if v > 0 else FALSE
    if d is DEAD:
        return DEAD
    r = _lift(d, pos)
    if r is not None:
        return r
    p = as_poly(d)
    c = p.get(ONE_MONO, 0)
    rest = [k for m, k in p.items() if m is not ONE_MONO]
    if all(k > 0 for k in rest):
        if c > 0:
            return TRUE
        if c == 0 and len(rest) == 1:
            return Not(eq0(from_poly({m: 1 for m in p if m is not ONE_MONO})))
        if c == -1 and False:
            pass
    if all(k < 0 for k in rest):
        if c <= 0:
            return FALSE
        if c == 1 and len(rest) == 1:
            return eq0(from_poly({m: 1 for m in p if m is not ONE_MONO}))
    if _atmost0(p):
        return FALSE
    if _atmost0(as_poly(sub(ONE, d))):
        return TRUE
    first = min((m for m in p if m is not ONE_MONO), key=lambda m: m.id)
    if p[first] < 0:
        return Not(form(raw('pos', sub(ONE, d))))
    return form(raw('pos', d))


def lt(a, b):
    return pos(sub(b, a))


# ------------------------------------------------------------------ adts
BASEV = {'Ok': ('Err', True), 'Err': ('Ok', False), 'Some': ('None', True), 'None': ('Some', False)}


def adt(path, var, names, *vals):
    # eta
    if vals and not var and names:
        v0 = vals[0]
        if v0.op == 'fld' and v0.a[1] == names[0]:
            x = v0.a[0]
            if all(v.op == 'fld' and v.a[0] is x and v.a[1] == n for v, n in zip(vals, names)):
                if x.op != 'upd' and path != '()':
                    return x
    if any(v is DEAD for v in vals):
        return DEAD
    if path[:5] == 'std::' and path in STDPATH:
        path = STDPATH[path]
    return raw('adt', path, var, tuple(names), *vals)


STDPATH = {'std::option::Option': 'core::option::Option', 'std::result::Result': 'core::result::Result'}


def tup(*vals):
    if not vals:
        return UNIT
    return raw('adt', '()', '', tuple(str(i) for i in range(len(vals))), *vals)


def Ok(x):
    return adt('core::result::Result', 'Ok', ('0',), x)


def Err(x):
    return adt('core::result::Result', 'Err', ('0',), x)


def Some(x):
    return adt('core::option::Option', 'Some', ('0',), x)


NONE = raw('adt', 'core::option::Option', 'None', ())


def fld(x, n):
    o = x.op
    if o == 'adt':
        if n in x.a[2]:
            return x.a[3 + x.a[2].index(n)]
        return DEAD
    if o == 'dead':
        return x
    if o == 'clo':
        return x.a[1 + int(n)]
    if o == 'ite':
        return ite(raw('ite', x.a[0], TRUE, FALSE), fld(x.a[1], n), fld(x.a[2], n))
    if o == 'upd':
        a = x.a
        for i in range(1, len(a), 2):
            if a[i] == n:
                return a[i + 1]
        return fld(a[0], n)
    return raw('fld', x, n)


def upd(x, n, v):
    o = x.op
    if o == 'adt' and n in x.a[2]:
        l = list(x.a)
        l[3 + x.a[2].index(n)] = v
        return adt(*l)
    if o == 'dead':
        return x
    d = {}
    base = x
    if o == 'upd':
        base = x.a[0]
        for i in range(1, len(x.a), 2):
            d[x.a[i]] = x.a[i + 1]
    d[n] = v
    if fld(base, n) is v:
        del d[n]
    if not d:
        return base
    fl = []
    for k in sorted(d):
        fl.append(k)
        fl.append(d[k])
    return raw('upd', base, *fl)


def is_var(x, path, var):
    o = x.op
    if o == 'adt':
        return TRUE if x.a[1] == var else FALSE
    if o == 'ite':
        return ite(raw('ite', x.a[0], TRUE, FALSE), is_var(x.a[1], path, var), is_var(x.a[2], path, var))
    if o == 'dead':
        return DEAD
    b = BASEV.get(var)
    if b:
        base = var if b[1] else b[0]
        f = form(raw('is', x, base))
        return f if b[1] else Not(f)
    vs = VARIANTS.get(path)
    if vs and var in vs:
        # the variants are exclusive and exhaustive
        c = TRUE
        for w in vs[:-1]:
            a = form(raw('is', x, w))
            if w == var:
                return And(c, a)
            c = And(c, Not(a))
        return c
    return form(raw('is', x, var))


VARIANTS = {}


def vf(x, var, n):
    """field n of variant var of x (only evaluated where x is that variant)"""
    o = x.op
    if o == 'adt':
        if x.a[1] == var:
            return fld(x, n)
        return DEAD
    if o == 'ite':
        return ite(raw('ite', x.a[0], TRUE, FALSE), vf(x.a[1], var, n), vf(x.a[2], var, n))
    if o == 'dead':
        return x
    return raw('vf', x, var, n)


# ------------------------------------------------------------------ lists
NIL = raw('list')


def lst(*xs):
    return raw('list', *xs)


def cat(*ps):
    out = []
    for p in ps:
        if p is DEAD:
            return DEAD
        for q in (p.a if p.op == 'cat' else (p,)):
            if q.op == 'list':
                if not q.a:
                    continue
                if out and out[-1].op == 'list':
                    out[-1] = raw('list', *(out[-1].a + q.a))
                    continue
            out.append(q)
    if not out:
        return NIL
    if len(out) == 1:
        return out[0]
    return raw('cat', *out)


def seq(n, k, body):
    v = int_val(n)
    if v is not None and 0 <= v <= 12:
        return lst(*[inst(body, k, num(i)) for i in range(v)])
    if body.op == 'idx' and body.a[1].op == 'bv' and body.a[1].a[0] == k and not has_bv(body.a[0], k) and length(body.a[0]) is n:
        return body.a[0]
    return raw('seq', k, n, body)


def flat(n, k, body):
    v = int_val(n)
    if v is not None and 0 <= v <= 12:
        return cat(*[inst(body, k, num(i)) for i in range(v)])
    if body is NIL:
        return NIL
    if body.op == 'list' and len(body.a) == 1:
        return seq(n, k, body.a[0])
    if body.op == 'ite':
        w = single(body)
        if w is not None:
            return seq(n, k, w)
    return raw('flat', k, n, body)


def single(t):
    """the element of a list that has one element in every case"""
    if t.op == 'list' and len(t.a) == 1:
        return t.a[0]
    if t.op == 'ite':
        a, b = single(t.a[1]), single(t.a[2])
        if a is not None and b is not None:
            return ite(t.a[0], a, b)
    return None


def bind(symbol, body):
    k = body.h + 1
    return k, subst(body, {symbol: raw('bv', k)})


def mkseq(n, i, body):
    k, b = bind(i, body)
    return seq(n, k, b)


def mkflat(n, i, body):
    k, b = bind(i, body)
    return flat(n, k, b)


def mksum(n, i, body):
    k, b = bind(i, body)
    return sum_(n, k, b)


def mkprod(n, i, body):
    k, b = bind(i, body)
    return prod_(n, k, b)


def mkexists(n, i, body):
    body = form(body)
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return pos(n)
    k, b = bind(i, body)
    return exists(n, k, b)


def exists(n, k, b):
    v = int_val(n)
    if v is not None and 0 <= v <= 12:
        return Or(*[inst(b, k, num(i)) for i in range(v)])
    if b is FALSE:
        return FALSE
    if not has_bv(b, k):
        return And(pos(n), b)
    # distribute over disjunction: pull out bv-free conjunct literals
    p, ng = lits(b)
    free = [a for a in p if not has_bv(a, k)], [a for a in ng if not has_bv(a, k)]
    if free[0] or free[1]:
        c = TRUE
        for a in free[0]:
            c = And(c, form(a))
        for a in free[1]:
            c = And(c, Not(form(a)))
        return And(c, exists(n, k, restrict(b, c)))
    # split a disjunction of the form ite(a, TRUE, rest)
    ds = disjuncts(b)
    if len(ds) > 1:
        return Or(*[exists(n, k, d) for d in ds])
    # a comparison monotone in the index: decided at one end
    up = rising(b, k)
    if up:
        return And(pos(n), inst(b, k, sub(n, ONE) if up > 0 else ZERO))
    return form(raw('exists', k, n, b))


def rising(f, k):
    """1 / -1 when the one comparison f is linear in index k and true from / up to some index on, 0 otherwise"""
    if f.op != 'ite' or f.a[0].op != 'pos' or {f.a[1], f.a[2]} != {TRUE, FALSE}:
        return 0
    d, s = as_poly(f.a[0].a[0]), 0
    if d is None:
        return 0
    for m, c in d.items():
        if has_bv(m, k):
            if len(m.a) != 2 or m.a[0] is not raw('bv', k) or m.a[1] != 1:
                return 0
            s = 1 if c > 0 else -1
    return s if f.a[1] is TRUE else -s


def disjuncts(f):
    """split formula as disjunction of literals / residual when it is syntactically  a | b | rest."""
    out = []
    f = form(f)
    while f.op == 'ite':
        if f.a[1] is TRUE:
            out.append(form(f.a[0]))
            f = f.a[2]
        elif f.a[2] is TRUE:
            out.append(Not(form(f.a[0])))
            f = f.a[1]
        else:
            break
    if f is not FALSE:
        out.append(f)
    return out


def length(s):
    o = s.op
    if o == 'list':
        return num(len(s.a))
    if o == 'seq':
        return s.a[1]
    if o == 'flat':
        b = s.a[2]
        return sum_(s.a[1], s.a[0], length(b))
    if o == 'cat':
        r = ZERO
        for p in s.a:
            r = add(r, length(p))
        return r
    if o == 'slice':
        return sub(s.a[2], s.a[1])
    if o in ('store', 'rev', 'sorted', 'sortedby', 'storeall'):
        return length(s.a[0])
    if o == 'ite':
        return ite(raw('ite', s.a[0], TRUE, FALSE), length(s.a[1]), length(s.a[2]))
    if o == 'str':
        return num(len(s.a[0]))
    if o == 'dead':
        return s
    if o == 'patch':
        return length(s.a[1])
    if o == 'upd':
        return length(s.a[0])
    if o == 'repeat':
        return s.a[1]
    if o == 'mkeys':
        c = copied(s.a[0])
        if c is not None:
            return length(raw('mkeys', c[0]))
    return raw('len', s)


def idx(s, i):
    o = s.op
    v = int_val(i)
    if o == 'dead' or i is DEAD:
        return DEAD
    if i.op == 'ite':
        return ite(raw('ite', i.a[0], TRUE, FALSE), idx(s, i.a[1]), idx(s, i.a[2]))
    if o == 'ite':
        return ite(raw('ite', s.a[0], TRUE, FALSE), idx(s.a[1], i), idx(s.a[2], i))
    if o == 'list':
        if v is not None:
            return s.a[v] if 0 <= v < len(s.a) else DEAD
        if s.a and all(x is s.a[0] for x in s.a):
            return s.a[0]
    elif o == 'seq':
        return inst(s.a[2], s.a[0], i)
    elif o == 'flat' and v is not None and v >= 0:
        L = int_val(length(s.a[2]))
        if L:
            return idx(inst(s.a[2], s.a[0], num(v // L)), num(v % L))
    elif o == 'slice':
        return idx(s.a[0], add(i, s.a[1]))
    elif o == 'patch':
        if _ge(i, length(s.a[0])):
            return idx(s.a[1], i)
    elif o == 'store':
        return ite(eq0(sub(i, s.a[1])), s.a[2], idx(s.a[0], i))
    elif o == 'rev':
        return idx(s.a[0], sub(sub(length(s.a[0]), ONE), i))
    elif o == 'cat':
        pre = ZERO
        for p in s.a:
            d = sub(i, pre)
            dv = int_val(d)
            L = length(p)
            if dv is not None and dv >= 0 and p.op == 'list' and dv < len(p.a):
                return p.a[dv]
            lv = int_val(L)
            # negative relative to the end of this part, e.g. L-1
            rem = int_val(sub(d, L))
            if rem is not None and rem < 0 and dv is None:
                if p.op == 'list':
                    break
                return idx(p, d)
            if rem is None and (dv is None or dv < 0 or True):
                # cannot tell which part unless d is provably inside / outside
                if p.op == 'seq' and d.op == 'sym' and False:
                    pass
                if not _ge(d, L):
                    break
            pre = add(pre, L)
    return raw('idx', s, i)


def _ge(a, b):
    """syntactic a >= b for unsigned atoms"""
    d = as_poly(sub(a, b))
    return all(c >= 0 for c in d.values())


def slice_(s, lo, hi):
    if lo is ZERO and hi is length(s):
        return s
    if s.op == 'dead':
        return s
    if s.op == 'slice':
        return slice_(s.a[0], add(s.a[1], lo), add(s.a[1], hi))
    if s.op == 'ite':
        return ite(raw('ite', s.a[0], TRUE, FALSE), slice_(s.a[1], lo, hi), slice_(s.a[2], lo, hi))
    a, b = int_val(lo), int_val(hi)
    if s.op == 'list' and a is not None and b is not None and 0 <= a <= b <= len(s.a):
        return lst(*s.a[a:b])
    if s.op == 'cat':
        # cut at part borders
        ps = list(s.a)
        pre = ZERO
        start = None
        for j, p in enumerate(ps + [None]):
            if pre is lo:
                start = j
            if start is not None and pre is hi:
                return cat(*ps[start:j])
            if p is not None:
                pre = add(pre, length(p))
    if int_val(sub(hi, lo)) == 0:
        return NIL
    if s.op == 'seq':
        i = fresh('i')
        return mkseq(sub(hi, lo), i, idx(s, add(i, lo)))
    return raw('slice', s, lo, hi)


def store(s, i, v):
    o = s.op
    n = int_val(i)
    if o == 'list' and n is not None and 0 <= n < len(s.a):
        l = list(s.a)
        l[n] = v
        return lst(*l)
    if idx(s, i) is v:
        return s
    if o == 'store' and s.a[1] is i:
        return store(s.a[0], i, v)
    return raw('store', s, i, v)


def rev(s):
    if s.op == 'list':
        return lst(*reversed(s.a))
    if s.op == 'rev':
        return s.a[0]
    if s.op == 'seq':
        i = fresh('i')
        return mkseq(s.a[1], i, idx(s, sub(sub(s.a[1], ONE), i)))
    i = fresh('i')
    return mkseq(length(s), i, idx(s, sub(sub(length(s), ONE), i)))


# ------------------------------------------------------------------ maps
MAP0 = raw('map0')
HAS_FACTS = []    # data-structure invariants: f(map, key) -> formula or None


def minsert(m, k, v):
    if m.op == 'minsert' and m.a[1] is k:
        return minsert(m.a[0], k, v)
    return raw('minsert', m, k, v)


def copied(m):
    """m was filled from an empty map with one entry for every key of another map: (that map, key -> value)"""
    if m.op != 'minsall' or m.a[2].op != 'map0':
        return None
    h, n, _, k, v = m.a
    x = fresh('x')
    b = raw('bv', h)
    k, v = subst(k, {b: x}), subst(v, {b: x})
    if k.op != 'idx' or k.a[1] is not x:
        return None
    ks = k.a[0].a[0] if k.a[0].op == 'sorted' else k.a[0]
    if ks.op != 'mkeys' or x.id in ks.fs or n is not length(k.a[0]):
        return None
    key = fresh('key')
    v = subst(v, {k: key})
    if x.id in v.fs:
        return None
    return ks.a[0], lambda q: subst(v, {key: q})


def mhas(m, k):
    if m.op == 'map0':
        return FALSE
    c = copied(m)
    if c is not None:
        return mhas(c[0], k)
    if m.op == 'minsert':
        return Or(eq(k, m.a[1]), mhas(m.a[0], k))
    if m.op == 'mremove':
        return And(Not(eq(k, m.a[1])), mhas(m.a[0], k))
    if m.op == 'ite':
        return ite(raw('ite', m.a[0], TRUE, FALSE), mhas(m.a[1], k), mhas(m.a[2], k))
    for f in HAS_FACTS:
        r = f(m, k)
        if r is not None:
            return r
    return form(raw('has', m, k))


def mval(m, k):
    if m.op == 'map0':
        return DEAD
    c = copied(m)
    if c is not None:
        return c[1](k)
    if m.op == 'minsert':
        return ite(eq(k, m.a[1]), m.a[2], mval(m.a[0], k))
    if m.op == 'mremove' and eq(k, m.a[1]) is FALSE:
        return mval(m.a[0], k)
    if m.op == 'ite':
        return ite(raw('ite', m.a[0], TRUE, FALSE), mval(m.a[1], k), mval(m.a[2], k))
    return raw('mval', m, k)


def mget(m, k):
    return ite(mhas(m, k), Some(mval(m, k)), NONE)


# ------------------------------------------------------------------ substitution
def rebuild(t, go):
    """rebuild t with children mapped by go, through the smart constructors."""
    op = t.op
    a = t.a
    if op in ('sym', 'str', 'bv', 'bw', 'true', 'false', 'dead'):
        return t
    if op in BIND:
        k = a[0]
        # open the binder
        ops = [fresh('o')]
        m = {raw('bv', k): ops[0]}
        if op == 'fold':
            bws = sorted({x for x in _bws(t, k)}, key=lambda x: x.id)
            for w in bws:
                s_ = fresh('w')
                m[w] = s_
                ops.append(s_)
        args = []
        for x in a[1:]:
            args.append(go(subst(x, m)) if type(x) is T else x)
        h = max([x.h for x in args if type(x) is T] + [0]) + 1
        m2 = {ops[0]: raw('bv', h)}
        if op == 'fold':
            for w, s_ in zip(bws, ops[1:]):
                m2[s_] = raw('bw', h, w.a[1])
        args = [subst(x, m2) if type(x) is T else x for x in args]
        return MK[op](h, *args)
    na = tuple(go(x) if type(x) is T else x for x in a)
    if na == a:
        return t
    return remake(op, na)


def _bws(t, k, seen=None):
    seen = set() if seen is None else seen
    for x in t.a:
        if type(x) is T and x.h >= k and x.id not in seen:
            seen.add(x.id)
            if x.op == 'bw' and x.a[0] == k:
                yield x
            else:
                yield from _bws(x, k, seen)


def remake(op, a):
    f = MK.get(op)
    if f:
        return f(*a)
    return raw(op, *a)


def _mkplus(*a):
    r = ZERO
    for i in range(0, len(a), 2):
        m = a[i + 1]
        r = add(r, scale(m if m.op != '*' else from_poly({m: 1}), a[i]))
    return r


def _mktimes(*a):
    r = ONE
    for i in range(0, len(a), 2):
        b = a[i]
        e = a[i + 1]
        if e < 0:
            return raw('*', *a)
        r = mul(r, power(b, num(e)))
    return r


def _mkupd(base, *kv):
    r = base
    for i in range(0, len(kv), 2):
        r = upd(r, kv[i], kv[i + 1])
    return r


def patch(new, old):
    if length(new) is length(old):
        return new
    if new is NIL:
        return old
    return raw('patch', new, old)


MK = {
    'patch': patch,
    '+': _mkplus, '*': _mktimes, 'pow2': pow2, 'pow': power,
    'ite': lambda at, h, l: ite(form(at), h, l),
    'eq0': eq0, 'pos': pos,
    'adt': adt, 'fld': fld, 'upd': _mkupd, 'is': lambda x, v: is_var(x, '', v), 'vf': vf,
    'list': lst, 'cat': cat, 'len': length, 'idx': idx, 'slice': slice_, 'store': store, 'rev': rev,
    'seq': lambda k, n, b: seq(n, k, b), 'flat': lambda k, n, b: flat(n, k, b),
    'sum': lambda k, n, b: sum_(n, k, b), 'prod': lambda k, n, b: prod_(n, k, b),
    'exists': lambda k, n, b: exists(n, k, b),
    'fold': lambda *a: raw('fold', *a), 'lam': lambda *a: raw('lam', *a), 'minsall': lambda *a: raw('minsall', *a),
    'mremove': lambda m, k: raw('mremove', m, k), 'minsert': minsert, 'has': lambda m, k: mhas(m, k), 'mval': mval,
    'div': div, 'mod': mod, 'ceildiv': ceildiv, 'max': mx, 'min': mn, 'maxof': maxof, 'minof': lambda s: maxof(s, mn, 'minof'),
}


def subst(t, m):
    """m: dict from sym/bv/any atom term to term."""
    if not m:
        return t
    symids = frozenset(k.id for k in m if k.op == 'sym')
    others = any(k.op != 'sym' for k in m)
    minh = min([k.a[0] for k in m if k.op in ('bv', 'bw')], default=10 ** 9)
    general = any(k.op not in ('sym', 'bv', 'bw') for k in m)
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not general and not (t.fs & symids if symids and t.fs else False) and t.h < minh:
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op in BIND and not general:
                r = _subst_binder(t, go)
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return r

    def _subst_binder(t, go):
        return rebuild(t, go)
    return go(t)


_inst_memo = {}


def inst(body, k, v):
    if body.h < k:
        return body
    key = (body.id, k, v.id)
    r = _inst_memo.get(key)
    if r is None:
        r = subst(body, {raw('bv', k): v})
        _inst_memo[key] = r
    return r


# ------------------------------------------------------------------ printing
def show(t, d=0, lim=14):
    if type(t) is not T:
        return str(t)
    if t._r is not None:
        return t._r
    r = _show(t, d, lim)
    if d == 0:
        t._r = r
    return r


def _show(t, d, lim):
    op, a = t.op, t.a
    if d > lim:
        return '…'
    s = lambda x: _show(x, d + 1, lim) if type(x) is T else str(x)
    if op == 'sym':
        return a[0]
    if op == 'str':
        return '"%s"' % a[0]
    if op == 'bv':
        return 'i%d' % a[0]
    if op == '+':
        if not a:
            return '0'
        out = []
        for i in range(0, len(a), 2):
            c, m = a[i], a[i + 1]
            if m is ONE_MONO:
                out.append('%+d' % c)
            else:
                cs = '+' if c == 1 else '-' if c == -1 else '%+d*' % c
                out.append(cs + s(m))
        r = ''.join(out)
        return '(' + (r[1:] if r[0] == '+' else r) + ')'
    if op == '*':
        return '*'.join(s(a[i]) + ('' if a[i + 1] == 1 else '^%d' % a[i + 1]) for i in range(0, len(a), 2)) or '1'
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + s(a[0])
        return '{%s ? %s : %s}' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'eq0':
        return '[%s==0]' % s(a[0])
    if op == 'pos':
        return '[%s>0]' % s(a[0])
    if op == 'adt':
        nm = (a[0].split('::')[-1] if a[0] != '()' else '') + ('::' + a[1] if a[1] else '')
        if a[1] in ('Ok', 'Err', 'Some', 'None'):
            nm = a[1]
        if all(n.isdigit() for n in a[2]):
            return nm + '(' + ', '.join(s(x) for x in a[3:]) + ')'
        return nm + '{' + ', '.join(n + ': ' + s(x) for n, x in zip(a[2], a[3:])) + '}'
    if op == 'fld':
        return s(a[0]) + '.' + a[1]
    if op == 'vf':
        return s(a[0]) + '.' + a[1] + ('' if a[2] == '0' else '.' + a[2])
    if op == 'idx':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'slice':
        return '%s[%s..%s]' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'len':
        return '|' + s(a[0]) + '|'
    if op == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if op == 'cat':
        return ' ++ '.join(s(x) for x in a)
    if op in ('seq', 'flat', 'sum', 'prod', 'exists'):
        return '%s(i%d<%s: %s)' % (op, a[0], s(a[1]), s(a[2]))
    if op == 'ev':
        return '<' + ' '.join(s(x) for x in a) + '>'
    return op + '(' + ', '.join(s(x) for x in a) + ')'


def walk_terms(t):
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work += list(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            work += list(x.a)
    return seen
