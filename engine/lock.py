"""Lockstep comparison of a prover-side and a verifier-side protocol summary."""
from terms import *
import iop
import run


def mapt(t, f, memo=None):
    """bottom-up rewriting through the smart constructors"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            r = f(r)
            memo[x.id] = r
        return r
    return go(t)


def nvcanon(x):
    """a bag's / table's declared num_vars is the num_vars of its parts (Bag::new, Table::new check it)"""
    if x.op == 'fld' and x.a[1] == 'num_vars':
        y = x.a[0]
        if y.op == 'fld' and y.a[1] in ('poly', 'selector'):
            return fld(y.a[0], 'num_vars')
        if y.op == 'idx' and y.a[0].op == 'fld' and y.a[0].a[1] == 'col_vals':
            return fld(y.a[0].a[0], 'num_vars')
    return x


def project(t, kinds):
    """the sub-list of events whose kind is in `kinds`"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        o = t.op
        if o == 'list':
            r = lst(*[x for x in t.a if x.op == 'ev' and x.a[0] in kinds])
        elif o == 'cat':
            r = cat(*[go(x) for x in t.a])
        elif o == 'ite':
            r = ite(raw('ite', t.a[0], TRUE, FALSE), go(t.a[1]), go(t.a[2]))
        elif o == 'flat':
            r = flat(t.a[1], t.a[0], go(t.a[2]))
        elif o == 'seq':
            b = t.a[2]
            if b.op == 'ev':
                r = t if b.a[0] in kinds else NIL
            else:
                r = t
        elif o == 'dead':
            r = t
        else:
            r = t
        memo[t.id] = r
        return r
    return go(t)


def foralls(c):
    """[(n, k, b)]: for every i < n, not b(i)  -- implied by c"""
    p, n = lits(c)
    return [x.a for x in n if x.op == 'exists']


def under_forall(t, c):
    """use the facts of c that hold for every element inside the loops of t"""
    facts = foralls(c)
    if not facts:
        return t

    def go(t, dom, memo):
        # dom: {opened index symbol: bound}
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in BIND and t.op != 'fold':
            k, n = t.a[0], t.a[1]
            if isinstance(n, T) and len(t.a) == 3:
                o = fresh('o')
                root = dom.get(n, n)
                body = subst(t.a[2], {raw('bv', k): o})
                fs = TRUE
                for fk, fn_, fb in facts:
                    if fn_ is root:
                        fs = And(fs, Not(inst(fb, fk, o)))
                if fs is not TRUE:
                    body = deep_restrict(body, fs)
                d2 = dict(dom)
                d2[o] = root
                body = go(body, d2, {})
                h = body.h + 1
                r = MK[t.op](h, go(n, dom, memo), subst(body, {o: raw('bv', h)}))
                memo[t.id] = r
                return r
        r = rebuild(t, lambda x: go(x, dom, memo))
        memo[t.id] = r
        return r
    return go(t, {}, {})


TR = ('TrackedPoly', 'TrackedComm')


def trcanon(x):
    """tracked polynomials and tracked commitments correspond by id"""
    if x.op == 'adt' and x.a[0].split('::')[-1] in TR:
        return adt('Tracked', '', ('id',), fld(x, 'id'))
    if x.op == 'adt' and x.a[0].split('::')[-1] in ('Table', 'TableComm'):
        return adt('Table', '', ('col_vals', 'selector'), fld(x, 'col_vals'), fld(x, 'selector'))
    if x.op == 'adt' and x.a[0].split('::')[-1] in ('Bag', 'BagComm'):
        return adt('Bag', '', ('poly', 'selector'), fld(x, 'poly'), fld(x, 'selector'))
    return x


def okc(s):
    if s.val is None:
        return FALSE
    return And(s.st.pc, is_var(s.val, 'core::result::Result', 'Ok'))


def evmap(t, f):
    def g(x):
        return f(x) if x.op == 'ev' else x
    return mapt(t, g)


class Side:
    pass


def side(prog, fn, argvals=None):
    s = run.summarize(prog, fn, argvals=argvals, hooks=dict(iop.HOOKS), setup=iop.SETUP)
    x = Side()
    x.fn = fn
    x.s = s
    x.ok = mapt(okc(s), nvcanon)
    x.trace = mapt(mapt(s.trace, nvcanon), trcanon)
    x.ids = mapt(s.st.mem[iop.CNT], nvcanon) if s.st is not None else None
    x.table = vf(s.val, 'Ok', '0') if s.val is not None else None
    x.payload = mapt(mapt(vf(s.val, 'Ok', '0'), nvcanon), trcanon) if s.val is not None else None
    x.unknown = list(s.I.unknown)
    return x


def assume(x, m):
    y = Side()
    y.fn, y.s, y.unknown, y.table = x.fn, x.s, x.unknown, x.table
    y.ok, y.trace, y.ids, y.payload = [mapt(subst(t, m), lambda z: z) for t in (x.ok, x.trace, x.ids, x.payload)]
    return y


def under(x, c):
    y = Side()
    y.fn = x.fn
    y.trace = under_forall(deep_restrict(x.trace, c), c)
    y.ids = under_forall(deep_restrict(x.ids, c), c)
    y.payload = under_forall(deep_restrict(x.payload, c), c)
    return y


def claimed_ok(e):
    """verifier sum claims must carry the prover's claimed sum for the same id"""
    if e.a[0] == 'sum':
        n, x, v = e.a[1:]
        if v.op == 'claimed' and v.a[0] is n:
            return raw('ev', 'sum', n, x)
        return raw('ev', 'sum', n, x, v)
    return e


def compare(P, V):
    """-> list of (what, prover term, verifier term) that differ"""
    c = And(P.ok, V.ok)
    p, v = under(P, c), under(V, c)
    out = []

    eqs = lenfacts(c)
    facts = known(samelen(c, eqs))
    cutup = lambda x: bounded(samelen(x, eqs), lambda y: samelen(y, eqs), facts)
    fin = lambda x: ident(sums(cutup(sums(x))))
    ptr, vtr = cutup(p.trace), cutup(v.trace)

    def ob(name, a, b):
        a, b = fin(a), fin(b)
        out.append((name, a is b, a, b))
    pm = evmap(project(ptr, {'commit', 'challenge', 'absorb'}),
               lambda e: raw('ev', 'commit', e.a[1], e.a[2]) if e.a[0] == 'commit' else e)
    vm = evmap(project(vtr, {'transfer', 'challenge', 'absorb'}),
               lambda e: (raw('ev', 'commit', e.a[1], e.a[2]) if e.a[3] is e.a[2] else raw('ev', 'commit', e.a[1], e.a[2], e.a[3]))
               if e.a[0] == 'transfer' else e)
    ob('messages', pm, vm)
    ps = evmap(project(ptr, {'sum'}), lambda e: raw('ev', 'sum', e.a[1], e.a[2]))
    vs = evmap(project(vtr, {'sum'}), claimed_ok)
    ob('sum claims', ps, vs)
    ob('zero claims', project(ptr, {'zero'}), project(vtr, {'zero'}))
    ob('ids', p.ids, v.ids)
    ob('result', p.payload, v.payload)
    return out, c, p, v


# ------------------------------------------------------------------ comparison with the reference definition
def norm_spec(t):
    """drop labels and id numbers"""
    def f(x):
        if x.op == 'chal' and len(x.a) == 2:
            return raw('chal', x.a[1])
        if x.op == 'claimed' and len(x.a) == 2:
            return raw('claimed', x.a[1])
        if x.op == 'adt' and x.a[0] == iop.ID and len(x.a[2]) == 2:
            return adt(iop.ID, '', ('e',), fld(x, 'e'))
        return x
    return mapt(t, f)


def present(f):
    """assume every commitment the verifier asks for is in the proof"""
    def g(x):
        if x.op == 'has' and x.a[0].op == 'fld' and x.a[0].a[1] == 'comms':
            return TRUE
        return x
    return mapt(f, g)


def parts(t):
    """the list as a bag of singletons and loops"""
    out = []
    for p in (t.a if t.op == 'cat' else (t,)):
        if p.op == 'list':
            out.extend(p.a)
        else:
            out.append(p)
    return out


def sign(e):
    n = neg(e)
    return e if e.id <= n.id else n


def zsign(t):
    return evmap(t, lambda e: raw('ev', 'zero', sign(e.a[1])) if e.a[0] == 'zero' else e)


def unmodelled(*sides):
    """names of library functions without a model that were met while analysing these functions"""
    return sorted({u for s in sides for u in s.unknown} - {'Iterator::next'})


def ident(t):
    return mapt(t, lambda x: x)


def merge_sum(x):
    """f(0) + sum_{i<n-1} f(i+1)  ->  sum_{i<n} f(i); same for a separate last element"""
    if x.op != '+':
        return x
    d = as_poly(x)
    for mono, c in d.items():
        for j in range(0, len(mono.a), 2):
            s = mono.a[j]
            if s.op != 'sum' or mono.a[j + 1] != 1 or int_val(s.a[1]) is not None:
                continue
            rest = num(c)
            for l in range(0, len(mono.a), 2):
                if l != j:
                    rest = mul(rest, power(mono.a[l], num(mono.a[l + 1])))
            k, n, body = s.a
            for at_, new in ((num(-1), None), (n, body)):
                h = mul(rest, inst(body, k, at_))
                hd = as_poly(h)
                if hd and all(d.get(m_) == c_ for m_, c_ in hd.items()):
                    if new is None:
                        o = fresh('o')
                        ns = mksum(add(n, ONE), o, inst(body, k, sub(o, ONE)))
                    else:
                        ns = sum_(add(n, ONE), k, body)
                    y = add(sub(sub(x, mul(rest, s)), h), mul(rest, ns))
                    return merge_sum(y)
    return x


def sums(t):
    return mapt(t, lambda x: merge_seq(merge_sum(x)))


def merge_seq(x):
    """[f(i) | i < n] ++ [f(n+i) | i < m]  ->  [f(i) | i < n+m]"""
    if x.op != 'cat':
        return x
    out = [x.a[0]]
    for b in x.a[1:]:
        a = out[-1]
        if a.op == b.op and a.op in ('seq', 'flat'):
            o = fresh('o')
            if ident(inst(a.a[2], a.a[0], add(a.a[1], o))) is ident(inst(b.a[2], b.a[0], o)):
                out[-1] = raw(a.op, a.a[0], add(a.a[1], b.a[1]), a.a[2])
                continue
        out.append(b)
    return x if len(out) == len(x.a) else cat(*out)


def selfsimp(ok):
    """simplify the insides of the atoms of a condition by the condition's own literals"""
    p, n = lits(ok)
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'ite':
            if t.a[0] in p:
                r = go(t.a[1])
            elif t.a[0] in n:
                r = go(t.a[2])
            else:
                r = ite(form(go(t.a[0])), go(t.a[1]), go(t.a[2]))
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    top = {}

    def dd(t):
        if t.op != 'ite':
            return t
        r = top.get(t.id)
        if r is None:
            r = top[t.id] = ite(form(go(t.a[0])), dd(t.a[1]), dd(t.a[2]))
        return r
    for _ in range(6):
        r = dd(form(ok))
        if r is ok:
            break
        ok = r
        p, n = lits(ok)
        memo.clear()
        top.clear()
    return ok


nonneg = natural


def lin(f, pre):
    """decide the comparisons of f that follow from one comparison known in pre"""
    p, n = lits(pre)
    ps = [a.a[0] for a in p if a.op == 'pos']
    ns = [a.a[0] for a in n if a.op == 'pos']       # d <= 0
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t.id)
        if r is None:
            a = t.a[0]
            v = None
            if a.op == 'pos':
                q = a.a[0]
                if any(nonneg(sub(q, d)) for d in ps):
                    v = TRUE
                elif any(nonneg(sub(d, q)) for d in ns) or any(nonneg(sub(neg(q), sub(d, ONE))) for d in ps):
                    v = FALSE
            elif a.op == 'eq0':
                q = a.a[0]
                if any(nonneg(sub(q, d)) or nonneg(sub(neg(q), d)) for d in ps):
                    v = FALSE
            if v is TRUE:
                r = go(t.a[1])
            elif v is FALSE:
                r = go(t.a[2])
            else:
                r = ite(form(a), go(t.a[1]), go(t.a[2]))
            memo[t.id] = r
        return r
    return go(form(f))


def tsize(t, seen=None):
    seen = set() if seen is None else seen
    if t.id in seen:
        return 0
    seen.add(t.id)
    return 1 + sum(tsize(x, seen) for x in t.a if isinstance(x, T))


def prefix_facts(t, o, b):
    """t(o) inside `no o has b(o)`: sums over j < o may use not b(j) (induction on o)"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in BIND and x.op != 'fold' and len(x.a) == 3 and x.a[1] is o:
            j = fresh('o')
            body = inst(x.a[2], x.a[0], j)
            body = restrict_inside(body, Not(subst(b, {o: j})))
            h = body.h + 1
            r = MK[x.op](h, o, subst(body, {j: raw('bv', h)}))
        else:
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


def restrict_inside(t, c):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = restrict(x, c) if x.op == 'ite' else x
            if r.op != 'ite':
                r = rebuild(r, go)
            memo[x.id] = r
        return r
    return go(t)


def cross_facts(f):
    """simplify each `no element violates b` conjunct by the simpler ones"""
    f = form(f)
    p, n = lits(f)
    ex = sorted((a for a in n if a.op == 'exists'), key=lambda a: (tsize(a), a.id))
    m = {}
    for i, a in enumerate(ex):
        k, dom, b = a.a
        o = fresh('o')
        body = inst(b, k, o)
        for s_ in ex[:i]:
            if s_.a[1] is dom:
                body = restrict(body, Not(inst(s_.a[2], s_.a[0], o)))
        body = prefix_facts(body, o, inst(b, k, o))
        r = mkexists(dom, o, body)
        if r is not a:
            m[a] = r
    if not m:
        return f
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t.id)
        if r is None:
            a = t.a[0]
            r = memo[t.id] = ite(form(m.get(a, a)), go(t.a[1]), go(t.a[2]))
        return r
    return go(f)


def known(c):
    """numbers that are not negative when c holds"""
    p, n = lits(form(c))
    out = [sub(a.a[0], ONE) for a in p if a.op == 'pos'] + [neg(a.a[0]) for a in n if a.op == 'pos']
    out += [x for a in p if a.op == 'eq0' for x in (a.a[0], neg(a.a[0]))]
    return sorted(out, key=lambda x: x.id)


def bounded(t, norm=lambda x: x, facts=()):
    """use the range of loop variables: i < n decides which part of a list element i is in, conditions on i that
    hold for all or for one end of the range, and i mod n"""
    def go(t, dom, memo):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in BIND and t.op != 'fold' and len(t.a) == 3 and isinstance(t.a[1], T):
            r = binder(t.op, go(t.a[1], dom, memo), t.a[0], t.a[2], dom)
        elif t.op == 'ite' and dom:
            at = go(t.a[0], dom, memo)
            at = ends(at, dom) if at.op in ('pos', 'eq0') else form(at)
            r = go(t.a[1], dom, memo) if at is TRUE else go(t.a[2], dom, memo) if at is FALSE else ite(at, go(t.a[1], dom, memo), go(t.a[2], dom, memo))
        else:
            r = rebuild(t, lambda x: go(x, dom, memo))
            if r.op in ('min', 'max') and facts and len(r.a) == 2:
                for a, b in (r.a, r.a[::-1]):
                    if atleast(b, a):
                        r = a if r.op == 'min' else b
                        break
            if r.op == 'idx' and r.a[0].op == 'cat':
                r = pick(r, dom)
            elif r.op == 'mod' and dom:
                lo, hi = span_(sub(r.a[0], r.a[1]), dom)
                if int_val(hi) is not None and span0(r.a[0], dom):
                    v = int_val(hi)
                    r = r.a[0] if v < 0 else ite(eq0(sub(r.a[0], r.a[1])), ZERO, r.a[0]) if v == 0 else r
        memo[t.id] = r
        return r

    def atleast(a, b):
        d = sub(a, b)
        return nonneg(d) or any(nonneg(sub(d, f)) for f in facts)

    def count(x):
        # a list index is made of natural numbers
        d = as_poly(x)
        return all(c >= 0 for c in d.values()) if d is not None else True

    def pick(r, dom):
        ps, d = r.a[0].a, r.a[1]
        while ps:
            L = norm(length(ps[0]))
            e = span_(sub(d, L), dom)
            if nonneg(e[0]) or count(e[0]):
                d, ps = sub(d, L), ps[1:]
                continue
            if span0(d, dom) and int_val(e[1]) is not None and int_val(e[1]) < 0:
                return idx(ps[0], d)
            if facts and count(d) and atleast(L, add(e[1], ONE)):
                return idx(ps[0], d)
            break
        return r if len(ps) == len(r.a[0].a) else idx(cat(*ps), d)

    def binder(op, n, k, body, dom):
        o = fresh('o')
        d2 = dict(dom)
        d2[o] = dom.get(n, n)
        L = cut(body, k, n)
        if L is not None:
            first = binder(op, L, k, subst(body, {raw('bv', k): raw('bv', k)}), dom)
            o2 = fresh('o')
            rest = inst(body, k, add(o2, L))
            h = rest.h + 1
            second = binder(op, sub(n, L), h, subst(rest, {o2: raw('bv', h)}), dom)
            return JOIN[op](first, second)
        body = go(subst(body, {raw('bv', k): o}), d2, {})
        h = body.h + 1
        return MK[op](h, n, subst(body, {o: raw('bv', h)}))

    def cut(body, k, n):
        """length of the first part of a list that is read at the loop variable, when the loop goes beyond it"""
        if not has_bv(body, k):
            return None
        for x in walk_terms(body):
            if x.op == 'idx' and x.a[0].op == 'cat' and x.a[1].op == 'bv' and x.a[1].a[0] == k and not has_bv(x.a[0], k):
                L = norm(length(x.a[0].a[0]))
                d = sub(n, L)
                if L is not n and nonneg(d) and d is not ZERO:
                    return L
            elif x.op == 'pos' and has_bv(x, k):
                L = turn(x.a[0], k)
                if L is not None and L is not ZERO and L is not n and nonneg(L) and nonneg(sub(n, L)):
                    return L
        return None
    return go(t, {}, {})


def turn(d, k):
    """the index at which  d > 0  changes, when d is  index + c  or  c - index"""
    p = as_poly(d)
    i = None
    for m, c in (p or {}).items():
        if has_bv(m, k):
            if i is not None or len(m.a) != 2 or m.a[1] != 1 or m.a[0].op != 'bv' or c not in (1, -1):
                return None
            i = m.a[0], c
    if i is None:
        return None
    return sub(ONE, sub(d, i[0])) if i[1] == 1 else add(d, i[0])


JOIN = {'seq': cat, 'flat': cat, 'sum': add, 'prod': mul, 'exists': lambda a, b: Or(form(a), form(b))}


def span_(d, dom):
    """smallest and largest value of a polynomial that is linear with coefficients 1 or -1 in loop variables"""
    p = as_poly(d)
    lo = hi = d
    if p is None:
        return lo, hi
    for m, c in p.items():
        if len(m.a) == 2 and m.a[1] == 1 and m.a[0] in dom:
            o = m.a[0]
            if any(o.id in mm.fs for mm in p if mm is not m) or c not in (1, -1):
                return lo, hi
            a, b = ZERO, sub(dom[o], ONE)
            if c < 0:
                a, b = b, a
            lo, hi = subst(lo, {o: a}), subst(hi, {o: b})
    return lo, hi


def span0(d, dom):
    lo = span_(d, dom)[0]
    return int_val(lo) is not None and int_val(lo) >= 0 or nonneg(lo)


def ends(at, dom):
    d = at.a[0]
    lo, hi = span_(d, dom)
    if lo is d and hi is d:
        return form(at)
    l, h = int_val(lo), int_val(hi)
    if at.op == 'pos':
        if h is not None and h <= 0:
            return FALSE
        if l is not None and l >= 1:
            return TRUE
        if h == 1:
            return eq0(sub(d, ONE))
        if l == 0:
            return Not(eq0(d))
    else:
        if (h is not None and h < 0) or (l is not None and l > 0):
            return FALSE
    return form(at)


def lenfact(f):
    """lengths x, y that f says are equal: (atom, y, x)"""
    p, n = lits(f)
    for a in sorted(p, key=lambda t: t.id):
        if a.op != 'eq0' or a.a[0].op != '+' or len(a.a[0].a) != 4:
            continue
        d = as_poly(a.a[0])
        ms = list(d)
        if sorted(d.values()) != [-1, 1] or any(len(m.a) != 2 or m.a[0].op not in ('len', 'fld') for m in ms):
            continue
        x, y = sorted((m.a[0] for m in ms), key=lambda t: t.id)
        yield a, y, x


def lenfacts(f):
    """[(y, x)]: f implies length y = length x"""
    out = []
    f = form(f)
    for _ in range(8):
        for a, y, x in lenfact(f):
            out.append((y, x))
            f = subst(f, {y: x})
            break
        else:
            break
    return out


def samelen(t, eqs):
    for y, x in eqs:
        t = subst(t, {y: x})
    return t


def eqlens(f):
    """f  ==  f with y replaced by x in its other atoms, when f implies x == y"""
    f = form(f)
    for _ in range(4):
        for a, y, x in lenfact(f):
            g = And(form(a), subst(f, {y: x}))
            if g is not f:
                f = g
                break
        else:
            return f
    return f


def squeeze(f):
    """not (x > c) and not (x == c) ... down to a single value:  a natural below 2 that is not 0 is 1"""
    f = form(f)
    for _ in range(6):
        p, n = lits(f)
        for a in sorted(n, key=lambda t: t.id):
            x = add(a.a[0], ONE) if a.op == 'pos' else None
            z = eq0(x) if x is not None and natural(x) else None
            if z is not None and z.op == 'ite' and z.a[0] in n and z.a[1] is TRUE:
                e = eq0(a.a[0])
                f = And(e, restrict(restrict(f, And(Not(form(a)), Not(z))), e))
                break
        else:
            return f
    return f


def against(V, name):
    """verifier summary V against the reference definition -> (run, [(what, ok, code, spec)])"""
    import spec
    m = spec.build(name)
    out = judge(V, m)
    if all(o[1] for o in out):
        return m, out
    # the same steps in another order
    msgs, pools = parts(out[0][2]), [{x.id for x in parts(o[2])} for o in out[1:3]]

    def fits(m):
        c = And(V.ok, m.pre)
        view = lambda xs: parts(ident(sums(under_forall(deep_restrict(subst(cat(*xs), m.subs), c), c))))
        if view(m.msgs) != msgs[:len(view(m.msgs))]:
            return False
        return all(x.id in q for x in view(m.sums) for q in pools[:1])
    m2 = spec.search(name, fits)
    if m2 is not None:
        out2 = judge(V, m2)
        if all(o[1] for o in out2):
            return m2, out2
    return m, out


def judge(V, m):
    """verifier summary V against the reference run m -> [(what, ok, code, spec)]"""
    dom = m.pre
    vok, vtr, mok = V.ok, V.trace, m.ok
    if m.subs:
        vok, vtr, mok, dom = [subst(x, m.subs) for x in (vok, vtr, mok, dom)]
        vok, vtr, mok, dom = [ident(x) for x in (vok, vtr, mok, dom)]
    eqs = lenfacts(And(vok, dom))
    nrm = lambda y: samelen(subst(y, m.subs), eqs)
    facts = known(nrm(And(vok, dom)))
    fin = lambda x: ident(sums(bounded(sums(samelen(x, eqs)), nrm, facts)))
    fin0 = lambda x: ident(sums(bounded(sums(x), nrm)))
    ok = And(norm_spec(present(vok)), dom)
    ok = And(lin(selfsimp(ok), dom), dom)
    sok = And(lin(selfsimp(And(mok, dom)), dom), dom)
    c = And(vok, dom)
    tr = norm_spec(present(under_forall(deep_restrict(vtr, c), c)))
    spec = lambda xs: under_forall(deep_restrict(subst(cat(*xs), m.subs), And(mok, dom)), And(mok, dom))
    out = []
    msgs = evmap(project(tr, {'transfer', 'challenge', 'absorb'}),
                 lambda e: raw('ev', 'commit', e.a[1]) if e.a[0] == 'transfer' else
                 raw('ev', 'challenge', e.a[2]) if e.a[0] == 'challenge' else e)
    a, b = fin(msgs), fin(spec(m.msgs))
    out.append(('messages and challenges', a is b, a, b))
    ss = evmap(project(tr, {'sum'}), lambda e: raw('ev', 'sum', e.a[2]))
    a, b = fin(ss), fin(spec(m.sums))
    out.append(('sum claims', sorted(x.id for x in parts(a)) == sorted(x.id for x in parts(b)), a, b))
    a, b = fin(zsign(fin(project(tr, {'zero'})))), fin(zsign(fin(spec(m.zeros))))
    out.append(('zero claims', sorted(x.id for x in parts(a)) == sorted(x.id for x in parts(b)), a, b))
    a, b = [squeeze(eqlens(cross_facts(fin0(eqlens(selfsimp(present(fin0(eqlens(squeeze(x)))))))))) for x in (ok, sok)]
    out.append(('acceptance condition', a is b, a, b))
    return out


def eta(x):
    """a tracked value or table written out field by field is that value"""
    if x.op == 'adt' and x.a[0].split('::')[-1] in TR + ('Tracked',):
        e = fld(fld(x, 'id'), 'e')
        if e.op == 'fld' and e.a[0].op == 'fld' and e.a[0].a[1] == 'id':
            return e.a[0].a[0]
        return adt('Tracked', '', ('id',), adt(iop.ID, '', ('e',), e))
    if x.op == 'adt' and x.a[0].split('::')[-1] in ('Table', 'TableComm') and 'num_vars' in x.a[2]:
        return adt('Table', '', ('col_vals', 'selector', 'num_vars'), fld(x, 'col_vals'), fld(x, 'selector'), fld(x, 'num_vars'))
    return x


def result(V, m):
    dom = m.pre
    c = And(V.ok, dom)
    eqs = lenfacts(And(subst(V.ok, m.subs), dom))
    nrm = lambda y: samelen(subst(y, m.subs), eqs)
    facts = known(nrm(c))
    fin_ = lambda x, m: ident(sums(bounded(sums(samelen(x, eqs)), nrm, facts)))
    f = lambda t, c: mapt(fin_(norm_spec(under_forall(deep_restrict(subst(t, m.subs), c), c)), m), eta)
    return f(V.table, c), f(m.result, And(m.ok, dom))
