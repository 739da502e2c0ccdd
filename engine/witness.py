"""Prover side: the columns an honest prover derives from the data by counting with maps.

The maps are recognised by their effect: one step of the loop that fills them, decided in three cases
(row not selected; selected with a new value; selected with a value seen before). A loop with other
ingredients than tests, lookups and insertions is left undecided."""
from terms import *
import iop
import lock
import run


class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


class Bag:
    """a column and its selector, as the caller passed them"""

    def __init__(self, name, poly, sel, nv, table=False):
        self.name, self.nv = name, nv
        self.sizes = [pow2(nv)]
        if table:
            self.p = lambda i: idx(fld(poly, 'evaluations'), i)
            self.s = lambda i: idx(fld(sel, 'evaluations'), i)
            self.sizes += [length(fld(x, 'evaluations')) for x in (poly, sel)]
        else:
            self.p = lambda i: iop.pv(fld(fld(poly, 'id'), 'e'), i)
            self.s = lambda i: iop.pv(fld(fld(sel, 'id'), 'e'), i)
        self.cnt = raw('sym', 'rows of %s per value' % name)
        self.idx = raw('sym', 'row of %s per value' % name)


def boolean(t, s):
    """selectors are 0 or 1: [s = 1] is ![s = 0]"""
    one = eq0(sub(s, ONE))
    if one.op != 'ite':
        return t
    a = one.a[0]
    yes = one.a[1] is TRUE
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == 'ite' and x.a[0] is a:
                hi, lo = go(x.a[1]), go(x.a[2])
                r = ite(Not(eq0(s)), hi, lo) if yes else ite(eq0(s), hi, lo)
            else:
                r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def case(t, s, on, also=TRUE):
    """t at a row whose selector s is 1 (on) or 0"""
    t = deep_restrict(t, And(Not(eq0(s)) if on else eq0(s), also))
    m = {s: ONE if on else ZERO}
    return deep_restrict(subst(t, m), subst(also, m))


def mentions(t, m):
    return m.id in t.fs


PLAIN = {'ite', 'has', 'mval', 'minsert', 'mremove', '+', '*', 'eq0', 'pos', 'list', 'cat', 'and', 'or', 'not', 'eq'}


def plain(t, *states):
    """everything in t that depends on the states is a test, a lookup or an update"""
    seen = set()
    w = [t]
    while w:
        x = w.pop()
        if x.id in seen or not any(mentions(x, m) for m in states):
            continue
        seen.add(x.id)
        if x in states:
            continue
        if x.op not in PLAIN:
            return False
        w += [y for y in x.a if type(y) is T]
    return True


def opened(f):
    """(index, states, inits, bodies) of a fold over fresh symbols"""
    h, j, k, n = f.a[:4]
    rest = f.a[4:]
    if len(rest) != 2 * k or not isinstance(n, T):
        raise Undecided('a loop with another shape')
    i = fresh('i')
    ms = [fresh('state') for _ in range(k)]
    sb = {raw('bv', h): i}
    sb.update({raw('bw', h, q): ms[q] for q in range(k)})
    return i, ms, list(rest[:k]), [subst(b, sb) for b in rest[k:]]


def rows(ctx, n, bag, what):
    want = pow2(bag.nv)
    sizes = [lock.mapt(w, lambda x: x) for w in bag.sizes]
    if all(lock.mapt(x, lambda x: x) in sizes for x in (n.a if n.op == 'min' else [n])):
        return
    d = int_val(sub(want, n))
    if d is not None or is_int(n) or n.op == 'pow2' or (as_poly(n) and all(m is ONE_MONO or m.a[0].op == 'pow2' for m in as_poly(n))):
        raise Wrong('%s covers %s rows instead of %s' % (what, show(n)[:80], show(want)[:80]))
    raise Undecided('%s covers %s rows' % (what, show(n)[:80]))


def mapfold(ctx, f, bags):
    """the recognised meaning of a map filled by a loop over one of the bags, or None"""
    if f.op != 'fold':
        return None
    h, j, k, n = f.a[:4]
    if len(f.a) != 4 + 2 * k or f.a[4 + j].op != 'map0':
        return None
    i, ms, inits, bodies = opened(f)
    m, b = ms[j], bodies[j]
    if any(mentions(b, x) for q, x in enumerate(ms) if q != j):
        return None
    found = None
    for bag in bags:
        q = position(b, i, bag)
        if q is not None and q is not i:
            # the same loop, counting the row itself
            c = sub(q, i)
            if i.id not in c.fs:
                b = subst(b, {i: sub(i, c)})
                m_lo, m_n = c, n
            else:
                c = add(q, i)
                if i.id in c.fs:
                    continue
                b = subst(b, {i: sub(c, i)})
                m_lo, m_n = sub(add(c, ONE), n), n
            b = lock.mapt(b, lambda x: x)
            if m_lo is not ZERO:
                if is_int(m_lo):
                    raise Wrong('the map over %s starts at row %s' % (bag.name, show(m_lo)))
                return None
        p, s = bag.p(i), bag.s(i)
        if not (_reads(b, p) or _reads(b, s)):
            continue
        found = bag
        b2 = boolean(b, s)
        off = case(b2, s, False)
        seen = mhas(m, p)
        new = case(b2, s, True, Not(seen))
        old = case(b2, s, True, seen)
        if not plain(b2, m):
            raise Undecided('the map over %s is filled in a way that is not recognised' % bag.name)
        if off is m and new is minsert(m, p, ONE) and old is minsert(m, p, add(ONE, mval(m, p))):
            rows(ctx, n, bag, 'the count of %s' % bag.name)
            return bag.cnt
        if off is m and new is minsert(m, p, UNIT) and old in (m, new):
            rows(ctx, n, bag, 'the set of values of %s' % bag.name)
            return bag.cnt
        if off is m and new is minsert(m, p, i) and old in (m, minsert(m, p, i)):
            rows(ctx, n, bag, 'the index of %s' % bag.name)
            return bag.idx
    if found is not None:
        raise Wrong('the map over %s neither counts its selected rows per value nor gives the row of a value: %s'
                    % (found.name, show(f, 0, 12)[:600]))
    return None


def position(t, i, bag):
    """the row of the bag that step i of the loop reads"""
    op, col = bag.p(i).op, (bag.p(i).a[0], bag.s(i).a[0])
    out = set()
    seen = set()
    w = [t]
    while w:
        y = w.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == op and y.a[0] in col and mentions(y.a[1], i):
            out.add(y.a[1])
        w += [z for z in y.a if type(z) is T]
    return out.pop() if len(out) == 1 else None


def _reads(t, x):
    seen = set()
    w = [t]
    while w:
        y = w.pop()
        if y is x:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        w += [z for z in y.a if type(z) is T]
    return False


def abstract(ctx, t, bags):
    """t with the recognised maps replaced by their meaning"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = mapfold(ctx, x, bags)
            if r is None:
                r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def count(c, k):
    return ite(mhas(c, k), mval(c, k), ZERO)


def multiplicity(ctx, t, sup, inc):
    """t lists, for every row of sup, how many selected rows of inc have its value; each value is counted once"""
    if t.op == 'seq':
        i = fresh('i')
        b = iop.at(t, i)
        if mentions(b, inc.cnt):
            raise Wrong('a value that occurs in several rows of %s is counted in each of them' % sup.name)
        raise Undecided('list of multiplicities is %s' % show(t)[:200])
    if t.op != 'fold':
        raise Undecided('list of multiplicities is %s' % show(t)[:200])
    h, j, k, n = t.a[:4]
    i, ms, inits, bodies = opened(t)
    if inits[j] is not NIL:
        raise Undecided('the list does not start empty')
    L, b = ms[j], bodies[j]
    maps = [q for q in range(k) if q != j and mentions(b, ms[q])]
    if len(maps) != 1:
        raise Undecided('the list depends on %d states' % len(maps))
    q = maps[0]
    m, u = ms[q], bodies[q]
    if inits[q] is not inc.cnt:
        if inits[q].op == 'sym':
            raise Wrong('the multiplicities are %s, not %s' % (inits[q].a[0], inc.cnt.a[0]))
        raise Undecided('the state starts as %s' % show(inits[q])[:200])
    rows(ctx, n, sup, 'the list of multiplicities')
    p, s = sup.p(i), sup.s(i)
    b, u = boolean(b, s), boolean(u, s)
    if not plain(b, L, m) or not plain(u, m) or mentions(u, L):
        raise Undecided('the multiplicities are listed in a way that is not recognised')
    has = mhas(m, p)
    off = case(b, s, False)
    if not (len(lock.parts(off)) == 2 and lock.parts(off)[0] is L):
        raise Wrong('an unselected row of %s adds %s' % (sup.name, show(off)[:200]))
    if case(u, s, False) is not m:
        raise Wrong('an unselected row of %s changes the counts' % sup.name)
    for c, v in ((has, mval(m, p)), (Not(has), ZERO)):
        x = case(b, s, True, c)
        if x is not cat(L, lst(v)):
            raise Wrong('a selected row of %s adds %s instead of %s' % (sup.name, show(x)[:200], show(v)[:100]))
        x = case(u, s, True, c)
        if x not in (minsert(m, p, ZERO), raw('mremove', m, p)) and not (x is m and c is not has):
            raise Wrong('after a selected row of %s the counts are %s' % (sup.name, show(x)[:200]))


def keyset(t):
    """the maps whose keys make up the set t"""
    if t.op == 'mkeys':
        t = t.a[0]
    if t.op == 'map0':
        return frozenset()
    if t.op == 'sym':
        return frozenset([t])
    if t.op == 'minsall':
        h, n, init, k, v = t.a
        if k.op == 'idx' and k.a[1] is raw('bv', h):
            src = k.a[0]
            if n is length(src):
                r = keyset(init)
                for x in lock.parts(src):
                    x = x.a[0] if x.op == 'sorted' else x
                    if x.op != 'mkeys':
                        raise Undecided('set filled from %s' % show(x)[:100])
                    r = r | keyset(x)
                return r
    raise Undecided('set is %s' % show(t)[:200])


def merged(ctx, fn, P, a, b):
    """disjointness: the distinct values of both bags in order, preceded by unselected rows, and the count of each in both"""
    com = commits(P, 4)
    lists = [abstract(ctx, x.a[4], (a, b)) for x in com[:4]]
    nv = [x.a[3] for x in com[:4]]
    cut = [lock.parts(x) for x in lists]
    if len(cut[0]) != 2:
        raise Undecided('the committed values are not padding followed by values')
    front = length(cut[0][0])
    T_ = cut[0][1]
    i = fresh('i')
    if T_.op == 'sorted' and T_.a[0].op in ('mkeys', 'minsall'):
        core = T_.a[0]
    elif T_.op == 'dedup' and T_.a[0].op == 'sorted':
        core = T_.a[0].a[0]
    elif T_.op == 'sorted' and T_.a[0].op == 'cat' and len(T_.a[0].a) > 1 and all(x.op == 'mkeys' for x in T_.a[0].a):
        raise Wrong('a value of both bags occurs twice among the merged values')
    elif T_.op in ('mkeys', 'minsall'):
        raise Wrong('the merged values are in no particular order')
    else:
        if T_.op == 'seq':
            x = iop.at(T_, i)
            if x.op == 'idx' and x.a[0].op == 'sorted' and x.a[1] is sub(sub(length(T_), ONE), i):
                raise Wrong('the merged values are in descending order')
        raise Undecided('the merged values are %s' % show(T_)[:200])
    ks = frozenset().union(*[keyset(x) for x in lock.parts(core)])
    if ks != frozenset([a.cnt, b.cnt]):
        raise Wrong('the merged values are those of: %s' % ', '.join(sorted(x.a[0] for x in ks)))
    U = length(T_)
    for j, x in enumerate(lists):
        if nv[j] is not nv[0]:
            raise Wrong('column %d has another size' % j)
        if length(x) is not length(lists[0]):
            raise Wrong('column %d has %s rows' % (j, show(length(x))[:100]))
    key = idx(T_, i)
    for j, v, what in ((1, ONE, 'selector'), (2, count(a.cnt, key), 'count in the first bag'), (3, count(b.cnt, key), 'count in the second bag')):
        for n, off, want in ((front, ZERO, ZERO), (U, front, v)):
            x = part(lists[j], off, n)
            w = mkseq(n, i, want)
            if x is None:
                x = lock.bounded(mkseq(n, i, idx(lists[j], add(off, i))))
                w = lock.bounded(w)
            x, w = [lock.ident(lock.mapt(y, lambda z: z)) for y in (x, w)]
            if x is not w:
                if strange(x):
                    raise Undecided('the %s is %s' % (what, show(x)[:200]))
                raise Wrong('the %s is %s instead of %s' % (what, show(x)[:300], show(w)[:200]))


def part(t, off, n):
    """the consecutive parts of the list t that make up positions off..off+n, None if they are cut elsewhere"""
    at, out = ZERO, []
    for p in (t.a if t.op == 'cat' else (t,)):
        if at is off or out:
            out.append(p)
            if length(cat(*out)) is n:
                return cat(*out)
        at = add(at, length(p))
    return None


def strange(t):
    seen = set()
    w = [t]
    while w:
        y = w.pop()
        if y.op in ('fold', 'flat', 'call', 'post', 'closure', 'store', 'storeall', 'patch', 'sortedby'):
            return True
        if y.id not in seen:
            seen.add(y.id)
            w += [z for z in y.a if type(z) is T]
    return False


def events(P):
    tr = lock.ident(lock.samelen(deep_restrict(P.trace, P.ok), lock.lenfacts(P.ok)))
    return lock.parts(tr)


def commits(P, n):
    evs = []
    for p in events(P):
        if p.op != 'ev':
            break
        if p.a[0] == 'commit':
            evs.append(p)
    if len(evs) < n:
        raise Undecided('the columns are sent in a loop')
    return evs


def bag_arg(j, name):
    v = raw('sym', 'a%d' % j)
    return Bag(name, fld(v, 'poly'), fld(v, 'selector'), fld(v, 'num_vars'))


def inclusion(inc, sup):
    def rule(ctx, fn, P):
        c = commits(P, 1)[0]
        a, b = bag_arg(inc, 'the included bag'), bag_arg(sup, 'the containing bag')
        if c.a[3] is not b.nv:
            if c.a[3] is a.nv:
                raise Wrong('the multiplicities have as many rows as the included bag')
            raise Undecided('size of the multiplicities is %s' % show(c.a[3])[:100])
        multiplicity(ctx, abstract(ctx, c.a[4], (a, b)), b, a)
    return rule


def disjoint(ctx, fn, P):
    merged(ctx, fn, P, bag_arg(1, 'the first bag'), bag_arg(2, 'the second bag'))


def el(t, off, n, i):
    """element off+i of the list t, for i below n, with what t is made of resolved to single elements"""
    if t.op == 'cat':
        q = part(t, off, n)
        if q is None:
            flat = cat(*[x for _, x in segments(t)])
            if len(lock.parts(flat)) > len(t.a):
                return el(flat, off, n, i)
        if q is None or q.op == 'cat':
            if not strange(t):
                raise Wrong('the columns are not lined up: %s' % show(t)[:300])
            raise Undecided('the list is cut at other places: %s' % show(t)[:200])
        return el(q, ZERO, n, i)
    if t.op == 'fold':
        h, j, k, m = t.a[:4]
        rest = t.a[4:]
        if k != 1 or len(rest) != 2:
            raise Undecided('the list is filled by a loop with several states')
        it, ms, inits, bodies = opened(t)
        M, old = ms[0], fresh('old')
        ats = set()
        find(bodies[0], lambda x: x.op == 'store' and x.a[0] is M and ats.add(x.a[1]))
        if len(ats) != 1 or any(it.id in sub(x, it).fs for x in ats):
            raise Undecided('a loop rewrites rows %s' % ', '.join(show(x)[:60] for x in ats))
        at = ats.pop()

        def go(b):
            if b is M:
                return old
            if b.op == 'ite' and not mentions(b.a[0], M):
                return ite(b.a[0], go(b.a[1]), go(b.a[2]))
            if b.op == 'store' and b.a[0] is M and b.a[1] is at:
                v = subst(b.a[2], {idx(M, at): old})
                if not mentions(v, M):
                    return v
            raise Undecided('a row is rewritten as %s' % show(b)[:200])
        c = sub(at, it)
        r = add(off, i)
        was = el(inits[0], off, n, i)
        now = els(subst(subst(go(bodies[0]), {it: sub(r, c)}), {old: was}), off, n, i)
        end = add(off, n)
        if lt(off, c) is FALSE and lt(add(c, m), end) is FALSE:
            return now
        if lt(off, add(c, m)) is FALSE or lt(c, end) is FALSE:
            return was
        if not sampled(lambda v: v(off) < v(c) or v(add(c, m)) < v(end)):
            raise Undecided('a loop over %s rows from %s' % (show(m)[:80], show(c)[:80]))
        return ite(lt(r, c), was, ite(lt(r, add(c, m)), now, was))
    return els(idx(t, add(off, i)), off, n, i)


def find(t, f):
    seen = set()
    w = [t]
    while w:
        y = w.pop()
        if y.id not in seen:
            seen.add(y.id)
            f(y)
            w += [z for z in y.a if type(z) is T]


def sampled(test):
    """the test holds for some sizes; False if it holds for none of those tried or cannot be worked out"""
    def value(t, env):
        n = int_val(t)
        if n is not None:
            return n
        tot = 0
        for mo, k in as_poly(t).items():
            for x, e in zip(mo.a[::2], mo.a[1::2]):
                if x.op == 'pow2':
                    v = 2 ** value(x.a[0], env)
                elif x.op in ('max', 'min'):
                    v = (max if x.op == 'max' else min)(value(y, env) for y in x.a)
                elif x.op == 'fld' and x.a[1] == 'num_vars':
                    v = env.setdefault(x, ENV[len(env) % 2])
                else:
                    raise Undecided('size %s' % show(t)[:100])
                k *= v ** e
            tot += k
        return tot
    for ENV in ((1, 2), (2, 1), (3, 3), (1, 4), (4, 1), (7, 7), (9, 3), (3, 9), (12, 12)):
        env = {}
        if test(lambda t: value(t, env)):
            return True
    return False


def size(t):
    return length(t.a[4] if t.op == 'fold' and t.a[2] == 1 and len(t.a) == 6 else t)


def within(t, n, i):
    """t for i below n: comparisons which that decides"""
    left, memo = sub(n, i), {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            if r.op == 'pos' and as_poly(r.a[0]) is not None:
                if naturally(sub(r.a[0], left), i):
                    r = TRUE
                elif naturally(sub(neg(r.a[0]), left), i):
                    r = FALSE
            memo[x.id] = r
        return r
    return go(t)


def naturally(t, i):
    return all(c >= 0 and all(x is i or x.op in ('len', 'pow2', 'max') for x in m.a[::2]) for m, c in (as_poly(t) or {}).items())


def els(t, off, n, i):
    pos = add(off, i)
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == 'idx' and x.a[1] is pos and x.a[0].op in ('cat', 'fold'):
                r = el(x.a[0], off, n, i)
            elif x.op == 'idx' and x.a[0].op == 'cat' and iop.at(*x.a) is not x:
                r = els(iop.at(*x.a), off, n, i)
            elif x.op == 'seq' or x.op == 'fold':
                r = x
            else:
                r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def unsort(v, s):
    """(values, selectors) before both were put in ascending order of (value, selector) or (selector, value)"""
    i, j = fresh('i'), fresh('j')
    x, y = iop.at(v, i), iop.at(s, i)
    X, Y = raw('sym', 'cmpx'), raw('sym', 'cmpy')
    vx, sx, vy, sy = [fresh(q) for q in ('vx', 'sx', 'vy', 'sy')]
    order = lambda t: {p for p in collect(t) if p.op == 'idx' and p.a[0].op in ('sortedby', 'sorted') and p.a[1] is i}
    ox, oy = order(x), order(y)
    for o, t, other in ((ox, v, oy), (oy, s, ox)):
        if not o and not any(p.op in ('sortedby', 'sorted', 'call', 'post', 'flat', 'patch') for p in collect(t)):
            segments(t)
            raise Wrong('the values and their selectors are not put in order' if not other else 'the values and their selectors are not put in order together')
    if len(ox) != 1 or len(oy) != 1 or ox != oy:
        raise Undecided('the values are %s' % show(x)[:200])
    p = ox.pop()
    L, src = p.a[0], p.a[0].a[0]
    x, y = subst(x, {p: j}), subst(y, {p: j})
    if i.id in x.fs or i.id in y.fs:
        if not strange(x) and not strange(y):
            raise Wrong('the values and their selectors are reordered differently')
        raise Undecided('the values are %s' % show(x)[:200])
    if src.op == 'seq' and iop.at(src, j) is j and src.a[1] is v.a[1]:
        # the rows are numbered and the numbers put in order
        V, S = mkseq(src.a[1], j, x), mkseq(src.a[1], j, y)
        if V.op != 'seq' and not x.op == 'idx' or S.op != 'seq' and not y.op == 'idx':
            raise Undecided('the values are %s' % show(x)[:200])
        if L.op == 'sorted':
            raise Wrong('the values are in no particular order')
        el_ = lambda t, q: subst(t, {j: q})
        r = subst(L.a[1], {el_(x, X): vx, el_(y, X): sx, el_(x, Y): vy, el_(y, Y): sy})
        V, S = [q if t.op != 'idx' or t.a[1] is not j else t.a[0] for q, t in ((V, x), (S, y))]
    elif x.op == 'fld' and y.op == 'fld' and x.a[0] is j and y.a[0] is j:
        V, S = [listof(src, q.a[1]) for q in (x, y)]
        if L.op == 'sorted':
            r = tup(vx, sx) if (x.a[1], y.a[1]) == ('0', '1') else tup(sx, vx)
        else:
            m = [{x.a[1]: p, y.a[1]: q} for p, q in ((vx, sx), (vy, sy))]
            r = subst(L.a[1], {fld(X, x.a[1]): vx, fld(X, y.a[1]): sx, fld(Y, x.a[1]): vy, fld(Y, y.a[1]): sy,
                               X: tup(m[0]['0'], m[0]['1']), Y: tup(m[1]['0'], m[1]['1'])})
    else:
        raise Undecided('the values are %s' % show(x)[:200])
    good = [(tup(vx, sx), tup(vy, sy)), (tup(sx, vx), tup(sy, vy))]
    if r.op != 'cmp':
        r = raw('cmp', r, subst(r, {vx: vy, sx: sy}))
    if (r.a[0], r.a[1]) not in good:
        known = [vx, sx, vy, sy, X, Y]
        if strange(r):
            raise Undecided('the order is %s' % show(r)[:200])
        raise Wrong('the rows are ordered by %s' % show(r)[:200])
    return V, S


def collect(t):
    out = []
    find(t, out.append)
    return out


def segments(t):
    """(length, list) of the consecutive parts of t that are built in one way"""
    out = []
    if t.op == 'fold' and len(t.a) == 6:
        off = ZERO
        for n, q in segments(t.a[4]):
            i = fresh('i')
            out.append((n, mkseq(n, i, el(t, off, n, i))))
            off = add(off, n)
        return out
    for q in lock.parts(t):
        n = length(q)
        inner = None
        if q.op == 'seq':
            i = fresh('i')
            for x in collect(iop.at(q, i)):
                if x.op == 'idx' and x.a[0].op in ('cat', 'fold') and x.a[1] is i and size(x.a[0]) is n:
                    inner = x.a[0]
        if inner is None:
            out.append((n, q))
            continue
        off = ZERO
        for m, _ in segments(inner):
            i = fresh('i')
            out.append((m, mkseq(m, i, el(q, off, m, i))))
            off = add(off, m)
    return out


def listof(t, f):
    if t.op == 'cat':
        return cat(*[listof(x, f) for x in t.a])
    if t.op == 'seq':
        i = fresh('i')
        return mkseq(t.a[1], i, fld(iop.at(t, i), f))
    if t.op == 'list':
        return lst(*[fld(x, f) for x in t.a])
    raise Undecided('the rows are %s' % show(t)[:200])


def union(order):
    def rule(ctx, fn, P):
        a, b = bag_arg(1, 'the first bag'), bag_arg(2, 'the second bag')
        cv, cs = commits(P, 2)[:2]
        V, S = cv.a[4], cs.a[4]
        if cv.a[3] is not cs.a[3]:
            raise Wrong('values and selectors have different sizes')
        N = pow2(cv.a[3])
        if order:
            V, S = unsort(V, S)
        if size(V) is not size(S) or size(V) is not N:
            raise Wrong('%s values and %s selectors for %s rows' % (show(size(V))[:100], show(size(S))[:100], show(N)[:80]))
        todo = [a, b]
        off = ZERO
        def segment(q, n, off):
            i = fresh('i')
            s, v = within(el(q, ZERO, n, i), n, i), within(el(V, off, n, i), n, i)
            hit = [x for x in todo if s is x.s(i) or not order and s is mul(x.s(i), x.s(i))]
            if hit:
                x = hit[0]
                todo.remove(x)
                rows(ctx, n, x, 'the part from %s' % x.name)
                v = boolean(v, x.s(i))
                z = case(v, x.s(i), True)
                if z is not x.p(i):
                    if strange(z):
                        raise Undecided('a selected row is %s' % show(z)[:200])
                    raise Wrong('a selected row of %s becomes %s' % (x.name, show(z)[:200]))
                if order:
                    z = case(v, x.s(i), False)
                    if z is not ZERO:
                        if strange(z):
                            raise Undecided('an unselected row is %s' % show(z)[:200])
                        raise Wrong('an unselected row of %s becomes %s, which is sorted among the selected ones' % (x.name, show(z)[:200]))
            elif s is ZERO:
                if order and v is not ZERO:
                    if strange(v):
                        raise Undecided('padding is %s' % show(v)[:200])
                    raise Wrong('the padding is %s' % show(v)[:200])
            else:
                if strange(s):
                    raise Undecided('selector is %s' % show(s)[:200])
                raise Wrong('the selector has a part %s' % show(s)[:200])

        unsure = None
        for n, q in segments(S):
            try:
                segment(q, n, off)
            except Undecided as e:
                unsure = e
            off = add(off, n)
        if unsure:
            raise unsure
        for x in todo:
            raise Wrong('the rows of %s are missing' % x.name)
    return rule


def join(ctx, fn, P):
    t = [raw('sym', 'a%d' % j) for j in range(5)]
    cols = lambda v: fld(v, 'col_vals')
    sel = lambda v: fld(v, 'selector')
    a = Bag('the first table', idx(cols(t[1]), t[3]), sel(t[1]), fld(t[1], 'num_vars'))
    b = Bag('the second table', idx(cols(t[2]), t[4]), sel(t[2]), fld(t[2], 'num_vars'))
    ev = events(P)
    if not ev or ev[0].op != 'seq':
        raise Undecided('the columns are not sent first')
    j = fresh('col')
    if length(ev[0]) is not length(cols(t[1])):
        raise Wrong('%s columns are sent' % show(length(ev[0]))[:100])
    e = iop.at(ev[0], j)
    if e.op != 'ev' or e.a[0] != 'commit':
        raise Undecided('the columns are not sent first')
    body = abstract(ctx, e.a[4], (a, b))
    if body.op != 'seq':
        raise Undecided('the column is %s' % show(body)[:200])
    if e.a[3] is not b.nv:
        if e.a[3] is a.nv:
            raise Wrong('the result has as many rows as the first table')
        raise Undecided('size of the result is %s' % show(e.a[3])[:100])
    rows(ctx, length(body), b, 'the result')
    i = fresh('i')
    x = boolean(iop.at(body, i), b.s(i))
    x = case(x, b.s(i), True)
    col = idx(cols(t[1]), j)
    key = b.p(i)
    want = iop.pv(fld(fld(col, 'id'), 'e'), mval(a.idx, key))
    if x is not want:
        if strange(x):
            raise Undecided('a row of the result is %s' % show(x)[:200])
        raise Wrong('a row of the result is %s instead of %s' % (show(x)[:300], show(want)[:200]))


def leaves(t):
    return leaves(t.a[1]) | leaves(t.a[2]) if t.op == 'ite' else {t}


def split(ctx):
    """join reduction: the rows of either column whose value does not occur in the other"""
    fn = 'utils::calc_join_reduction_lr_sel_advice'
    s = run.summarize(ctx.prog(), fn, hooks=dict(iop.HOOKS), setup=iop.SETUP)
    ctx.saw(fn)
    if s.I.unknown:
        raise Undecided('not modelled: ' + ', '.join(sorted(s.I.unknown)))
    t = [raw('sym', 'a%d' % j) for j in range(4)]
    a = Bag('the first bag', t[0], t[1], fld(t[0], 'num_vars'), True)
    b = Bag('the second bag', t[2], t[3], fld(t[2], 'num_vars'), True)
    for j, x, y in ((0, a, b), (1, b, a)):
        v = fld(s.val, str(j))
        if fld(v, 'num_vars') is not x.nv:
            raise Wrong('the selector of %s has another size' % x.name)
        e = abstract(ctx, fld(v, 'evaluations'), (a, b))
        if e.op == 'flat':
            i = fresh('i')
            per = {length(q) for q in leaves(subst(e.a[2], {raw('bv', e.a[0]): i}))}
            if len(e.a) == 3 and len(per) > 1 and per <= {ZERO, ONE, num(2)} and not strange(e.a[2]):
                raise Wrong('the selector of %s has no value for some rows: %s' % (x.name, show(e)[:200]))
        if e.op != 'seq':
            raise Undecided('the selector of %s is %s' % (x.name, show(e)[:200]))
        rows(ctx, length(e), x, 'the selector of %s' % x.name)
        i = fresh('i')
        r = boolean(iop.at(e, i), x.s(i))
        r = digits(r)
        if not leaves(r) <= {ZERO, ONE}:
            raise Undecided('the selector of %s is %s' % (x.name, show(r)[:200]))
        r = case(r, x.s(i), True)
        h, n = mhas(y.cnt, x.p(i)), mval(y.cnt, x.p(i))
        for k in (ONE, num(2), num(3)):
            if deep_restrict(subst(r, {n: k}), h) is ONE:
                raise Wrong('the selector of %s includes values that occur %s times in the other' % (x.name, show(k)))
        for c, want in ((And(h, And(Not(eq0(n)), lt(ZERO, n))), ZERO), (Not(h), ONE)):
            z = deep_restrict(r, c)
            if z is not want:
                if strange(z) or not all(q.op in ('has', 'sym') for q in tests(z)):
                    raise Undecided('the selector of %s is %s' % (x.name, show(r)[:200]))
                raise Wrong('the selector of %s is %s instead of %s' % (x.name, show(r)[:200], show(ite(h, ZERO, ONE))[:200]))


def digits(t):
    """a truth value as a number"""
    if t.op == 'ite':
        return ite(t.a[0], digits(t.a[1]), digits(t.a[2]))
    return ONE if t is TRUE else ZERO if t is FALSE else ite(t, ONE, ZERO) if t.op == 'has' else t


def tests(t):
    return {t.a[0]} | tests(t.a[1]) | tests(t.a[2]) if t.op == 'ite' else set()


TABLE = [('BagInclusionIOP::prove', inclusion(1, 2)), ('BagSuppIOP::prove', inclusion(1, 2)), ('BagDisjointIOP::prove', disjoint),
         ('SetUnionIOP::prove', union(False)), ('SetDisjointIOP::prove', union(True)),
         ('FinalJoinOneToManyIOP::prove', join), ('utils::calc_join_reduction_lr_sel_advice', None)]


def rule(ctx):
    import iops
    for fn, f in TABLE:
        P = iops.side(ctx, fn) if f else None
        ctx.add('witnesses')
        try:
            f(ctx, fn, P) if f else split(ctx)
        except Wrong as e:
            u = lock.unmodelled(P) if f else None
            if u:
                ctx.skip('%s/witness' % fn, 'not modelled: ' + ', '.join(u))
            else:
                ctx.ob('%s/witness' % fn, False, ctx.span(fn), str(e))
        except Undecided as e:
            ctx.skip('%s/witness' % fn, str(e))
        else:
            ctx.ob('%s/witness' % fn, True)
            ctx.add('witnesses decided')
