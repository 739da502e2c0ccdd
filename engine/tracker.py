"""The trackers' own code: transcript operations, sum-check and commitment scheme are symbolic."""
from terms import *
from terms import _bws
import terms
import hooks
import iop
import interp as IN
from interp import TRC
import run
import common


MAPS = ('materialized_polys', 'virtual_polys', 'materialized_comms')


def is_virt_prod(k):
    """an id taken from a product of a virtual polynomial"""
    return (k.op == 'idx' and k.a[0].op == 'fld' and k.a[0].a[1] == '1' and k.a[0].a[0].op == 'idx' and
            k.a[0].a[0].a[0].op == 'mval' and k.a[0].a[0].a[0].a[0].op == 'fld' and k.a[0].a[0].a[0].a[0].a[1] == 'virtual_polys')


def facts(m, k):
    """invariants of ProverTracker (their preservation is property K06)"""
    if m.op == 'fld' and m.a[1] == 'materialized_polys' and is_virt_prod(k) and k.a[0].a[0].a[0].a[0].a[0] is m.a[0]:
        return TRUE
    if m.op == 'fld' and m.a[1] in MAPS and k.op == 'adt' and k.a[0] == iop.ID and any(is_counter(x) for x in as_poly(k.a[3])):
        return FALSE
    if m.op == 'fld' and m.a[1] == 'virtual_polys':
        return Not(mhas(fld(m.a[0], 'materialized_polys'), k))
    return None


def is_counter(m):
    return len(m.a) == 2 and m.a[1] == 1 and m.a[0].op == 'fld' and m.a[0].a[1] == 'id_counter'


def fresh_id(d):
    """ids in use are smaller than the counter: an id equation `counter + n = older id` has no solution"""
    c = [m for m in d if is_counter(m)]
    if len(c) == 1 and abs(d[c[0]]) == 1:
        rest = [m for m in d if m is not c[0] and m.a]
        if len(rest) == 1 and d[rest[0]] == -d[c[0]] and len(rest[0].a) == 2 and rest[0].a[0].op == 'fld' and rest[0].a[0].a[1] == '0':
            return FALSE
    return None


def opaque(name, outs):
    def h(I, st, a, fn):
        args = [I.norm(st, I.deref(st, x)) for x in a]
        return st, outs(I, st, a, args)
    return h


def sc_prove(I, st, a, fn):
    poly = I.norm(st, I.deref(st, a[0]))
    I.emit(st, 'sumcheck', poly)
    return st, raw('scproof', poly)


HOOKS = dict(hooks.TRANSCRIPT)


class Facts:
    """the tracker invariants, and which ids are materialised (True) or virtual (False)"""

    def __init__(self, scen=None):
        self.scen = scen or {}

    def case(self, m, k):
        if m.op == 'fld' and m.a[1] in ('materialized_polys', 'virtual_polys') and k in self.scen:
            return TRUE if self.scen[k] == (m.a[1] == 'materialized_polys') else FALSE
        return None

    def virt_mat(self, d):
        """an id inside a virtual product is materialised, so it is not a virtual id"""
        ks = [m.a[0] for m in d if len(m.a) == 2]
        if len(d) != 2 or len(ks) != 2:
            return None
        ks = [k.a[0] if k.op == 'fld' and k.a[1] == '0' and (is_virt_prod(k.a[0]) or k.a[0] in self.scen) else k for k in ks]
        for x, y in (ks, ks[::-1]):
            if self.scen.get(x) is False and (is_virt_prod(y) or self.scen.get(y)):
                return FALSE
        return None

    def __enter__(self):
        terms.HAS_FACTS[:] = [self.case, facts]
        terms.EQ_FACTS[:] = [fresh_id, self.virt_mat]

    def __exit__(self, *a):
        terms.HAS_FACTS[:] = []
        terms.EQ_FACTS[:] = []


def summ(prog, fn, extra=None, argvals=None, scen=None, **kw):
    """summary of fn with the transcript symbolic"""
    with Facts(scen):
        h = dict(HOOKS)
        if extra:
            h.update(extra)
        r = run.summarize(prog, fn, hooks=h, setup=hooks.TR_SETUP, argvals=argvals, **kw)
        if r.val is None and not r.I.unknown and argvals is None:
            raise common.Dead(fn)
        return r


# ------------------------------------------------------------------ denotation
class Unclear(Exception):
    """the term is not in a form the denotation is defined on"""


def val(mats, i):
    """the polynomial a materialised id stands for, in the map `mats`"""
    m = mats
    while m.op == 'minsert':
        e = eq(i, m.a[1])
        if e is TRUE:
            return poly_of(m.a[2])
        if e is not FALSE:
            raise Unclear('id aliasing')
        m = m.a[0]
    if m.op == 'ite':
        a, b = val(m.a[1], i), val(m.a[2], i)
        if a is b:
            return a
        raise Unclear('conditional map')
    return poly_of(raw('mval', m, i))


X = raw('sym', 'X')        # position on the hypercube


def at(v, x):
    return v if x is X else raw('at', v, x)


terms.MK['at'] = at


def canon(t):
    """renumber binders"""
    import lock
    return lock.mapt(t, lambda y: y)


def poly_of(mle):
    if mle.op == 'mval' and mle.a[0].op == 'fld':
        return raw('val', mle.a[1])
    return pw(fld(mle, 'evaluations'), X)


def evlen(L):
    """a polynomial in n variables has 2^n evaluations; a list that is rebuilt with the same length keeps it"""
    import lock

    def f(y):
        if y.op == 'len' and y.a[0].op == 'fld' and y.a[0].a[1] == 'evaluations':
            return pow2(fld(y.a[0].a[0], 'num_vars'))
        if y.op == 'len' and y.a[0].op == 'fold' and y.a[0].a[2] == 1:
            h, w, m, n, init, step = y.a[0].a
            L0 = length(init)
            if lock.mapt(subst(length(step), {raw('len', raw('bw', h, 0)): L0}), lambda x: x) is L0:
                return L0
        return y
    return lock.mapt(L, f)


def pw(ev, x):
    """element x of a list of evaluations, as a scalar term"""
    o = ev.op
    if o == 'fld' and ev.a[1] == 'evaluations' and ev.a[0].op == 'mval' and ev.a[0].a[0].op == 'fld':
        v = raw('val', ev.a[0].a[1])
        return at(v, x)
    if o == 'ite':
        import krules
        c = form(krules.commonnv(ev.a[0]) if ev.a[0].op in ('eq0', 'pos') else ev.a[0])
        return pw(ev.a[1], x) if c is TRUE else pw(ev.a[2], x) if c is FALSE else ite(c, pw(ev.a[1], x), pw(ev.a[2], x))
    if o == 'seq':
        return reread(inst(ev.a[2], ev.a[0], x))
    if o == 'flat':
        k, n, b = ev.a
        L = evlen(length(b))
        if has_bv(L, k):
            raise Unclear('flat of uneven parts')
        i = div(x, L)
        if b.op == 'seq' and not has_bv(b.a[2], b.a[0]):
            return reread(inst(b.a[2], k, i))
        j = mod(x, L)
        return pw(inst(b, k, i), j)
    if o == 'repeat':
        return pw(ev.a[0], x) if False else reread(ev.a[0])
    if o == 'fold':
        y = fresh('y')
        return subst(pwfold(ev, y), {y: x})
    if o == 'i_map' and ev.a[0].op == 'i_count' and ev.a[1].op == 'lam':
        return reread(inst(ev.a[1].a[1], ev.a[1].a[0], add(ev.a[0].a[0], x)))
    if o == 'slice':
        return pw(ev.a[0], add(x, ev.a[1]))
    if o == 'idx':
        return at(ev, x)
    if o == 'fld' and ev.a[0].op == 'sym':
        return idx(ev, x)
    raise Unclear('list form ' + o)


def reread(t):
    """indexed reads of tracked evaluations / computed lists inside a scalar -> denotation"""
    import lock

    def f(y):
        if y.op == 'idx' and (y.a[0].op in ('fold', 'flat', 'seq') or (y.a[0].op == 'fld' and y.a[0].a[1] == 'evaluations' and y.a[0].a[0].op != 'sym')):
            return pw(y.a[0], y.a[1])
        return y
    return lock.mapt(t, f)


def pwfold(t, x):
    h, w, m, n = t.a[:4]
    init, step = t.a[4 + w], t.a[4 + m + w]
    me = raw('bw', h, w)
    if m != 1:
        raise Unclear('loop with several accumulators')
    if step.op == 'patch' and step.a[1] is me and step.a[0].op == 'seq':
        # acc[i] := g(acc[i]) for every i that the other list has too; tables in one product are equally long
        ln = step.a[0].a[1]
        if ln is length(me) or (ln.op == 'min' and length(me) in ln.a):
            step = step.a[0]
    if step.op == 'seq':
        # acc := [g(acc[i]) | i]
        b = inst(step.a[2], step.a[0], x)
        acc = fresh('acc')
        b = subst(b, {raw('idx', me, x): acc})
        if has_bv(b, h) and any(y is me for y in _bws(b, h)):
            raise Unclear('loop reads other elements')
        j = fresh('j')
        b = subst(b, {raw('bv', h): j})
        b = reread(b)
        d = sub(b, acc)
        if not mentions(d, acc):
            return add(pw(init, x), mksum(n, j, d))
        p = as_poly(b)
        if len(p) == 1:
            (mono, c), = p.items()
            args = list(zip(mono.a[::2], mono.a[1::2]))
            if (acc, 1) in args:
                f = num(c)
                for b_, e in args:
                    if b_ is not acc:
                        f = mul(f, power(b_, num(e)))
                if not mentions(f, acc):
                    return mul(pw(init, x), mkprod(n, j, f))
        raise Unclear('loop body')
    if step.op == 'store' and step.a[0] is me:
        # positions lo, lo+1, ... are filled from positions below lo
        i, v = step.a[1], step.a[2]
        lo = sub(i, raw('bv', h))
        if has_bv(lo, h):
            raise Unclear('loop stores')
        if v.op == 'idx' and v.a[0] is me and v.a[1].op == 'mod' and v.a[1].a[1] is lo:
            y = v.a[1].a[0]
            if y is i:
                base = init
                while base.op in ('cat', 'ite'):
                    base = base.a[0] if base.op == 'cat' else base.a[2]
                return pw(base, mod(x, lo))
    raise Unclear('loop form')


def mentions(t, s):
    return s.id in (t.fs or ()) or t is s


def den(rep, mats):
    """what a virtual polynomial's representation denotes: sum of coefficient * product of polynomials"""
    o = rep.op
    if o == 'ite':
        return ite(raw('ite', rep.a[0], TRUE, FALSE), den(rep.a[1], mats), den(rep.a[2], mats))
    if o == 'list':
        r = ZERO
        for x in rep.a:
            r = add(r, den1(x, mats))
        return r
    if o == 'cat':
        r = ZERO
        for x in rep.a:
            r = add(r, den(x, mats))
        return r
    if o == 'seq':
        k, n, b = rep.a
        i = fresh('d')
        return mksum(n, i, den1(inst(b, k, i), mats))
    if o == 'flat':
        k, n, b = rep.a
        i = fresh('d')
        return mksum(n, i, den(inst(b, k, i), mats))
    if o in ('mval', 'fld', 'sym', 'idx'):
        i = fresh('d')
        return mksum(length(rep), i, den1(idx(rep, i), mats))
    raise Unclear('representation ' + o)


def den1(x, mats):
    return mul(fld(x, '0'), denp(fld(x, '1'), mats))


def denp(p, mats):
    o = p.op
    if o == 'ite':
        return ite(raw('ite', p.a[0], TRUE, FALSE), denp(p.a[1], mats), denp(p.a[2], mats))
    if o == 'list':
        r = ONE
        for x in p.a:
            r = mul(r, val(mats, x))
        return r
    if o == 'cat':
        r = ONE
        for x in p.a:
            r = mul(r, denp(x, mats))
        return r
    if o == 'seq':
        k, n, b = p.a
        i = fresh('d')
        return mkprod(n, i, val(mats, inst(b, k, i)))
    if o == 'flat':
        k, n, b = p.a
        i = fresh('d')
        return mkprod(n, i, denp(inst(b, k, i), mats))
    if o in ('mval', 'fld', 'sym', 'idx'):
        i = fresh('d')
        return mkprod(length(p), i, val(mats, idx(p, i)))
    raise Unclear('product ' + o)


def state_den(post, i):
    """denotation of id i in a ProverTracker state"""
    mats, virts = fld(post, 'materialized_polys'), fld(post, 'virtual_polys')
    h = mhas(mats, i)
    if h is TRUE:
        return val(mats, i)
    h2 = mhas(virts, i)
    if h is FALSE and h2 is TRUE:
        return den(mval(virts, i), mats)
    if h is FALSE and h2 is FALSE:
        return S('untracked')
    raise Unclear('presence of the id')
