"""Reference definitions of the protocols, written independently of the code: which polynomials the prover
sends, which challenges are drawn after them, which sums and vanishing polynomials are claimed and which relation
between claimed sums the verifier requires. Polynomials are ring terms; nv = number of variables."""
from terms import *
import iop
from models import inv
from terms import ite as if_


class Bag:
    def __init__(self, p, s, nv):
        self.p, self.s, self.nv = p, s, nv


def e_of(x):
    return fld(fld(x, 'id'), 'e')


def bag(x):
    return Bag(e_of(fld(x, 'poly')), e_of(fld(x, 'selector')), fld(x, 'num_vars'))


def nv_of(x):
    return fld(x, 'num_vars')


def mle(n, i, body):
    return iop.of_evals(mkseq(n, i, body))


class More(Exception):
    pass


class Misfit(Exception):
    pass


class M:
    """accumulates the events of a protocol run"""

    def __init__(self):
        self.com = ZERO
        self.ch = ZERO
        self.msgs, self.sums, self.zeros = [], [], []
        self.ok = TRUE
        self.pre = TRUE         # well-formed inputs: the acceptance condition is compared for these
        self.subs = {}
        self.result = None
        self.path, self.at, self.fits = None, 0, None

    def blocks(self, *bs):
        """steps whose order does not matter; a step given as a list can be done in either of its ways"""
        rest = list(bs)
        while rest:
            opts = [(j, f) for j, b in enumerate(rest) for f in (b if isinstance(b, list) else [b])]
            i = 0
            if self.path is not None and len(opts) > 1:
                if self.at == len(self.path):
                    raise More(len(opts))
                i = self.path[self.at]
                self.at += 1
            j, f = opts[i]
            f()
            del rest[j]
            if self.path is not None and self.at == len(self.path) and not self.fits(self):
                raise Misfit()

    def commit(self):
        o = self.com
        self.com = add(o, ONE)
        self.msgs.append(lst(raw('ev', 'commit', o)))
        return raw('com', o)

    def chal(self):
        o = self.ch
        self.ch = add(o, ONE)
        self.msgs.append(lst(raw('ev', 'challenge', o)))
        return raw('chal', o)

    def sum(self, e):
        self.sums.append(lst(raw('ev', 'sum', e)))
        return raw('claimed', e)

    def zero(self, e):
        self.zeros.append(lst(raw('ev', 'zero', e)))

    def require(self, c):
        self.ok = And(self.ok, c)

    def wf(self, c):
        self.pre = And(self.pre, c)

    def same_len(self, a, b):
        self.subs[raw('len', a)] = length(b)

    def each(self, n, f):
        """f(i) for i < n; returns the values as function of i"""
        i = fresh('s')
        c0, h0 = self.com, self.ch
        keep = (self.msgs, self.sums, self.zeros)
        self.msgs, self.sums, self.zeros = [], [], []
        f(i)
        dc, dh = sub(self.com, c0), sub(self.ch, h0)
        self.msgs, self.sums, self.zeros = [], [], []
        self.com, self.ch = add(c0, mul(dc, i)), add(h0, mul(dh, i))
        r = f(i)
        got = (self.msgs, self.sums, self.zeros)
        self.msgs, self.sums, self.zeros = keep
        for mine, g in zip(keep, got):
            if g:
                mine.append(mkflat(n, i, cat(*g)))
        self.com, self.ch = add(c0, mul(dc, n)), add(h0, mul(dh, n))
        return i, r


# ------------------------------------------------------------------ multiset equality of weighted bags
def subclaim(m, p, sel, mult, gamma):
    ph = m.commit()
    c = m.sum(mul(mul(ph, mult), sel))
    m.zero(sub(sub(mul(p, ph), mul(gamma, ph)), ONE))
    return c


def multitool(m, fs, gs):
    """fs, gs: [(bag, multiplicity)]"""
    gamma = m.chal()
    nv = None
    for b, _ in fs + gs:
        nv = b.nv if nv is None else mx(nv, b.nv)
    side = [ZERO, ZERO]

    def one(k, b, mu):
        c = subclaim(m, b.p, b.s, mu, gamma)
        side[k] = add(side[k], mul(c, inv(pow2(sub(nv, b.nv)))))
    m.blocks(*[(lambda k=k, b=b, mu=mu: one(k, b, mu)) for k, xs in enumerate((fs, gs)) for b, mu in xs])
    m.require(eq(side[0], side[1]))


def multitool_lists(m, F, G, MF, MG):
    nf, ng = length(F), length(G)
    m.require(And(Not(eq0(nf)), Not(eq0(ng)), eq(nf, length(MF)), eq(ng, length(MG))))
    gamma = m.chal()
    i = fresh('s')
    nv = mx(raw('maxof', mkseq(nf, i, fld(idx(F, i), 'num_vars'))), raw('maxof', mkseq(ng, i, fld(idx(G, i), 'num_vars'))))
    side = []
    for n, L, ML in ((nf, F, MF), (ng, G, MG)):
        def one(i):
            b = bag(idx(L, i))
            c = subclaim(m, b.p, b.s, e_of(idx(ML, i)), gamma)
            return mul(c, inv(pow2(sub(nv, b.nv))))
        i, r = m.each(n, one)
        side.append(mksum(n, i, r))
    m.require(eq(side[0], side[1]))


def bag_eq(m, f, g):
    multitool(m, [(f, ONE)], [(g, ONE)])


def bag_sum(m, a, b, c):
    multitool(m, [(a, ONE), (b, ONE)], [(c, ONE)])


def inclusion(m, x, sup, mult):
    multitool(m, [(x, ONE)], [(sup, mult)])


def no_zeros(m, b):
    v = m.commit()
    m.zero(sub(mul(mul(b.p, v), b.s), b.s))


def presc_perm(m, f, g, perm):
    gamma = m.chal()
    fh, gh = m.commit(), m.commit()
    m.zero(sub(add(iop.IDENT, mul(gamma, f.p)), fh))
    m.zero(sub(add(perm, mul(gamma, g.p)), gh))
    bag_eq(m, Bag(fh, ONE, f.nv), Bag(gh, ONE, g.nv))


def strict_sort(m, b, rng):
    n = pow2(b.nv)
    i = fresh('s')
    last = eq0(sub(i, sub(n, ONE)))
    perm = mle(n, i, if_(last, ZERO, add(i, ONE)))
    dsel = mle(n, i, if_(last, ZERO, ONE))
    q = m.commit()
    diff = sub(add(mul(dsel, sub(q, b.p)), ONE), dsel)
    m.blocks(lambda: presc_perm(m, b, Bag(q, ONE, b.nv), perm),
             lambda: inclusion(m, Bag(diff, dsel, b.nv), Bag(rng.p, ONE, rng.nv), m.commit()),
             lambda: no_zeros(m, Bag(diff, b.s, b.nv)))


def supp(m, b, s, mult, rng):
    m.blocks(lambda: inclusion(m, b, s, mult), lambda: no_zeros(m, Bag(mult, s.s, s.nv)), lambda: strict_sort(m, s, rng))


def disjoint(m, a, b, c, ma, mb, rng):
    m.zero(mul(ma, mb))
    m.blocks(lambda: strict_sort(m, c, rng), lambda: inclusion(m, a, c, ma), lambda: inclusion(m, b, c, mb))


def disjoint_commit(m, a, b, rng):
    nv = add(mx(a.nv, b.nv), ONE)
    cp, cs, ma, mb = m.commit(), m.commit(), m.commit(), m.commit()
    disjoint(m, a, b, Bag(cp, cs, nv), ma, mb, rng)


def committed_sum(m, a, b):
    p, s = m.commit(), m.commit()
    c = Bag(p, s, add(mx(a.nv, b.nv), ONE))
    bag_sum(m, a, b, c)
    return c


def either(f, m, a, b, *rest):
    """f is symmetric in a and b"""
    return [lambda: f(m, a, b, *rest), lambda: f(m, b, a, *rest)]


def set_disjoint(m, a, b, rng):
    strict_sort(m, committed_sum(m, a, b), rng)


def selector_valid(m, s):
    m.zero(mul(s, sub(ONE, s)))


def table_agg(cols, sel, nv, r):
    n = length(cols)
    i = fresh('s')
    return Bag(mksum(n, i, mul(power(r, i), e_of(idx(cols, i)))), sel, nv)


def index_transform(m, tin, tout, n=None):
    """tin, tout = (columns, selector, nv): rows of tout are rows of tin"""
    if n is None:
        m.require(And(Not(eq0(length(tin[0]))), eq(length(tin[0]), length(tout[0]))))
    r = m.chal()
    fi = table_agg(*tin, r)
    fo = table_agg(*tout, r)
    mult = m.commit()
    inclusion(m, fo, fi, mult)


def table(cols, sel, nv):
    return adt('Table', '', ('col_vals', 'selector', 'num_vars'), cols, tracked(sel), nv)


def tracked(e):
    return adt('Tracked', '', ('id',), adt(iop.ID, '', ('e',), e))


def s_cross_product(m):
    ca, sa, na = fld(A(0), 'col_vals'), e_of(fld(A(0), 'selector')), nv_of(A(0))
    cb, sb, nb = fld(A(1), 'col_vals'), e_of(fld(A(1), 'selector')), nv_of(A(1))
    i = fresh('s')
    ea = mkseq(length(ca), i, tracked(iop.nvshift('front', e_of(idx(ca, i)), nb)))
    eb = mkseq(length(cb), i, tracked(iop.nvshift('back', e_of(idx(cb, i)), na)))
    m.result = table(cat(ea, eb), mul(iop.nvshift('front', sa, nb), iop.nvshift('back', sb, na)), add(na, nb))


def tbl(x):
    return fld(x, 'col_vals'), e_of(fld(x, 'selector')), fld(x, 'num_vars')


# ------------------------------------------------------------------ entry points: verifier arguments a1, a2, ..
def A(i):
    return raw('sym', 'a%d' % i)


def s_final_join(m, cols=None):
    ta, tb, ia, ib = A(1), A(2), A(3), A(4)
    ca, sa, na = tbl(ta)
    cb, sb, nb = tbl(tb)
    n = length(ca)
    if cols is None:
        i = fresh('s')
        base = m.com
        _, _r = m.each(n, lambda i: m.commit())
        cols = mkseq(n, i, adt('Tracked', '', ('id',), adt(iop.ID, '', ('e',), raw('com', add(base, i)))))
    else:
        m.same_len(cols, ca)
    m.wf(And(lt(ia, n), lt(ib, length(cb)), Not(eq0(n))))
    index_transform(m, (ca, sa, na), (cols, sb, nb), n)
    res = cat(cols, cb)
    ja, jb = e_of(idx(res, ia)), e_of(idx(res, add(n, ib)))
    m.zero(mul(sub(ja, jb), sb))
    m.result = table(res, sb, nb)


def s_join_reduction(m):
    a, b, rng = bag(A(1)), bag(A(2)), bag(A(5))
    ls, rs = e_of(A(3)), e_of(A(4))
    L, R = Bag(a.p, mul(a.s, ls), a.nv), Bag(b.p, mul(b.s, rs), b.nv)
    MA, MB = Bag(a.p, mul(a.s, sub(ONE, ls)), a.nv), Bag(b.p, mul(b.s, sub(ONE, rs)), b.nv)
    selector_valid(m, ls)
    selector_valid(m, rs)
    m.blocks(either(disjoint_commit, m, L, R, rng), either(disjoint_commit, m, L, MA, rng), either(disjoint_commit, m, R, MB, rng),
             lambda: inclusion(m, MA, MB, m.commit()), lambda: inclusion(m, MB, MA, m.commit()))


def s_group_by(m):
    t, ins, rng = A(1), A(2), bag(A(3))
    cols, sel, nv = tbl(t)
    g = fld(ins, 'grouping_cols')
    gi = idx(g, ZERO)
    agg = fld(ins, 'agg_instr')
    pre = Bag(e_of(idx(cols, gi)), sel, nv)
    grp = Bag(e_of(idx(fld(ins, 'support_cols'), ZERO)), e_of(fld(ins, 'support_sel')), nv)
    mult = e_of(fld(ins, 'support_multiplicity'))
    n = length(agg)
    i = fresh('s')
    m.require(And(Not(eq0(length(g))), Not(pos(sub(length(g), ONE))), lt(gi, length(cols)), Not(eq0(length(fld(ins, 'support_cols')))),
                  Not(mkexists(n, i, Not(lt(fld(idx(agg, i), '0'), length(cols)))))))
    P = 'zk_sql::zksql_poly_iop::group_by::group_by::AggregationType'
    supp(m, pre, grp, mult, rng)
    # every Sum instruction is one weighted bag equality
    isum = lambda i: is_var(fld(idx(agg, i), '1'), P, 'Sum')
    cnt = lambda i: _count(agg, i, P)
    i = fresh('s')
    c0, h0 = m.com, m.ch
    k = cnt(i)
    m2 = M()
    m2.com, m2.ch = add(c0, scale(k, 2)), add(h0, k)
    multitool(m2, [(pre, e_of(idx(cols, fld(idx(agg, i), '0'))))], [(grp, e_of(fld(idx(agg, i), '2')))])
    for mine, got in ((m.msgs, m2.msgs), (m.sums, m2.sums), (m.zeros, m2.zeros)):
        mine.append(mkflat(n, i, if_(isum(i), cat(*got), NIL)))
    cols_ = cat(lst(idx(fld(ins, 'support_cols'), ZERO)),
                mkflat(n, i, if_(is_var(fld(idx(agg, i), '1'), P, 'Count'), lst(fld(ins, 'support_multiplicity')),
                                 if_(isum(i), lst(fld(idx(agg, i), '2')), NIL))))
    m.result = table(cols_, e_of(fld(ins, 'support_sel')), nv)
    icnt = is_var(fld(idx(agg, i), '1'), P, 'Count')
    m.require(Not(mkexists(n, i, And(Not(icnt), Not(And(isum(i), m2.ok))))))


def _count(agg, i, P):
    j = fresh('s')
    return mksum(i, j, if_(is_var(fld(idx(agg, j), '1'), P, 'Sum'), ONE, ZERO))


def commits(m, k):
    return [m.commit() for _ in range(k)]


SPECS = {
    'BagMultitoolIOP::verify': lambda m: multitool_lists(m, A(1), A(2), A(3), A(4)),
    'BagEqIOP::verify': lambda m: bag_eq(m, bag(A(1)), bag(A(2))),
    'BagSumIOP::verify': lambda m: bag_sum(m, bag(A(1)), bag(A(2)), bag(A(3))),
    'BagNoZerosIOP::verify': lambda m: no_zeros(m, bag(A(1))),
    'BagInclusionIOP::verify': lambda m: inclusion(m, bag(A(1)), bag(A(2)), m.commit()),
    'BagInclusionIOP::verify_with_advice': lambda m: inclusion(m, bag(A(1)), bag(A(2)), e_of(A(3))),
    'BagSuppIOP::verify': lambda m: supp(m, bag(A(1)), bag(A(2)), m.commit(), bag(A(3))),
    'BagSuppIOP::verify_with_advice': lambda m: supp(m, bag(A(1)), bag(A(2)), e_of(A(3)), bag(A(4))),
    'BagPrescPermIOP::verify': lambda m: presc_perm(m, bag(A(1)), bag(A(2)), e_of(A(3))),
    'BagStrictSortIOP::verify': lambda m: strict_sort(m, bag(A(1)), bag(A(2))),
    'BagDisjointIOP::verify': lambda m: disjoint_commit(m, bag(A(1)), bag(A(2)), bag(A(3))),
    'BagDisjointIOP::verify_with_advice': lambda m: disjoint(m, bag(A(1)), bag(A(2)), bag(A(3)), e_of(A(4)), e_of(A(5)), bag(A(6))),
    'SetDisjointIOP::verify': lambda m: set_disjoint(m, bag(A(1)), bag(A(2)), bag(A(3))),
    'SetUnionIOP::verify': lambda m: supp(m, committed_sum(m, bag(A(1)), bag(A(2))), bag(A(3)), m.commit(), bag(A(4))),
    'SetDiffIOP::verify': lambda m: m.blocks(either(set_disjoint, m, bag(A(3)), bag(A(2)), bag(A(6))),
                                             lambda: bag_sum(m, bag(A(3)), bag(A(4)), bag(A(1))),
                                             lambda: inclusion(m, bag(A(4)), bag(A(2)), e_of(A(5)))),
    'SetIntersectIOP::verify': lambda m: m.blocks(lambda: bag_sum(m, bag(A(3)), bag(A(4)), bag(A(1))),
                                                  lambda: bag_sum(m, bag(A(4)), bag(A(5)), bag(A(2))),
                                                  either(set_disjoint, m, bag(A(3)), bag(A(5)), bag(A(6)))),
    'SelectorValidIOP::verify': lambda m: selector_valid(m, e_of(A(1))),
    'JoinReductionIOP::verify': s_join_reduction,
    'IndexTransformIOP::verify': lambda m: index_transform(m, tbl(A(1)), tbl(A(2))),
    'FinalJoinOneToManyIOP::verify': s_final_join,
    'FinalJoinOneToManyIOP::verify_with_advice': lambda m: s_final_join(m, A(5)),
    'CrossProductIOP::verifier_cross_product': s_cross_product,
    'GroupByIOP::verify_with_advice': s_group_by,
}


def build(name):
    m = M()
    SPECS[name](m)
    return m


def search(name, fits, limit=300):
    """the reference run whose order of steps fits, or None"""
    todo = [[]]
    while todo and limit:
        limit -= 1
        m = M()
        m.path, m.fits = todo.pop(), fits
        try:
            SPECS[name](m)
            return m
        except More as e:
            todo += [m.path + [i] for i in reversed(range(e.args[0]))]
        except Misfit:
            pass
    return None
