"""Rules over the query protocols (prover/verifier pairs)."""
from terms import *
import lock
import spec
import honest
import tdiff

_sides = {}


def side(ctx, fn):
    if fn not in _sides:
        _sides[fn] = lock.side(ctx.prog(), fn)
    ctx.saw(fn)
    return _sides[fn]


def prover_of(v):
    h, f = v.split('::')
    return h + '::' + f.replace('verifier', 'prover').replace('verify', 'prove')


PAIRS = sorted(spec.SPECS) + ['CrossProductIOP::verifier_cross_product']
PAIRS = sorted(set(PAIRS))


def undecidable(*sides):
    return lock.unmodelled(*sides)


def report(ctx, key, ok, where, name, a, b, left, right, *sides):
    if ok:
        ctx.ob(key, True)
        return
    u = undecidable(*sides)
    if u:
        ctx.skip(key, 'not modelled: ' + ', '.join(u))
        return
    p, x, y = tdiff.tdiff(a, b, 700)
    ctx.fail(key, where, '%s differ (%s)\n  %s: %s\n  %s: %s' % (name, p, left, x, right, y))


# inputs for which a pair is known to disagree: the pair is compared outside of it, the finding is reported under its key
A = spec.A
EXCEPT = {'GroupByIOP::verify_with_advice': ('grouped table size', 'the grouped table has as many rows as the input table',
          {fld(idx(fld(A(2), 'support_cols'), ZERO), 'num_vars'): fld(A(1), 'num_vars')})}


def helpers(ctx):
    """free functions that come in a prover and a verifier version"""
    for b in list(ctx.prog().by_short):
        h, _, f = b.rpartition('::')
        if 'verifier_' in f and h and h.split('::')[-1].islower():
            p = h + '::' + f.replace('verifier', 'prover')
            if ctx.prog().fn(p) is not None and ctx.prog().fn(b) is not None:
                yield b


def lockstep(ctx):
    for v in PAIRS + sorted(helpers(ctx)):
        p = prover_of(v)
        P, V = side(ctx, p), side(ctx, v)
        if v in EXCEPT:
            key, what, m = EXCEPT[v]
            full = lock.compare(P, V)[0]
            P, V = lock.assume(P, m), lock.assume(V, m)
            ctx.ob('%s/%s' % (v, key), all(o[1] for o in full), ctx.span(v), 'prover and verifier agree only when ' + what)
        out, c, pp, vv = lock.compare(P, V)
        ctx.add('pairs')
        ctx.ob('%s/reachable' % v, c is not FALSE, ctx.span(v), 'prover and verifier never both succeed')
        for name, ok, a, b in out:
            report(ctx, '%s/%s' % (v, name), ok, '%s and %s' % (ctx.span(p), ctx.span(v)), name, a, b, 'prover', 'verifier', P, V)
            ctx.add('projections')


def against(names):
    def rule(ctx):
        for v in names:
            V = side(ctx, v)
            m, found = lock.against(V, v)
            for name, ok, a, b in found:
                report(ctx, '%s/%s' % (v, name), ok, ctx.span(v), name, a, b, 'code', 'definition', V)
            ctx.add('entry points')
            if m.result is not None:
                a, b = lock.result(V, m)
                report(ctx, '%s/result' % v, a is b, ctx.span(v), 'result', a, b, 'code', 'definition', V)
    rule.__name__ = 'definition'
    return rule


HONEST = [('BagMultitoolIOP::prove_generate_subclaims', 1, 1), ('BagNoZerosIOP::prove', 0, 1), ('BagPrescPermIOP::prove', 2, 4)]


def honesty(ctx):
    for fn, ns, nz in HONEST:
        honest.check(ctx, fn, side(ctx, fn), ns, nz)
    # the strictly sorted bag: the permuted column is the cyclic shift
    honest.check_shift(ctx, 'BagStrictSortIOP::prove', side(ctx, 'BagStrictSortIOP::prove'))
