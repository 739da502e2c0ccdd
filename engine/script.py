"""Rules over the transcript itself: the Merlin transcript is a free algebra of operations."""
from terms import *
import run
from interp import TRC
import logic
from sums import condition, nopanic
from krules import settle, okform, A0, A1, A2
from mlops import total

FN = 'IOPTranscript::'


def N(I, st, x):
    return I.norm(st, I.deref(st, x))


def new(I, st, a, fn):
    return st, raw('m_new', N(I, st, a[0]))


def append(I, st, a, fn):
    I.mem_set(st, a[0], raw('m_app', I.mem_get(st, a[0]), N(I, st, a[1]), N(I, st, a[2])))
    return st, UNIT


def challenge(I, st, a, fn):
    t, l, n = I.mem_get(st, a[0]), N(I, st, a[1]), length(I.mem_get(st, a[2]))
    I.mem_set(st, a[2], raw('m_bytes', t, l, n))
    I.mem_set(st, a[0], raw('m_chal', t, l, n))
    return st, UNIT


def serialize(I, st, a, fn):
    x = N(I, st, a[0])
    old = I.mem_get(st, a[1])
    ok = OKS[0]
    I.mem_set(st, a[1], ite(ok, cat(old, raw('bytes_of', x)), raw('sym', 'partial')))
    return st, ite(ok, Ok(UNIT), Err(sym('ser_err')))


def modorder(I, st, a, fn):
    return st, raw('f_mod', N(I, st, a[0]))


H = {'Transcript::new': new, 'Transcript::append_message': append, 'Transcript::challenge_bytes': challenge,
     'CanonicalSerialize::serialize_compressed': serialize, 'CanonicalSerialize::serialize_uncompressed': serialize, 'PrimeField::from_le_bytes_mod_order': modorder, 'PrimeField::from_be_bytes_mod_order': modorder}


def summ(ctx, fn, args=None, **kw):
    s = run.summarize(ctx.prog(), FN + fn, hooks=H, argvals=args, **kw)
    ctx.saw(*s.I.inlined)
    ctx.add('transcript operations')
    return s


OKS = [TRUE]
ENOUGH = 48        # bytes per challenge: 384 bits, the bound the API documents


def state(t, empty):
    return adt('zk_sql::transcript::IOPTranscript', '', ('transcript', 'is_empty'), t, TRUE if empty else FALSE)


def step(ctx, key, s, t, empty, where):
    post = s.post(0)
    settle(ctx, key + '/transcript', fld(post, 'transcript'), t, where, 'state of the underlying transcript', s)
    settle(ctx, key + '/is_empty', fld(post, 'is_empty'), TRUE if empty else FALSE, where, 'emptiness flag', s)


def drawn(t, l, n):
    """the challenge for state t and the state after it"""
    c = raw('f_mod', raw('m_bytes', t, l, n))
    return c, raw('m_app', raw('m_chal', t, l, n), l, raw('bytes_of', c))


def width(s):
    """bytes requested from the transcript"""
    out = set()

    def go(t, seen):
        if t in seen or not isinstance(t, T):
            return
        seen.add(t)
        if t.op == 'm_bytes':
            out.add(t.a[2])
        for x in t.a:
            go(x, seen)
    go(s, set())
    return out


def ops(ctx):
    if ctx.prog().fn(FN + 'new') is None:
        return
    L, M, X = A1, A2, A2
    where = ctx.span(FN + 'new')
    s = summ(ctx, 'new')
    if total(ctx, 'new', s, where):
        settle(ctx, 'new/transcript', fld(s.val, 'transcript'), raw('m_new', A0), where, 'starts from the given label', s)
        settle(ctx, 'new/is_empty', fld(s.val, 'is_empty'), TRUE, where, 'starts empty', s)
    t = sym('T0')
    for ok in (True, False):
        OKS[0] = TRUE if ok else FALSE
        for empty in (True, False):
            for op in ('append_message', 'append_field_element', 'append_serializable_element'):
                where = ctx.span(FN + op)
                s = summ(ctx, op, [state(t, empty)])
                key = '%s/%s%s' % (op, 'on an empty transcript' if empty else 'on a transcript in use', '' if ok else ', unserializable')
                if not total(ctx, key, s, where):
                    continue
                if op == 'append_message' or ok:
                    settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                    step(ctx, key, s, raw('m_app', t, L, M if op == 'append_message' else raw('bytes_of', M)), False, where)
                else:
                    settle(ctx, key + '/succeeds', okform(s.val), FALSE, where, 'must fail when the element cannot be serialized', s)
            op = 'get_and_append_challenge'
            where = ctx.span(FN + op)
            s = summ(ctx, op, [state(t, empty)])
            key = '%s/%s%s' % (op, 'on an empty transcript' if empty else 'on a transcript in use', '' if ok else ', unserializable')
            if total(ctx, key, s, where):
                settle(ctx, key + '/succeeds', okform(s.val), FALSE if empty or not ok else TRUE, where, 'refuses an empty transcript, succeeds otherwise', s)
                if empty:
                    step(ctx, key, s, t, True, where)
                elif ok:
                    w = width(s.val)
                    n = int_val(next(iter(w))) if len(w) == 1 else None
                    if n is None:
                        settle(ctx, key + '/bytes', tup(*w), num(64), where, 'the challenge is derived from the transcript', s)
                        continue
                    ctx.ob(key + '/bytes', n >= ENOUGH, where, 'only %d bytes are drawn for a challenge' % n)
                    c, t1 = drawn(t, L, num(n))
                    settle(ctx, key + '/value', vf(s.val, 'Ok', '0'), c, where, 'the challenge is the transcript output reduced to the field', s)
                    step(ctx, key, s, t1, False, where)
            op = 'get_and_append_challenge_vectors'
            where = ctx.span(FN + op)
            for k in (0, 1, 2, 3, 4, 5, 40):
                s = summ(ctx, op, [state(t, empty), None, num(k)], unroll=100)
                key = '%s/%s%s, %d challenges' % (op, 'on an empty transcript' if empty else 'on a transcript in use', '' if ok else ', unserializable', k)
                if not total(ctx, key, s, where):
                    continue
                if empty:
                    settle(ctx, key + '/succeeds', okform(s.val), FALSE, where, 'refuses an empty transcript', s)
                    step(ctx, key, s, t, True, where)
                elif ok:
                    settle(ctx, key + '/succeeds', okform(s.val), TRUE, where, 'succeeds', s)
                    w = width(s.val)
                    n = {int_val(x) for x in w}
                    if k and (None in n or len(n) != 1):
                        settle(ctx, key + '/bytes', tup(*w), num(64), where, 'challenges are derived from the transcript', s)
                        continue
                    cs, u = [], t
                    for _ in range(k):
                        c, u = drawn(u, L, num(next(iter(n))))
                        cs.append(c)
                    settle(ctx, key + '/values', vf(s.val, 'Ok', '0'), lst(*cs), where, 'every challenge is drawn after the previous one was absorbed', s)
                    step(ctx, key, s, u, False, where)
                elif k:
                    settle(ctx, key + '/succeeds', okform(s.val), FALSE, where, 'fails', s)
    OKS[0] = TRUE


# ------------------------------------------------------------------ what is absorbed for an element
TYPES = ('IOPProverMessage', 'VPAuxInfo', 'Commitment')


def write(I, st, a, fn):
    st.mem[TRC] = cat(st.mem.get(TRC, NIL), lst(raw('bytes_of', N(I, st, a[0]))))
    return st, Ok(UNIT)


def wrote(I, st, a, fn):
    st.mem[TRC] = cat(st.mem.get(TRC, NIL), lst(raw('bytes_of', N(I, st, a[1]))))
    return st, Ok(UNIT)


W = {p + '::' + x: write for p in ('CanonicalSerialize', 'impls') for x in ('serialize_with_mode', 'serialize_compressed', 'serialize_uncompressed')}
W['Write::write_all'] = wrote


def has(t, f):
    """f goes into t whichever way the conditions in t fall"""
    if t is f:
        return True
    if t.op == 'ite':
        return has(t.a[1], f) and has(t.a[2], f)
    return any(has(x, f) for x in t.a if isinstance(x, T))


def encodings(ctx):
    p = ctx.prog()
    for path, a in sorted(p.adts.items()):
        name = path.split('::')[-1]
        fn = name + '@CanonicalSerialize::serialize_with_mode'
        if name not in TYPES or a['enum'] or p.fn(fn) is None:
            continue
        where = ctx.span(fn)
        fs = [(f, ty) for f, ty, _ in a['variants'][0][1]]
        # a field that is a list stands for lists of five elements, each of which must be in
        val = [lst(*[sym('%s%d' % (f, i)) for i in range(5)]) if 'Vec<' in ty else sym(f) for f, ty in fs]
        s = run.summarize(p, fn, hooks=W, setup=lambda I, st: st.mem.__setitem__(TRC, NIL), argvals=[adt(path, '', tuple(f for f, _ in fs), *val)])
        ctx.saw(*s.I.inlined)
        for (f, ty), v in zip(fs, val):
            if 'PhantomData' in ty:
                continue
            ctx.add('encoded fields')
            key = '%s/writes %s' % (name, f)
            good = all(has(s.trace, x) for x in (v.a if v.op == 'list' else (v,)))
            if not good and s.I.unknown:
                ctx.skip(key, 'calls not followed: %s' % ', '.join(sorted(s.I.unknown))[:200])
                continue
            ctx.ob(key, good, where, 'the bytes absorbed for a %s do not include all of its %s on every path: %s' % (name, f, str(s.trace)[:300]))
