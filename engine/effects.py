"""Rules over the call graph and the control-flow graphs of the whole crate: effects, discarded
results, re-entrant borrows."""
import re
import iop
import mir

DERIVED = ('clone', 'fmt', 'eq', 'ne', 'cmp', 'partial_cmp', 'hash', 'default')


class Call:
    __slots__ = ('body', 'bi', 'fn', 'path', 'name', 'args', 'dest', 'target', 'sp', 'ind')


def calls(b):
    """calls of a body outside unwind paths"""
    out = []
    for i, blk in enumerate(b.blocks):
        t = blk['t']
        if blk['c'] or t[0] != 'call':
            continue
        c = Call()
        c.body, c.bi, c.args, c.dest, c.target, c.sp = b, i, t[2], t[3], t[4], t[5]
        f = t[1]
        c.ind = not (f[0] == 'c' and f[1].get('k') == 'fn')
        c.fn = None if c.ind else f[1]['fn']
        c.path = '' if c.ind else (c.fn.get('resolved') or c.fn['path'])
        c.name = '' if c.ind else c.fn['name']
        out.append(c)
    return out


def local_of(op):
    """the local a call argument is, if it is a whole local"""
    if op[0] in ('cp', 'mv') and not op[1]['p']:
        return op[1]['l']
    return None


def walk(x, f):
    """every node of a JSON term"""
    f(x)
    if isinstance(x, list):
        for y in x:
            walk(y, f)
    elif isinstance(x, dict):
        for y in x.values():
            walk(y, f)


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.calls = {}
        self.edges = {}
        self.impls = {}
        for b in prog.bodies.values():
            if b.trait and b.kind == 'method':
                self.impls.setdefault((mir.lastseg(b.trait), b.key.split('::')[-1]), []).append(b)
        self.dyn = set()
        for b in prog.bodies.values():
            cs = calls(b)
            self.calls[b.key] = cs
            e = set()
            for c in cs:
                e |= {x.key for x in self.callees(c)}
            for blk in b.blocks:
                if blk['c']:
                    continue

                def look(x):
                    # closures built here and functions used as values may be called by whoever receives them
                    if isinstance(x, dict):
                        if x.get('k') == 'fn' and 'fn' in x:
                            f = x['fn']
                            k = f.get('resolved') or f['path']
                            if k in prog.bodies:
                                e.add(k)
                            if f.get('trait') and not f.get('resolved'):
                                e.update(y.key for y in self.impls.get((mir.lastseg(f["trait"]), f["name"]), []))
                    elif isinstance(x, str) and '{closure#' in x and x in prog.bodies:
                        e.add(x)
                walk(blk['s'], look)
                walk(blk['t'], look)
            self.edges[b.key] = e

    def callees(self, c):
        if c.ind:
            return []
        b = self.prog.bodies.get(c.path)
        r = [b] if b is not None else []
        if c.fn.get('trait') and not c.fn.get('resolved'):
            r += [x for x in self.impls.get((mir.lastseg(c.fn['trait']), c.name), []) if x is not b]
        return r

    def reach(self, roots):
        seen, via = set(), {}
        work = [r for r in roots]
        seen |= set(work)
        while work:
            k = work.pop()
            for x in self.edges.get(k, ()):
                if x not in seen:
                    seen.add(x)
                    via[x] = k
                    work.append(x)
        return seen, via

    def route(self, via, k):
        r = [k]
        while k in via and len(r) < 12:
            k = via[k]
            r.append(k)
        return ' <- '.join(mir.short(x) for x in r)


_g = {}


def graph(ctx):
    p = ctx.prog()
    if id(p) not in _g:
        _g[id(p)] = Graph(p)
    return _g[id(p)]


def takes_rng(b):
    """the caller supplies the randomness"""
    for i in range(1, b.argc + 1):
        t = b.locals[i][0].lstrip('&').replace('mut ', '').strip()
        if t in ('R', 'Rng') or 'RngCore' in t or 'StdRng' in t or 'ChaCha' in t or t.endswith('Rng'):
            return True
    return False


RANDOM = ('rand::', 'UniformRand', 'RngCore', 'rand_core', 'getrandom', 'test_rng', 'thread_rng')
OUTSIDE = ('std::time::', 'core::time::', 'std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::', 'std::sync::atomic', 'core::sync::atomic', 'std::sync::Mutex',
           'std::sync::RwLock', 'rayon::current_thread', 'current_thread_index', 'std::io::stdin', 'RandomState', 'std::hash::BuildHasher', 'DefaultHasher')


def nature(path):
    p = path
    if any(x in p for x in RANDOM) and not p.startswith('zk_sql::'):
        return 'draws randomness'
    if any(x in p for x in OUTSIDE):
        return 'depends on the environment'
    return None


def pubs(prog):
    return [b for b in prog.bodies.values() if b.pub and b.kind in ('fn', 'method') and not b.derived]


def deterministic(ctx):
    """proving and verifying draw no randomness of their own and read nothing from the environment"""
    g = graph(ctx)
    roots = [b.key for b in pubs(ctx.prog()) if not takes_rng(b)] + [b.key for b in ctx.prog().bodies.values() if b.trait and b.kind == 'method' and not b.derived and not takes_rng(b)]
    seen, via = g.reach(roots)
    # randomness handed in explicitly stays the caller's
    for k in sorted(seen):
        b = ctx.prog().bodies[k]
        ctx.saw(b.short)
        ctx.add('functions reachable without an RNG argument')
        for c in g.calls[k]:
            ctx.add('call sites')
            n = None if c.ind else nature(c.path) or nature(c.fn['path'])
            ctx.ob('%s/%s' % (b.short, c.name or 'indirect'), n is None, '%s:%s' % tuple(c.sp[:2]), '%s %s: %s\n  reached: %s' % (b.short, n, c.path, g.route(via, k)))


# ------------------------------------------------------------------ iteration over hashed collections
ITERS = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'into_iter', 'drain', 'retain', 'extract_if', 'difference', 'intersection', 'union')
COMMUTE = ('max', 'min', 'sum', 'product', 'count', 'len', 'all', 'any', 'is_empty', 'contains', 'max_by', 'min_by', 'eq')
ORDERED = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'sorted')
LAZY = ('map', 'filter', 'filter_map', 'cloned', 'copied', 'chain', 'zip', 'enumerate', 'into_iter', 'iter', 'flat_map', 'flatten', 'collect', 'as_ref', 'deref', 'deref_mut', 'clone', 'to_vec', 'by_ref', 'peekable',
        'rev', 'skip', 'take', 'from_iter', 'borrow', 'borrow_mut', 'as_mut_slice', 'as_slice', 'inspect', 'fuse', 'into_par_iter', 'par_iter')


def hashed(c):
    s = (c.fn.get('resolved') or '') + ' ' + c.fn['path']
    if 'std::collections::HashMap' in s or 'std::collections::HashSet' in s or 'hash_map' in s or 'hash_set' in s:
        return True
    return bool(c.fn.get('trait')) and any(mir.strip_g(x.lstrip('&').replace('mut ', '').strip()).split('::')[-1] in ('HashMap', 'HashSet') for x in c.fn.get('g') or [][:1])


def unordered(t):
    t = mir.strip_g(t.lstrip('&').replace('mut ', '').strip())
    return t.split('::')[-1] in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')


def copies(b):
    """local -> locals it is copied, moved or borrowed into"""
    out = {}
    for blk in b.blocks:
        if blk['c']:
            continue
        for s in blk['s']:
            if s[0] != '=':
                continue
            d = s[1]['l']

            def look(x):
                if isinstance(x, dict) and 'l' in x and 'p' in x:
                    out.setdefault(x['l'], set()).add(d)
            walk(s[2], look)
    return out


def hash_order(ctx):
    g = graph(ctx)
    for k, cs in sorted(g.calls.items()):
        b = ctx.prog().bodies[k]
        if b.derived:
            continue
        src = [c for c in cs if not c.ind and c.name in ITERS and hashed(c)]
        if not src:
            continue
        cp = copies(b)
        for c in src:
            ctx.add('iterations over hashed collections')
            ctx.saw(b.short)
            key = '%s/%s' % (b.short, c.name)
            where = '%s:%s' % tuple(c.sp[:2])
            taint, work, verdict, sink, ties, full = set(), [c.dest['l']], [], [], [], set()
            while work:
                l = work.pop()
                if l in taint:
                    continue
                taint.add(l)
                work += list(cp.get(l, ()))
                for d in cs:
                    if d.ind or d is c:
                        continue
                    pos = [i for i, a in enumerate(d.args) if a[0] in ('cp', 'mv') and a[1]['l'] == l]
                    if not pos:
                        continue
                    if d.name in ORDERED:
                        t = tie(ctx, b, d, c)
                        if t:
                            ties.append((d, t))
                        else:
                            verdict.append('sorted')
                            full.add(d.bi)
                    elif d.name in COMMUTE:
                        verdict.append('commutes')
                    elif d.name in ('collect', 'from_iter') and unordered(b.locals[d.dest['l']][0]):
                        verdict.append('collected without order')
                    elif d.name in LAZY:
                        work.append(d.dest['l'])
                        # a mutable borrow used for sorting is another name of the same value
                    elif d.name == 'next':
                        sink.append((d, 'loop'))
                    elif d.name in ('insert', 'extend', 'get', 'remove', 'entry', 'contains_key') and pos != [0]:
                        sink.append((d, 'loop'))
                    else:
                        sink.append((d, d.name))
            ties = [(d, t) for d, t in ties if not full or passes(b, d.bi, full)]
            if ties and full and 'lossy' in [t for _, t in ties]:
                verdict = []
            if 'sorted' in verdict or (verdict and not sink):
                ctx.ob(key, True)
            elif ties and 'lossy' in [t for _, t in ties]:
                ctx.fail(key, where, '%s orders the elements of a hashed collection by a key that different elements share (%s): those stay in hash order' % (b.short, ties[0][0].name))
            elif ties:
                ctx.skip(key, 'the key the elements are sorted by is not recognised')
            elif any(x == 'loop' for _, x in sink):
                loop(ctx, g, b, cs, c, key, where)
            elif 0 in taint:
                ctx.fail(key, where, '%s returns elements in the order of a hashed collection' % b.short)
            else:
                bad = [d for d, n in sink if n.startswith('append') or n in ('push', 'add_mle_list') or (n in ('for_each', 'fold', 'try_for_each', 'try_fold') and lists(ctx, g, b, d)) or absorbs(g, d)]
                if bad:
                    ctx.fail(key, where, 'the order of a hashed collection reaches %s in %s' % (bad[0].name, b.short))
                else:
                    ctx.skip(key, 'use of the iteration is not recognised: ' + ', '.join(sorted({n for _, n in sink})))


def passes(b, bi, avoid):
    """some path goes through block bi and through none of the blocks to avoid"""
    cfg = b.cfg()

    def reach(start):
        seen, w = set(), list(start)
        while w:
            x = w.pop()
            if x < 0 or x in seen or x in avoid:
                continue
            seen.add(x)
            w += cfg.succ[x]
        return seen
    if bi not in reach([0]):
        return False
    return any(b.blocks[x]['t'][0] == 'return' or not cfg.succ[x] for x in reach([bi]))


INTS = ('bool', 'char', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def bare(t):
    t = t.strip()
    while t.startswith('&'):
        t = re.sub(r"^&\s*('\w+\s+)?(mut\s+)?", '', t).strip()
    return t


def tie(ctx, b, d, c):
    """None when the sort fixes the order, 'lossy' when different elements compare equal, 'unknown' otherwise"""
    import interp
    import terms as T
    if d.name in ('sort', 'sort_unstable', 'sorted') or len(d.args) < 2:
        return None
    prog = ctx.prog()
    ks = []
    walk(d.args[1], lambda x: ks.append(x) if isinstance(x, str) and x in prog.bodies else None)
    l = local_of(d.args[1])
    for blk in b.blocks:
        for s in blk['s']:
            if s[0] == '=' and l is not None and s[1]['l'] == l and not s[1]['p']:
                walk(s[2], lambda x: ks.append(x) if isinstance(x, str) and x in prog.bodies else None)
    if len(set(ks)) != 1:
        return 'unknown'
    f = prog.bodies[ks[0]]
    two = 'by_key' not in d.name and 'cached' not in d.name
    I, st = interp.Interp(prog, {}), interp.St()
    x, y = T.sym('x'), T.sym('y')
    I.stack.append('key')
    try:
        st, r = I.call_body(st, f, ([T.sym('env')] if f.argc > 1 + two else []) + ([x, y] if two else [x]))
    except Exception:
        return 'unknown'
    if st is None or r is None:
        return 'unknown'
    keyty = bare((c.fn.get('g') or [''])[0])

    def determines(k):
        if k is x:
            return True
        if k.op in ('tuple', 'adt'):
            return any(determines(z) for z in k.a if isinstance(z, T.T))
        if k.op == 'fld' and k.a[1] == '0':
            return determines(k.a[0])
        return False
    if two:
        cmps = []

        def see(t):
            if t.op == 'cmp':
                cmps.append(t)
            return t
        import lock
        lock.mapt(r, see)
        for t in cmps:
            k = [z for z in t.a if iop.has(z, x)]
            if len(k) == 1 and determines(k[0]):
                return None
        ks = [z for t in cmps for z in t.a if iop.has(z, x)]
        return 'lossy' if ks and r.op == 'cmp' and not I.unknown else 'unknown'
    ret = bare(f.locals[0][0])
    if determines(r):
        return None
    if keyty and keyty == ret:
        return None
    if ret in INTS and keyty not in INTS:
        names = set(I.unknown)
        if not names or all(n.split('::')[-1] in ('len', 'count', 'num_vars', 'is_empty', 'is_some', 'count_ones') for n in names):
            return 'lossy'
    return 'unknown'


SENSITIVE = ('append_field_element', 'append_message', 'append_serializable_element', 'get_and_append_challenge', 'get_and_append_challenge_vectors', 'push', 'push_back', 'extend', 'push_str')


def loop(ctx, g, b, cs, c, key, where):
    """a loop over a hashed collection: nothing in its body depends on the order"""
    nx = [d for d in cs if not d.ind and d.name == 'next']
    cfg = b.cfg()
    body = set()
    for d in nx:
        # blocks from which the head is reachable again
        fwd, work = set(), [d.target]
        while work:
            x = work.pop()
            if x in fwd or x < 0:
                continue
            fwd.add(x)
            work += cfg.succ[x]
        for x in fwd:
            seen, w = set(), [x]
            while w:
                y = w.pop()
                if y in seen:
                    continue
                seen.add(y)
                w += cfg.succ[y]
            if d.bi in seen:
                body.add(x)
    for d in cs:
        if d.bi in body and not d.ind:
            keys = [x.key for x in g.callees(d)]
            seen, via = g.reach(keys)
            names = {d.name} | {e.name for k in seen for e in g.calls[k]}
            hit = names & set(SENSITIVE)
            if hit & {'append_field_element', 'append_message', 'append_serializable_element', 'get_and_append_challenge', 'get_and_append_challenge_vectors'} or (d.name in SENSITIVE and not sorted_later(cs, body)):
                ctx.fail(key, where, 'inside a loop over a hashed collection, %s calls %s: the result depends on the iteration order' % (b.short, d.name))
                return
    ctx.ob(key, True)


def lists(ctx, g, b, c):
    """a closure handed to c appends to a list or to the transcript"""
    for a in c.args:
        l = local_of(a)
        if l is None:
            continue
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[1]['l'] == l and not s[1]['p']:
                    ks = []
                    walk(s[2], lambda x: ks.append(x) if isinstance(x, str) and x in ctx.prog().bodies else None)
                    for k in ks:
                        if {e.name for x in g.reach([k])[0] for e in g.calls[x]} & set(SENSITIVE):
                            return True
    return False


ABSORB = {'append_field_element', 'append_message', 'append_serializable_element'}


def absorbs(g, d):
    """the call hands its arguments to code that absorbs into the transcript"""
    ks = [x.key for x in g.callees(d)]
    return bool({e.name for x in g.reach(ks)[0] for e in g.calls[x]} & ABSORB)


def sorted_later(cs, body):
    return any(not d.ind and d.name in ORDERED and d.bi not in body for d in cs)


# ------------------------------------------------------------------ discarded results
def result_of(t):
    """('Result', payload) for a type written out"""
    s = t.strip()
    m = mir.strip_g(s).split('::')[-1]
    if m != 'Result':
        return None
    i = s.index('<')
    d, j = 0, i
    for j in range(i + 1, len(s)):
        if s[j] == '<' or s[j] == '(' or s[j] == '[':
            d += 1
        elif s[j] in '>)]' and s[j - 1] != '-':
            d -= 1
            if d < 0:
                break
        elif s[j] == ',' and d == 0:
            break
    return s[i + 1:j].strip()


def reads(b):
    """local -> list of ('copy', dest, statement) | ('switch', block) | ('call', call index, position) | ('ret',)"""
    out = {}
    for bi, blk in enumerate(b.blocks):
        if blk['c']:
            continue
        for s in blk['s']:
            if s[0] != '=':
                continue

            def look(x, s=s, bi=bi):
                if isinstance(x, dict) and 'l' in x and 'p' in x:
                    out.setdefault(x['l'], []).append(('copy', s[1], s[2], x, bi))
            walk(s[2], look)
            for p in s[1]['p']:
                if p[0] == 'i' and isinstance(p[1], int):
                    out.setdefault(p[1], []).append(('index', bi))
        t = blk['t']
        if t[0] == 'switch':
            o = t[1]
            if o[0] in ('cp', 'mv'):
                out.setdefault(o[1]['l'], []).append(('switch', bi, bool(o[1]['p'])))
        elif t[0] == 'assert':
            o = t[1]
            if o[0] in ('cp', 'mv'):
                out.setdefault(o[1]['l'], []).append(('switch', bi, bool(o[1]['p'])))
    return out


CARRY = ('branch', 'unwrap', 'expect', 'map_err', 'map', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'ok', 'err', 'and_then', 'or_else', 'clone', 'into', 'from', 'as_ref', 'is_ok', 'is_err', 'ok_or', 'cloned', 'copied')
CHECKS = ('unwrap', 'expect', 'branch')


def used(b, cs, rd, l, verdict):
    """the blocks where the value in local l, or for verdicts the payload it carries, is looked at; RET for a value that is returned"""
    by = {}
    for c in cs:
        for i, a in enumerate(c.args):
            if a[0] in ('cp', 'mv'):
                by.setdefault(a[1]['l'], []).append((c, i, a[1]))
    seen = set()
    out = set()
    work = [(l, not verdict, -1)]        # (local, payload no longer of interest: any look will do, where it got its value)
    while work:
        x, free, at = work.pop()
        if (x, free) in seen:
            continue
        seen.add((x, free))
        if x == 0:
            out.add(at)
            continue
        for r in rd.get(x, ()):
            if r[0] == 'switch':
                if free or r[2] or b.locals[x][0] == 'bool':
                    out.add(r[1])
            elif r[0] == 'index':
                out.add(r[1])
            else:
                _, d, rv, pl, bi = r
                if rv[0] in ('discr', 'discriminant'):
                    if free:
                        out.add(bi)
                    continue
                if d['p'] or b.locals[d['l']][0].startswith('*'):
                    out.add(bi)           # stored into a structure
                    continue
                work.append((d['l'], free, bi))
        for c, i, pl in by.get(x, ()):
            if c.ind:
                out.add(c.bi)
                continue
            if c.name in ('drop', 'forget'):
                continue
            if c.name in ('unwrap_or', 'unwrap_or_default') and 'result::Result' in c.path:
                continue              # the failure is replaced by a default
            if c.name in CARRY and not c.fn.get('rlocal'):
                if c.name in CHECKS and not verdict:
                    out.add(c.bi)
                    continue
                if c.name in ('is_ok', 'is_err') and verdict:
                    continue
                work.append((c.dest['l'], free, c.bi))
            elif c.name != 'from_residual':
                out.add(c.bi)
    return out


def failing(b, bi):
    """the block makes the function return an error or a negative verdict"""
    blk = b.blocks[bi]
    neg = {}
    for s in blk['s']:
        if s[0] != '=' or s[1]['p']:
            continue
        l, rv = s[1]['l'], s[2]
        no = lambda o: o[0] == 'c' and o[1].get('ty') == 'bool' and o[1].get('v') == '0' or o[0] in ('cp', 'mv') and not o[1]['p'] and neg.get(o[1]['l'], False)
        bad = False
        if rv[0] == 'adt' and rv[1].endswith('result::Result'):
            bad = rv[2] == 'Err' or rv[2] == 'Ok' and len(rv[5]) == 1 and no(rv[5][0])
        elif rv[0] == 'adt' and rv[1].endswith('option::Option'):
            bad = rv[2] == 'None'
        elif rv[0] == 'use':
            bad = no(rv[1])
        neg[l] = bad
        if l == 0 and bad:
            return True
    t = blk['t']
    return t[0] == 'call' and t[3]['l'] == 0 and not t[3]['p'] and 'from_residual' in repr(t[1])


def forgotten(b, c, sinks):
    """a path from the call to a return, or back to the call, that does not look at its value: its last block"""
    if c.bi in sinks:
        return None
    seen = set()
    work = [(x, c.bi) for x in b.succs(c.bi)]
    while work:
        x, frm = work.pop()
        if x == c.bi:
            return frm
        if x in seen or x in sinks or failing(b, x):
            continue
        seen.add(x)
        n = b.succs(x)
        if not n and b.blocks[x]['t'][0] == 'return':
            return frm
        work.extend((y, x) for y in n)
    return None


QUIET = ('fmt', 'write_fmt', 'write_str')


def discarded(ctx):
    g = graph(ctx)
    for k, cs in sorted(g.calls.items()):
        b = ctx.prog().bodies[k]
        if b.derived:
            continue
        rd = None
        for c in cs:
            if c.ind or c.dest['p'] or c.name in QUIET:
                continue
            ty = b.locals[c.dest['l']][0]
            p = result_of(ty)
            verdict = p == 'bool'
            if p is None:
                if ty == 'bool' and c.fn.get('rlocal') and c.name not in DERIVED:
                    verdict = True
                else:
                    continue
            if not c.fn.get('local') and not c.fn.get('rlocal') and c.name in CARRY + ('from_residual',):
                continue
            if rd is None:
                rd = reads(b)
            ctx.saw(b.short)
            ctx.add('results')
            sinks = used(b, cs, rd, c.dest['l'], verdict)
            ok = bool(sinks) and (c.dest['l'] == 0 or forgotten(b, c, sinks) is None)
            ctx.ob('%s/%s' % (b.short, c.name), ok, '%s:%s' % tuple(c.sp[:2]),
                   '%s %s of %s' % (b.short, ('on some path ' if sinks else '') + ('ignores the verdict' if verdict else 'ignores the failure'), mir.short(c.path or c.name)))


# ------------------------------------------------------------------ re-entrant borrows
def guard(t):
    """(exclusive, borrowed type) for the type of a RefCell guard"""
    m = mir.strip_g(t).split('::')[-1]
    if m not in ('Ref', 'RefMut') or 'cell::' not in mir.strip_g(t):
        return None
    i = t.index('<')
    s = t[i + 1:-1]
    if s.startswith("'"):
        s = s.split(',', 1)[1]
    return m == 'RefMut', norm_ty(s.strip())


def norm_ty(s):
    import re
    s = re.sub(r"'[a-z_]+ ?", '', s)
    return s.replace('zk_sql::', '')


def dyncalls(g, c):
    """closures an indirect or dyn call may run: those of the same type"""
    if c.ind or (c.name in ('call', 'call_mut', 'call_once') and c.fn.get('trait') and not c.path.startswith('zk_sql')):
        ty = norm_ty(c.body.locals[c.dest['l']][0]) if not c.dest['p'] else None
        arg = None
        if not c.ind and len(c.args) == 2 and c.args[1][0] in ('mv', 'cp') and not c.args[1][1]['p']:
            arg = norm_ty(c.body.locals[c.args[1][1]['l']][0])
        takes = lambda b: '(%s)' % ', '.join(norm_ty(b.locals[i][0]) for i in range(2, b.argc + 1)) if b.argc != 2 else '(%s,)' % norm_ty(b.locals[2][0])
        return [b for b in g.prog.bodies.values() if b.kind == 'closure' and (ty is None or norm_ty(b.locals[0][0]) == ty) and (arg is None or takes(b) == arg)]
    return []


def borrows(ctx):
    g = graph(ctx)
    own, edges = {}, {}
    for k, cs in g.calls.items():
        own[k] = set()
        edges[k] = set()
        for c in cs:
            if not c.ind and c.name in ('borrow', 'borrow_mut', 'try_borrow', 'try_borrow_mut') and 'RefCell' in c.path:
                if not c.dest['p']:
                    q = guard(c.body.locals[c.dest['l']][0])
                    if q:
                        own[k].add(q)
            edges[k] |= {x.key for x in g.callees(c)} | {x.key for x in dyncalls(g, c)}
    eff = {k: set(v) for k, v in own.items()}
    ch = True
    while ch:
        ch = False
        for k in eff:
            n = len(eff[k])
            for x in edges[k]:
                eff[k] |= eff[x]
            ch |= len(eff[k]) != n
    for k, cs in sorted(g.calls.items()):
        b = ctx.prog().bodies[k]
        gs = {i: q for i, q in ((i, guard(t[0])) for i, t in enumerate(b.locals)) if q}
        if not gs:
            continue
        ctx.saw(b.short)
        at = {c.bi: c for c in cs}
        inn = {0: frozenset()}
        work = [0]
        while work:
            bi = work.pop()
            live = set(inn[bi])
            blk = b.blocks[bi]
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] == 'mv' and not s[2][1][1]['p'] and s[2][1][1]['l'] in live:
                    live.discard(s[2][1][1]['l'])
                    if not s[1]['p'] and s[1]['l'] in gs:
                        live.add(s[1]['l'])
            if blk.get('d') and not blk['d']['p']:
                live.discard(blk['d']['l'])
            c = at.get(bi)
            if c is not None:
                for a in c.args:
                    if a[0] == 'mv' and not a[1]['p']:
                        live.discard(a[1]['l'])
                check(ctx, g, b, c, live, gs, eff)
                if not c.dest['p'] and c.dest['l'] in gs:
                    live.add(c.dest['l'])
            f = frozenset(live)
            for s in b.succs(bi):
                if s not in inn or not f <= inn[s]:
                    inn[s] = f | inn.get(s, frozenset())
                    work.append(s)


def check(ctx, g, b, c, live, gs, eff):
    if not live:
        return
    if not c.ind and c.name in ('borrow', 'borrow_mut') and 'RefCell' in c.path and not c.dest['p']:
        q = guard(b.locals[c.dest['l']][0])
        want = {q} if q else set()
    else:
        want = set()
        for x in {y.key for y in g.callees(c)} | {y.key for y in dyncalls(g, c)}:
            want |= eff[x]
    ctx.add('calls made while a cell is borrowed')
    for l in live:
        for m, t in want:
            if t == gs[l][1] and (m or gs[l][0]):
                ctx.fail('%s/%s' % (b.short, c.name), '%s:%s' % tuple(c.sp[:2]), '%s calls %s, which borrows %s%s while it is already borrowed%s: this aborts' % (
                    b.short, mir.short(c.path or c.name), t[:60], ' mutably' if m else '', ' mutably' if gs[l][0] else ''))
                return
    ctx.ob('%s/%s' % (b.short, c.name), True)
