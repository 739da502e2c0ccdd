"""Abstract interpreter over MIR: one sweep over the control-flow graph per function, joining states
with decision-diagram gated values; loops are summarised by recurrences; local callees are inlined."""
import heapq
from terms import *
import terms as TM
import mir

TRC = raw('cell', 'TRACE')


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc=TRUE, mem=None):
        self.pc = pc
        self.mem = {} if mem is None else mem

    def copy(self):
        return St(self.pc, dict(self.mem))


def merge(states):
    states = [s for s in states if s.pc is not FALSE]
    if not states:
        return None
    r = states[0]
    for s in states[1:]:
        pc = Or(r.pc, s.pc)
        c = restrict(r.pc, pc)
        mem = {}
        a, b = r.mem, s.mem
        if c is TRUE:
            # identical conditions (e.g. both TRUE): prefer the first
            c = r.pc
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if x is y:
                mem[k] = x
            elif x is None:
                mem[k] = y
            elif y is None:
                mem[k] = x
            else:
                mem[k] = ite(c, x, y)
        r = St(pc, mem)
    return r


def refpath(r):
    return r.a[0], r.a[1:]


def mkref(cell, path=()):
    return raw('ref', cell, *path)


WIDTH = {}
for _b in (8, 16, 32, 64, 128):
    WIDTH['u%d' % _b] = (0, 2 ** _b - 1)
    WIDTH['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
SHORT = ('u8', 'i8', 'u16', 'i16')


def short(v, ty):
    """v in a type that cannot hold a number of rows; what is bounded by a number of variables fits"""
    n = int_val(v)
    if n is not None:
        lo, hi = WIDTH[ty]
        return num((n - lo) % (hi - lo + 1) + lo)
    if all(x.op == 'log2' or x.op == 'fld' and x.a[1] == 'num_vars' for mo in as_poly(v) for x in mo.a[::2]):
        return v
    return raw('short', v, ty)


WIDTH['usize'], WIDTH['isize'] = WIDTH['u64'], WIDTH['i64']


SIZES, FLIP = {}, set()


class Interp:
    def __init__(self, prog, hooks=None, models=None, maxdepth=40):
        self.prog = prog
        self.hooks = hooks or {}
        import models as M
        self.models = M
        self.fid = 0
        self.stack = []
        self.panics = []       # (where, kind, pc)
        self.fns = {}          # fn consts by key, for fn items used as values
        self.maxdepth = maxdepth
        self.unknown = {}      # opaque callee -> count
        self.inlined = set()
        self.nblocks = 0
        self.havoc = set()
        self.observers = []    # called (st, fn, args) for each call
        self.loopdepth = 0
        self.speculating = 0
        self.unroll = 16       # loops with at most this many decided rounds are unrolled
        self.recursion = 2     # a function may occur this often on the stack
        self.wraps = []        # (where, what): a constant integer operation that overflows

    # ---------------------------------------------------------------- memory
    def load(self, st, cell, path=()):
        v = st.mem.get(cell)
        if v is None:
            if cell.a[0] == 'H':
                v = raw('content', cell.a[1])
            else:
                return DEAD
        for i in range(0, len(path), 2):
            v = self.proj(st, v, path[i], path[i + 1])
        return v

    def proj(self, st, v, kind, x):
        if kind == 'f':
            return fld(v, x)
        if kind == 'v':
            var, n = x.split('.', 1)
            return vf(v, var, n)
        if kind == 'ix':
            if v.op == 'ref':
                v = self.load(st, *refpath(v))
            return idx(v, x)
        if kind == 'mk':
            return mval(v, x)
        if kind == 'rg':
            return slice_(v, x.a[0], x.a[1])
        raise Unsupported(kind)

    def store(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        base = self.load(st, cell)
        st.mem[cell] = self._upd(st, base, path, val)

    def _upd(self, st, base, path, val):
        if not path:
            return val
        k, x = path[0], path[1]
        sub_ = self._upd(st, self.proj(st, base, k, x), path[2:], val) if len(path) > 2 else val
        if base.op == 'ite' and k in ('f', 'v'):
            return ite(raw('ite', base.a[0], TRUE, FALSE), self._upd(st, base.a[1], path, val), self._upd(st, base.a[2], path, val))
        if k == 'f':
            return upd(base, x, sub_)
        if k == 'ix':
            return store(base, x, sub_)
        if k == 'v':
            var, n = x.split('.', 1)
            if base.op == 'adt':
                if base.a[1] == var:
                    return upd(base, n, sub_)
                return DEAD
            return raw('vupd', base, var, n, sub_)
        if k == 'mk':
            return minsert(base, x, sub_)
        if k == 'rg':
            return cat(slice_(base, ZERO, x.a[0]), sub_, slice_(base, x.a[1], length(base)))
        raise Unsupported(k)

    def deref(self, st, v):
        """value seen through any reference"""
        n = 0
        while v.op == 'ref' and n < 10:
            v = self.load(st, *refpath(v))
            n += 1
        if v.op == 'ite' and self._hasref(v):
            return ite(raw('ite', v.a[0], TRUE, FALSE), self.deref(st, v.a[1]), self.deref(st, v.a[2]))
        return v

    def _hasref(self, v):
        if v.op == 'ite':
            return self._hasref(v.a[1]) or self._hasref(v.a[2])
        return v.op == 'ref'

    def norm(self, st, v, memo=None):
        """replace references inside a value by the values they point at (for opaque calls)."""
        if memo is None:
            memo = {}

        def go(t):
            r = memo.get(t.id)
            if r is None:
                if t.op == 'ref':
                    memo[t.id] = t
                    r = go(self.load(st, *refpath(t)))
                elif t.op in ('sym', 'str', 'bv', 'bw', 'true', 'false', 'cell'):
                    r = t
                elif t.op in TM.BIND:
                    r = t
                else:
                    r = rebuild(t, go)
                memo[t.id] = r
            return r
        return go(v)

    # ---------------------------------------------------------------- places
    def cell(self, fid, l):
        return raw('cell', 'L', fid, l)

    def read_place(self, st, fid, p):
        v = st.mem.get(self.cell(fid, p['l']), DEAD)
        dc = None
        for e in p['p']:
            k = e[0]
            if k == '*':
                if v.op == 'ref':
                    v = self.load(st, *refpath(v))
                elif v.op == 'ite':
                    v = self.deref1(st, v)
            elif k == 'f':
                v = vf(v, dc, e[1]) if dc else fld(v, e[1])
                dc = None
            elif k == 'dc':
                dc = e[1]
            elif k == 'ix':
                v = idx(v, st.mem.get(self.cell(fid, e[1]), DEAD))
            elif k == 'ci':
                off = num(e[1]) if not e[3] else sub(length(v), num(e[1]))
                v = idx(v, off)
            elif k == 'sub':
                hi = num(e[2]) if not e[3] else sub(length(v), num(e[2]))
                v = slice_(v, num(e[1]), hi)
            else:
                v = raw('proj', v, str(e))
        return v

    def deref1(self, st, v):
        if v.op == 'ite':
            return ite(raw('ite', v.a[0], TRUE, FALSE), self.deref1(st, v.a[1]), self.deref1(st, v.a[2]))
        if v.op == 'ref':
            return self.load(st, *refpath(v))
        return v

    def resolve(self, st, fid, p):
        """place -> (cell, path) for writing, or a list of guarded targets"""
        cell, path = self.cell(fid, p['l']), ()
        dc = None
        for e in p['p']:
            k = e[0]
            if k == '*':
                v = self.load(st, cell, path)
                if v.op == 'ref':
                    cell, path = refpath(v)
                elif v.op == 'ite' and self._hasref(v):
                    # reference chosen at a join: keep the guarded reference as a cell of its own
                    cell, path = raw('cell', 'G', v), ()
            elif k == 'f':
                path = path + (('v', dc + '.' + e[1]) if dc else ('f', e[1]))
                dc = None
            elif k == 'dc':
                dc = e[1]
            elif k == 'ix':
                path = path + ('ix', st.mem.get(self.cell(fid, e[1]), DEAD))
            elif k == 'ci':
                v = self.load(st, cell, path)
                path = path + ('ix', num(e[1]) if not e[3] else sub(length(v), num(e[1])))
            elif k == 'sub':
                v = self.load(st, cell, path)
                hi = num(e[2]) if not e[3] else sub(length(v), num(e[2]))
                path = path + ('rg', raw('range', num(e[1]), hi))
        return cell, path

    def store_g(self, st, cell, path, val):
        if cell.a[0] == 'G':
            self.store_guarded(st, cell.a[1], path, val, TRUE)
        else:
            self.store(st, cell, path, val)

    def store_guarded(self, st, v, path, val, g):
        if v.op == 'ite':
            c = form(v.a[0])
            self.store_guarded(st, v.a[1], path, val, And(g, c))
            self.store_guarded(st, v.a[2], path, val, And(g, Not(c)))
        elif v.op == 'ref':
            cell, p0 = refpath(v)
            old = self.load(st, cell, p0 + path)
            self.store(st, cell, p0 + path, ite(g, val, old))

    def load_any(self, st, cell, path=()):
        if cell.a[0] == 'G':
            v = self.deref(st, cell.a[1])
            for i in range(0, len(path), 2):
                v = self.proj(st, v, path[i], path[i + 1])
            return v
        return self.load(st, cell, path)

    def mem_get(self, st, ref):
        """load through a (possibly guarded) reference"""
        if ref.op == 'ref':
            c, p = refpath(ref)
            return self.load_any(st, c, p)
        if ref.op == 'ite':
            return self.deref1(st, ref)
        return ref

    def mem_set(self, st, ref, val):
        if ref.op == 'ref':
            c, p = refpath(ref)
            self.store_g(st, c, p, val)
        elif ref.op == 'ite':
            self.store_guarded(st, ref, (), val, TRUE)

    # ---------------------------------------------------------------- rvalues
    def const(self, st, c):
        k = c['k']
        if k == 'int':
            if c['ty'] == 'bool':
                return TRUE if c['v'] != '0' else FALSE
            return num(int(c['v']))
        if k == 'str':
            return S(c['v'])
        if k == 'fn':
            f = c['fn']
            key = f['resolved'] or f['path']
            self.fns[key + '|' + ','.join(f['g'])] = f
            return raw('fn', key, ','.join(f['g']))
        if k == 'closure':
            return raw('clo', c['def'])
        if k == 'promoted':
            b = self.prog.bodies.get('%s::promoted[%d]' % (c['def'], c['i']))
            if b is None:
                return raw('const', c['def'], c['i'])
            s2 = St(TRUE, dict(st.mem))
            r, v = self.call_body(s2, b, [])
            if r is None:
                return DEAD
            return v
        if k == 'zst':
            t = c['ty']
            if t == '()':
                return UNIT
            return raw('zst', t)
        if k == 'named' and c['path'].split('::')[-1] in ('ONE', 'ZERO') and len(c['path'].split('::')) > 1 and c['path'].split('::')[-2] in ('Field', 'One', 'Zero', 'PrimeField', 'AdditiveGroup'):
            return num(1 if c['path'].endswith('ONE') else 0)
        if k == 'named':
            return raw('const', c['path'].split('::')[-1] if not c['path'].startswith('zk_sql') else mir.short(c['path']))
        return raw('const', c.get('v', '?'))

    def operand(self, st, fid, o):
        if o[0] == 'c':
            return self.const(st, o[1])
        return self.read_place(st, fid, o[1])

    def rvalue(self, st, fid, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fid, rv[1])
        if k == 'ref':
            if rv[1]:
                # &mut *x where x is a plain value (Box, Vec) resolves to the same place
                cell, path = self.resolve(st, fid, rv[2])
                return mkref(cell, path)
            return self.read_place(st, fid, rv[2])
        if k == 'cast':
            if rv[1] == 'BoxDerefTransmute' and rv[2][0] in ('cp', 'mv'):
                p = rv[2][1]
                if p['p'] and p['p'][-1] == ['f', '0']:
                    return self.read_place(st, fid, {'l': p['l'], 'p': p['p'][:-1]})
            v = self.operand(st, fid, rv[2])
            self.fits(v, rv[3], 'cast')
            if rv[4] in WIDTH and rv[3] in SHORT and not (WIDTH[rv[3]][0] <= WIDTH[rv[4]][0] and WIDTH[rv[4]][1] <= WIDTH[rv[3]][1]):
                return short(v, rv[3])
            return v
        if k == 'bin':
            a, b = self.operand(st, fid, rv[2]), self.operand(st, fid, rv[3])
            r = self.binop(rv[1], a, b, rv[4])
            if rv[1] in ('Lt', 'Le', 'Gt', 'Ge') and (rv[2][0] == 'c' or rv[3][0] == 'c') and r in (TRUE, FALSE):
                # a comparison with a constant: which way it went, over everything this part looked at
                SIZES.setdefault(id(rv), (self.stack[-1], a if rv[2][0] == 'c' else b, set()))[2].add(r)
                if id(rv) in FLIP:
                    return Not(r)
            return r
        if k == 'un':
            v = self.operand(st, fid, rv[2])
            if rv[1] == 'Not':
                if v.op in ('ite', 'true', 'false') or v.op in ('call',):
                    return Not(form(v))
                return Not(form(v))
            if rv[1] == 'Neg':
                return neg(v)
            if rv[1] == 'PtrMetadata':
                return length(self.deref(st, v))
            return raw('un', rv[1], v)
        if k == 'discr':
            v = self.read_place(st, fid, rv[1])
            return raw('discr', v, tuple((x[0], x[1]) for x in rv[2]), rv[3])
        if k == 'arr':
            return lst(*[self.operand(st, fid, o) for o in rv[1]])
        if k == 'tup':
            return tup(*[self.operand(st, fid, o) for o in rv[1]])
        if k == 'adt':
            vals = [self.operand(st, fid, o) for o in rv[5]]
            if rv[1].endswith('RefCell'):
                pass
            return adt(rv[1], rv[2] if rv[3] else '', tuple(rv[4]), *vals)
        if k == 'clo':
            return raw('clo', rv[1], *[self.operand(st, fid, o) for o in rv[2]])
        if k == 'repeat':
            v = self.operand(st, fid, rv[1])
            n = rv[2]
            if n.isdigit():
                n = int(n)
                if n <= 12:
                    return lst(*[v] * n)
                return raw('repeat', v, num(n))
            return raw('repeat', v, raw('const', n))
        return raw('rv', str(rv[1])[:60])

    def binop(self, op, a, b, ty='usize'):
        ov = False
        if op.endswith('WithOverflow'):
            ov = True
            op = op[:-12]
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op == 'Add':
            r = add(a, b)
        elif op == 'Sub':
            r = sub(a, b)
        elif op == 'Mul':
            r = mul(a, b)
        elif op == 'Shl':
            r = mul(a, pow2(b))
        elif op == 'Eq':
            r = eq(a, b)
        elif op == 'Ne':
            r = Not(eq(a, b))
        elif op == 'Lt':
            r = lt(a, b)
        elif op == 'Gt':
            r = lt(b, a)
        elif op == 'Le':
            r = Not(lt(b, a))
        elif op == 'Ge':
            r = Not(lt(a, b))
        elif op in ('BitAnd', 'BitOr', 'BitXor') and ty == 'bool':
            a, b = form(a), form(b)
            r = And(a, b) if op == 'BitAnd' else Or(a, b) if op == 'BitOr' else ite(a, Not(b), b)
        elif op == 'Div':
            r = div(a, b)
        elif op == 'Rem':
            r = mod(a, b)
        elif op == 'Shr':
            vb = int_val(b)
            r = self.binop('Div', a, num(2 ** vb)) if vb is not None else div(a, pow2(b))
        else:
            va, vb = int_val(a), int_val(b)
            if op in ('BitAnd', 'BitOr', 'BitXor') and va is not None and vb is not None and va >= 0 and vb >= 0:
                r = num(va & vb if op == 'BitAnd' else va | vb if op == 'BitOr' else va ^ vb)
            else:
                r = raw('bin', op, a, b)
        if op in ('Add', 'Sub', 'Mul'):
            self.fits(r, ty, op)
            if ty in SHORT:
                r = short(r, ty)
        if ov:
            return tup(r, FALSE)
        return r

    def fits(self, v, ty, what):
        n = int_val(v)
        if n is not None and ty in WIDTH:
            lo, hi = WIDTH[ty]
            if not lo <= n <= hi:
                self.wraps.append((self.stack[-1] if self.stack else '', '%s gives %d in %s' % (what, n, ty)))

    # ---------------------------------------------------------------- CFG evaluation
    def call_body(self, st, body, args):
        """inline a local body; returns (state, value) or (None, None) if it never returns"""
        self.fid += 1
        fid = self.fid
        self.inlined.add(body.key)
        for i, a in enumerate(args):
            st.mem[self.cell(fid, i + 1)] = a
        self.stack.append(body.short)
        if len(self.stack) > self.maxdepth:
            raise Unsupported('depth ' + '>'.join(self.stack[-5:]))
        try:
            backs, exits = self.eval_region(body, fid, 0, st, None, None)
        finally:
            self.stack.pop()
        rets = [s for t, s in exits if t == 'ret']
        r = merge(rets)
        if r is None:
            return None, None
        v = r.mem.get(self.cell(fid, 0), UNIT)
        for k in [k for k in r.mem if k.a[0] == 'L' and k.a[1] == fid]:
            del r.mem[k]
        return r, v

    def eval_region(self, body, fid, entry, st, region, header):
        """sweep blocks; returns (back states to header, exits [(target, state)])"""
        cfg = body.cfg()
        rank = cfg.rank
        pend = {entry: [st]}
        heap = [(rank[entry], entry)]
        backs, exits = [], []
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            if b not in pend:
                continue
            s = merge(pend.pop(b))
            if s is None:
                continue
            if b in cfg.loops and not (b == header and first):
                outs = self.run_mir_loop(body, fid, b, s)
            else:
                outs = self.exec_block(body, fid, b, s)
            first = False
            for t, ns in outs:
                if ns.pc is FALSE:
                    continue
                if t == 'ret':
                    exits.append((t, ns))
                elif t == header:
                    backs.append(ns)
                elif region is not None and t not in region:
                    exits.append((t, ns))
                else:
                    if t not in pend:
                        pend[t] = []
                        heapq.heappush(heap, (rank[t], t))
                    pend[t].append(ns)
        return backs, exits

    def exec_block(self, body, fid, b, st):
        self.nblocks += 1
        bl = body.blocks[b]
        mem = st.mem
        for s in bl['s']:
            if s[0] == '=':
                v = self.rvalue(st, fid, s[2])
                p = s[1]
                if not p['p']:
                    mem[self.cell(fid, p['l'])] = v
                else:
                    c, path = self.resolve(st, fid, p)
                    self.store_g(st, c, path, v)
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'switch':
            return self.switch(st, fid, t)
        if k == 'assert':
            c = form(self.operand(st, fid, t[1]))
            if not t[2]:
                c = Not(c)
            if t[3].startswith('Overflow'):
                c = TRUE
            c = restrict(c, st.pc)
            bad = And(st.pc, Not(c))
            if bad is not FALSE:
                self.panics.append((self.stack[-1], t[3], bad, bl['sp']))
            st.pc = And(st.pc, c)
            return [(t[4], st)]
        if k == 'call':
            return self.do_call(body, fid, st, t)
        return []

    def switch(self, st, fid, t):
        v = self.operand(st, fid, t[1])
        ty = t[4]
        outs = []
        rest = TRUE
        for val, bb in t[2]:
            if v.op == 'discr':
                tab = dict(v.a[1])
                if val not in tab:
                    continue
                c = is_var(v.a[0], v.a[2], tab[val])
            elif ty == 'bool':
                c = form(v) if val != '0' else Not(form(v))
            else:
                c = eq(v, num(int(val)))
            if c is DEAD:
                c = FALSE
            c = restrict(And(rest, c), st.pc)
            pc = And(st.pc, c)
            rest = And(rest, Not(c))
            if pc is not FALSE:
                outs.append((bb, pc))
        if v.op == 'discr' and len(t[2]) >= len(v.a[1]):
            rest = FALSE
        pc = And(st.pc, restrict(rest, st.pc))
        if pc is not FALSE:
            outs.append((t[3], pc))
        r = []
        for i, (bb, pc) in enumerate(outs):
            r.append((bb, St(pc, dict(st.mem) if i < len(outs) - 1 else st.mem)))
        return r

    def do_call(self, body, fid, st, t):
        f = t[1]
        args = [self.operand(st, fid, o) for o in t[2]]
        span = t[5]
        if f[0] == 'c' and f[1]['k'] == 'fn':
            fn = f[1]['fn']
            if fn['name'] in ('take', 'min') and len(args) == 2:
                for i in (0, 1):
                    n = int_val(args[i]) if t[2][i][0] == 'c' else None
                    if n is not None and n >= 6:
                        # a cap larger than anything looked at: would a smaller one show?
                        SIZES.setdefault(id(t), (self.stack[-1], args[i], {TRUE}))
                        if id(t) in FLIP:
                            args[i] = num(1)
            if t[4] < 0:
                # diverging call
                self.panics.append((self.stack[-1], 'panic:' + fn['path'].split('::')[-1], st.pc, span))
                return []
            st, v = self.call(st, fn, args)
        else:
            fv = self.operand(st, fid, f)
            st, v = self.call_value(st, fv, args)
        if st is None or st.pc is FALSE or t[4] < 0:
            return []
        p = t[3]
        if not p['p']:
            st.mem[self.cell(fid, p['l'])] = v
        else:
            c, path = self.resolve(st, fid, p)
            self.store_g(st, c, path, v)
        return [(t[4], st)]

    def call(self, st, fn, args):
        key = fn['resolved'] or fn['path']
        sh = mir.short(key)
        for o in self.observers:
            o(self, st, fn, args)
        h = self.hooks.get(sh)
        if h is not None:
            r = h(self, st, args, fn)
            if r is not None:
                return r
        b = None
        if fn['resolved']:
            b = self.prog.bodies.get(fn['resolved'])
        elif not fn['trait']:
            b = self.prog.bodies.get(fn['path'])
        if b is None and fn['name'] == 'ne' and fn['trait'] and fn['trait'].endswith('PartialEq'):
            st, v = self.eq_values(st, args, fn)
            return st, Not(form(v)) if st is not None else v
        if b is None and fn['name'] == 'eq' and fn['trait'] and fn['trait'].endswith('PartialEq'):
            return self.eq_values(st, args, fn)
        if b is not None:
            if b.derived:
                nm = fn['name']
                if nm == 'clone':
                    return st, self.deref(st, args[0])
                if nm == 'eq':
                    return st, eq(self.norm(st, args[0]), self.norm(st, args[1]))
                if nm in ('fmt', 'assert_fields_are_eq'):
                    return st, Ok(UNIT)
            if fn['name'] == 'fmt':
                return st, Ok(UNIT)
            if b.key.count('') and self.stack.count(b.short) >= self.recursion:
                return self.opaque(st, fn, args)
            if '{closure#' in b.short.split('::')[-1] and fn['name'] in ('call', 'call_mut', 'call_once') and len(args) == 2:
                # a closure called by name: its arguments come as one tuple
                args = [args[0]] + [fld(self.deref1(st, args[1]), str(j)) for j in range(b.argc - 1)]
            return self.call_body(st, b, args)
        return self.models.call(self, st, fn, args)

    def eq_values(self, st, args, fn):
        """PartialEq on values: local (manual) implementations are inlined, everything else is structural"""
        g = [x.lstrip('&').strip() for x in fn['g']]
        ty = mir.strip_g(g[0]) if g else ''
        for b in self.prog.bodies.values():
            if b.trait and b.kind == 'method' and b.key.endswith('::eq') and b.self_ty and not b.derived and mir.strip_g(b.self_ty) == ty:
                return self.call_body(st, b, [self.deref(st, a) for a in args])
        return st, eq(self.norm(st, args[0]), self.norm(st, args[1]))

    def call_value(self, st, fv, args):
        fv = self.deref(st, fv)
        if fv.op == 'ite':
            return self.branch(st, form(fv.a[0]), lambda s: self.call_value(s, fv.a[1], args), lambda s: self.call_value(s, fv.a[2], args))
        if fv.op == 'clo':
            b = self.prog.bodies.get(fv.a[0])
            if b is None:
                return st, raw('call', 'closure', fv, *[self.norm(st, a) for a in args])
            h = self.hooks.get(b.short)
            if h:
                r = h(self, st, [fv] + args, None)
                if r is not None:
                    return r
            return self.call_body(st, b, [fv] + args)
        if fv.op == 'fn':
            f = self.fns.get(fv.a[0] + '|' + fv.a[1])
            if f is not None:
                return self.call(st, f, args)
        if fv.op == 'lam':
            r = fv.a[1]
            return st, inst(r, fv.a[0], args[0])
        if fv.op == 'pyfn':
            return PYFN[fv.a[0]](self, st, fv, args)
        return st, raw('apply', fv, *[self.norm(st, a) for a in args])

    def opaque(self, st, fn, args):
        name = fn['path']
        if fn['trait'] and fn['resolved'] is None or not fn['local']:
            name = (mir.lastseg(fn['trait']) + '::' + fn['name']) if fn['trait'] else '::'.join(mir.strip_g(fn['path']).split('::')[-2:])
        else:
            name = mir.short(fn['path'])
        self.unknown[name] = self.unknown.get(name, 0) + 1
        vals = [self.norm(st, a) for a in args]
        c = raw('call', name, *vals)
        for i, a in enumerate(args):
            if a.op == 'ref':
                self.mem_set(st, a, raw('post', c, i))
        return st, c

    # ---------------------------------------------------------------- branching helper for models
    def branch(self, st, c, f, g):
        c = restrict(form(c), st.pc)
        if c is DEAD:
            return st, DEAD
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        p1, p2 = And(st.pc, c), And(st.pc, Not(c))
        if p2 is FALSE:
            return f(st)
        if p1 is FALSE:
            return g(st)
        s2 = St(p2, dict(st.mem))
        s1 = St(p1, st.mem)
        s1, v1 = f(s1)
        s2, v2 = g(s2)
        if s1 is None or s1.pc is FALSE:
            return s2, v2
        if s2 is None or s2.pc is FALSE:
            return s1, v1
        R = raw('cell', 'TMPRET')
        s1.mem[R] = v1
        s2.mem[R] = v2
        m = merge([s1, s2])
        return m, m.mem.pop(R)

    def panic_if(self, st, c, kind):
        c = restrict(form(c), st.pc)
        bad = And(st.pc, c)
        if bad is not FALSE:
            self.panics.append((self.stack[-1] if self.stack else '', kind, bad, None))
            st.pc = And(st.pc, Not(c))
        return st

    # ---------------------------------------------------------------- loops
    def run_mir_loop(self, body, fid, h, st):
        cfg = body.cfg()
        L = cfg.loops[h]
        live = cfg.liveness(body)[h]
        for k in [k for k in st.mem if k.a[0] == 'L' and k.a[1] == fid and k.a[2] not in live]:
            del st.mem[k]

        def bodyfn(s):
            backs, exits = self.eval_region(body, fid, h, s, L, h)
            m = merge(backs)
            if m is not None:
                for k in [k for k in m.mem if k.a[0] == 'L' and k.a[1] == fid and k.a[2] not in live]:
                    del m.mem[k]
            return m, exits
        return self.run_loop(st, bodyfn)

    def run_loop(self, st, bodyfn):
        """generic loop: bodyfn(state)->(back state | None, [(tag,state)]).  Returns [(tag,state)]."""
        entry = st
        # 1. concrete unrolling while the back edge is decided
        cur = St(entry.pc, dict(entry.mem))
        outs = []
        np = len(self.panics)
        spec = 3
        for _ in range(self.unroll):
            nb = self.nblocks
            r, exits = bodyfn(St(cur.pc, dict(cur.mem)))
            if r is None or r.pc is FALSE:
                return outs + exits
            # decided if no exit could be the loop bound: every exit is 'early'
            und = False
            for t, s in exits:
                rel = restrict(s.pc, cur.pc)
                if self._boundlike(rel):
                    und = True
            if und:
                spec -= 1
                if spec < 0 or self.speculating > 1:
                    break
                self.speculating += 1
                try:
                    r2 = self.speculate(r, bodyfn, spec)
                finally:
                    self.speculating -= 1
                if r2 is None:
                    break
                return outs + exits + r2
            outs += exits
            cur = r
        del self.panics[np:]
        return self.symbolic_loop(entry, bodyfn)

    def speculate(self, cur, bodyfn, n):
        """a loop with an undecided early exit may still end after a few rounds: unroll it if it does"""
        outs = []
        for _ in range(n):
            r, exits = bodyfn(St(cur.pc, dict(cur.mem)))
            outs += exits
            if r is None or r.pc is FALSE:
                return outs
            cur = r
        return None

    def _boundlike(self, rel):
        """does the exit condition look like an undecided loop bound (only integer comparisons)"""
        if rel is TRUE or rel is FALSE:
            return False
        ats = atoms(rel)
        return all(a.op in ('pos', 'eq0') for a in ats)

    def symbolic_loop(self, entry, bodyfn):
        self.loopdepth += 1
        try:
            return self._symbolic_loop(entry, bodyfn)
        finally:
            self.loopdepth -= 1

    def _symbolic_loop(self, entry, bodyfn):
        tmpl = {}       # cell -> template value containing mu leaves
        init = {}       # mu leaf -> value before the loop
        known = {}      # mu leaf -> closed form at iteration `it`
        np = len(self.panics)
        it = fresh('it')
        INR = None
        NN = None
        headed = False

        def startmem():
            mem = dict(entry.mem)
            for c, t in tmpl.items():
                mem[c] = subst(t, known) if known else t
            return mem

        for rnd in range(16):
            mem = startmem()
            del self.panics[np:]
            back, exits = bodyfn(St(INR or TRUE, dict(mem)))
            if back is None:
                for t, s in exits:
                    s.pc = And(entry.pc, s.pc)
                return exits
            rec = {}
            grew = [False]
            bpc = back.pc
            for c, v in back.mem.items():
                old = mem.get(c)
                if old is None and c.a[0] == 'H':
                    old = raw('content', c.a[1])
                    if v is not old:
                        entry.mem[c] = old
                        mem[c] = old
                if old is None or (v is old and c not in tmpl):
                    continue
                t0 = tmpl.get(c, entry.mem[c])
                tmpl[c] = self.walk_mu(entry.mem[c], t0, v, bpc, init, known, rec, grew)
            if grew[0]:
                continue
            progress = False
            musyms = {m_: 1 for m_ in init if m_ not in known}
            for m_, f in rec.items():
                if m_ in known:
                    continue
                cf = self.closed(init[m_], m_, f, it, musyms)
                if cf is not None:
                    known[m_] = cf
                    del musyms[m_]
                    progress = True
                    # later recurrences of this round still mention m_: solve them next round
                    break
            if progress:
                # try all the independent ones too
                for m_, f in rec.items():
                    if m_ not in known:
                        cf = self.closed(init[m_], m_, subst(f, known), it, musyms)
                        if cf is not None:
                            known[m_] = cf
                            del musyms[m_]
                continue
            N, _ = self.find_bound(exits, it, musyms, TRUE)
            if INR is None and N is not None:
                i_ = pos(sub(N, it))
                if i_.op == 'ite':
                    INR = i_
                    NN = N
                    continue
            if INR is not None and musyms and not headed:
                headed = True
                r = self.head_form(init, known, rec, [m_ for m_ in musyms if m_ in init], it, NN, INR)
                if r:
                    known.update(r)
                    continue
            break
        musyms = [m_ for m_ in init if m_ not in known]
        N = NN if INR is not None else None
        if N is None:
            return self.opaque_loop(entry, init, known, musyms, rec, back, exits, it)
        nv_ = int_val(N)
        if nv_ is not None and nv_ <= 16:
            del self.panics[np:]
            return self.unrolled(entry, bodyfn, nv_)
        mem = startmem()
        del self.panics[np:]
        _, exits1 = bodyfn(St(TRUE, dict(mem)))
        bound_exits = [(t, s) for t, s in exits1 if And(s.pc, INR) is FALSE]
        del self.panics[np:]
        back, early = bodyfn(St(INR, dict(mem)))
        if musyms:
            bodies = [rec[m_] for m_ in musyms]
            inits = [init[m_] for m_ in musyms]
            foldv = self.mkfold(N, it, musyms, inits, bodies)
            pre = self.mkfold(it, it, musyms, inits, bodies)
            mu_at = dict(zip(musyms, foldv))
            mu_mid = dict(zip(musyms, pre))
        else:
            mu_at, mu_mid = {}, {}
        outs = []
        ex = FALSE
        early = [(t, s, restrict(subst(s.pc, mu_mid), INR)) for t, s in early]
        for t, s, cond in early:
            ex = Or(ex, cond)
        quiet = ex
        for j in range(np, len(self.panics)):
            w, kd, pcx, sp = self.panics[j]
            pcx = restrict(subst(pcx, mu_mid), INR)
            ex = Or(ex, pcx)
            self.panics[j] = (w, kd, And(entry.pc, mkexists(N, it, pcx)), sp)
        exq = mkexists(N, it, ex) if ex is not FALSE else FALSE
        many = len(early) > 1 or quiet is not ex
        at = {it: N}

        def fix(mem, m1, m2):
            r = {}
            for c, v in mem.items():
                v = subst(subst(v, m1), m2)
                if c.fs:
                    c = subst(subst(c, m1), m2)
                r[c] = v
            return r
        for t, s in bound_exits:
            outs.append((t, St(And(entry.pc, Not(exq)), fix(s.mem, mu_at, at))))
        for t, s, cond in early:
            m2 = {it: raw('wit', exq)}
            pc = And(entry.pc, exq, subst(cond, m2)) if many else And(entry.pc, exq)
            outs.append((t, St(pc, fix(s.mem, mu_mid, m2))))
        return outs

    def base_of(self, t):
        if t.op == 'upd':
            return t.a[0]
        if t.op == 'ite':
            a, b = self.base_of(t.a[1]), self.base_of(t.a[2])
            return a if a is b else None
        return t

    def updfields(self, t, out):
        if t.op == 'upd':
            for i in range(1, len(t.a), 2):
                out.add(t.a[i])
        elif t.op == 'ite':
            self.updfields(t.a[1], out)
            self.updfields(t.a[2], out)

    def walk_mu(self, ini, tm, back, bpc, init, known, rec, grew):
        """template of a loop-carried value: mu symbols exactly where it changes"""
        back = restrict(back, bpc)
        if tm in init:
            rec[tm] = back
            return tm
        cur = subst(tm, known) if known else tm
        if cur is back:
            # unchanged leaves below still need their recurrences
            for m_ in init:
                if m_.id in tm.fs and m_ not in known:
                    rec.setdefault(m_, m_)
            return tm
        if tm.op == 'adt' and ini.op == 'adt' and back.op == 'adt' and tm.a[:3] == back.a[:3] == ini.a[:3]:
            return raw('adt', *tm.a[:3], *[self.walk_mu(i, t, b, bpc, init, known, rec, grew) for i, t, b in zip(ini.a[3:], tm.a[3:], back.a[3:])])
        if tm.op == 'iter' and ini.op == 'iter' and back.op == 'iter':
            return raw('iter', *[self.walk_mu(i, t, b, bpc, init, known, rec, grew) for i, t, b in zip(ini.a, tm.a, back.a)])
        B = self.base_of(back)
        if B is not None and B is self.base_of(tm) and (back.op in ('upd', 'ite')) and B.op != 'adt':
            fs = set()
            self.updfields(back, fs)
            self.updfields(tm, fs)
            if fs:
                kv = []
                for n in sorted(fs):
                    w = self.walk_mu(fld(ini, n), fld(tm, n), fld(back, n), bpc, init, known, rec, grew)
                    if w is not fld(B, n):
                        kv += [n, w]
                return raw('upd', B, *kv) if kv else B
        if tm.op == 'list' and ini.op == 'list' and back.op == 'list' and len(tm.a) == len(back.a) == len(ini.a) and len(tm.a) > 0:
            return raw('list', *[self.walk_mu(i, t, b, bpc, init, known, rec, grew) for i, t, b in zip(ini.a, tm.a, back.a)])
        if back.op == 'ite' and tm.op == 'adt' and ini.op == 'adt':
            # every leaf of the merge has the same constructor: use projections
            leaves_ = []
            self._leaves(back, leaves_)
            if all(x.op == 'adt' and x.a[:3] == tm.a[:3] for x in leaves_) and not tm.a[1]:
                return raw('adt', *tm.a[:3], *[self.walk_mu(i, t, fld(back, n), bpc, init, known, rec, grew) for n, i, t in zip(tm.a[2], ini.a[3:], tm.a[3:])])
        # give up structure: drop leaves inside
        for m_ in [m_ for m_ in init if m_.id in tm.fs]:
            init.pop(m_, None)
            known.pop(m_, None)
            rec.pop(m_, None)
        m = fresh('mu')
        init[m] = ini
        grew[0] = True
        return m

    def _leaves(self, t, out):
        if t.op == 'ite':
            self._leaves(t.a[1], out)
            self._leaves(t.a[2], out)
        else:
            out.append(t)

    def unrolled(self, entry, bodyfn, n):
        cur = entry
        outs = []
        for _ in range(n + 2):
            r, exits = bodyfn(St(cur.pc, dict(cur.mem)))
            outs += exits
            if r is None or r.pc is FALSE:
                break
            cur = r
        return outs

    def _lift_exit(self, entry, s, spc):
        s.pc = And(entry.pc, s.pc)
        return s

    def find_bound(self, exits, it, musyms, assume):
        best = None
        for t, s in exits:
            rel = s.pc
            if rel.op != 'ite':
                continue
            at = rel.a[0]
            # single literal
            if not ({rel.a[1], rel.a[2]} == {TRUE, FALSE}):
                continue
            if at.op == 'eq0' and rel.a[1] is TRUE or at.op == 'pos':
                p = at.a[0]
                d = as_poly(p)
                mono = raw('*', it, 1)
                cf = d.get(mono)
                if cf is None:
                    continue
                rest = from_poly({m: c for m, c in d.items() if m is not mono})
                if it.id in rest.fs or any(m.id in rest.fs for m in musyms):
                    continue
                if at.op == 'eq0':
                    if abs(cf) == 1:
                        N = scale(rest, -cf)
                        return N, None
                else:
                    # exit when NOT(pos(p))  i.e. p<=0, with p = N - it  ; or exit when pos(p), p = it - N + 1
                    if rel.a[1] is FALSE and cf == -1:
                        return rest, None
                    if rel.a[1] is TRUE and cf == 1:
                        return add(neg(rest), ONE), None
                    if rel.a[1] is FALSE and cf < -1:
                        return ceildiv(rest, num(-cf)), None
        return best, None

    def closed(self, init, m, f, it, musyms):
        """closed form at iteration `it` of the recurrence m' = f(m, it), or None"""
        others = [x for x in musyms if x is not m]
        if f is m:
            return init
        if any(x.id in f.fs for x in others):
            return None
        j = fresh('j')
        if m.id not in f.fs:
            # last value; as loop-carried: ite(it==0, init, f(it-1))
            prev = subst(f, {it: sub(it, ONE)})
            if subst(prev, {it: ZERO}) is init:
                return prev
            return ite(eq0(it), init, prev)
        # guard:  f = ite-free additive/concat structure
        g = self.additive(f, m)
        if g is not None:
            return add(init, mksum(it, j, subst(g, {it: j})))
        g = self.multiplicative(f, m)
        if g is not None:
            return mul(init, mkprod(it, j, subst(g, {it: j})))
        g = self.appended(f, m)
        if g is not None:
            return cat(init, mkflat(it, j, subst(g, {it: j})))
        g = self.storing(init, m, f, it, j)
        if g is not None:
            return g
        g = self.inserting(init, m, f, it, j)
        if g is not None:
            return g
        # set in the first round and kept
        w = subst(subst(f, {m: init}), {it: ZERO})
        if m.id not in w.fs and it.id not in w.fs and deep_restrict(subst(f, {m: w}), TRUE) is w:
            return ite(eq0(it), init, w)
        return None

    def head_form(self, init, known, rec, mus, it, N, INR):
        """closed forms that hold whenever the body is entered (it < N), by induction on it"""
        kn = dict(known)
        hyp = {}
        for m in mus:
            if init[m] in (TRUE, FALSE):
                hyp[m] = kn[m] = init[m]
        left = [m for m in mus if m not in hyp]
        out = {}
        for _ in range(2 * len(mus) + 2):
            moved = False
            for m in list(left):
                if m not in rec:
                    return None
                f = subst(rec[m], {k: v for k, v in kn.items() if k is not m})
                cf = self.closed(init[m], m, f, it, {x: 1 for x in left})
                if cf is not None:
                    kn[m] = out[m] = cf
                    left.remove(m)
                    moved = True
                    break
            if moved:
                continue
            for m in list(left):
                ls = []
                f = subst(rec[m], {k: v for k, v in kn.items() if k is not m})
                if iop_has(f, 'ite'):
                    f = sub(f, m)
                    d = as_poly(f)
                    if len(d) == 1 and list(d.values()) == [1] and len(list(d)[0].a) == 2:
                        f = list(d)[0].a[0]
                    self._leaves(f, ls)
                cs = {int_val(x) for x in ls} - {None, 0}
                if len(cs) == 1:
                    hyp[m] = kn[m] = add(init[m], scale(it, cs.pop()))
                    left.remove(m)
                    moved = True
                    break
            if not moved:
                break
        if left or not hyp:
            return None
        more = sub(sub(N, it), ONE)
        nxt = And(INR, pos(more), Not(eq0(more)))
        for m, h in hyp.items():
            v = subst(rec[m], kn)
            for _ in range(3):
                v = subst(v, kn)
            if deep_restrict(v, nxt) is not subst(h, {it: add(it, ONE)}):
                return None
        for m, h in hyp.items():
            v = rec[m]
            for _ in range(4):
                v = subst(v, kn)
            last = subst(v, {it: sub(N, ONE)})
            out[m] = ite(INR, h, ite(eq0(N), init[m], last))
        return out

    def additive(self, f, m):
        if f.op not in ('+',):
            return None
        d = as_poly(f)
        mono = raw('*', m, 1)
        if d.get(mono) != 1:
            return None
        r = from_poly({k: c for k, c in d.items() if k is not mono})
        return None if m.id in r.fs else r

    def multiplicative(self, f, m):
        d = as_poly(f)
        r = {}
        for k, c in d.items():
            a = k.a
            e = 0
            o = []
            for i in range(0, len(a), 2):
                if a[i] is m:
                    e = a[i + 1]
                else:
                    o += [a[i], a[i + 1]]
            if e != 1:
                return None
            r[raw('*', *o)] = c
        r = from_poly(r)
        return None if m.id in r.fs else r

    def appended(self, f, m):
        if f.op == 'cat' and f.a[0] is m:
            g = cat(*f.a[1:])
            return None if m.id in g.fs else g
        return None

    def storing(self, init, m, f, it, j):
        """m' = store(m, it, g(it, m[it])) : element-wise update"""
        if f.op == 'store' and f.a[0] is m and f.a[1] is it:
            g = f.a[2]
            el = raw('idx', m, it)
            g2 = subst(g, {el: idx(init, it)})
            if m.id in g2.fs:
                return None
            i2 = fresh('e')
            if int_val(it) is None:
                # prefix updated; at iteration it:  [0,it) new, [it,len) old
                new = mkseq(it, i2, subst(g2, {it: i2}))
                return patch(new, init)
        return None

    def inserting(self, init, m, f, it, j):
        if f.op == 'minsert' and f.a[0] is m:
            k, v = f.a[1], f.a[2]
            if m.id in k.fs or m.id in v.fs:
                return None
            ks = subst(k, {it: j})
            vs = subst(v, {it: j})
            h, b = bind(j, tup(ks, vs))
            return raw('minsall', h, it, init, fld(b, '0'), fld(b, '1'))
        return None

    def mkfold(self, N, it, mus, inits, bodies):
        h = max(b.h for b in bodies) + 1
        m2 = {it: raw('bv', h)}
        for i, x in enumerate(mus):
            m2[x] = raw('bw', h, i)
        bb_ = [subst(b, m2) for b in bodies]
        n = len(mus)
        return [raw('fold', h, j, n, N, *(inits + bb_)) for j in range(n)]

    def opaque_loop(self, entry, init, known, musyms, rec, back, exits, it):
        """trip count not understood: canonical uninterpreted fixpoint per cell"""
        mus = list(musyms)
        bodies = [rec.get(m_, m_) for m_ in mus]
        inits = [init[m_] for m_ in mus]
        conts = raw('while', restrict(back.pc, TRUE))
        h = max([b.h for b in bodies + [conts]]) + 1
        m2 = {it: raw('bv', h)}
        for i, x in enumerate(mus):
            m2[x] = raw('bw', h, i)
        bb_ = [subst(b, m2) for b in bodies]
        cond = subst(conts, m2)
        f = [raw('fold', h, j, len(mus), cond, *(inits + bb_)) for j in range(len(mus))]
        outs = []
        trip = raw('tripcount', *(f[:1] or [cond]))
        m3 = dict(zip(mus, f))
        m3[it] = trip
        for n, (t, s) in enumerate(exits):
            mem = {c: subst(v, m3) for c, v in s.mem.items()}
            pc = And(entry.pc, form(raw('exitvia', n, trip)) if len(exits) > 1 else TRUE)
            outs.append((t, St(pc, mem)))
        return outs

    # ---------------------------------------------------------------- consuming iterators in models
    def for_range(self, st, N, f, accs):
        """run f(st, i) -> st' for i in 0..N; f may modify memory; accs: extra cells living in st.mem.
        f returns (st, [(tag, st)])."""
        CNT = raw('cell', 'CNT%d' % self.fid_next())
        st.mem[CNT] = ZERO

        def bodyfn(s):
            i = s.mem[CNT]
            c = restrict(pos(sub(N, i)), s.pc)
            exits = []
            p0 = And(s.pc, Not(c))
            if p0 is not FALSE:
                exits.append(('done', St(p0, dict(s.mem))))
            p1 = And(s.pc, c)
            if p1 is FALSE:
                return None, exits
            s1 = St(p1, s.mem)
            s1, ex = f(s1, i)
            exits += ex
            if s1 is not None:
                s1.mem[CNT] = add(i, ONE)
            return s1, exits
        outs = self.run_loop(st, bodyfn)
        for t, s in outs:
            s.mem.pop(CNT, None)
        return outs

    def fid_next(self):
        self.fid += 1
        return self.fid

    # ---------------------------------------------------------------- events
    def emit(self, st, kind, *args):
        st.mem[TRC] = cat(st.mem.get(TRC, NIL), lst(raw('ev', kind, *args)))


PYFN = {}


def iop_has(t, op):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == op:
            return True
        todo += [y for y in x.a if isinstance(y, T)]
    return False


def atoms(f):
    out = set()
    seen = set()

    def go(t):
        if t.id in seen or t.op != 'ite':
            return
        seen.add(t.id)
        out.add(t.a[0])
        go(t.a[1])
        go(t.a[2])
    go(f)
    return out
