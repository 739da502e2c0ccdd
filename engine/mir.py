"""Loads the MIR dump and provides CFG structure (reverse post-order, loops, liveness)."""
import json
import re
import terms


def short(key):
    """zk_sql::tracker::verifier_tracker::VerifierTracker::<E, PCS>::add_comms -> VerifierTracker::add_comms"""
    m = re.match(r'^(.*?)((?:::\{closure#\d+\})*)((?:::promoted\[\d+\])?)$', key)
    base, clo, pr = m.groups()
    if base.startswith('<'):
        depth = 0
        for i, ch in enumerate(base):
            if ch == '<':
                depth += 1
            elif ch == '>':
                if base[i - 1] != '-':
                    depth -= 1
                if depth == 0:
                    break
        inner, rest = base[1:i], base[i + 1:]
        d = 0
        pos = None
        for j in range(len(inner)):
            if inner[j] == '<':
                d += 1
            elif inner[j] == '>':
                d -= 1
            elif d == 0 and inner[j:j + 4] == ' as ':
                pos = j
                break
        if pos is None:
            ty, tr = inner, None
        else:
            ty, tr = inner[:pos], inner[pos + 4:]
        s = lastseg(ty) + ('@' + lastseg(tr) if tr else '') + rest
        return s + clo + pr
    b = strip_g(base)
    segs = b.split('::')
    return '::'.join(segs[-2:]) + clo + pr


def strip_g(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<':
            if d == 0 and s[i - 2:i] == '::':
                del out[-2:]
            d += 1
        elif ch == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def lastseg(t):
    t = t.strip().lstrip('&').strip()
    if t.startswith("mut "):
        t = t[4:]
    return strip_g(t).split('::')[-1]


class Body:
    def __init__(self, d):
        self.d = d
        self.key = d['key']
        self.kind = d['kind']
        self.argc = d['argc']
        self.span = d['span']
        self.trait = d['trait']
        self.self_ty = d['self_ty']
        self.derived = d['derived']
        self.pub = d['pub']
        self.locals = d['locals']
        self.blocks = d['blocks']
        self.short = short(self.key)
        self._cfg = None

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[4]]
        return []

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Cfg:
    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [body.succs(i) for i in range(n)]
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in L:
                            L.add(x)
                            work.extend(pred[x])
        # topological order where a loop's blocks come before its exits
        self.rank = self._rank()
        self.live = None

    def _rank(self):
        # post-order DFS on graph where exits of a loop are visited before its body (so body gets lower rank)
        rank = {}
        order = []
        seen = set()
        succ = self.succ
        inl = {}
        for h, L in self.loops.items():
            for b in L:
                inl.setdefault(b, set()).add(h)

        def key(b, s):
            # visit successors leaving more loops first
            return len(inl.get(s, set()) & inl.get(b, set()))
        st = [(0, iter(sorted(succ[0], key=lambda s: key(0, s))))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(sorted(succ[s], key=lambda x: key(s, x)))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        return {b: i for i, b in enumerate(order)}

    def _inter(self, idom, a, b):
        r = self.rpo
        while a != b:
            while r[a] > r[b]:
                a = idom[a]
            while r[b] > r[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if self.idom[b] == b:
                return False
            b = self.idom[b]

    def liveness(self, body):
        if self.live is not None:
            return self.live
        use, de = {}, {}
        always = set()

        def pl_use(p, u):
            u.add(p['l'])
            for e in p['p']:
                if e[0] == 'ix':
                    u.add(e[1])

        def op_use(o, u):
            if o[0] in ('cp', 'mv'):
                pl_use(o[1], u)

        def walk(x, u):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('cp', 'mv') and isinstance(x[1], dict) and 'l' in x[1]:
                    pl_use(x[1], u)
                    return
                for y in x:
                    walk(y, u)
            elif isinstance(x, dict) and 'l' in x and 'p' in x:
                pl_use(x, u)
        for b in self.order:
            u, d = set(), set()

            def assign(p):
                if p['p']:
                    t = set()
                    pl_use(p, t)
                    u.update(t - d)
                else:
                    d.add(p['l'])
            for s in body.blocks[b]['s']:
                if s[0] == '=':
                    t = set()
                    walk(s[2], t)
                    u.update(t - d)
                    if s[2][0] == 'ref' and s[2][1]:
                        if not any(e[0] == '*' for e in s[2][2]['p']):
                            always.add(s[2][2]['l'])
                    assign(s[1])
                else:
                    t = set()
                    walk(s[1], t)
                    u.update(t - d)
            t = body.blocks[b]['t']
            tt = set()
            if t[0] == 'call':
                walk(t[1], tt)
                walk(t[2], tt)
                u.update(tt - d)
                assign(t[3])
            elif t[0] in ('switch', 'assert'):
                walk(t[1], tt)
                u.update(tt - d)
            elif t[0] == 'return':
                u.update({0} - d)
            use[b], de[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = {b: live[b] | always for b in live}
        return self.live


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.bodies = {}
        self.by_short = {}
        for b in d['bodies']:
            B = Body(b)
            self.bodies[B.key] = B
            self.by_short.setdefault(B.short, []).append(B)
        self.adts = {a['path']: a for a in d['adts']}
        for a in d['adts']:
            if a['enum'] and len(a['variants']) > 2 and a['path'].startswith('zk_sql::'):
                terms.VARIANTS[a['path']] = terms.VARIANTS[a['path'][8:]] = [v[0] for v in a['variants']]

    def fn(self, shortname):
        r = self.by_short.get(shortname)
        if not r:
            return None
        return r[0]
