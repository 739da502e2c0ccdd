"""Entry points: analyse one function symbolically and return its summary."""
import common
from terms import *
import interp as IN
from interp import Interp, St, TRC, mkref


class Summary:
    def __init__(self, I, st, val, args, cells):
        self.I, self.st, self.val, self.args, self.cells = I, st, val, args, cells
        self.trace = st.mem.get(TRC, NIL) if st is not None else NIL
        self.panics = I.panics

    def post(self, i):
        """final value of &mut argument i"""
        return self.I.load(self.st, self.cells[i])


def summarize(prog, short, argvals=None, hooks=None, setup=None, names=None, unroll=16, recursion=2):
    b = prog.fn(short)
    if b is None:
        raise common.Missing('function %s not found' % short)
    I = Interp(prog, hooks or {})
    I.unroll, I.recursion = unroll, recursion
    st = St()
    args, cells = [], {}
    for i in range(b.argc):
        v = None
        if argvals and i < len(argvals):
            v = argvals[i]
        if v is None:
            v = sym('a%d' % i)
        ty = b.locals[i + 1][0]
        if ty.startswith('&') and ' mut ' in ' ' + ty.split(' ', 1)[0].replace('&', '& ') + ' ' + ty[1:].split('<')[0] and v.op != 'ref':
            c = raw('cell', 'P', i)
            st.mem[c] = v
            cells[i] = c
            v = mkref(c)
        args.append(v)
    if setup:
        setup(I, st)
    I.stack.append('entry')
    r, val = I.call_body(st, b, args)
    return Summary(I, r, val, args, cells)
