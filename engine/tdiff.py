"""Locate the first difference between two terms."""
from terms import show


def tdiff(a, b, w=160):
    path = []
    while True:
        if a.op != b.op or len(a.a) != len(b.a):
            break
        ds = [i for i, (x, y) in enumerate(zip(a.a, b.a)) if x is not y]
        if len(ds) != 1:
            ds = ds[:1]
            if not ds:
                break
        i = ds[0]
        x, y = a.a[i], b.a[i]
        if not hasattr(x, 'op') or not hasattr(y, 'op'):
            break
        if a.op in ('+', '*'):
            break
        path.append('%s.%d' % (a.op, i))
        a, b = x, y
    return '/'.join(path[-6:]), show(a)[:w], show(b)[:w]
