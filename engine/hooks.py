"""Analysis levels: which API is kept symbolic (emits events) instead of being inlined."""
from terms import *
from interp import TRC, mkref, refpath, St


def ordinal(st, kind):
    c = raw('cell', 'ORD', kind)
    v = st.mem.get(c, ZERO)
    st.mem[c] = add(v, ONE)
    return v


def init_ordinals(I, st, kinds):
    for k in kinds:
        st.mem[raw('cell', 'ORD', k)] = ZERO
    st.mem[TRC] = NIL


def label(I, st, t):
    v = I.deref(st, t)
    return v


# ---- transcript -----------------------------------------------------------
def t_append(kind):
    def h(I, st, a, fn):
        I.emit(st, 'absorb', label(I, st, a[1]), I.norm(st, a[2]))
        return st, Ok(UNIT)
    return h


def t_challenge(I, st, a, fn):
    l = label(I, st, a[1])
    o = ordinal(st, 'chal')
    I.emit(st, 'challenge', l, o)
    return st, Ok(raw('chal', l, o))


def t_vec(I, st, a, fn):
    l = label(I, st, a[1])
    n = I.deref(st, a[2])
    o = ordinal(st, 'chal')
    I.emit(st, 'challenges', l, n, o)
    return st, Ok(raw('chalvec', l, n, o))


TRANSCRIPT = {
    'IOPTranscript::append_message': t_append('msg'),
    'IOPTranscript::append_field_element': t_append('field'),
    'IOPTranscript::append_serializable_element': t_append('ser'),
    'IOPTranscript::get_and_append_challenge': t_challenge,
    'IOPTranscript::get_and_append_challenge_vectors': t_vec,
}
TR_SETUP = lambda I, st: init_ordinals(I, st, ['chal'])
