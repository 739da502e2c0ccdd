"""Models of the external (std / ark / rayon) functions the crate calls."""
import re
from terms import *
import terms as TM
import mir
from interp import St, mkref, refpath, merge, PYFN, short, SHORT

INF = raw('inf')
TAB = {}


def m(*names):
    def deco(f):
        for n in names:
            TAB[n] = f
        return f
    return deco


def call(I, st, fn, args):
    p = mir.strip_g(fn['path'])
    segs = p.split('::')
    name = '::'.join(segs[-2:])
    if fn['trait']:
        name = mir.lastseg(fn['trait']) + '::' + fn['name']
    f = TAB.get(name) or TAB.get('*::' + fn['name'] if fn['trait'] and mir.lastseg(fn['trait']) in ITER else name)
    if f is None:
        return I.opaque(st, fn, args)
    r = f(I, st, fn, args)
    if r is None:
        return I.opaque(st, fn, args)
    return r


ITER = {'Iterator', 'ParallelIterator', 'IndexedParallelIterator', 'IntoIterator', 'IntoParallelIterator',
        'IntoParallelRefIterator', 'IntoParallelRefMutIterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'Itertools'}


def V(I, st, x):
    return I.deref(st, x)


# ------------------------------------------------------------------ identity-like
@m('Clone::clone', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'ToOwned::to_owned', 'Vec::as_slice', 'slice::to_vec',
   'Option::cloned', 'Option::copied', 'Option::as_ref', 'Result::as_ref', 'Box::new', 'Rc::new', 'Arc::new', 'From::from', 'Into::into',
   'hint::must_use', 'Arc::clone', 'Rc::clone', 'Rc::as_ref', 'Vec::into_boxed_slice', 'slice::into_vec', 'convert::identity',
   'Option::as_deref', 'Iterator::by_ref', 'Vec::as_ref', 'Cow::into_owned', 'AffineRepr::into_group', 'CurveGroup::into_affine',
   'hint::black_box', 'AsRef::as_ref', 'Box::into_inner', 'Result::cloned', 'Cow::from')
def _id(I, st, fn, a):
    return st, V(I, st, a[0])


# the text of a message is not part of what is decided
@m('ToString::to_string', 'String::from')
def _text(I, st, fn, a):
    v = V(I, st, a[0])
    return st, (raw('fmt') if v.op == 'str' else v)


@m('TryFrom::try_from', 'TryInto::try_into')
def _tryfrom(I, st, fn, a):
    return st, Ok(V(I, st, a[0]))


@m('DerefMut::deref_mut', 'AsMut::as_mut', 'Arc::make_mut', 'BorrowMut::borrow_mut', 'Vec::as_mut_slice', 'Rc::make_mut', 'Box::as_mut')
def _derefmut(I, st, fn, a):
    v = I.mem_get(st, a[0])
    if v.op == 'ref' or (v.op == 'ite' and I._hasref(v)):
        return st, v
    return st, a[0]


@m('Option::as_mut', 'Option::as_deref_mut')
def _optasmut(I, st, fn, a):
    v = V(I, st, a[0])
    if a[0].op != 'ref':
        return st, v
    c, p = refpath(a[0])
    return st, ite(is_var(v, '', 'Some'), Some(mkref(c, p + ('v', 'Some.0'))), NONE)


@m('Try::branch')
def _branch(I, st, fn, a):
    v = V(I, st, a[0])
    ty = fn['g'][0] if fn['g'] else ''
    CF = 'core::ops::ControlFlow'
    if mir.strip_g(ty).endswith('Option'):
        return st, ite(is_var(v, '', 'Some'), adt(CF, 'Continue', ('0',), vf(v, 'Some', '0')), adt(CF, 'Break', ('0',), NONE))
    ok = is_var(v, '', 'Ok')
    return st, ite(ok, adt(CF, 'Continue', ('0',), vf(v, 'Ok', '0')), adt(CF, 'Break', ('0',), Err(vf(v, 'Err', '0'))))


@m('FromResidual::from_residual')
def _resid(I, st, fn, a):
    return st, V(I, st, a[0])


# ------------------------------------------------------------------ cells
@m('RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new')
def _rcnew(I, st, fn, a):
    t = raw('rc', I.fid_next())
    st.mem[raw('cell', 'H', t)] = a[0]
    return st, t


@m('RefCell::borrow', 'Cell::get')
def _borrow(I, st, fn, a):
    return st, I.load(st, raw('cell', 'H', V(I, st, a[0])))


@m('RefCell::borrow_mut')
def _borrowmut(I, st, fn, a):
    return st, mkref(raw('cell', 'H', V(I, st, a[0])))


def _hcell(I, st, a):
    return raw('cell', 'H', V(I, st, a))


@m('Cell::set')
def _cset(I, st, fn, a):
    st.mem[_hcell(I, st, a[0])] = a[1]
    return st, UNIT


@m('Cell::replace', 'RefCell::replace')
def _creplace(I, st, fn, a):
    c = _hcell(I, st, a[0])
    v = I.load(st, c)
    st.mem[c] = a[1]
    return st, v


@m('Cell::take', 'RefCell::take')
def _ctake(I, st, fn, a):
    c = _hcell(I, st, a[0])
    v = I.load(st, c)
    st.mem[c] = default(fn['g'][0] if fn['g'] else '')
    return st, v


@m('OnceCell::new', 'OnceLock::new')
def _oncenew(I, st, fn, a):
    t = raw('rc', I.fid_next())
    st.mem[raw('cell', 'H', t)] = NONE
    return st, t


@m('OnceCell::get', 'OnceLock::get')
def _onceget(I, st, fn, a):
    return st, I.load(st, _hcell(I, st, a[0]))


@m('OnceCell::get_or_init', 'OnceLock::get_or_init')
def _onceinit(I, st, fn, a):
    c = _hcell(I, st, a[0])
    v = I.load(st, c)

    def first(s):
        s, r = I.call_value(s, a[1], [])
        if s is None:
            return None, DEAD
        s.mem[c] = Some(r)
        return s, r
    return I.branch(st, is_var(v, '', 'Some'), lambda s: (s, vf(v, 'Some', '0')), first)


@m('OnceCell::set', 'OnceLock::set')
def _onceset(I, st, fn, a):
    c = _hcell(I, st, a[0])
    v = I.load(st, c)

    def put(s):
        s.mem[c] = Some(a[1])
        return s, Ok(UNIT)
    return I.branch(st, is_var(v, '', 'Some'), lambda s: (s, Err(a[1])), put)


@m('Rc::ptr_eq', 'Arc::ptr_eq', 'ptr::eq')
def _ptreq(I, st, fn, a):
    return st, eq(V(I, st, a[0]), V(I, st, a[1]))


@m('Arc::as_ptr', 'Rc::as_ptr')
def _asptr(I, st, fn, a):
    return st, raw('ptr', V(I, st, a[0]))


@m('mem::take')
def _take(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], default(fn['g'][0] if fn['g'] else ''))
    return st, v


@m('mem::replace')
def _replace(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], a[1])
    return st, v


@m('mem::swap')
def _swap(I, st, fn, a):
    x, y = I.mem_get(st, a[0]), I.mem_get(st, a[1])
    I.mem_set(st, a[0], y)
    I.mem_set(st, a[1], x)
    return st, UNIT


@m('mem::drop', 'mem::forget', 'io::_print', 'io::_eprint', 'DebugStruct::field', 'DebugTuple::field', 'Formatter::write_fmt')
def _nop(I, st, fn, a):
    return st, UNIT


@m('fmt::format', 'Arguments::new', 'Arguments::from_str', 'Argument::new_debug', 'Argument::new_display', 'Arguments::new_const', 'Arguments::new_v1', 'String::new', 'fmt::must_use')
def _fmt(I, st, fn, a):
    return st, raw('fmt')


@m('String::push_str')
def _pushstr(I, st, fn, a):
    return st, UNIT


def default(ty):
    t = mir.strip_g(ty)
    if t.endswith('Vec'):
        return NIL
    if t.endswith('HashMap') or t.endswith('BTreeMap'):
        return MAP0
    if t.endswith('Option'):
        return NONE
    if t in ('usize', 'u64', 'u32', 'u8', 'i32', 'i64'):
        return ZERO
    if t == 'bool':
        return FALSE
    return raw('default', t.split('::')[-1])


@m('Default::default')
def _default(I, st, fn, a):
    return st, default(fn['g'][0] if fn['g'] else '')


# ------------------------------------------------------------------ arithmetic
def bin2(f):
    def g(I, st, fn, a):
        return st, f(V(I, st, a[0]), V(I, st, a[1]))
    return g


TAB['Add::add'] = bin2(add)
TAB['Sub::sub'] = bin2(sub)
TAB['Mul::mul'] = bin2(mul)
def _ity(fn):
    r = re.findall(r'\b[ui](?:8|16|32|64|128|size)\b', fn['path'])
    return r[0] if r else 'usize'


def _narrow(fn, v):
    """v in the integer type of a method; a type too small for a number of rows may have lost part of it"""
    return short(v, _ity(fn)) if _ity(fn) in SHORT else v


def _wrapping(f):
    def g(I, st, fn, a):
        return st, _narrow(fn, f(V(I, st, a[0]), V(I, st, a[1])))
    return g


TAB['num::wrapping_add'] = TAB['num::saturating_add'] = _wrapping(add)
TAB['num::wrapping_sub'] = _wrapping(sub)
TAB['num::wrapping_mul'] = TAB['num::saturating_mul'] = _wrapping(mul)
TAB['num::saturating_sub'] = bin2(lambda x, y: ite(lt(x, y), ZERO, sub(x, y)))


@m('num::wrapping_shl', 'num::wrapping_pow', 'num::saturating_pow')
def _wshl(I, st, fn, a):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    n, b = int_val(y), BITS.get(_ity(fn), 64)
    if fn['name'].endswith('shl'):
        return st, _narrow(fn, mul(x, pow2(y if n is None else num(n % b))))
    xb = int_val(x)
    if xb is not None and n is not None:
        v = xb ** n
        return st, _narrow(fn, num(v if b < 64 and 'wrapping' in fn['name'] else v % 2 ** b))
    if xb == 2:
        return st, _narrow(fn, pow2(y))
    return None


@m('num::overflowing_add', 'num::overflowing_sub', 'num::overflowing_mul')
def _ovf(I, st, fn, a):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    if _ity(fn) in SHORT:
        return None
    if fn['name'].endswith('sub'):
        return st, tup(sub(x, y), lt(x, y))
    return st, tup((add if fn['name'].endswith('add') else mul)(x, y), FALSE)


@m('num::checked_add', 'num::checked_mul')
def _chk(I, st, fn, a):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    r = (add if fn['name'].endswith('add') else mul)(x, y)
    if _ity(fn) in SHORT:
        s = short(r, _ity(fn))
        return (st, Some(r)) if s == r else None
    return st, Some(r)


@m('num::checked_sub')
def _chks(I, st, fn, a):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    return st, ite(lt(x, y), NONE, Some(sub(x, y)))


def inv(x):
    if x.op == 'inv':
        return x.a[0]
    if int_val(x) == 1:
        return x
    return raw('inv', x)


@m('Div::div')
def _div(I, st, fn, a):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    if fn['g'] and fn['g'][0].lstrip('&') in ('usize', 'u64', 'u32'):
        return st, I.binop('Div', x, y)
    return st, mul(x, inv(y))


@m('Neg::neg')
def _neg(I, st, fn, a):
    return st, neg(V(I, st, a[0]))


@m('Not::not')
def _not(I, st, fn, a):
    return st, Not(form(V(I, st, a[0])))


def opassign(f):
    def g(I, st, fn, a):
        b = V(I, st, a[1])
        if b.op == 'adt' and b.a[0] == '()' and len(b.a) == 5 and f is add:      # x += (c, y) on multilinear extensions
            b = mul(I.deref(st, b.a[3]), I.deref(st, b.a[4]))
        I.mem_set(st, a[0], f(I.deref(st, I.mem_get(st, a[0])), b))
        return st, UNIT
    return g


TAB['AddAssign::add_assign'] = opassign(add)
TAB['SubAssign::sub_assign'] = opassign(sub)
TAB['MulAssign::mul_assign'] = opassign(mul)
TAB['DivAssign::div_assign'] = opassign(lambda x, y: mul(x, inv(y)))


@m('One::one')
def _one(I, st, fn, a):
    return st, ONE


@m('Zero::zero')
def _zero(I, st, fn, a):
    if fn['g'] and 'DenseMultilinearExtension' in fn['g'][0]:
        return st, ZERO
    return st, ZERO


@m('Zero::is_zero')
def _isz(I, st, fn, a):
    return st, eq0(V(I, st, a[0]))


@m('One::is_one')
def _iso(I, st, fn, a):
    return st, eq(V(I, st, a[0]), ONE)


@m('num::pow')
def _pow(I, st, fn, a):
    return st, power(V(I, st, a[0]), V(I, st, a[1]))


@m('Field::pow')
def _fpow(I, st, fn, a):
    e = V(I, st, a[1])
    if e.op == 'list' and len(e.a) == 1:
        e = e.a[0]
    return st, power(V(I, st, a[0]), e)


@m('Field::double')
def _dbl(I, st, fn, a):
    return st, scale(V(I, st, a[0]), 2)


@m('Field::square')
def _sq(I, st, fn, a):
    x = V(I, st, a[0])
    return st, mul(x, x)


@m('Field::inverse')
def _inverse(I, st, fn, a):
    x = V(I, st, a[0])
    return st, ite(eq0(x), NONE, Some(inv(x)))


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


def _bits(fn):
    for t in (fn['path'],):
        for w in re.findall(r'\b[ui](?:8|16|32|64|128|size)\b', t):
            return BITS[w]
    return 64


@m('num::ilog2', 'num::trailing_zeros', 'num::leading_zeros', 'num::count_ones', 'num::checked_ilog2')
def _bitcount(I, st, fn, a):
    x, o = V(I, st, a[0]), fn['name'].split('::')[-1]
    v = int_val(x)
    if v is not None and v >= 0:
        if o in ('ilog2', 'checked_ilog2') and v == 0:
            if o == 'checked_ilog2':
                return st, NONE
            I.panic_if(st, TRUE, 'logarithm of zero')
            return None, DEAD
        r = num({'ilog2': v.bit_length() - 1, 'checked_ilog2': v.bit_length() - 1, 'trailing_zeros': (v & -v).bit_length() - 1 if v else _bits(fn),
                 'leading_zeros': _bits(fn) - v.bit_length(), 'count_ones': bin(v).count('1')}[o])
    elif x.op == 'pow2':
        r = {'leading_zeros': sub(num(_bits(fn) - 1), x.a[0]), 'count_ones': ONE}.get(o, x.a[0])
    else:
        return None
    return st, Some(r) if o == 'checked_ilog2' else r


@m('ark_std::log2')
def _log2(I, st, fn, a):
    x = V(I, st, a[0])
    if x.op == 'pow2':
        return st, x.a[0]
    v = int_val(x)
    if v is not None and v > 0:
        return st, num((v - 1).bit_length())
    return st, raw('log2', x)


@m('cmp::max', 'Ord::max')
def _max(I, st, fn, a):
    return st, mx(V(I, st, a[0]), V(I, st, a[1]))


@m('cmp::min', 'Ord::min')
def _min(I, st, fn, a):
    return st, mn(V(I, st, a[0]), V(I, st, a[1]))


for _n, _f in (('lt', lambda x, y: lt(x, y)), ('gt', lambda x, y: lt(y, x)), ('le', lambda x, y: Not(lt(y, x))), ('ge', lambda x, y: Not(lt(x, y)))):
    TAB['PartialOrd::' + _n] = bin2(_f)


@m('num::is_power_of_two')
def _ispow(I, st, fn, a):
    x = V(I, st, a[0])
    n = int_val(x)
    if n is not None:
        return st, TRUE if n > 0 and n & (n - 1) == 0 else FALSE
    if x.op == 'pow2':
        return st, TRUE
    return st, form(raw('ispow2', x))


@m('num::next_power_of_two')
def _npow(I, st, fn, a):
    x = V(I, st, a[0])
    v = int_val(x)
    if v is not None and v >= 0:
        return st, num(1 << max(0, v - 1).bit_length())
    return (st, x) if x.op == 'pow2' else None


@m('bool::then')
def _then(I, st, fn, a):
    c = form(V(I, st, a[0]))

    def f(s):
        s, v = I.call_value(s, a[1], [])
        return s, (Some(v) if s is not None else DEAD)
    return I.branch(st, c, f, lambda s: (s, NONE))


@m('bool::then_some')
def _thensome(I, st, fn, a):
    return st, ite(form(V(I, st, a[0])), Some(a[1]), NONE)


# ------------------------------------------------------------------ Option / Result
def some_payload(v):
    return vf(v, 'Some', '0')


@m('Option::is_some')
def _issome(I, st, fn, a):
    return st, is_var(V(I, st, a[0]), '', 'Some')


@m('Option::is_none')
def _isnone(I, st, fn, a):
    return st, is_var(V(I, st, a[0]), '', 'None')


@m('Result::is_ok')
def _isok(I, st, fn, a):
    return st, is_var(V(I, st, a[0]), '', 'Ok')


@m('Result::is_err')
def _iserr(I, st, fn, a):
    return st, is_var(V(I, st, a[0]), '', 'Err')


def good(fn):
    seg = mir.strip_g(fn['path']).split('::')[-2]
    return ('Some', 'None') if seg == 'Option' else ('Ok', 'Err')


@m('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Option::unwrap_unchecked', 'Result::unwrap_unchecked')
def _unwrap(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    st = I.panic_if(st, is_var(v, '', b), 'unwrap')
    if st.pc is FALSE:
        return None, DEAD
    return st, restrict(vf(v, g, '0'), st.pc)


@m('Result::unwrap_err', 'Result::expect_err')
def _unwraperr(I, st, fn, a):
    v = V(I, st, a[0])
    st = I.panic_if(st, is_var(v, '', 'Ok'), 'unwrap')
    return st, vf(v, 'Err', '0')


@m('Option::unwrap_or', 'Result::unwrap_or')
def _unwrapor(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return st, ite(is_var(v, '', g), vf(v, g, '0'), a[1])


@m('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _unwrapd(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return st, ite(is_var(v, '', g), vf(v, g, '0'), default(fn['g'][0]))


@m('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _unwrapoe(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return I.branch(st, is_var(v, '', g), lambda s: (s, vf(v, g, '0')),
                    lambda s: I.call_value(s, a[1], [] if g == 'Some' else [vf(v, 'Err', '0')]))


@m('Option::map', 'Result::map')
def _omap(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)

    def f(s):
        s, r = I.call_value(s, a[1], [vf(v, g, '0')])
        if s is None:
            return None, DEAD
        return s, (Some(r) if g == 'Some' else Ok(r))
    return I.branch(st, is_var(v, '', g), f, lambda s: (s, NONE if g == 'Some' else Err(vf(v, 'Err', '0'))))


@m('Option::inspect', 'Result::inspect')
def _inspect(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)

    def f(s):
        s, r = I.call_value(s, a[1], [vf(v, g, '0')])
        return s, v
    return I.branch(st, is_var(v, '', g), f, lambda s: (s, v))


@m('Result::map_err')
def _maperr(I, st, fn, a):
    v = V(I, st, a[0])

    def g(s):
        s, r = I.call_value(s, a[1], [vf(v, 'Err', '0')])
        return s, (Err(r) if s is not None else DEAD)
    return I.branch(st, is_var(v, '', 'Ok'), lambda s: (s, Ok(vf(v, 'Ok', '0'))), g)


@m('Option::and_then', 'Result::and_then')
def _andthen(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return I.branch(st, is_var(v, '', g), lambda s: I.call_value(s, a[1], [vf(v, g, '0')]),
                    lambda s: (s, NONE if g == 'Some' else Err(vf(v, 'Err', '0'))))


@m('Option::or_else', 'Result::or_else')
def _orelse(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return I.branch(st, is_var(v, '', g), lambda s: (s, v),
                    lambda s: I.call_value(s, a[1], [] if g == 'Some' else [vf(v, 'Err', '0')]))


@m('Option::map_or', 'Result::map_or')
def _mapor(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return I.branch(st, is_var(v, '', g), lambda s: I.call_value(s, a[2], [vf(v, g, '0')]), lambda s: (s, a[1]))


@m('Option::map_or_else', 'Result::map_or_else')
def _maporelse(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return I.branch(st, is_var(v, '', g), lambda s: I.call_value(s, a[2], [vf(v, g, '0')]),
                    lambda s: I.call_value(s, a[1], [] if g == 'Some' else [vf(v, 'Err', '0')]))


@m('Option::is_some_and', 'Result::is_ok_and')
def _issomeand(I, st, fn, a):
    v = V(I, st, a[0])
    g, b = good(fn)
    return I.branch(st, is_var(v, '', g), lambda s: I.call_value(s, a[1], [vf(v, g, '0')]), lambda s: (s, FALSE))


@m('Option::is_none_or')
def _isnoneor(I, st, fn, a):
    v = V(I, st, a[0])
    return I.branch(st, is_var(v, '', 'Some'), lambda s: I.call_value(s, a[1], [vf(v, 'Some', '0')]), lambda s: (s, TRUE))


@m('Option::ok_or')
def _okor(I, st, fn, a):
    v = V(I, st, a[0])
    return st, ite(is_var(v, '', 'Some'), Ok(vf(v, 'Some', '0')), Err(a[1]))


@m('Option::ok_or_else')
def _okorelse(I, st, fn, a):
    v = V(I, st, a[0])

    def g(s):
        s, r = I.call_value(s, a[1], [])
        return s, (Err(r) if s is not None else DEAD)
    return I.branch(st, is_var(v, '', 'Some'), lambda s: (s, Ok(vf(v, 'Some', '0'))), g)


@m('Result::ok')
def _rok(I, st, fn, a):
    v = V(I, st, a[0])
    return st, ite(is_var(v, '', 'Ok'), Some(vf(v, 'Ok', '0')), NONE)


@m('Result::err')
def _rerr(I, st, fn, a):
    v = V(I, st, a[0])
    return st, ite(is_var(v, '', 'Ok'), NONE, Some(vf(v, 'Err', '0')))


@m('Option::filter')
def _ofilter(I, st, fn, a):
    v = V(I, st, a[0])

    def f(s):
        s, c = I.call_value(s, a[1], [vf(v, 'Some', '0')])
        return s, ite(form(c), v, NONE)
    return I.branch(st, is_var(v, '', 'Some'), f, lambda s: (s, NONE))


@m('Option::take')
def _otake(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], NONE)
    return st, v


@m('Option::insert')
def _oins(I, st, fn, a):
    I.mem_set(st, a[0], Some(a[1]))
    c, p = refpath(a[0])
    return st, mkref(c, p + ('v', 'Some.0'))


@m('Option::replace')
def _orepl(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], Some(a[1]))
    return st, v


@m('Option::get_or_insert')
def _ogoi(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], Some(ite(is_var(v, '', 'Some'), vf(v, 'Some', '0'), a[1])))
    c, p = refpath(a[0])
    return st, mkref(c, p + ('v', 'Some.0'))


@m('Option::get_or_insert_with')
def _ogoiw(I, st, fn, a):
    v = I.mem_get(st, a[0])

    def g(t):
        t, x = I.call_value(t, a[1], [])
        if t is not None:
            I.mem_set(t, a[0], Some(x))
        return t, UNIT
    st, _ = I.branch(st, is_var(v, '', 'Some'), lambda t: (t, UNIT), g)
    if st is None:
        return None, DEAD
    c, p = refpath(a[0])
    return st, mkref(c, p + ('v', 'Some.0'))


# ------------------------------------------------------------------ Vec / slices
@m('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'LinkedList::new')
def _vecnew(I, st, fn, a):
    return st, NIL


@m('Vec::push', 'VecDeque::push_back', 'LinkedList::push_back')
def _push(I, st, fn, a):
    I.mem_set(st, a[0], cat(I.mem_get(st, a[0]), lst(a[1])))
    return st, UNIT


@m('VecDeque::push_front', 'LinkedList::push_front')
def _pushf(I, st, fn, a):
    I.mem_set(st, a[0], cat(lst(a[1]), I.mem_get(st, a[0])))
    return st, UNIT


@m('VecDeque::pop_front', 'LinkedList::pop_front')
def _popf(I, st, fn, a):
    v = I.mem_get(st, a[0])
    n = length(v)
    e = eq0(n)
    I.mem_set(st, a[0], ite(e, v, slice_(v, ONE, n)))
    return st, ite(e, NONE, Some(idx(v, ZERO)))


@m('Vec::pop', 'VecDeque::pop_back', 'LinkedList::pop_back')
def _pop(I, st, fn, a):
    v = I.mem_get(st, a[0])
    n = length(v)
    e = eq0(n)
    I.mem_set(st, a[0], ite(e, v, slice_(v, ZERO, sub(n, ONE))))
    return st, ite(e, NONE, Some(idx(v, sub(n, ONE))))


@m('Vec::len', 'VecDeque::len', 'LinkedList::len', 'slice::len', 'HashMap::len', 'BTreeMap::len', 'ExactSizeIterator::len', 'str::len')
def _len(I, st, fn, a):
    v = V(I, st, a[0])
    if v.op == 'iter':
        return st, sub(src_len(I, st, v.a[0]), v.a[1])
    if 'Map' in fn['path']:
        return st, maplen(v)
    return st, length(v)


def maplen(v):
    if v is MAP0:
        return ZERO
    ks = const_keys(v)
    return num(len(ks)) if ks is not None else length(keys_of(v))


@m('Vec::is_empty', 'VecDeque::is_empty', 'LinkedList::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'BTreeMap::is_empty')
def _isempty(I, st, fn, a):
    v = V(I, st, a[0])
    return st, eq0(maplen(v) if 'Map' in fn['path'] else length(v))


@m('Vec::extend_from_slice', 'Vec::extend_from_within')
def _extfs(I, st, fn, a):
    I.mem_set(st, a[0], cat(I.mem_get(st, a[0]), V(I, st, a[1])))
    return st, UNIT


@m('Vec::append')
def _append(I, st, fn, a):
    o = I.mem_get(st, a[1])
    I.mem_set(st, a[0], cat(I.mem_get(st, a[0]), o))
    I.mem_set(st, a[1], NIL)
    return st, UNIT


@m('Vec::insert')
def _vinsert(I, st, fn, a):
    v = I.mem_get(st, a[0])
    i = a[1]
    I.mem_set(st, a[0], cat(slice_(v, ZERO, i), lst(a[2]), slice_(v, i, length(v))))
    return st, UNIT


@m('Vec::remove', 'Vec::swap_remove')
def _vremove(I, st, fn, a):
    v = I.mem_get(st, a[0])
    i = a[1]
    n = length(v)
    st = I.panic_if(st, Not(lt(i, n)), 'bounds')
    if fn['name'] == 'swap_remove':
        I.mem_set(st, a[0], slice_(store(v, i, idx(v, sub(n, ONE))), ZERO, sub(n, ONE)))
    else:
        I.mem_set(st, a[0], cat(slice_(v, ZERO, i), slice_(v, add(i, ONE), n)))
    return st, idx(v, i)


@m('Vec::truncate')
def _trunc(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], slice_(v, ZERO, mn(a[1], length(v))))
    return st, UNIT


@m('Vec::reserve', 'Vec::reserve_exact', 'Vec::shrink_to_fit', 'HashMap::reserve', 'HashSet::reserve', 'VecDeque::reserve', 'HashMap::shrink_to_fit')
def _reserve(I, st, fn, a):
    return st, UNIT


@m('Vec::clear', 'HashMap::clear', 'BTreeMap::clear')
def _clear(I, st, fn, a):
    I.mem_set(st, a[0], MAP0 if 'Map' in fn['path'] else NIL)
    return st, UNIT


@m('Vec::resize')
def _resize(I, st, fn, a):
    v = I.mem_get(st, a[0])
    n = length(v)
    grow = sub(a[1], n)
    e = cat(v, repeat(a[2], grow))
    c = lt(a[1], n)
    I.mem_set(st, a[0], e if _nonneg(grow) else ite(c, slice_(v, ZERO, a[1]), e))
    return st, UNIT


def _nonneg(t):
    return all(c >= 0 for c in as_poly(t).values())


def repeat(v, n):
    return seq(n, v.h + 1, v)


@m('vec::from_elem')
def _fromelem(I, st, fn, a):
    return st, repeat(a[0], a[1])


@m('slice::concat', 'slice::join')
def _concat(I, st, fn, a):
    v = V(I, st, a[0])
    if v.op == 'list':
        return st, cat(*[I.deref(st, x) for x in v.a])
    i = fresh('i')
    return st, mkflat(length(v), i, idx(v, i))


@m('num::unsigned_abs', 'num::abs')
def _abs(I, st, fn, a):
    x = V(I, st, a[0])
    return st, ite(pos(neg(x)), neg(x), x) if int_val(x) is None else num(abs(int_val(x)))


@m('slice::from_ref', 'array::from_ref')
def _from_ref(I, st, fn, a):
    return st, lst(V(I, st, a[0]))


@m('slice::first')
def _first(I, st, fn, a):
    v = V(I, st, a[0])
    return st, ite(eq0(length(v)), NONE, Some(idx(v, ZERO)))


@m('slice::last')
def _last(I, st, fn, a):
    v = V(I, st, a[0])
    return st, ite(eq0(length(v)), NONE, Some(idx(v, sub(length(v), ONE))))


@m('slice::get', 'Vec::get')
def _get(I, st, fn, a):
    v = V(I, st, a[0])
    i = V(I, st, a[1])
    r = rng(i, length(v))
    if r:
        lo, hi = r
        return st, ite(Or(lt(hi, lo), lt(length(v), hi)), NONE, Some(slice_(v, lo, hi)))
    return st, ite(lt(i, length(v)), Some(idx(v, i)), NONE)


@m('slice::get_mut', 'slice::first_mut', 'slice::last_mut')
def _getmut(I, st, fn, a):
    v = V(I, st, a[0])
    i = V(I, st, a[1]) if len(a) > 1 else ZERO if 'first' in fn['name'] else sub(length(v), ONE)
    c, p = refpath(a[0])
    cond = lt(i, length(v)) if len(a) > 1 else Not(eq0(length(v)))
    return st, ite(cond, Some(mkref(c, p + ('ix', i))), NONE)


@m('slice::contains')
def _contains(I, st, fn, a):
    v, x = V(I, st, a[0]), V(I, st, a[1])
    if v.op == 'list':
        return st, Or(*[eq(e, x) for e in v.a])
    i = fresh('i')
    return st, mkexists(length(v), i, eq(idx(v, i), x))


@m('slice::sort', 'slice::sort_unstable')
def _sort(I, st, fn, a):
    I.mem_set(st, a[0], sorted_(I.mem_get(st, a[0])))
    return st, UNIT


@m('Vec::dedup')
def _dedup(I, st, fn, a):
    v = I.mem_get(st, a[0])
    if v.op == 'sorted' and v.a[0].op in ('mkeys', 'minsall', 'minsert', 'map0') or v is NIL:
        return st, UNIT      # keys of a map are distinct
    I.mem_set(st, a[0], raw('dedup', v))
    return st, UNIT


def sorted_(v):
    if v.op == 'sorted' or v is NIL:
        return v
    if v.op == 'mkeys':
        ks = const_keys(v.a[0])
        if ks is not None:
            return lst(*sorted(ks, key=const_key))
        c = copied(v.a[0])
        if c is not None:
            return sorted_(raw('mkeys', c[0]))
    return raw('sorted', v)


def const_key(t):
    """sortable value of a constant term, None if it is not constant"""
    if t.op == 'list':
        r = [const_key(x) for x in t.a]
        return None if None in r else tuple(r)
    return int_val(t)


def const_keys(m):
    """keys of a map built by insertions of pairwise different constants"""
    r, seen = [], set()
    while m.op == 'minsert':
        k = const_key(m.a[1])
        if k is None or k in seen:
            return None
        seen.add(k)
        r.append(m.a[1])
        m = m.a[0]
    return r if m is MAP0 and len({type(x) for x in seen}) < 2 else None


def iop_has(t, x):
    return subst(t, {x: UNIT}) is not t


def inner(k, x):
    """x, or the number a newtype x wraps"""
    while k.op == 'fld' and k.a[1] == '0':
        k = k.a[0]
    return k is x


@m('slice::sort_by', 'slice::sort_by_cached_key', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def _sortby(I, st, fn, a):
    v = I.mem_get(st, a[0])
    x, y = fresh('x'), fresh('y')
    two = fn['name'] in ('sort_by', 'sort_unstable_by')
    s2 = St(TRUE, dict(st.mem))
    np = len(I.panics)
    s2, r = I.call_value(s2, a[1], [x, y] if two else [x])
    del I.panics[np:]
    # elements made from the keys of a map and ordered by those keys
    key = None
    if two and r.op == 'cmp':
        if not iop_has(r.a[0], y) and subst(r.a[0], {x: y}) is r.a[1]:
            key = r.a[0]
    elif not two:
        key = r
    if key is not None and v.op == 'seq':
        i = fresh('i')
        e = inst(v.a[2], v.a[0], i)
        k = subst(key, {x: e})
        if k.op == 'idx' and k.a[0].op == 'mkeys' and k.a[1] is i and v.a[1] is length(k.a[0]):
            z = fresh('z')
            e2 = subst(e, {k: z})
            if not iop_has(e2, i):
                I.mem_set(st, a[0], mkseq(v.a[1], i, subst(e2, {z: idx(sorted_(k.a[0]), i)})))
                return st, UNIT
    # keys of a map (identifiers) ordered by the number inside them, upwards or downwards
    if v.op == 'mkeys' or v.op == 'sorted' and v.a[0].op == 'mkeys':
        up = key is not None and inner(key, x)
        down = key is not None and key.op == 'adt' and key.a[0].split('::')[-1] == 'Reverse' and inner(key.a[-1], x)
        if two and key is None and r.op == 'cmp' and subst(r.a[0], {y: x}) is r.a[1]:
            down = inner(r.a[1], x)
        if up or down:
            I.mem_set(st, a[0], sorted_(v) if up else rev(sorted_(v)))
            return st, UNIT
    # a comparator that compares the elements themselves is the natural order
    if two and r is raw('cmp', x, y) or (not two and r is x):
        I.mem_set(st, a[0], sorted_(v))
    else:
        I.mem_set(st, a[0], raw('sortedby', v, subst(r, {x: raw('sym', 'cmpx'), y: raw('sym', 'cmpy')})))
    return st, UNIT


@m('Ord::cmp', 'PartialOrd::partial_cmp')
def _cmp(I, st, fn, a):
    x, y = I.norm(st, a[0]), I.norm(st, a[1])
    r = raw('cmp', x, y)
    return st, Some(r) if 'partial' in fn['name'] else r


@m('Ordering::then', 'Ordering::then_with')
def _then(I, st, fn, a):
    x = V(I, st, a[0])
    if fn['name'].endswith('with'):
        st, y = I.call_value(st, a[1], [])
        if st is None:
            return None, DEAD
    else:
        y = V(I, st, a[1])
    if x.op != 'cmp' or y.op != 'cmp':
        return None
    l, r = [[list(z.a[3:]) if z.op == 'adt' and z.a[0] == '()' else [z] for z in (x.a[q], y.a[q])] for q in (0, 1)]
    return st, raw('cmp', tup(*l[0] + l[1]), tup(*r[0] + r[1]))


@m('Ordering::reverse')
def _ordrev(I, st, fn, a):
    x = V(I, st, a[0])
    return (st, raw('cmp', x.a[1], x.a[0])) if x.op == 'cmp' else None


@m('slice::reverse')
def _reverse(I, st, fn, a):
    I.mem_set(st, a[0], rev(I.mem_get(st, a[0])))
    return st, UNIT


@m('slice::swap')
def _vswap(I, st, fn, a):
    v = I.mem_get(st, a[0])
    x, y = idx(v, a[1]), idx(v, a[2])
    I.mem_set(st, a[0], store(store(v, a[1], y), a[2], x))
    return st, UNIT


@m('slice::rotate_left', 'slice::rotate_right')
def _rotate(I, st, fn, a):
    v = I.mem_get(st, a[0])
    n = length(v)
    k = V(I, st, a[1])
    if 'right' in fn['name']:
        k = sub(n, k)
    I.mem_set(st, a[0], cat(slice_(v, k, n), slice_(v, ZERO, k)))
    return st, UNIT


@m('slice::split_at')
def _splitat(I, st, fn, a):
    v = V(I, st, a[0])
    return st, tup(slice_(v, ZERO, a[1]), slice_(v, a[1], length(v)))


@m('Vec::split_off')
def _splitoff(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], slice_(v, ZERO, a[1]))
    return st, slice_(v, a[1], length(v))


@m('slice::split_first')
def _splitfirst(I, st, fn, a):
    v = V(I, st, a[0])
    n = length(v)
    return st, ite(eq0(n), NONE, Some(tup(idx(v, ZERO), slice_(v, ONE, n))))


@m('slice::split_last')
def _splitlast(I, st, fn, a):
    v = V(I, st, a[0])
    n = length(v)
    return st, ite(eq0(n), NONE, Some(tup(idx(v, sub(n, ONE)), slice_(v, ZERO, sub(n, ONE)))))


@m('slice::copy_from_slice', 'slice::clone_from_slice')
def _copyfs(I, st, fn, a):
    I.mem_set(st, a[0], V(I, st, a[1]))
    return st, UNIT


@m('slice::fill')
def _fill(I, st, fn, a):
    v = I.mem_get(st, a[0])
    I.mem_set(st, a[0], repeat(a[1], length(v)))
    return st, UNIT


def rng(i, n):
    if i.op == 'adt':
        p = i.a[0].split('::')[-1]
        if p == 'Range':
            return fld(i, 'start'), fld(i, 'end')
        if p == 'RangeTo':
            return ZERO, fld(i, 'end')
        if p == 'RangeFrom':
            return fld(i, 'start'), n
        if p == 'RangeFull':
            return ZERO, n
        if p == 'RangeInclusive':
            return fld(i, 'start'), add(fld(i, 'end'), ONE)
        if p == 'RangeToInclusive':
            return ZERO, add(fld(i, 'end'), ONE)
    if i.op == 'zst' and 'RangeFull' in i.a[0]:
        return ZERO, n
    return None


@m('RangeInclusive::new')
def _rinew(I, st, fn, a):
    return st, adt('core::ops::RangeInclusive', '', ('start', 'end'), a[0], a[1])


@m('Index::index')
def _index(I, st, fn, a):
    v = V(I, st, a[0])
    i = V(I, st, a[1])
    ty = fn['g'][0] if fn['g'] else ''
    if 'Map' in mir.strip_g(ty):
        st = I.panic_if(st, Not(mhas(v, i)), 'mapindex')
        return st, mval(v, i)
    if mir.strip_g(ty).lstrip('&').strip().endswith('DenseMultilinearExtension'):
        return st, idx(fld(v, 'evaluations'), i)
    n = length(v)
    r = rng(i, n)
    if r:
        st = I.panic_if(st, Or(lt(r[1], r[0]), lt(n, r[1])), 'bounds')
        return st, slice_(v, *r)
    st = I.panic_if(st, Not(lt(i, n)), 'bounds')
    return st, idx(v, i)


@m('IndexMut::index_mut')
def _indexmut(I, st, fn, a):
    r0 = a[0]
    v = I.mem_get(st, r0)
    if v.op == 'ref':
        r0 = v
        v = I.mem_get(st, r0)
    i = V(I, st, a[1])
    if r0.op != 'ref':
        return None
    c, p = refpath(r0)
    ty = fn['g'][0] if fn['g'] else ''
    if mir.strip_g(ty).lstrip('&').strip().endswith('DenseMultilinearExtension'):
        p = p + ('f', 'evaluations')
        v = fld(v, 'evaluations')
    n = length(v)
    r = rng(i, n)
    if r:
        return st, mkref(c, p + ('rg', raw('range', *r)))
    st = I.panic_if(st, Not(lt(i, n)), 'bounds')
    return st, mkref(c, p + ('ix', i))


# vec![...] lowering
@m('Box::new_uninit')
def _uninit(I, st, fn, a):
    c = raw('cell', 'T', I.fid_next())
    st.mem[c] = raw('uninit')
    return st, mkref(c)


@m('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init')
def _assume(I, st, fn, a):
    v = I.deref(st, a[0])
    return st, fld(fld(v, 'value'), 'value')


@m('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'HashSet::new', 'BTreeSet::new')
def _mapnew(I, st, fn, a):
    return st, MAP0


@m('HashSet::get', 'BTreeSet::get')
def _sget(I, st, fn, a):
    k = I.norm(st, a[1])
    return st, ite(mhas(V(I, st, a[0]), k), Some(k), NONE)


@m('HashMap::get', 'BTreeMap::get')
def _mget(I, st, fn, a):
    return st, mget(V(I, st, a[0]), I.norm(st, a[1]))


@m('HashMap::get_mut', 'BTreeMap::get_mut')
def _mgetmut(I, st, fn, a):
    k = I.norm(st, a[1])
    v = I.mem_get(st, a[0])
    c, p = refpath(a[0])
    return st, ite(mhas(v, k), Some(mkref(c, p + ('mk', k))), NONE)


@m('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def _mhas(I, st, fn, a):
    return st, mhas(V(I, st, a[0]), I.norm(st, a[1]))


@m('HashMap::insert', 'BTreeMap::insert')
def _minsert(I, st, fn, a):
    v = I.mem_get(st, a[0])
    k = I.norm(st, a[1])
    I.mem_set(st, a[0], minsert(v, k, a[2]))
    return st, mget(v, k)


@m('HashSet::insert', 'BTreeSet::insert')
def _sinsert(I, st, fn, a):
    v = I.mem_get(st, a[0])
    k = I.norm(st, a[1])
    I.mem_set(st, a[0], minsert(v, k, UNIT))
    return st, Not(mhas(v, k))


@m('HashMap::remove', 'BTreeMap::remove')
def _mremove(I, st, fn, a):
    v = I.mem_get(st, a[0])
    k = I.norm(st, a[1])
    I.mem_set(st, a[0], raw('mremove', v, k))
    return st, mget(v, k)


@m('HashMap::entry', 'BTreeMap::entry')
def _entry(I, st, fn, a):
    return st, raw('entry', a[0], I.norm(st, a[1]))


@m('Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with')
def _orinsert(I, st, fn, a):
    e = a[0]
    if e.op != 'entry':
        return None
    r, k = e.a
    v = I.mem_get(st, r)
    c, p = refpath(r)
    if fn['name'] == 'or_insert_with':
        st, d = I.call_value(st, a[1], [])
    else:
        d = a[1] if len(a) > 1 else default(fn['g'][-1] if fn['g'] else '')
    I.mem_set(st, r, ite(mhas(v, k), v, minsert(v, k, d)))
    return st, mkref(c, p + ('mk', k))


@m('Entry::and_modify')
def _andmodify(I, st, fn, a):
    e = a[0]
    if e.op != 'entry':
        return None
    r, k = e.a
    v = I.mem_get(st, r)
    A = acc_cell(I)
    st.mem[A] = mval(v, k)
    st, _ = I.call_value(st, a[1], [mkref(A, ())])
    if st is None:
        return None, DEAD
    I.mem_set(st, r, ite(mhas(v, k), minsert(v, k, st.mem.pop(A)), v))
    return st, e


def keys_of(v):
    return raw('mkeys', v)


@m('HashMap::keys', 'HashMap::into_keys', 'HashSet::iter')
def _hkeys(I, st, fn, a):
    return st, mkiter(keys_of(V(I, st, a[0])))


@m('BTreeMap::keys', 'BTreeMap::into_keys', 'BTreeSet::iter')
def _bkeys(I, st, fn, a):
    return st, mkiter(sorted_(keys_of(V(I, st, a[0]))))


def items(v, ordered):
    ks = keys_of(v)
    if ordered:
        ks = sorted_(ks)
    i = fresh('i')
    return mkseq(length(ks), i, tup(idx(ks, i), mval(v, idx(ks, i))))


@m('HashMap::iter', 'HashMap::into_iter', 'BTreeMap::iter')
def _miter(I, st, fn, a):
    return st, mkiter(items(V(I, st, a[0]), 'BTree' in fn['path']))


@m('HashMap::values', 'HashMap::into_values', 'BTreeMap::values', 'BTreeMap::into_values')
def _mvalues(I, st, fn, a):
    v = V(I, st, a[0])
    ks = keys_of(v)
    if 'BTree' in fn['path']:
        ks = sorted_(ks)
    i = fresh('i')
    return st, mkiter(mkseq(length(ks), i, mval(v, idx(ks, i))))


@m('HashMap::iter_mut', 'BTreeMap::iter_mut')
def _miterm(I, st, fn, a):
    v = I.mem_get(st, a[0])
    ks = keys_of(v)
    if 'BTree' in fn['path']:
        ks = sorted_(ks)
    return st, mkiter(raw('i_mmut', a[0], ks))


@m('HashMap::values_mut')
def _mvaluesm(I, st, fn, a):
    v = I.mem_get(st, a[0])
    return st, mkiter(raw('i_mvmut', a[0], keys_of(v)))


# ------------------------------------------------------------------ iterators
def mkiter(src, pos_=ZERO):
    return raw('iter', src, pos_)


def least(st, a, b):
    r = mn(a, b)
    if r.op == 'min':
        for x, y in ((a, b), (b, a)):
            if deep_restrict(lt(y, x), st.pc) is FALSE:
                return x
    return r


def src_len(I, st, s):
    o = s.op
    if o == 'i_map':
        return src_len(I, st, s.a[0])
    if o == 'i_zip':
        a, b = src_len(I, st, s.a[0]), src_len(I, st, s.a[1])
        return b if a is INF else a if b is INF else least(st, a, b)
    if o == 'i_count':
        return INF
    if o == 'i_rep':
        return INF
    if o == 'i_mut':
        return length(I.mem_get(st, s.a[0]))
    if o in ('i_mmut', 'i_mvmut'):
        return length(s.a[1])
    if o == 'i_off':
        return sub(src_len(I, st, s.a[0]), s.a[1]) if src_len(I, st, s.a[0]) is not INF else INF
    if o == 'i_take':
        n = src_len(I, st, s.a[0])
        return s.a[1] if n is INF else least(st, n, s.a[1])
    if o == 'i_rev':
        return src_len(I, st, s.a[0])
    if o == 'i_chain':
        return add(src_len(I, st, s.a[0]), src_len(I, st, s.a[1]))
    return length(s)


def elem(I, st, s, i):
    o = s.op
    if o == 'i_map':
        st, v = elem(I, st, s.a[0], i)
        if st is None:
            return None, DEAD
        return I.call_value(st, s.a[1], [v])
    if o == 'i_zip':
        st, x = elem(I, st, s.a[0], i)
        if st is None:
            return None, DEAD
        st, y = elem(I, st, s.a[1], i)
        return st, (tup(x, y) if st is not None else DEAD)
    if o == 'i_count':
        return st, add(s.a[0], i)
    if o == 'i_rep':
        return I.call_value(st, s.a[0], [])
    if o == 'i_mut':
        c, p = refpath(s.a[0])
        return st, mkref(c, p + ('ix', i))
    if o == 'i_mmut':
        k = idx(s.a[1], i)
        c, p = refpath(s.a[0])
        return st, tup(k, mkref(c, p + ('mk', k)))
    if o == 'i_mvmut':
        k = idx(s.a[1], i)
        c, p = refpath(s.a[0])
        return st, mkref(c, p + ('mk', k))
    if o == 'i_off':
        return elem(I, st, s.a[0], add(i, s.a[1]))
    if o == 'i_take':
        return elem(I, st, s.a[0], i)
    if o == 'i_rev':
        return elem(I, st, s.a[0], sub(sub(src_len(I, st, s.a[0]), ONE), i))
    if o == 'i_chain':
        n = src_len(I, st, s.a[0])
        return I.branch(st, lt(i, n), lambda t: elem(I, t, s.a[0], i), lambda t: elem(I, t, s.a[1], sub(i, n)))
    return st, idx(s, i)


def pure(s):
    return not s.op.startswith('i_')


def one_iter(st, v):
    """an iterator advanced on some paths only is one iterator over the same source"""
    if v.op == 'ite' and any(x.op == 'iter' for x in v.a[1:]):
        v = restrict(v, st.pc)
    if v.op != 'ite':
        return v
    x, y = one_iter(st, v.a[1]), one_iter(st, v.a[2])
    if x.op == y.op == 'iter' and x.a[0] is y.a[0]:
        return raw('iter', x.a[0], ite(form(v.a[0]), x.a[1], y.a[1]))
    return v


def to_src(I, st, v, fn=None):
    """anything iterable -> lazy source"""
    v = one_iter(st, v)
    if v.op == 'iter':
        s, p = v.a
        if p is ZERO:
            return s
        if pure(s):
            return slice_(s, p, length(s))
        return raw('i_off', s, p)
    if v.op == 'ref':
        t = I.mem_get(st, v)
        if t.op == 'iter':
            return to_src(I, st, t)
        if t.op == 'ref':
            return to_src(I, st, t)
        if fn is not None and fn['g'] and 'Map' in mir.strip_g(fn['g'][0]):
            ks = keys_of(t)
            return raw('i_mmut', v, sorted_(ks) if 'BTree' in fn['g'][0] else ks)
        return raw('i_mut', v)
    if v.op == 'ite' and I._hasref(v):
        return raw('i_mut', v)
    if v.op not in ('adt', 'list', 'cat', 'seq') and fn is not None and fn['g'] and mir.strip_g(fn['g'][0]).split('::')[-1] == 'Option':
        return ite(is_var(v, '', 'Some'), lst(vf(v, 'Some', '0')), NIL)
    if v.op == 'adt':
        p = v.a[0].split('::')[-1]
        if p == 'Range':
            lo, hi = fld(v, 'start'), fld(v, 'end')
            i = fresh('i')
            return mkseq(sub(hi, lo), i, add(lo, i))
        if p == 'RangeInclusive':
            lo, hi = fld(v, 'start'), fld(v, 'end')
            i = fresh('i')
            return mkseq(add(sub(hi, lo), ONE), i, add(lo, i))
        if p == 'RangeFrom':
            return raw('i_count', fld(v, 'start'))
        if p == 'Option':
            return lst(v.a[3]) if v.a[1] == 'Some' else NIL
    if fn is not None and fn['g']:
        last = mir.strip_g(fn['g'][0]).split('::')[-1]
        if 'Map' in last:
            return items(v, 'BTree' in last)
        if last == 'BTreeSet':
            return sorted_(v)
    return v


@m('IntoIterator::into_iter', 'slice::iter', 'VecDeque::iter', 'LinkedList::iter', 'IntoParallelIterator::into_par_iter', 'IntoParallelRefIterator::par_iter', 'Vec::into_iter', 'Vec::iter', 'Option::iter')
def _iter(I, st, fn, a):
    v = a[0]
    if v.op == 'iter':
        return st, v
    if fn['name'] in ('iter', 'par_iter'):
        v = V(I, st, v)
    return st, mkiter(to_src(I, st, v, fn))


@m('slice::iter_mut', 'IntoParallelRefMutIterator::par_iter_mut')
def _itermut(I, st, fn, a):
    v = a[0]
    t = I.mem_get(st, v)
    if t.op == 'ref':
        v = t
    return st, mkiter(raw('i_mut', v))


@m('Vec::drain')
def _drain(I, st, fn, a):
    v = I.mem_get(st, a[0])
    r = rng(V(I, st, a[1]), length(v))
    if r is None:
        return None
    I.mem_set(st, a[0], cat(slice_(v, ZERO, r[0]), slice_(v, r[1], length(v))))
    return st, mkiter(slice_(v, *r))


@m('*::map', '*::inspect')
def _map(I, st, fn, a):
    return st, mkiter(raw('i_map', to_src(I, st, a[0]), a[1]))


@m('*::cloned', '*::copied', '*::into_iter', '*::iter', '*::by_ref', '*::fuse', '*::peekable')
def _itid(I, st, fn, a):
    return st, mkiter(to_src(I, st, a[0], fn))


def zip_src(a, b):
    if pure(a) and pure(b):
        i = fresh('i')
        return mkseq(mn(length(a), length(b)), i, tup(idx(a, i), idx(b, i)))
    return raw('i_zip', a, b)


@m('*::zip')
def _zip(I, st, fn, a):
    x = to_src(I, st, a[0])
    y = a[1]
    y = to_src(I, st, y, dict(fn, g=[fn['g'][1]]) if len(fn['g']) > 1 else fn)
    return st, mkiter(zip_src(x, y))


@m('iter::zip')
def _zip2(I, st, fn, a):
    return st, mkiter(zip_src(to_src(I, st, a[0]), to_src(I, st, a[1])))


@m('*::enumerate')
def _enum(I, st, fn, a):
    s = to_src(I, st, a[0])
    if pure(s):
        i = fresh('i')
        return st, mkiter(mkseq(length(s), i, tup(i, idx(s, i))))
    return st, mkiter(raw('i_zip', raw('i_count', ZERO), s))


@m('*::skip')
def _skip(I, st, fn, a):
    s = to_src(I, st, a[0])
    return st, mkiter(slice_(s, a[1], length(s)) if pure(s) else raw('i_off', s, a[1]))


@m('*::take')
def _take2(I, st, fn, a):
    s = to_src(I, st, a[0])
    if pure(s):
        n = length(s)
        return st, mkiter(slice_(s, ZERO, a[1] if _nonneg(sub(n, a[1])) else least(st, a[1], n)))
    return st, mkiter(raw('i_take', s, a[1]))


@m('*::rev')
def _rev(I, st, fn, a):
    s = to_src(I, st, a[0])
    return st, mkiter(rev(s) if pure(s) else raw('i_rev', s))


@m('*::chain')
def _chain(I, st, fn, a):
    x, y = to_src(I, st, a[0]), to_src(I, st, a[1], dict(fn, g=[fn['g'][1]]) if len(fn['g']) > 1 else fn)
    return st, mkiter(cat(x, y) if pure(x) and pure(y) else raw('i_chain', x, y))


@m('*::step_by')
def _stepby(I, st, fn, a):
    s = to_src(I, st, a[0])
    i = fresh('i')
    return st, mkiter(mkseq(ceildiv(length(s), a[1]), i, idx(s, mul(i, a[1]))))


@m('slice::chunks', 'slice::chunks_exact', 'slice::par_chunks', 'slice::par_chunks_exact')
def _chunks(I, st, fn, a):
    s = V(I, st, a[0])
    i = fresh('i')
    n, k = length(s), a[1]
    hi = mul(add(i, ONE), k)
    whole = div(n, k)
    if fn['name'].endswith('exact') or mul(whole, k) is n or (n.op == 'pow2' and k.op == 'pow2'):
        return st, mkiter(mkseq(whole, i, slice_(s, mul(i, k), hi)))
    return st, mkiter(mkseq(ceildiv(n, k), i, slice_(s, mul(i, k), mn(n, hi))))


@m('slice::windows')
def _windows(I, st, fn, a):
    s = V(I, st, a[0])
    i = fresh('i')
    return st, mkiter(mkseq(add(sub(length(s), a[1]), ONE), i, slice_(s, i, add(i, a[1]))))


@m('iter::repeat_with')
def _repwith(I, st, fn, a):
    return st, mkiter(raw('i_rep', a[0]))


@m('iter::repeat')
def _rep(I, st, fn, a):
    return st, mkiter(raw('i_map', raw('i_count', ZERO), raw('lam', a[0].h + 1, a[0])))


@m('*::cycle')
def _cycle(I, st, fn, a):
    s = to_src(I, st, a[0])
    if not pure(s):
        return I.opaque(st, fn, a)
    i = fresh('i')
    k, b = bind(i, idx(s, mod(i, length(s))))
    return st, mkiter(ite(eq0(length(s)), NIL, raw('i_map', raw('i_count', ZERO), raw('lam', k, b))))


@m('slice::repeat')
def _srepeat(I, st, fn, a):
    return st, mkflat(a[1], fresh('i'), V(I, st, a[0]))


@m('iter::once')
def _once(I, st, fn, a):
    return st, mkiter(lst(a[0]))


@m('iter::empty')
def _empty(I, st, fn, a):
    return st, mkiter(NIL)


@m('Iterator::next')
def _next(I, st, fn, a):
    r = a[0]
    v = I.mem_get(st, r)
    if v.op == 'ref':
        r = v
        v = I.mem_get(st, r)
    if v.op == 'adt' and v.a[0].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
        v = mkiter(to_src(I, st, v))
    v = one_iter(st, v)
    if v.op != 'iter':
        return None
    s, p = v.a
    n = src_len(I, st, s)
    c = TRUE if n is INF else lt(p, n)

    def f(t):
        I.mem_set(t, r, raw('iter', s, add(p, ONE)))
        t, e = elem(I, t, s, p)
        return t, (Some(e) if t is not None else DEAD)

    def g(t):
        I.mem_set(t, r, v)
        return t, NONE
    return I.branch(st, c, f, g)


def consume(I, st, s, step, init_cells):
    """run step(st, elem) for each element; init_cells: dict cell->initial value; returns merged state, exits"""
    n = src_len(I, st, s)
    for c, v in init_cells.items():
        st.mem[c] = v

    def f(t, i):
        t, e = elem(I, t, s, i)
        if t is None:
            return None, []
        return step(t, e)
    if n is INF:
        raise Exception('infinite iterator')
    return I.for_range(st, n, f, None)


def acc_cell(I):
    return raw('cell', 'ACC%d' % I.fid_next())


def fold(I, st, s, init, f):
    A = acc_cell(I)

    def step(t, e):
        t, v = f(t, t.mem[A], e)
        if t is None:
            return None, []
        t.mem[A] = v
        return t, []
    outs = consume(I, st, s, step, {A: init})
    r = merge([x for t, x in outs])
    if r is None:
        return None, DEAD
    return r, r.mem.pop(A)


def collect_list(I, st, s):
    if pure(s):
        return st, s
    if s.op == 'i_mut':
        return st, s
    return fold(I, st, s, NIL, lambda t, acc, e: (t, cat(acc, lst(e))))


def collect_as(I, st, s, ty):
    t = mir.strip_g(ty)
    last = t.split('::')[-1]
    if last in ('HashMap', 'BTreeMap'):
        return fold(I, st, s, MAP0, lambda t_, acc, e: (t_, minsert(acc, I.norm(t_, fld(e, '0')), fld(e, '1'))))
    if last in ('HashSet', 'BTreeSet'):
        return fold(I, st, s, MAP0, lambda t_, acc, e: (t_, minsert(acc, I.norm(t_, e), UNIT)))
    if last in ('Result', 'Option'):
        g, b = ('Ok', 'Err') if last == 'Result' else ('Some', 'None')
        inner = ty[ty.index('<') + 1:] if '<' in ty else ''
        A = acc_cell(I)
        E_ = acc_cell(I)

        def step(t_, e):
            ok = restrict(is_var(e, '', g), t_.pc)
            ex = []
            p0 = And(t_.pc, Not(ok))
            if p0 is not FALSE:
                m0 = dict(t_.mem)
                m0[E_] = vf(e, 'Err', '0') if g == 'Ok' else UNIT
                ex.append(('early', St(p0, m0)))
            p1 = And(t_.pc, ok)
            if p1 is FALSE:
                return None, ex
            t1 = St(p1, t_.mem)
            t1.mem[A] = cat(t1.mem[A], lst(vf(e, g, '0')))
            return t1, ex
        outs = consume(I, st, s, step, {A: NIL})
        for tag, x in outs:
            if tag == 'early':
                x.mem[A] = Err(x.mem.pop(E_)) if g == 'Ok' else NONE
            else:
                x.mem[A] = Ok(x.mem[A]) if g == 'Ok' else Some(x.mem[A])
                x.mem.pop(E_, None)
        r = merge([x for _, x in outs])
        if r is None:
            return None, DEAD
        return r, r.mem.pop(A)
    if last in ('Vec', 'Box', '[]', 'String', 'LinkedList', 'VecDeque') or True:
        return collect_list(I, st, s)


@m('*::collect')
def _collect(I, st, fn, a):
    return collect_as(I, st, to_src(I, st, a[0]), fn['g'][-1] if fn['g'] else '')


@m('FromIterator::from_iter', 'FromParallelIterator::from_par_iter')
def _fromiter(I, st, fn, a):
    return collect_as(I, st, to_src(I, st, a[0]), fn['g'][0])


@m('Extend::extend', 'Vec::extend')
def _extend(I, st, fn, a):
    ty = fn['g'][0] if fn['g'] else ''
    s = to_src(I, st, a[1], dict(fn, g=fn['g'][2:]) if len(fn['g']) > 2 else None)
    if mir.strip_g(ty).split('::')[-1] in ('HashSet', 'BTreeSet'):
        st, v = fold(I, st, s, I.mem_get(st, a[0]), lambda t_, acc, e: (t_, minsert(acc, I.norm(t_, e), UNIT)))
        if st is None:
            return None, DEAD
        I.mem_set(st, a[0], v)
        return st, UNIT
    if 'Map' in mir.strip_g(ty).split('::')[-1]:
        st, v = fold(I, st, s, I.mem_get(st, a[0]), lambda t_, acc, e: (t_, minsert(acc, I.norm(t_, fld(e, '0')), fld(e, '1'))))
        if st is None:
            return None, DEAD
        I.mem_set(st, a[0], v)
        return st, UNIT
    st, v = collect_list(I, st, s)
    if st is None:
        return None, DEAD
    I.mem_set(st, a[0], cat(I.mem_get(st, a[0]), v))
    return st, UNIT


@m('*::fold')
def _fold(I, st, fn, a):
    s = to_src(I, st, a[0])
    if 'ParallelIterator' in fn['path']:
        st, i0 = I.call_value(st, a[1], [])
        st, v = fold(I, st, s, i0, lambda t, acc, e: I.call_value(t, a[2], [acc, e]))
        return st, mkiter(lst(v))
    return fold(I, st, s, a[1], lambda t, acc, e: I.call_value(t, a[2], [acc, e]))


@m('*::try_fold')
def _tryfold(I, st, fn, a):
    ty = mir.strip_g(fn['g'][-1]).split('::')[-1] if fn['g'] else ''
    if 'ParallelIterator' in fn['path'] or ty not in ('Result', 'Option'):
        return None
    g, bad, wrap = ('Ok', lambda r: Err(vf(r, 'Err', '0')), Ok) if ty == 'Result' else ('Some', lambda r: NONE, Some)
    A, R = acc_cell(I), acc_cell(I)

    def step(t, e):
        t, r = I.call_value(t, a[2], [t.mem[A], e])
        if t is None:
            return None, []
        ok = restrict(is_var(r, '', g), t.pc)
        ex = []
        p0 = And(t.pc, Not(ok))
        if p0 is not FALSE:
            m0 = dict(t.mem)
            m0[R] = bad(r)
            ex.append(('early', St(p0, m0)))
        p1 = And(t.pc, ok)
        if p1 is FALSE:
            return None, ex
        t1 = St(p1, dict(t.mem))
        t1.mem[A] = vf(r, g, '0')
        return t1, ex
    outs = consume(I, st, to_src(I, st, a[0]), step, {A: a[1]})
    for tag, x in outs:
        if tag != 'early':
            x.mem[R] = wrap(x.mem[A])
        x.mem.pop(A, None)
    r = merge([x for _, x in outs])
    if r is None:
        return None, DEAD
    return r, r.mem.pop(R)


@m('*::reduce')
def _reduce(I, st, fn, a):
    s = to_src(I, st, a[0])
    if 'ParallelIterator' in fn['path']:
        st, i0 = I.call_value(st, a[1], [])
        return fold(I, st, s, i0, lambda t, acc, e: I.call_value(t, a[2], [acc, e]))
    n = src_len(I, st, s)

    def g(t):
        t, e0 = elem(I, t, s, ZERO)
        rest = slice_(s, ONE, n) if pure(s) else raw('i_off', s, ONE)
        t, v = fold(I, t, rest, e0, lambda q, acc, e: I.call_value(q, a[1], [acc, e]))
        return t, (Some(v) if t is not None else DEAD)
    return I.branch(st, eq0(n), lambda t: (t, NONE), g)


@m('*::sum', 'Sum::sum')
def _sum(I, st, fn, a):
    return fold(I, st, to_src(I, st, a[0]), ZERO, lambda t, acc, e: (t, add(acc, I.deref(t, e))))


@m('*::product', 'Product::product')
def _product(I, st, fn, a):
    return fold(I, st, to_src(I, st, a[0]), ONE, lambda t, acc, e: (t, mul(acc, I.deref(t, e))))


@m('*::count')
def _count(I, st, fn, a):
    return fold(I, st, to_src(I, st, a[0]), ZERO, lambda t, acc, e: (t, add(acc, ONE)))


@m('*::for_each')
def _foreach(I, st, fn, a):
    A = None

    def step(t, e):
        t, _ = I.call_value(t, a[1], [e])
        return t, []
    outs = consume(I, st, to_src(I, st, a[0]), step, {})
    return merge([x for _, x in outs]), UNIT


@m('*::try_for_each')
def _tryforeach(I, st, fn, a):
    R = acc_cell(I)

    def step(t, e):
        t, r = I.call_value(t, a[1], [e])
        if t is None:
            return None, []
        ok = restrict(is_var(r, '', 'Ok'), t.pc)
        ex = []
        p0 = And(t.pc, Not(ok))
        if p0 is not FALSE:
            m0 = dict(t.mem)
            m0[R] = Err(vf(r, 'Err', '0'))
            ex.append(('early', St(p0, m0)))
        p1 = And(t.pc, ok)
        if p1 is FALSE:
            return None, ex
        return St(p1, t.mem), ex
    outs = consume(I, st, to_src(I, st, a[0]), step, {})
    for tag, x in outs:
        if tag != 'early':
            x.mem[R] = Ok(UNIT)
    r = merge([x for _, x in outs])
    if r is None:
        return None, DEAD
    return r, r.mem.pop(R)


def quant(I, st, s, f, neg_):
    R = acc_cell(I)

    def step(t, e):
        t, c = I.call_value(t, f, [e])
        if t is None:
            return None, []
        c = form(c)
        if neg_:
            c = Not(c)
        c = restrict(c, t.pc)
        ex = []
        p0 = And(t.pc, c)
        if p0 is not FALSE:
            ex.append(('early', St(p0, dict(t.mem))))
        p1 = And(t.pc, Not(c))
        if p1 is FALSE:
            return None, ex
        return St(p1, t.mem), ex
    outs = consume(I, st, s, step, {})
    for tag, x in outs:
        x.mem[R] = TRUE if tag == 'early' else FALSE
        if neg_:
            x.mem[R] = Not(x.mem[R])
    r = merge([x for _, x in outs])
    if r is None:
        return None, DEAD
    return r, r.mem.pop(R)


@m('*::any')
def _any(I, st, fn, a):
    return quant(I, st, to_src(I, st, a[0]), a[1], False)


@m('*::all')
def _all(I, st, fn, a):
    return quant(I, st, to_src(I, st, a[0]), a[1], True)


@m('*::max')
def _itmax(I, st, fn, a):
    st, v = collect_list(I, st, to_src(I, st, a[0]))
    if st is None:
        return None, DEAD
    return st, ite(eq0(length(v)), NONE, Some(maxof(v)))


@m('*::min')
def _itmin(I, st, fn, a):
    st, v = collect_list(I, st, to_src(I, st, a[0]))
    if st is None:
        return None, DEAD
    return st, ite(eq0(length(v)), NONE, Some(maxof(v, mn, 'minof')))


@m('*::last')
def _itlast(I, st, fn, a):
    st, v = collect_list(I, st, to_src(I, st, a[0]))
    n = length(v)
    return st, ite(eq0(n), NONE, Some(idx(v, sub(n, ONE))))


@m('*::nth')
def _itnth(I, st, fn, a):
    s = to_src(I, st, a[0])
    if not pure(s):
        return None
    return st, ite(lt(a[1], length(s)), Some(idx(s, a[1])), NONE)


@m('*::filter', '*::filter_map', '*::flat_map', '*::flatten')
def _filter(I, st, fn, a):
    nm = fn['name']

    def step(t, acc, e):
        if nm == 'filter':
            t, c = I.call_value(t, a[1], [e])
            return t, (ite(form(c), cat(acc, lst(e)), acc) if t is not None else DEAD)
        if nm == 'filter_map':
            t, o = I.call_value(t, a[1], [e])
            if t is None:
                return None, DEAD
            return t, ite(is_var(o, '', 'Some'), cat(acc, lst(vf(o, 'Some', '0'))), acc)
        if nm == 'flat_map':
            t, o = I.call_value(t, a[1], [e])
            if t is None:
                return None, DEAD
            e = o
        if e.op == 'adt' and e.a[0].endswith('Option') or (nm == 'flatten' and 'Option' in str(fn['g'])):
            return t, ite(is_var(e, '', 'Some'), cat(acc, lst(vf(e, 'Some', '0'))), acc)
        t, l = collect_list(I, t, to_src(I, t, e))
        return t, cat(acc, l)
    st, v = fold(I, st, to_src(I, st, a[0]), NIL, step)
    if st is None:
        return None, DEAD
    return st, mkiter(v)


@m('*::unzip')
def _unzip(I, st, fn, a):
    st, v = collect_list(I, st, to_src(I, st, a[0]))
    if st is None:
        return None, DEAD
    i = fresh('i')
    n = length(v)
    return st, tup(mkseq(n, i, fld(idx(v, i), '0')), mkseq(n, i, fld(idx(v, i), '1')))


@m('*::find', '*::position', '*::find_map')
def _find(I, st, fn, a):
    R = acc_cell(I)
    nm = fn['name']
    P = acc_cell(I)

    def step(t, e):
        t, c = I.call_value(t, a[1], [e])
        if t is None:
            return None, []
        if nm == 'find_map':
            res = c
            c = is_var(c, '', 'Some')
        else:
            res = Some(e) if nm == 'find' else Some(t.mem[P])
        c = restrict(form(c), t.pc)
        ex = []
        p0 = And(t.pc, c)
        if p0 is not FALSE:
            m0 = dict(t.mem)
            m0[R] = res
            ex.append(('early', St(p0, m0)))
        p1 = And(t.pc, Not(c))
        if p1 is FALSE:
            return None, ex
        t1 = St(p1, t.mem)
        t1.mem[P] = add(t1.mem[P], ONE)
        return t1, ex
    outs = consume(I, st, to_src(I, st, a[0]), step, {P: ZERO})
    for tag, x in outs:
        if tag != 'early':
            x.mem[R] = NONE
        x.mem.pop(P, None)
    r = merge([x for _, x in outs])
    if r is None:
        return None, DEAD
    return r, r.mem.pop(R)


@m('array::map')
def _arrmap(I, st, fn, a):
    return collect_list(I, st, raw('i_map', V(I, st, a[0]), a[1]))


@m('array::from_fn')
def _arrfrom(I, st, fn, a):
    return None


# ------------------------------------------------------------------ closures
@m('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _fncall(I, st, fn, a):
    t = a[1]
    if t.op == 'adt':
        args = list(t.a[3:])
    else:
        return None
    return I.call_value(st, a[0], args)


# ------------------------------------------------------------------ multilinear extensions
DMLE = 'ark_poly::DenseMultilinearExtension'


def mle(nv, ev):
    return adt(DMLE, '', ('evaluations', 'num_vars'), ev, nv)


@m('DenseMultilinearExtension::from_evaluations_vec', 'DenseMultilinearExtension::from_evaluations_slice')
def _mlefrom(I, st, fn, a):
    return st, mle(V(I, st, a[0]), V(I, st, a[1]))


@m('MultilinearExtension::num_vars', 'Polynomial::num_vars')
def _mlenv(I, st, fn, a):
    return st, fld(V(I, st, a[0]), 'num_vars')


@m('MultilinearExtension::to_evaluations')
def _mleev(I, st, fn, a):
    return st, fld(V(I, st, a[0]), 'evaluations')


@m('DenseMultilinearExtension::iter')
def _mleiter(I, st, fn, a):
    return st, mkiter(fld(V(I, st, a[0]), 'evaluations'))


@m('MultilinearExtension::evaluate', 'Polynomial::evaluate')
def _mleeval(I, st, fn, a):
    v = raw('eval', V(I, st, a[0]), V(I, st, a[1]))
    if fn['path'].endswith('MultilinearExtension::evaluate') and 'ark_poly' in fn['path']:
        # ark-poly 0.4: returns Option when the arity does not match
        return st, Some(v) if OPTION_EVAL else v
    return st, v


OPTION_EVAL = True


@m('fields::batch_inversion', 'ark_ff::batch_inversion')
def _batchinv(I, st, fn, a):
    # in place; zero entries stay zero
    v = I.mem_get(st, a[0])
    i = fresh('i')
    I.mem_set(st, a[0], mkseq(length(v), i, inv(idx(v, i))))
    return st, UNIT
