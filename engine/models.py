"""Semantics of the host / SDK functions that the contracts call (the trusted base of the encoding)."""
import re
from . import expr as X, solve
from .vals import *
from .machine import Revert, Dead, PushCall, INT, wrap, b2i, shift

REG = []      # (compiled regex on 'rd', function)


def model(rx):
    def d(f):
        REG.append((re.compile(rx), f))
        return f
    return d


class Ctx:
    __slots__ = ('st', 'fr', 'prog', 'cal', 'aty', 'rty', 'loc', 'unwrapped')

    def __init__(s, st, fr, prog, cal, aty, rty, loc, unwrapped=False):
        s.st, s.fr, s.prog, s.cal, s.aty, s.rty, s.loc, s.unwrapped = st, fr, prog, cal, aty, rty, loc, unwrapped

    def ty(s, i): return s.prog.T[i]

    def argt(s, i):
        """type id of argument i with references removed"""
        t = s.aty[i]
        while s.prog.T[t]['k'] in ('ref', 'ptr'):
            t = s.prog.T[t]['e']
        return t

    def targ(s, i):
        a = [x for x in s.cal['ra'] or s.cal['a'] if isinstance(x, int)]
        return a[i] if i < len(a) else None


_cache = {}


def lookup(prog, cal, aty, rty):
    rd = cal['rd']
    p = cal['p']
    name = cal.get('i') or ''
    if cal['kind'] == 'intrinsic' or name:
        f = INTR.get(name or rd.split('::')[-1])
        if f: return f
    k = (rd, p, cal['sym'] == '' or cal['model'])
    f = _cache.get(k, 0)
    if f != 0:
        return f
    f = None
    for rx, g in REG:
        if rx.search(rd) or rx.search(p):
            if getattr(g, 'bodyless', False) and cal['sym'] and not cal['model']: continue
            f = g
            break
    if f is None and (cal['model'] or not cal['sym']):
        m = re.search(r'([A-Za-z0-9_:]*Client)(?:::)?(?:<.*?>)?::([a-z_0-9]+)$', rd)
        if m:
            f = client_method(m.group(1), m.group(2))
    _cache[k] = f
    return f


# ---------------------------------------------------------------- deep helpers
def clean(st, v):
    """replace references inside a value by what they point to"""
    v = st.deref(v)
    if isinstance(v, A):
        if any(isinstance(x, (R, A)) for x in v.f):
            return A(v.v, tuple(clean(st, x) for x in v.f))
    return v


def val_eq(st, a, b):
    a, b = st.deref(a), st.deref(b)
    if isinstance(a, Typed): a = a.v
    if isinstance(b, Typed): b = b.v
    if isinstance(a, Addr) and isinstance(b, Addr):
        return a is b
    if isinstance(a, A) and isinstance(b, A):
        if a.v != b.v or len(a.f) != len(b.f): return False
        return X.and_(*[val_eq(st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Sym) and isinstance(b, Sym): return a.s == b.s
    if isinstance(a, Str) and isinstance(b, Str): return a.s == b.s
    if isinstance(a, Byt) and isinstance(b, Byt):
        if a.segs == b.segs: return True
        if all(isinstance(x, bytes) for x in a.segs + b.segs): return b''.join(a.segs) == b''.join(b.segs)
        raise Unsupported('comparison of symbolic bytes')
    if isinstance(a, SVec) and isinstance(b, SVec):
        if len(a.e) != len(b.e): return False
        return X.and_(*[val_eq(st, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, SMap) and isinstance(b, SMap):
        if len(a.e) != len(b.e): return False
        return X.and_(*[X.and_(val_eq(st, x[0], y[0]), val_eq(st, x[1], y[1])) for x, y in zip(a.e, b.e)])
    if isinstance(a, (int, X.E)) and isinstance(b, (int, X.E)) or isinstance(a, (bool, X.C)):
        return X.eq(a, b)
    if type(a) is not type(b): return False
    raise Unsupported('equality of %r and %r' % (a, b))


def key_lt(st, a, b):
    a, b = st.deref(a), st.deref(b)
    if isinstance(a, Addr): return a.ord < b.ord
    if isinstance(a, Sym): return a.s < b.s
    if isinstance(a, Str): return a.s < b.s
    if isinstance(a, (int, X.E)): return X.lt(a, b)
    if isinstance(a, A):
        for x, y in zip(a.f, b.f):
            e = val_eq(st, x, y)
            if st.branch(e): continue
            return key_lt(st, x, y)
        return False
    raise Unsupported('ordering of %r' % (a,))


def map_find(st, m, k):
    for i, (a, b) in enumerate(m.e):
        if st.branch(val_eq(st, a, k)):
            return i
    return None


def opt(v): return NONE if v is None else some(v)


def conc(st, v, what='index', lim=70):
    if type(v) is int: return v
    lo, hi = st.bounds(v)
    if lo is None or hi is None or hi - lo > lim:
        raise Unsupported('symbolic %s' % what)
    for k in range(lo, hi):
        if st.branch(X.eq(v, k)): return k
    return hi


def idx(st, v, n):
    """index below n as a concrete number, or None when out of range"""
    if type(v) is int: return v if 0 <= v < n else None
    for k in range(n):
        if st.branch(X.eq(v, k)): return k
    return None


# ---------------------------------------------------------------- intrinsics
def _i_false(c, *a): return False
def _i_unit(c, *a): return UNIT


def _i_ctlz(c, v):
    bits = c.ty(c.aty[0])['b']
    if type(v) is int: return bits - v.bit_length()
    raise Unsupported('ctlz of a symbolic value')


def _i_cttz(c, v):
    bits = c.ty(c.aty[0])['b']
    if type(v) is int: return bits if v == 0 else (v & -v).bit_length() - 1
    raise Unsupported('cttz of a symbolic value')


def _i_ctpop(c, v):
    if type(v) is int: return bin(v).count('1')
    raise Unsupported('ctpop of a symbolic value')


def _tyr(c, t=None):
    ty = c.ty(c.rty if t is None else t)
    return ty['s'], ty['b']


def _i_min(c, *a):
    if not a: return INT[_tyr(c)][0]
    return a[0] if c.st.branch(X.le(*a)) else a[1]


def _i_max(c, *a):
    if not a: return INT[_tyr(c)][1]
    return a[0] if c.st.branch(X.ge(*a)) else a[1]


def _ovf(f):
    def g(c, a, b):
        ty = _tyr(c, c.aty[0])
        lo, hi = INT[ty]
        v = f(a, b)
        if type(v) is int:
            return A(0, (wrap(c.st, v, ty), not lo <= v <= hi))
        ok = X.and_(X.le(lo, v), X.le(v, hi))
        if c.st.branch(ok): return A(0, (v, False))
        return A(0, (wrap(c.st, v, ty), True))
    return g


def _sat(f):
    def g(c, a, b):
        lo, hi = INT[_tyr(c, c.aty[0])]
        v = f(a, b)
        if c.st.branch(X.lt(v, lo)): return lo
        if c.st.branch(X.gt(v, hi)): return hi
        return v
    return g


def _wrp(f):
    return lambda c, a, b: wrap(c.st, f(a, b), _tyr(c, c.aty[0]))


def _i_cmp(c, a, b):
    st = c.st
    a, b = st.deref(a), st.deref(b)
    if st.branch(X.lt(a, b)): return A(0, ())
    if st.branch(X.eq(a, b)): return A(1, ())
    return A(2, ())


def _i_abort(c, *a): raise Revert('panic:abort@' + c.loc)


def _i_assume(c, v):
    c.st.assume(v)
    return UNIT


def _i_swap(c, a, b):
    st = c.st
    x, y = st.load(a), st.load(b)
    st.write(a, y)
    st.write(b, x)
    return UNIT


def _i_ptrdiff(c, a, b):
    if isinstance(a, R) and isinstance(b, R) and a.b == b.b and a.p[:-1] == b.p[:-1] and a.p and type(a.p[-1]) is int and type(b.p[-1]) is int:
        return a.p[-1] - b.p[-1]
    raise Unsupported('difference of pointers')


def _i_write(c, a, v):
    c.st.write(a, v)
    return UNIT


def _i_copy(c, a, b, n):
    st = c.st
    for k in range(conc(st, n)): st.write(shift(b, k), st.load(shift(a, k)))
    return UNIT


INTR = {
    'typed_swap_nonoverlapping': _i_swap, 'ptr_offset_from_unsigned': _i_ptrdiff, 'ptr_offset_from': _i_ptrdiff,
    'arith_offset': lambda c, p, n: shift(p, conc(c.st, n)), 'offset': lambda c, p, n: shift(p, conc(c.st, n)),
    'read_via_copy': lambda c, p: c.st.load(p), 'write_via_move': _i_write, 'copy_nonoverlapping': _i_copy,
    'needs_drop': _i_false, 'drop_in_place': _i_unit,
    'cold_path': _i_unit, 'is_val_statically_known': _i_false, 'ctlz': _i_ctlz, 'ctlz_nonzero': _i_ctlz, 'cttz': _i_cttz,
    'cttz_nonzero': _i_cttz, 'ctpop': _i_ctpop, 'integer_min': _i_min, 'integer_max': _i_max,
    'add_with_overflow': _ovf(X.add), 'sub_with_overflow': _ovf(X.sub), 'mul_with_overflow': _ovf(X.mul),
    'saturating_add': _sat(X.add), 'saturating_sub': _sat(X.sub),
    'wrapping_add': _wrp(X.add), 'wrapping_sub': _wrp(X.sub), 'wrapping_mul': _wrp(X.mul),
    'three_way_compare': _i_cmp, 'abort': _i_abort, 'assume': _i_assume, 'likely': lambda c, v: v, 'unlikely': lambda c, v: v,
    'black_box': lambda c, v: v, 'assert_inhabited': _i_unit, 'ub_checks': _i_false, 'overflow_checks': lambda c: True,
    'const_eval_select': None,
}
INTR = {k: v for k, v in INTR.items() if v}


# ---------------------------------------------------------------- panics
@model(r'^core::panicking::|^core::option::(unwrap_failed|expect_failed)|^core::result::unwrap_failed|overflow_panic|panic_for_nonpositive|^core::slice::index::slice_|^std::rt::|panic_const')
def m_panic(c, *a): raise Revert('panic:%s@%s' % (c.cal['rd'].split('::')[-1], c.loc))


@model(r'Env::panic_with_error$|soroban_sdk::panic_with_error')
def m_pwe(c, env, err):
    v = c.st.deref(err)
    code = v
    if isinstance(v, A):
        t = c.ty(c.argt(1))
        code = int(t['v'][v.v]['d']) if t.get('v') else v.v
    raise Revert('error:%s' % (code,))


@model(r'UnwrapOptimized>?::unwrap_optimized$')
def m_unwrap_opt(c, v):
    t = c.ty(c.argt(0))
    if t['n'].endswith('Option'):
        if v.v == 0: raise Revert('panic:unwrap@' + c.loc)
        return v.f[0]
    if v.v == 1: raise Revert('panic:unwrap@' + c.loc)
    return v.f[0]


# ---------------------------------------------------------------- fixed point arithmetic (dependency crate)
def entailed(st, c):
    k = st.known(c)
    if k is not None: return k
    return not solve.feasible(st.pc, X.not_(c))


def order_facts(st, x, y, z, r):
    """linear facts that follow from r = x*y/z (rounded either way) and what holds on this path; x, y in both roles"""
    if type(r) is int: return
    if not entailed(st, X.ge(x, 0)) or not entailed(st, X.ge(y, 0)): return
    st.assume(X.ge(r, 0))
    for u, v in ((x, y), (y, x)):
        if type(u) is int and u == 0 or type(v) is int and type(z) is int and v == z: continue
        if entailed(st, X.le(v, z)): st.assume(X.le(r, u))
        elif entailed(st, X.ge(v, z)): st.assume(X.ge(r, u))


def _fp(rounding, swap):
    def g(c, x, y, z):
        st = c.st
        if swap: y, z = z, y
        if not st.branch(X.gt(z, 0)):
            return PushCall(c.cal['sym'], [x, z, y] if swap else [x, y, z])
        r = X.mul(x, y)
        lo, hi = INT[(True, 128)]
        ok = X.and_(X.le(lo, r), X.le(r, hi))
        if c.unwrapped and not c.prog.track_panics:
            st.require(ok)
        elif not st.branch(ok):
            return NONE
        q = X.fdiv(r, z) if rounding == 'floor' else X.cdiv(r, z)
        order_facts(st, x, y, z, q)
        return some(q)
    return g


def _fps(rounding, swap):
    def g(c, x, env, y, z):
        st = c.st
        x, y, z = st.deref(x), st.deref(y), st.deref(z)
        if swap: y, z = z, y
        if not st.branch(X.gt(z, 0)):
            if st.branch(X.eq(z, 0)): raise Revert('panic:div0@' + c.loc)
            raise Unsupported('negative denominator')
        r = X.mul(x, y)
        q = X.fdiv(r, z) if rounding == 'floor' else X.cdiv(r, z)
        lo, hi = INT[(True, 128)]
        st.require(X.and_(X.le(lo, q), X.le(q, hi)))
        order_facts(st, x, y, z, q)
        return q
    return g


for _r in ('floor', 'ceil'):
    for _o in ('mul', 'div'):
        REG.append((re.compile(r'impl soroban_fixed_point_math::FixedPoint for i128>::fixed_%s_%s$' % (_o, _r)), _fp(_r, _o == 'div')))
        REG.append((re.compile(r'impl soroban_fixed_point_math::SorobanFixedPoint for i128>::fixed_%s_%s$' % (_o, _r)), _fps(_r, _o == 'div')))


# ---------------------------------------------------------------- generic clone / eq on host objects
@model(r'^<soroban_sdk::[A-Za-z:]+(<.*>)? as core::clone::Clone>::clone$|^soroban_sdk::Env::clone$|<sep_4\w+::\S+ as core::clone::Clone>::clone$')
def m_clone(c, v): return c.st.deref(v)


@model(r'^<soroban_sdk::[A-Za-z:]+(<.*>)? as core::cmp::PartialEq(<.*>)?>::eq$')
def m_eq(c, a, b): return val_eq(c.st, a, b)


@model(r'^<soroban_sdk::[A-Za-z:]+(<.*>)? as core::cmp::PartialEq(<.*>)?>::ne$')
def m_ne(c, a, b): return X.not_(val_eq(c.st, a, b))


@model(r'^<soroban_sdk::[A-Za-z:]+(<.*>)? as core::cmp::Ord>::cmp$')
def m_cmp(c, a, b):
    a, b = c.st.deref(a), c.st.deref(b)
    if c.st.branch(val_eq(c.st, a, b)): return A(1, ())
    return A(0, ()) if c.st.branch(key_lt(c.st, a, b)) else A(2, ())


# ---------------------------------------------------------------- Vec
def W(c, ref, v): c.st.write(ref, v)


@model(r'^soroban_sdk::(Vec|Map)::<.*>::new$')
def m_vnew(c, env):
    return SMap() if 'Map' in c.cal['rd'] else SVec()


@model(r'^soroban_sdk::Vec::<.*>::from_(array|slice)$')
def m_vfrom(c, env, arr): return SVec(clean(c.st, x) for x in c.st.deref(arr).f)


@model(r'^soroban_sdk::Map::<.*>::from_array$')
def m_mfrom(c, env, arr):
    m = SMap()
    for x in c.st.deref(arr).f:
        m = map_set(c.st, m, x.f[0], x.f[1])
    return m


@model(r'^soroban_sdk::(Vec|Map|Bytes|BytesN|String)(::<.*>)?::len$')
def m_len(c, v):
    v = c.st.deref(v)
    if isinstance(v, Str): return len(v.s)
    return len(v.e)


@model(r'^soroban_sdk::(Vec|Map)::<.*>::is_empty$')
def m_empty(c, v): return len(c.st.deref(v).e) == 0


@model(r'^soroban_sdk::Vec::<.*>::(push_back|append|push_front|extend_from_array|extend_from_slice|extend)$')
def m_push(c, v, x):
    s = c.st.deref(v)
    op = c.cal['rd'].split('::')[-1]
    x = clean(c.st, x)
    if op == 'push_back': W(c, v, SVec(s.e + (x,)))
    elif op == 'push_front': W(c, v, SVec((x,) + s.e))
    elif op == 'append': W(c, v, SVec(s.e + x.e))
    else: W(c, v, SVec(s.e + tuple(x.f)))
    return UNIT


def maybe_try(c, v):
    """the try_ variants wrap what the others return in Ok"""
    return A(0, (v,)) if '::try_' in c.cal['rd'] else v


@model(r'^soroban_sdk::Vec::<.*>::(get|try_get|get_unchecked)$')
def m_vget(c, v, i):
    s = c.st.deref(v)
    k = idx(c.st, i, len(s.e))
    if c.cal['rd'].endswith('get_unchecked'):
        if k is None: raise Revert('panic:index@' + c.loc)
        return s.e[k]
    return maybe_try(c, opt(None if k is None else s.e[k]))


@model(r'^soroban_sdk::Vec::<.*>::(first|last|first_unchecked|last_unchecked)$')
def m_vfl(c, v):
    s = c.st.deref(v)
    op = c.cal['rd'].split('::')[-1]
    if not s.e:
        if 'unchecked' in op: raise Revert('panic:empty@' + c.loc)
        return NONE
    x = s.e[0] if op.startswith('first') else s.e[-1]
    return x if 'unchecked' in op else some(x)


@model(r'^soroban_sdk::Vec::<.*>::(pop_front|pop_back|pop_front_unchecked|pop_back_unchecked)$')
def m_vpop(c, v):
    s = c.st.deref(v)
    op = c.cal['rd'].split('::')[-1]
    if not s.e:
        if 'unchecked' in op: raise Revert('panic:empty@' + c.loc)
        return NONE
    if 'front' in op: x, r = s.e[0], s.e[1:]
    else: x, r = s.e[-1], s.e[:-1]
    W(c, v, SVec(r))
    return x if 'unchecked' in op else some(x)


@model(r'^soroban_sdk::Vec::<.*>::(set|insert)$')
def m_vset(c, v, i, x):
    s = c.st.deref(v)
    op = c.cal['rd'].split('::')[-1]
    k = idx(c.st, i, len(s.e) + (op == 'insert'))
    if k is None: raise Revert('panic:index@' + c.loc)
    x = clean(c.st, x)
    W(c, v, SVec(s.e[:k] + (x,) + (s.e[k:] if op == 'insert' else s.e[k + 1:])))
    return UNIT


@model(r'^soroban_sdk::Vec::<.*>::(remove|remove_unchecked)$')
def m_vrem(c, v, i):
    s = c.st.deref(v)
    k = idx(c.st, i, len(s.e))
    un = c.cal['rd'].endswith('unchecked')
    if k is None:
        if un: raise Revert('panic:index@' + c.loc)
        return NONE
    W(c, v, SVec(s.e[:k] + s.e[k + 1:]))
    return UNIT if un else some(UNIT)


@model(r'^soroban_sdk::Vec::<.*>::slice$')
def m_vslice(c, v, r):
    s = c.st.deref(v)
    r = c.st.deref(r)
    tn = c.ty(c.argt(1))
    n = tn['n'].split('::')[-1] if tn['k'] == 'adt' else ''
    if n in ('Range', 'RangeFrom', 'RangeTo', 'RangeInclusive', 'RangeToInclusive', 'RangeFull'):
        a = conc(c.st, r.f[0]) if n in ('Range', 'RangeFrom', 'RangeInclusive') else 0
        b = len(s.e) if n in ('RangeFrom', 'RangeFull') else conc(c.st, r.f[0 if n.startswith('RangeTo') else 1]) + n.endswith('Inclusive')
        if not 0 <= a <= b <= len(s.e): raise Revert('panic:slice@' + c.loc)
        return SVec(s.e[a:b])
    raise Unsupported('slice range')


@model(r'^soroban_sdk::Vec::<.*>::contains$')
def m_vcontains(c, v, x):
    s = c.st.deref(v)
    x = c.st.deref(x)
    return X.or_(*[val_eq(c.st, y, x) for y in s.e]) if s.e else False


@model(r'^soroban_sdk::Vec::<.*>::binary_search$')
def m_vbsearch(c, v, x):
    st = c.st
    s = st.deref(v)
    x = st.deref(x)
    lo, hi = 0, len(s.e)       # the host's search; the elements are meant to be in order
    while lo < hi:
        m = (lo + hi) // 2
        if st.branch(val_eq(st, s.e[m], x)): return A(0, (m,))
        if st.branch(key_lt(st, s.e[m], x)): lo = m + 1
        else: hi = m
    return A(1, (lo,))


@model(r'^soroban_sdk::Vec::<.*>::(first_index_of|last_index_of)$')
def m_vindex(c, v, x):
    s = c.st.deref(v)
    x = c.st.deref(x)
    r = range(len(s.e))
    for i in (r if 'first' in c.cal['rd'] else reversed(r)):
        if c.st.branch(val_eq(c.st, s.e[i], x)): return some(i)
    return NONE


@model(r'^soroban_sdk::(Vec|Map)::<.*>::(iter|into_iter)$|^<&?soroban_sdk::(Vec|Map)<.*> as core::iter::IntoIterator>::into_iter$')
def m_iter(c, v):
    s = c.st.deref(v)
    if isinstance(s, SMap): return Op('iter', tuple(A(0, kv) for kv in s.e))
    return Op('iter', s.e)


@model(r'^<soroban_sdk::iter::UnwrappedIter<.*> as core::iter::(DoubleEndedIterator|Iterator)>::(next|next_back)$')
def m_next(c, it):
    o = c.st.load(it)
    while isinstance(o, R):
        it = o
        o = c.st.load(it)
    items = o.d[0]
    if not items: return NONE
    if c.cal['rd'].endswith('next_back'):
        W(c, it, Op('iter', items[:-1]))
        return some(items[-1])
    W(c, it, Op('iter', items[1:]))
    return some(items[0])


@model(r'^<soroban_sdk::iter::UnwrappedIter<.*> as core::iter::(Iterator|ExactSizeIterator)>::(size_hint|len|count)$')
def m_sizehint(c, it):
    n = len(c.st.deref(it).d[0])
    return A(0, (n, some(n))) if c.cal['rd'].endswith('size_hint') else n


# ---------------------------------------------------------------- Map
def map_set(st, m, k, v):
    k, v = clean(st, k), clean(st, v)
    i = map_find(st, m, k)
    if i is not None:
        return SMap(m.e[:i] + ((m.e[i][0], v),) + m.e[i + 1:])
    j = 0
    while j < len(m.e) and st.branch(key_lt(st, m.e[j][0], k)):
        j += 1
    return SMap(m.e[:j] + ((k, v),) + m.e[j:])


@model(r'^soroban_sdk::Map::<.*>::set$')
def m_mset(c, m, k, v):
    W(c, m, map_set(c.st, c.st.deref(m), k, v))
    return UNIT


@model(r'^soroban_sdk::Map::<.*>::(get|get_unchecked|try_get)$')
def m_mget(c, m, k):
    s = c.st.deref(m)
    i = map_find(c.st, s, c.st.deref(k))
    if c.cal['rd'].endswith('get_unchecked'):
        if i is None: raise Revert('panic:mapkey@' + c.loc)
        return s.e[i][1]
    return maybe_try(c, opt(None if i is None else s.e[i][1]))


@model(r'^soroban_sdk::Map::<.*>::contains_key$')
def m_mcont(c, m, k): return map_find(c.st, c.st.deref(m), c.st.deref(k)) is not None


@model(r'^soroban_sdk::Map::<.*>::(remove|remove_unchecked)$')
def m_mrem(c, m, k):
    s = c.st.deref(m)
    i = map_find(c.st, s, c.st.deref(k))
    un = c.cal['rd'].endswith('unchecked')
    if i is None:
        if un: raise Revert('panic:mapkey@' + c.loc)
        return NONE
    W(c, m, SMap(s.e[:i] + s.e[i + 1:]))
    return UNIT if un else some(UNIT)


@model(r'^soroban_sdk::Map::<.*>::(keys|values)$')
def m_mkeys(c, m):
    j = 0 if c.cal['rd'].endswith('keys') else 1
    return SVec(kv[j] for kv in c.st.deref(m).e)


# ---------------------------------------------------------------- env
@model(r'^soroban_sdk::Env::(events|ledger|storage|deployer|crypto|prng)$')
def m_env(c, env): return Op(c.cal['rd'].split('::')[-1])


@model(r'^soroban_sdk::Env::logs$')
def m_logs(c, e): return Op('logs')


@model(r'^soroban_sdk::(logs|log)::Logs::add$')
def m_logadd(c, *a): return UNIT


@model(r'^soroban_sdk::Env::current_contract_address$')
def m_cur(c, env): return c.st.cur


@model(r'^soroban_sdk::ledger::Ledger::(timestamp|sequence)$')
def m_ledger(c, l): return c.st.ledger[c.cal['rd'].split('::')[-1]]


@model(r'^soroban_sdk::events::Events::publish$')
def m_publish(c, ev, topics, data):
    c.st.events.append((clean(c.st, topics), c.aty[1], clean(c.st, data), c.aty[2]))
    return UNIT


@model(r'^soroban_sdk::Symbol::(new|short)$')
def m_symnew(c, *a): return Sym(c.st.deref(a[-1]).s)


@model(r'^soroban_sdk::String::(from_str|from_slice)$')
def m_strnew(c, env, s): return Str(c.st.deref(s).s)


@model(r'^soroban_sdk::Address::require_auth$')
def m_auth(c, a):
    c.st.auths.append(c.st.deref(a))
    return UNIT


@model(r'^soroban_sdk::Address::require_auth_for_args$')
def m_auth2(c, a, args):
    c.st.auths.append(c.st.deref(a))
    return UNIT


@model(r'^soroban_sdk::Env::authorize_as_current_contract$')
def m_authcur(c, env, v):
    c.st.log.append(('authorize', None, (clean(c.st, v),), (c.aty[1],), UNIT, None))
    return UNIT


@model(r'^soroban_sdk::Address::to_string$')
def m_addrstr(c, a): return Str(('addr', c.st.deref(a)))


@model(r'^soroban_sdk::String::copy_into_slice$')
def m_strcopy(c, s, sl):
    v = c.st.deref(s)
    arr = c.st.deref(sl)
    ref = sl
    while isinstance(c.st.load(ref), R): ref = c.st.load(ref)
    n = 56 if isinstance(v.s, tuple) and v.s[0] == 'addr' else len(v.s)
    if n != len(arr.f): raise Revert('panic:string length')
    W(c, ref, A(0, tuple(Op('strbyte', v.s, i) for i in range(len(arr.f)))))
    return UNIT


@model(r'^soroban_sdk::Bytes::(extend_from_array|extend_from_slice)$')
def m_bext(c, b, arr):
    v = c.st.deref(b)
    a = c.st.deref(arr)
    W(c, b, Byt(v.segs + bytes_segs(a)))
    return UNIT


@model(r'^soroban_sdk::Bytes::append$')
def m_bapp(c, b, o):
    W(c, b, Byt(c.st.deref(b).segs + c.st.deref(o).segs))
    return UNIT


@model(r'^soroban_sdk::Bytes::(new|from_array|from_slice)$|^soroban_sdk::BytesN::<.*>::from_array$')
def m_bnew(c, *a):
    if len(a) == 1: return Byt(())
    return Byt(bytes_segs(c.st.deref(a[1])))


def bytes_segs(a):
    out = []
    for x in a.f:
        if type(x) is int: out.append(bytes([x]))
        elif isinstance(x, Op) and x.k == 'strbyte': out.append(('strbyte', x.d))
        else: out.append(('byte', x))
    # compress a complete address string
    return tuple(out)


@model(r'^soroban_sdk::crypto::Crypto::(keccak256|sha256)$')
def m_hash(c, cr, b):
    return Byt((('hash', c.cal['rd'].split('::')[-1], c.st.deref(b).segs),), 32)


@model(r'^soroban_sdk::deploy::Deployer::(with_current_contract|with_address)$')
def m_depl(c, d, *a): return Op('deployer', *[c.st.deref(x) for x in a])


@model(r'^soroban_sdk::deploy::DeployerWithAddress::(deploy|deployed_address|deploy_v2)$')
def m_deploy(c, d, *a):
    d = c.st.deref(d)
    return external(c, c.st.cur, '__' + c.cal['rd'].split('::')[-1], list(d.d) + [c.st.deref(x) for x in a],
                    [None] * (len(d.d) + len(a)))


@model(r'^soroban_sdk::(Env::update_current_contract_wasm|deploy::Deployer::update_current_contract_wasm)')
def m_upd(c, *a):
    c.st.log.append(('update_wasm', None, (), (), UNIT, None))
    return UNIT


@model(r'soroban_sdk::(IntoVal|FromVal|TryFromVal|TryIntoVal)(<.*>)?>?::(into_val|from_val)$|core::convert::(Into|From)<.*>>::(into|from)$')
def m_into(c, *a):
    i = 0 if c.cal['rd'].endswith(('into_val', 'into')) else 1 if len(a) > 1 else 0
    v = c.st.deref(a[i])
    rt = c.ty(c.rty)
    if rt['k'] == 'adt' and rt['n'].endswith('::Val'):
        return Typed(clean(c.st, v), c.argt(i))
    if isinstance(v, Typed): v = v.v
    if isinstance(v, (Byt, Str, Sym, Addr, SVec, SMap)): return v
    if isinstance(v, A) and rt['k'] == 'adt' and rt['n'].endswith('::Vec'):
        ty = c.prog.T[c.argt(i)]
        if ty['k'] != 'tuple': raise Unsupported('conversion to ' + c.prog.T.name(c.rty))
        return SVec([x if isinstance(x, Typed) else Typed(clean(c.st, x), t) for x, t in zip(v.f, ty['e'])])
    if isinstance(v, (int, X.E, A)) and rt['k'] in ('int', 'tuple', 'adt'): return v
    if isinstance(v, (bool, X.C)): return v
    raise Unsupported('conversion to ' + c.prog.T.name(c.rty))


m_into.bodyless = True      # conversions that have a body are executed


@model(r'^soroban_sdk::(Address|String|Symbol|Vec|Map|Bytes|BytesN)(::<.*>)?::(to_val|as_val|to_raw)$')
def m_toval(c, v): return Typed(c.st.deref(v), c.argt(0))


# ---------------------------------------------------------------- storage
@model(r'^soroban_sdk::storage::Storage::(instance|persistent|temporary)$')
def m_stor(c, s): return Op('st', c.cal['rd'].split('::')[-1])


def skey(c, k, i=1):
    st = c.st
    kv = enc(c.prog.T, clean(st, k), c.argt(i))
    return kv


def is_conc(k):
    if isinstance(k, tuple): return all(is_conc(x) for x in k)
    return not isinstance(k, (X.E, X.C))


def enc_eq(a, b):
    """condition under which two encoded values are equal"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        r = True
        for x, y in zip(a, b):
            r = X.and_(r, enc_eq(x, y))
            if r is False: return False
        return r
    if isinstance(a, (X.E, X.C)) or isinstance(b, (X.E, X.C)):
        if isinstance(a, (int, X.E, X.C)) and isinstance(b, (int, X.E, X.C)): return X.eq(a, b)
        return False
    return a == b if type(a) is type(b) else False


def resolve_key(c, kind, k):
    if is_conc(k): return k
    for k2 in c.st.store[kind]:
        e = enc_eq(k, k2)
        if e is False: continue
        if c.st.branch(e): return k2
    return k


MIN_TTL = 16        # ledgers that a new temporary entry lives without being extended (the network's minimum; the replay program sets the same)


@model(r'^soroban_sdk::storage::(Instance|Persistent|Temporary)::get$')
def m_sget(c, s, k):
    kind = c.cal['rd'].split('::')[-2].lower()
    key = resolve_key(c, kind, skey(c, k))
    e = c.st.store[kind].get(key)
    if e is None: return NONE
    if kind == 'persistent': c.st.kept.setdefault(key, ())
    v, t = e
    inner = c.ty(c.rty)['a'][0]
    it = c.ty(inner)
    if it['k'] == 'adt' and it['n'].endswith('option::Option') and not (t is not None and c.ty(t)['k'] == 'adt' and c.ty(t)['n'].endswith('option::Option')):
        v = some(v)
    return some(v)


@model(r'^soroban_sdk::storage::(Instance|Persistent|Temporary)::has$')
def m_shas(c, s, k):
    kind = c.cal['rd'].split('::')[-2].lower()
    return resolve_key(c, kind, skey(c, k)) in c.st.store[kind]


@model(r'^soroban_sdk::storage::(Instance|Persistent|Temporary)::set$')
def m_sset(c, s, k, v):
    kind = c.cal['rd'].split('::')[-2].lower()
    key = resolve_key(c, kind, skey(c, k))
    if kind == 'temporary' and key not in c.st.store[kind]: c.st.ttl[key] = X.add(c.st.ledger['sequence'], MIN_TTL - 1)
    c.st.store[kind][key] = (clean(c.st, v), c.argt(2))
    return UNIT


@model(r'^soroban_sdk::storage::(Instance|Persistent|Temporary)::remove$')
def m_srem(c, s, k):
    kind = c.cal['rd'].split('::')[-2].lower()
    key = resolve_key(c, kind, skey(c, k))
    c.st.store[kind].pop(key, None)
    if kind == 'temporary': c.st.ttl.pop(key, None)
    return UNIT


@model(r'^soroban_sdk::storage::(Instance|Persistent|Temporary|Storage)::(extend_ttl|bump|max_ttl)$')
def m_sttl(c, s, *a):
    if c.st.branch(X.gt(a[-2], a[-1])): raise Revert('panic:extend_ttl@' + c.loc)
    if c.cal['rd'].endswith('max_ttl'): return 6312000
    kind = c.cal['rd'].split('::')[-2].lower()
    if kind in ('persistent', 'temporary') and len(a) == 3:
        # the host traps when the entry does not exist
        key = resolve_key(c, kind, skey(c, a[0]))
        if key not in c.st.store[kind]: raise Revert('panic:extend_ttl@' + c.loc)
        if kind == 'persistent': c.st.kept[key] = c.st.kept.get(key, ()) + ((a[-2], a[-1]),)
        if kind == 'temporary' and key in c.st.ttl:
            seq = c.st.ledger['sequence']
            if c.st.branch(X.le(X.sub(c.st.ttl[key], seq), a[-2])): c.st.ttl[key] = X.add(seq, a[-1])
    elif kind == 'instance': c.st.kept['instance'] = c.st.kept.get('instance', ()) + ((a[-2], a[-1]),)
    return UNIT


# ---------------------------------------------------------------- other contracts
def external(c, addr, fname, args, atys):
    st = c.st
    args = tuple(clean(st, a) for a in args)
    if st.ext is None: raise Unsupported('external call %s' % fname)
    r = st.ext(st, addr, fname, args, c.rty, c)
    st.log.append((fname, addr, args, tuple(atys), r, c.rty))
    return r


def client_method(cname, meth):
    def f(c, *a):
        if meth == 'new':
            return Op('client', cname, c.st.deref(a[1]))
        cl = c.st.deref(a[0])
        if not isinstance(cl, Op) or cl.k != 'client':
            raise Unsupported('client method on %r' % (cl,))
        if meth.startswith('try_'): raise Unsupported('try_ call')
        return external(c, cl.d[1], meth, a[1:], [c.argt(i) for i in range(1, len(a))])
    return f


@model(r'^soroban_sdk::Env::invoke_contract$')
def m_invoke(c, env, addr, fn, args):
    v = c.st.deref(args)
    return external(c, c.st.deref(addr), c.st.deref(fn).s, [x.v if isinstance(x, Typed) else x for x in v.e],
                    [x.t if isinstance(x, Typed) else None for x in v.e])


def havoc(st, T, t, name, **kw):
    ty = T[t]
    k = ty['k']
    if k == 'int':
        lo, hi = INT[(ty['s'], ty['b'])]
        lo, hi = kw.get('lo', lo), kw.get('hi', hi)
        return st.fresh(name, max(lo, INT[(ty['s'], ty['b'])][0]), min(hi, INT[(ty['s'], ty['b'])][1]))
    if k == 'bool':
        st.nfresh += 1
        return X.bvar('%s!%d' % (name, st.nfresh))
    if k == 'tuple': return A(0, tuple(havoc(st, T, e, name, **kw) for e in ty['e']))
    if k == 'adt' and ty['n'].endswith('::Val'): return Typed(UNIT, None)
    if k == 'adt' and ty['n'] == 'core::option::Option':
        st.nfresh += 1
        if st.branch(X.bvar('%s_some!%d' % (name, st.nfresh))): return some(havoc(st, T, ty['a'][0], name, **kw))
        return NONE
    if k == 'adt' and ty['kind'] == 'struct' and ty['v']:
        return A(0, tuple(havoc(st, T, ft, name + '.' + fn, **kw) for fn, ft in ty['v'][0]['f']))
    if k == 'never': raise Revert('never')
    raise Unsupported('havoc of %s' % T.name(t))
