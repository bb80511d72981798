"""Integer terms as hash-consed polynomials over atoms, and conditions over them.

A concrete integer is a python int; anything else is an E (never constant).
Atoms: Var (bounded unknown), Div (floor quotient of two terms, divisor > 0), Ite.
"""
from math import gcd

ATOMS = []          # id -> Atom
_intern = {}
_divs = {}
_ites = {}
INF = None


class Atom:
    __slots__ = ('kind', 'name', 'a', 'b', 'c', 'lo', 'hi', 'id', 'deps')

    def __init__(s, kind, name, a, b, c, lo, hi):
        s.kind, s.name, s.a, s.b, s.c, s.lo, s.hi = kind, name, a, b, c, lo, hi
        s.id = len(ATOMS)
        ATOMS.append(s)


class E:
    __slots__ = ('t', 'lo', 'hi', 'h', 'n', '_norm')

    def __hash__(s):
        return s.h

    def __repr__(s):
        return show(s)

    def __add__(s, o): return add(s, o)
    __radd__ = __add__
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    __rmul__ = __mul__
    def __neg__(s): return mul(s, -1)
    def __floordiv__(s, o): return fdiv(s, o)
    def __rfloordiv__(s, o): return fdiv(o, s)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __bool__(s): raise TypeError('symbolic int used as bool')


def mono_bounds(m):
    lo, hi = 1, 1
    i = 0
    n = len(m)
    while i < n:
        a = ATOMS[m[i]]
        j = i
        while j < n and m[j] == m[i]:
            j += 1
        for _ in range(j - i):
            lo, hi = imul(lo, hi, a.lo, a.hi)
        if (j - i) % 2 == 0 and (lo is None or lo < 0):
            pass
        i = j
    return lo, hi


def imul(al, ah, bl, bh):
    # intervals, None = unbounded
    if al is not None and ah is not None and bl is not None and bh is not None:
        if al >= 0 and bl >= 0:
            return al * bl, ah * bh
        c = (al * bl, al * bh, ah * bl, ah * bh)
        return min(c), max(c)
    if (al, ah) == (0, 0) or (bl, bh) == (0, 0):
        return 0, 0
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        return al * bl, (None if ah is None or bh is None else ah * bh)
    return None, None


def _mk(d):
    """d: dict mono -> coef (nonzero). returns int or E."""
    if not d:
        return 0
    if len(d) == 1:
        c = d.get(())
        if c is not None:
            return c
    t = tuple(sorted(d.items()))
    e = _intern.get(t)
    if e is not None:
        return e
    e = E()
    e.t = t
    e.h = hash(t)
    e._norm = None
    lo = hi = 0
    for m, c in t:
        if m == ():
            l = h = c
        else:
            l, h = mono_bounds(m)
            if c >= 0:
                l, h = (None if l is None else l * c), (None if h is None else h * c)
            else:
                l, h = (None if h is None else h * c), (None if l is None else l * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    e.lo, e.hi = lo, hi
    e.n = len(_intern)
    _intern[t] = e
    return e


def _atom_expr(a):
    return _mk({(a.id,): 1})


def var(name, lo=None, hi=None):
    if lo is not None and lo == hi:
        return lo
    return _atom_expr(Atom('var', name, None, None, None, lo, hi))


def add(a, b):
    if type(a) is int:
        if type(b) is int:
            return a + b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        d = dict(a.t)
        n = d.get((), 0) + b
        if n:
            d[()] = n
        else:
            d.pop((), None)
        return _mk(d)
    d = dict(a.t)
    for m, c in b.t:
        n = d.get(m, 0) + c
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return _mk(d)


def neg(a): return mul(a, -1)


def sub(a, b):
    if type(b) is int:
        return add(a, -b)
    return add(a, mul(b, -1))


def mul(a, b):
    if type(a) is int:
        if type(b) is int:
            return a * b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        return _mk({m: c * b for m, c in a.t})
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            n = d.get(m, 0) + c1 * c2
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    return _mk(d)


def lo_of(e): return e if type(e) is int else e.lo
def hi_of(e): return e if type(e) is int else e.hi


def mono_div(m, d):
    """m / d as monomials or None"""
    r = list(m)
    for x in d:
        if x in r:
            r.remove(x)
        else:
            return None
    return tuple(r)


def fdiv(a, b):
    """floor(a / b); b must be positive (the caller has established it)."""
    if type(b) is int:
        assert b > 0
        if type(a) is int:
            return a // b
        if b == 1:
            return a
        q, r = {}, {}
        for m, c in a.t:
            k, rem = divmod(c, b)
            if m != () and rem:
                k, rem = (0, c) if abs(c) < b else (k, rem)
            if k:
                q[m] = k
            if rem:
                r[m] = rem
        q = _mk(q)
        r = _mk(r)
        if type(r) is int:
            return add(q, r // b)
        # gcd simplification
        g = b
        for m, c in r.t:
            if m != ():
                g = gcd(g, c)
        if g > 1:
            r2 = _mk({m: (c // g) for m, c in r.t if c // g})
            return add(q, fdiv(r2, b // g) if b // g > 1 else r2)
        if r.lo is not None and r.hi is not None and r.lo // b == r.hi // b:
            return add(q, r.lo // b)
        return add(q, _div_atom(r, b))
    if type(a) is int and a == 0:
        return 0
    # symbolic divisor: take out the multiples of it
    if type(a) is not int and len(b.t) == 1:
        bm, bc = b.t[0]
        q, r = {}, {}
        for m, c in a.t:
            mm = mono_div(m, bm)
            if mm is not None and c % bc == 0:
                q[mm] = q.get(mm, 0) + c // bc
            else:
                r[m] = c
        if q:
            q = _mk({k: v for k, v in q.items() if v})
            r = _mk(r)
            return add(q, fdiv(r, b))
    elif type(a) is not int:
        if a is b:
            return 1
        # a = b*k for integer k, or a = b*E: try one exact polynomial division step
        q = _exact_poly_div(a, b)
        if q is not None:
            return q
    return _div_atom(a, b)


def _exact_poly_div(a, b):
    lead_m, lead_c = b.t[-1]
    cur = a
    q = 0
    for _ in range(12):
        if type(cur) is int:
            return q if cur == 0 else None
        done = False
        for m, c in reversed(cur.t):
            mm = mono_div(m, lead_m)
            if mm is not None and c % lead_c == 0:
                f = _mk({mm: c // lead_c})
                q = add(q, f)
                cur = sub(cur, mul(f, b))
                done = True
                break
        if not done:
            return None
    return None


def _div_atom(a, b):
    k = (a, b)
    r = _divs.get(k)
    if r is not None:
        return r
    al, ah = lo_of(a), hi_of(a)
    bl, bh = lo_of(b), hi_of(b)
    if bl is None or bl < 1:
        bl = 1
    lo = hi = None
    if al is not None:
        lo = al // bl if al < 0 else (al // bh if bh is not None else 0)
    if ah is not None:
        hi = ah // bl if ah >= 0 else (ah // bh if bh is not None else -1)
    if lo is not None and lo == hi:
        _divs[k] = lo
        return lo
    at = Atom('div', None, a, b, None, lo, hi)
    r = _atom_expr(at)
    _divs[k] = r
    return r


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if type(a) is bool or isinstance(a, C):
        return or_(and_(c, a), and_(not_(c), b))
    if c.k in ('ne', 'and', 'nbv') or c.k == 'ge':
        c, a, b = not_(c), b, a
    k = (c, a, b)
    r = _ites.get(k)
    if r is not None:
        return r
    la, ha, lb, hb = lo_of(a), hi_of(a), lo_of(b), hi_of(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    r = _atom_expr(Atom('ite', None, c, a, b, lo, hi))
    _ites[k] = r
    return r


def cdiv(a, b):
    return fdiv(add(a, sub(b, 1)), b)


def norm(e):
    """e = g*p + c with p constant free, primitive, positive leading coefficient: (p, g, c)"""
    r = e._norm
    if r is None:
        c = 0
        g = 0
        for m, k in e.t:
            if m == ():
                c = k
            else:
                g = gcd(g, k)
        lead = next(k for m, k in e.t if m != ())
        if lead < 0:
            g = -g
        if c == 0 and g == 1:
            r = (e, 1, 0)
        else:
            p = _mk({m: k // g for m, k in e.t if m != ()})
            r = (p, g, c)
        e._norm = r
    return r


# ---------------------------------------------------------------- conditions
_cint = {}


class C:
    __slots__ = ('k', 'p', 'c', 'h', 'n', '_not')

    def __hash__(s): return s.h
    def __repr__(s): return show_c(s)
    def __bool__(s): raise TypeError('symbolic condition used as bool')


def _c(k, p, c=None):
    key = (k, p, c)
    r = _cint.get(key)
    if r is None:
        r = C()
        r.k, r.p, r.c = k, p, c
        r.h = hash(key)
        r.n = len(_cint)
        r._not = None
        _cint[key] = r
    return r


def le(a, b):
    d = sub(a, b)
    if type(d) is int:
        return d <= 0
    if d.hi is not None and d.hi <= 0:
        return True
    if d.lo is not None and d.lo > 0:
        return False
    p, g, c = norm(d)          # g*p + c <= 0
    if g > 0:
        return _cmp('le', p, (-c) // g)
    return _cmp('ge', p, -((-c) // (-g)))   # -|g| p <= -c  -> p >= c/|g|  (ceil)


def _cmp(k, p, c):
    if k == 'le':
        if p.hi is not None and p.hi <= c: return True
        if p.lo is not None and p.lo > c: return False
    else:
        if p.lo is not None and p.lo >= c: return True
        if p.hi is not None and p.hi < c: return False
    return _c(k, p, c)


def lt(a, b): return le(add(a, 1), b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if isinstance(a, (bool, C)) or isinstance(b, (bool, C)):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    d = sub(a, b)
    if type(d) is int:
        return d == 0
    if d.hi is not None and d.hi < 0 or d.lo is not None and d.lo > 0:
        return False
    p, g, c = norm(d)
    if c % g:
        return False
    v = -c // g
    if p.lo is not None and (v < p.lo) or p.hi is not None and v > p.hi:
        return False
    return _c('eq', p, v)


def ne(a, b): return not_(eq(a, b))


def bvar(name): return _c('bv', name)


def not_(c):
    if c is True: return False
    if c is False: return True
    r = c._not
    if r is None:
        k = c.k
        if k == 'le': r = _c('ge', c.p, c.c + 1)
        elif k == 'ge': r = _c('le', c.p, c.c - 1)
        elif k == 'eq': r = _c('ne', c.p, c.c)
        elif k == 'ne': r = _c('eq', c.p, c.c)
        elif k == 'and': r = _c('or', tuple(sorted((not_(x) for x in c.p), key=lambda z: z.n)))
        elif k == 'or': r = _c('and', tuple(sorted((not_(x) for x in c.p), key=lambda z: z.n)))
        elif k == 'bv': r = _c('nbv', c.p)
        elif k == 'nbv': r = _c('bv', c.p)
        c._not = r
        r._not = c
    return r


def and_(*cs):
    s = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        if c.k == 'and':
            s.extend(c.p)
        else:
            s.append(c)
    s = sorted(set(s), key=lambda z: z.n)
    if not s: return True
    if len(s) == 1: return s[0]
    ss = set(s)
    for c in s:
        if not_(c) in ss: return False
    return _c('and', tuple(s))


def or_(*cs):
    s = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        if c.k == 'or':
            s.extend(c.p)
        else:
            s.append(c)
    s = sorted(set(s), key=lambda z: z.n)
    if not s: return False
    if len(s) == 1: return s[0]
    ss = set(s)
    for c in s:
        if not_(c) in ss: return True
    return _c('or', tuple(s))


def implies(a, b): return or_(not_(a), b)


def min_(a, b): return ite(le(a, b), a, b)
def max_(a, b): return ite(le(a, b), b, a)


# ---------------------------------------------------------------- atoms of a term
_deps = {}


def atoms_of_expr(e, out):
    if type(e) is int:
        return
    for m, _ in e.t:
        for a in m:
            if a not in out:
                out.add(a)
                at = ATOMS[a]
                if at.kind == 'div':
                    atoms_of_expr(at.a, out)
                    atoms_of_expr(at.b, out)
                elif at.kind == 'ite':
                    atoms_of_cond(at.a, out)
                    atoms_of_expr(at.b, out)
                    atoms_of_expr(at.c, out)


def atoms_of_cond(c, out):
    if c is True or c is False:
        return
    if c.k in ('and', 'or'):
        for x in c.p:
            atoms_of_cond(x, out)
    elif c.k in ('bv', 'nbv'):
        return
    else:
        atoms_of_expr(c.p, out)


def bvars_of_cond(c, out):
    if c is True or c is False:
        return
    if c.k in ('and', 'or'):
        for x in c.p:
            bvars_of_cond(x, out)
    elif c.k in ('bv', 'nbv'):
        out.add(c.p)


# ---------------------------------------------------------------- evaluation under a model
class Model:
    """values of the variables (by atom id) and boolean variables (by name)."""

    def __init__(s, vals, bools=None):
        s.vals = dict(vals)
        s.bools = dict(bools or {})
        s.cache = {}

    def atom(s, i):
        v = s.cache.get(i)
        if v is None:
            a = ATOMS[i]
            if a.kind == 'var':
                v = s.vals.get(i)
                if v is None:
                    v = 0
                    if a.lo is not None and a.lo > 0: v = a.lo
                    elif a.hi is not None and a.hi < 0: v = a.hi
            elif a.kind == 'div':
                d = s.ev(a.b)
                v = s.ev(a.a) // d if d > 0 else 0
            else:
                v = s.ev(a.b) if s.cond(a.a) else s.ev(a.c)
            s.cache[i] = v
        return v

    def ev(s, e):
        if type(e) is int:
            return e
        r = 0
        for m, c in e.t:
            p = c
            for a in m:
                p *= s.atom(a)
            r += p
        return r

    def cond(s, c):
        if c is True or c is False:
            return c
        k = c.k
        if k == 'le': return s.ev(c.p) <= c.c
        if k == 'ge': return s.ev(c.p) >= c.c
        if k == 'eq': return s.ev(c.p) == c.c
        if k == 'ne': return s.ev(c.p) != c.c
        if k == 'and': return all(s.cond(x) for x in c.p)
        if k == 'or': return any(s.cond(x) for x in c.p)
        if k == 'bv': return bool(s.bools.get(c.p, False))
        return not s.bools.get(c.p, False)


def subst(e, m, cache=None):
    """substitute variables (atom id -> int/E) in a term"""
    if type(e) is int:
        return e
    if cache is None:
        cache = {}
    r = cache.get(e)
    if r is not None:
        return r
    r = 0
    for mono, c in e.t:
        p = c
        for a in mono:
            p = mul(p, subst_atom(a, m, cache))
        r = add(r, p)
    cache[e] = r
    return r


def subst_atom(a, m, cache):
    k = ('a', a)
    r = cache.get(k)
    if r is not None:
        return r
    at = ATOMS[a]
    if at.kind == 'var':
        r = m.get(a)
        if r is None:
            r = _atom_expr(at)
    elif at.kind == 'div':
        d = subst(at.b, m, cache)
        if type(d) is int and d <= 0:
            r = 0
        else:
            r = fdiv(subst(at.a, m, cache), d)
    else:
        r = ite(subst_c(at.a, m, cache), subst(at.b, m, cache), subst(at.c, m, cache))
    cache[k] = r
    return r


def subst_c(c, m, cache=None):
    if c is True or c is False:
        return c
    if cache is None:
        cache = {}
    r = cache.get(c)
    if r is not None:
        return r
    k = c.k
    if k in ('and', 'or'):
        f = and_ if k == 'and' else or_
        r = f(*[subst_c(x, m, cache) for x in c.p])
    elif k in ('bv', 'nbv'):
        v = m.get(c.p)
        r = c if v is None else (v if k == 'bv' else not v)
    else:
        e = subst(c.p, m, cache)
        r = {'le': le, 'ge': ge, 'eq': eq, 'ne': ne}[k](e, c.c)
    cache[c] = r
    return r


# ---------------------------------------------------------------- printing
def show_atom(i):
    a = ATOMS[i]
    if a.kind == 'var': return a.name
    if a.kind == 'div': return '((%s)/(%s))' % (show(a.a), show(a.b))
    return '(%s ? %s : %s)' % (show_c(a.a), show(a.b), show(a.c))


def show(e):
    if type(e) is int:
        return str(e)
    r = []
    for m, c in e.t:
        s = '*'.join(show_atom(a) for a in m)
        if not s: r.append(str(c))
        elif c == 1: r.append(s)
        elif c == -1: r.append('-' + s)
        else: r.append('%d*%s' % (c, s))
    return ' + '.join(r)


def show_c(c):
    if c is True or c is False: return str(c)
    if c.k in ('and', 'or'):
        return '(' + (' & ' if c.k == 'and' else ' | ').join(show_c(x) for x in c.p) + ')'
    if c.k == 'bv': return c.p
    if c.k == 'nbv': return '!' + c.p
    return '%s %s %d' % (show(c.p), {'le': '<=', 'ge': '>=', 'eq': '==', 'ne': '!='}[c.k], c.c)
