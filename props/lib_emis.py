"""Reserve emissions: pre-states and reference formulas."""
from props.lib_pool import *

WEEK = 604800


def put_emis(w, k, users=(), tag=None, active=False):
    """emissions of a token (index*2 + 0 for debt, 1 for deposits): unknown rate, end, index; listed users have an unknown record"""
    tag = tag or 'e%d' % k
    exp, eps = w.v(tag + '.exp', 0, 4_100_000_000), w.v(tag + '.eps', 0, 2**40)
    idx, last = w.v(tag + '.index', 0, 2**60), w.v(tag + '.last', 1_500_000_000, 4_000_000_000)
    w.st.assume(X.le(last, w.now))
    if active:
        w.st.assume(X.and_(X.lt(last, w.now), X.lt(w.now, exp)))
        w.st.assume(X.ge(eps, 1))
    w.put('persistent', key('EmisConfig', k), 'ReserveEmissionsConfig', w.mk('ReserveEmissionsConfig', expiration=exp, eps=eps))
    w.put('persistent', key('EmisData', k), 'ReserveEmissionsData', w.mk('ReserveEmissionsData', index=idx, last_time=last))
    for u in users: put_user(w, k, u, X.sub(idx, 1) if active else idx)


def ukey(u, k): return key('UserEmis', kmap(user=u, reserve_id=k))


def put_user(w, k, u, idx=None):
    n = 'u%d.%s' % (k, u.name)
    ui, ac = w.v(n + '.index', 0, 2**60), w.v(n + '.accrued', 0, 2**80)
    if idx is not None: w.st.assume(X.le(ui, idx))
    w.put('persistent', ukey(u, k), 'UserEmissionData', w.mk('UserEmissionData', index=ui, accrued=ac))


def edata(w, store, k):
    e = store['persistent'].get(key('EmisData', k))
    return None if e is None else tuple(w.get('ReserveEmissionsData', e[0], f) for f in ('index', 'last_time'))


def econf(w, store, k):
    e = store['persistent'].get(key('EmisConfig', k))
    return None if e is None else tuple(w.get('ReserveEmissionsConfig', e[0], f) for f in ('expiration', 'eps'))


def udata(w, store, u, k):
    e = store['persistent'].get(ukey(u, k))
    return None if e is None else tuple(w.get('UserEmissionData', e[0], f) for f in ('index', 'accrued'))


def index_now(w, st, store, k, supply, scalar):
    """(index, last accrual) of the token's emissions at the current time, or None when it has none"""
    c = econf(w, store, k)
    if c is None: return None
    idx, last = edata(w, store, k)
    exp, eps = c
    idle = X.or_(X.ge(last, exp), X.eq(w.now, last), X.eq(eps, 0), X.eq(supply, 0))
    s = settle(st, idle)
    if s is True: return idx, last
    if s is None: return 'open'
    to = cases(st, X.gt(w.now, exp), lambda: exp, lambda: w.now)
    return X.add(idx, X.fdiv(X.mul(X.mul(X.sub(to, last), eps), scalar), supply)), to


def emis_conds(w, store, ks):
    """the cases that accrual of emissions distinguishes"""
    out = []
    for k in ks:
        c = econf(w, store, k) if k // 2 < w.nres else None
        if c is None: continue
        last = edata(w, store, k)[1]
        out += [X.ge(last, c[0]), X.eq(w.now, last), X.eq(c[1], 0), X.eq(supply(w, store, k), 0)]
    return out


def due(w, st, store, u, k, idx, balance, scalar):
    """what the account is owed at the given index"""
    d = udata(w, store, u, k)
    if d is None:
        return cases(st, X.eq(balance, 0), lambda: 0, lambda: X.fdiv(X.mul(balance, idx), scalar))
    return X.add(d[1], cases(st, X.eq(balance, 0), lambda: 0, lambda: X.fdiv(X.mul(balance, X.sub(idx, d[0])), scalar)))


def balance(w, store, u, k):
    L, C, S = w.pos_store(store, u)
    i = k // 2
    return g(L, i) if k % 2 == 0 else X.add(g(C, i), g(S, i))


def supply(w, store, k): return w.res_store(store, k // 2, 'b_supply' if k % 2 else 'd_supply')
