"""Scenarios and reference formulas for the backstop's properties."""
from engine.backw import *
from engine.vals import *
from engine import expr as X
from props.lib_pool import settle, cases, all_flows, flow, reach, split, splits


def bw(h, npool=1, **kw): return BackstopWorld(h.prog('backstop'), npool, **kw)


def to_shares(d, pb, tokens):
    return cases(d, X.eq(pb['shares'], 0), lambda: tokens, lambda: X.fdiv(X.mul(tokens, pb['shares']), pb['tokens']))


def to_tokens(d, pb, shares):
    return cases(d, X.eq(pb['shares'], 0), lambda: shares, lambda: X.fdiv(X.mul(shares, pb['tokens']), pb['shares']))


def qsum(q): return tsum([a for a, _ in q])

ZEROS = dict(shares=0, tokens=0, q4w=0)
OPS = ('deposit', 'queue_withdrawal', 'dequeue_withdrawal', 'withdraw', 'draw', 'donate')


def op(h, m, nq=0, emis=False, npool=2, user=True, first=False, who=USER, **kw):
    """one operation on the first pool; the same depositor and another one hold shares in two pools"""
    w = bw(h, npool, **kw)
    A = POOLS[0]
    if first:
        w.pool[A] = dict(free=0, queued=0, tokens=w.v('donated', 0, MAXAMT))
        w.store_pool(A)
    else:
        if user: w.user(A, USER, nq)
        w.user(A, OTHER, 1)
    for p in POOLS[1:npool]: w.user(p, USER, 1)
    if emis:
        for p in POOLS[:npool]: w.put_emis(p, [USER, OTHER], active=(emis == 'active'))
    w.amt = w.v('amt', -2**100, 2**100)
    a = {'draw': (A, w.amt, THIRD), 'donate': (who, A, w.amt)}.get(m, (who, A, w.amt))
    return w, A, h.run(w, m, *a)


def claim(h, pools, to, emis='active', npool=None, users=None, upools=(), record=True):
    """USER claims from the listed pools for the benefit of `to`"""
    npool = npool or max(POOLS.index(p) for p in pools) + 1
    w = bw(h, npool)
    for p in POOLS[:npool]:
        w.user(p, USER, 1)
        if to is not USER: w.user(p, to, 0)
        w.put_emis(p, [USER, to] if record and to is not USER else [USER] if record else [], active=(emis == 'active'))
    return w, h.run(w, 'claim', USER, SVec(pools), to)


def totals(w, store, a):
    """(sum of the accounts' free shares, sum of their queued shares) as far as spelled out"""
    f = q = 0
    for u in w.userkeys(store, a):
        s, l = w.ub(store, a, u)
        f = X.add(f, s)
        q = X.add(q, qsum(l))
    return f, q


def conserved(h, w, d, a):
    pre, post = d.g['pre'], d.store
    p0, p1 = w.pb(pre, a), w.pb(post, a)
    (f0, q0), (f1, q1) = totals(w, pre, a), totals(w, post, a)
    P = lambda g, t: h.prove(w, d, g, t)
    P(X.eq(X.sub(p1['shares'], p0['shares']), X.sub(X.add(f1, q1), X.add(f0, q0))), 'the total shares change by what the accounts change')
    P(X.eq(X.sub(p1['q4w'], p0['q4w']), X.sub(q1, q0)), 'the queued shares change by what the accounts\' queues change')
    P(X.and_(X.ge(p1['tokens'], 0), X.ge(p1['q4w'], 0), X.ge(p1['shares'], p1['q4w'])), 'the totals stay in range')
    for u in w.userkeys(post, a):
        s, l = w.ub(post, a, u)
        P(X.and_(X.ge(s, 0), *[X.ge(x, 0) for x, _ in l]), 'no negative balance')


def backkeys(a, *us):
    """the entries that an operation of these accounts on the pool may touch"""
    r = {key('PoolBalance', a), key('BEmisData', a)}
    for u in us: r |= {ubkey(a, u), uekey(a, u)}
    return r


# ---------------------------------------------------------------- emissions
def index_now(w, d, store, a):
    """(index, last accrual) of a pool's backstop emissions at the current time, from the ledger `store`; None without emissions, 'open' if a case is undecided"""
    c = w.ec(store, a)
    if c is None: return None
    idx, last = w.ed(store, a)
    exp, eps = c
    p = w.pb(store, a)
    free = X.sub(p['shares'], p['q4w'])
    now = d.ledger['timestamp']
    s = settle(d, X.or_(X.ge(last, exp), X.eq(now, last), X.eq(eps, 0), X.eq(free, 0)))
    if s is True: return idx, last
    if s is None: return 'open'
    to = cases(d, X.gt(now, exp), lambda: exp, lambda: now)
    return X.add(idx, X.fdiv(X.mul(X.mul(X.sub(to, last), eps), S7), free)), now


def due(w, d, store, a, u, idx):
    """what the account is owed by the pool's backstop emissions at the given index"""
    e = w.ue(store, a, u)
    s, _ = w.ub(store, a, u)
    if e is None: return cases(d, X.eq(s, 0), lambda: 0, lambda: X.fdiv(X.mul(s, idx), S7))
    return X.add(e[1], cases(d, X.eq(s, 0), lambda: 0, lambda: X.fdiv(X.mul(s, X.sub(idx, e[0])), S7)))


def non_queued(d, p):
    return X.sub(p['tokens'], to_tokens(d, p, p['q4w']))


def emis_conds(w, store, a):
    c = w.ec(store, a)
    if c is None: return []
    idx, last = w.ed(store, a)
    p = w.pb(store, a)
    return [X.ge(last, c[0]), X.eq(w.now, last), X.eq(c[1], 0), X.eq(p['shares'], p['q4w']), X.gt(w.now, c[0])]
