"""Backstop: reported pool holdings and queued share, and the value of the backstop token."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'every pool balance up to 2^80, every token value up to 2^60, every LP supply and every reserve of the LP pool up to 2^80'
ASSUMPTIONS = ['the LP pool and the tokens report their balances']


def data(h, stored=True):
    w = bw(h, 1 if stored else 0)
    A = POOLS[0]
    for d in h.run(w, 'pool_data', A):
        P = lambda g, t: h.prove(w, d, g, t)
        p = w.pb(d.g['pre'], A)
        G = lambda f: w.get('PoolBackstopData', d.result, f)
        P(X.eq(G('tokens'), p['tokens']), 'tokens')
        q = cases(d, X.eq(p['shares'], 0), lambda: 0, lambda: X.cdiv(X.mul(p['q4w'], S7), p['shares']))
        P(X.eq(G('q4w_pct'), q), 'the queued share, rounded up')
        P(X.and_(X.ge(G('q4w_pct'), 0), X.le(G('q4w_pct'), S7)), 'the queued share is at most everything')
        P(X.eq(G('blnd'), X.fdiv(X.mul(p['tokens'], w.lpval[0]), S7)), 'BLND held through backstop tokens')
        P(X.eq(G('usdc'), X.fdiv(X.mul(p['tokens'], w.lpval[1]), S7)), 'USDC held through backstop tokens')
        unchanged(h, w, d, set(), 'a query')
        P(not d.log[d.g['pre_log']:], 'a query calls nothing')
        h.sample(w, d)


def value(h):
    w = bw(h, 1)
    A = POOLS[0]
    for d in h.run(w, 'update_tkn_val'):
        P = lambda g, t: h.prove(w, d, g, t)
        b = [e for e in d.log if e[0] == 'balance']
        s = [e for e in d.log if e[0] == 'get_total_supply']
        ok = len(s) == 1 and s[0][1] is LP and sorted(e[1].name for e in b) == ['blnd', 'usdc'] and all(e[2][0] is LP for e in b)
        P(ok, 'the LP pool\'s supply and its balances of both tokens are read')
        if not ok: continue
        by = {e[1].name: e[4] for e in b}
        want = [X.fdiv(X.mul(by[n], S7), s[0][4]) for n in ('blnd', 'usdc')]
        v = d.store['persistent'][skey('LPTknVal')][0]
        for i, n in enumerate(('BLND', 'USDC')):
            P(X.eq(v.f[i], want[i]), n + ' per backstop token, rounded down')
            P(X.eq(d.result.f[i], want[i]), n + ' per backstop token in the result')
        unchanged(h, w, d, {skey('LPTknVal')}, 'the token value')
        h.sample(w, d)


def bal(h, nq):
    """a depositor's balance is reported as it is stored"""
    w = bw(h, 1)
    A = POOLS[0]
    s, q = w.user(A, USER, nq)
    for d in h.run(w, 'user_balance', A, USER):
        P = lambda g, t: h.prove(w, d, g, t)
        P(X.eq(w.get('UserBalance', d.result, 'shares'), s), 'shares')
        r = w.get('UserBalance', d.result, 'q4w').e
        P(len(r) == nq and X.and_(*[X.and_(X.eq(w.get('Q4W', x, 'amount'), a), X.eq(w.get('Q4W', x, 'exp'), e)) for x, (a, e) in zip(r, q)]), 'the queue')
        unchanged(h, w, d, set(), 'a query')
    for d in h.run(w, 'user_balance', A, OTHER):
        h.prove(w, d, X.and_(X.eq(w.get('UserBalance', d.result, 'shares'), 0), len(w.get('UserBalance', d.result, 'q4w').e) == 0), 'an unknown account has nothing')
    for d in h.run(w, 'backstop_token'): h.prove(w, d, d.result is LP, 'the backstop token')


def others(h, m):
    w, A, done = op(h, m, nq=1)
    for d in done: unchanged(h, w, d, lambda kind, k: kname(k) != 'LPTknVal', m + ': the token value')


def jobs(tier):
    return [('data', data, {}), ('data/unknown', data, dict(stored=False)), ('value', value, {})] + [('balance/%d' % n, bal, dict(nq=n)) for n in (0, 1, 3)] + [('other/' + m, others, dict(m=m)) for m in OPS]
