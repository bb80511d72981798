"""Backstop: deposits and withdrawals convert at the pool's tokens per share, rounded against the depositor."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'one operation, or a deposit followed by its withdrawal, on a pool with arbitrary tokens, shares and queued shares up to 2^80; up to two queued withdrawals'
ASSUMPTIONS = ['before the operation the totals are the sums over the depositors (P24)', 'the backstop token moves what it is asked to move']


def price_ok(h, w, d, a, what):
    p0, p1 = w.pb(d.g['pre'], a), w.pb(d.store, a)
    ds = X.sub(p1['shares'], p0['shares'])
    dt = X.sub(p1['tokens'], p0['tokens'])
    # tokens per share do not fall: t1 / s1 >= t0 / s0
    h.prove(w, d, X.or_(X.eq(p0['shares'], 0), X.ge(X.mul(dt, p0['shares']), X.mul(ds, p0['tokens']))), what + ': the value of a share does not fall')


def one(h, m, **kw):
    w, A, done = op(h, m, **kw)
    a = w.amt
    for d in done:
        p0, p1 = w.pb(d.g['pre'], A), w.pb(d.store, A)
        s0, q0 = w.ub(d.g['pre'], A, USER)
        s1, q1 = w.ub(d.store, A, USER)
        P = lambda g, t: h.prove(w, d, g, t)
        P(X.ge(a, 0), 'a negative amount is refused')
        fl = all_flows(d)
        if m == 'deposit':
            mint = to_shares(d, p0, a)
            P(X.eq(X.sub(p1['shares'], p0['shares']), mint), 'shares minted for a deposit')
            P(X.eq(X.sub(s1, s0), mint), 'shares credited for a deposit')
            P(X.eq(d.result, mint), 'the deposit reports the minted shares')
            P(X.gt(mint, 0), 'a deposit that mints nothing is refused')
            P(X.eq(X.sub(p1['tokens'], p0['tokens']), a), 'the deposited tokens are the pool\'s')
            want = {(LP, USER, ME): a}
            price_ok(h, w, d, A, m)
        elif m == 'withdraw':
            out = to_tokens(d, p0, a)
            P(X.eq(X.sub(p0['tokens'], p1['tokens']), out), 'tokens that leave the pool for a withdrawal')
            P(X.eq(d.result, out), 'the withdrawal reports the tokens')
            P(X.gt(out, 0), 'a withdrawal of nothing is refused')
            P(X.eq(X.sub(p0['shares'], p1['shares']), a), 'the stated shares are burnt')
            want = {(LP, ME, USER): out}
            price_ok(h, w, d, A, m)
        elif m == 'donate':
            P(X.and_(X.eq(X.sub(p1['tokens'], p0['tokens']), a), X.eq(p1['shares'], p0['shares']), X.eq(p1['q4w'], p0['q4w'])), 'a donation adds tokens only')
            want = {(LP, USER, ME): a}
        elif m == 'draw':
            P(X.and_(X.eq(X.sub(p0['tokens'], p1['tokens']), a), X.eq(p1['shares'], p0['shares']), X.eq(p1['q4w'], p0['q4w'])), 'a draw takes tokens only')
            P(X.le(a, p0['tokens']), 'no more is drawn than the pool has')
            want = {(LP, ME, THIRD): a}
        else:
            P(X.and_(X.eq(p1['tokens'], p0['tokens']), X.eq(p1['shares'], p0['shares'])), 'queueing moves no tokens or shares of the pool')
            want = {}
        for k in set(fl) | set(want):
            P(X.eq(fl.get(k, 0), want.get(k, 0)), m + ': tokens transferred')
    for d in done[:2]: h.sample(w, d)


def cl(h, pools, to):
    w, done = claim(h, pools, to)
    for d in done:
        for p in set(pools): price_ok(h, w, d, p, 'claim')
    for d in done[:1]: h.sample(w, d)


def round_trip(h, rest=False):
    """deposit, queue and withdraw the minted shares after the lock: never more than was deposited"""
    w = bw(h)
    A = POOLS[0]
    w.user(A, USER, 0)
    w.user(A, OTHER, 0)
    w.st.assume(X.gt(w.pb(w.st.store, A)['shares'], 0))
    a = w.v('amt', 0, 2**90)
    for d in h.run(w, 'deposit', USER, A, a):
        m = X.sub(w.ub(d.store, A, USER)[0], w.ub(w.st.store, A, USER)[0])
        for e in h.run(w, 'queue_withdrawal', USER, A, m, st=d):
            t = w.v('later', 0, 2**32)
            e.assume(X.ge(t, X.add(w.now, 21 * DAY)))
            e.ledger = dict(e.ledger, timestamp=t)
            for f in h.run(w, 'withdraw', USER, A, m, st=e):
                p = w.pb(d.g['pre'], A)
                T, S, out = p['tokens'], p['shares'], f.result
                lem = [X.le(X.mul(m, T), X.mul(a, S)), X.le(X.mul(out, X.add(S, m)), X.mul(m, X.add(T, a)))]
                ok = [h.prove(w, f, l, 'a deposit mints at most its worth, a withdrawal pays at most its worth') for l in lem]
                if ok == ['proved', 'proved']: h.prove(w, f, X.le(out, a), 'a deposit and its withdrawal give no profit', lemmas=lem)
                h.sample(w, f)


def jobs(tier):
    J = []
    for m in OPS:
        J.append((m, one, dict(m=m, nq=1)))
        J.append((m + '/2', one, dict(m=m, nq=2)))
    J += [('deposit/new', one, dict(m='deposit', user=False)), ('deposit/first', one, dict(m='deposit', first=True, user=False)),
          ('donate/first', one, dict(m='donate', first=True, user=False)), ('deposit/emissions', one, dict(m='deposit', nq=0, emis='active'))]
    A, B = POOLS[:2]
    for n, ps, to in (('own', [A], USER), ('other', [A], OTHER), ('two', [A, B], USER)): J.append(('claim/' + n, cl, dict(pools=ps, to=to)))
    J.append(('round-trip', round_trip, {}))
    return J
