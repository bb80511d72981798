"""Backstop: the total shares and the queued shares of a pool equal the sums over its depositors."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'one operation (or two in a row) on a pool with two depositors spelled out and the others summed up; up to three queued withdrawals of the depositor (thorough: four); balances up to 2^80'
ASSUMPTIONS = ['before the operation the totals are the sums over the depositors, and every queue is in the order of expiry']


def one(h, m, **kw):
    w, A, done = op(h, m, **kw)
    for d in done:
        conserved(h, w, d, A)
        p0, p1 = w.pb(d.g['pre'], A), w.pb(d.store, A)
        s0, q0 = w.ub(d.g['pre'], A, USER)
        s1, q1 = w.ub(d.store, A, USER)
        P = lambda g, t: h.prove(w, d, g, t)
        P(X.ge(w.amt, 0), 'a negative amount is refused')
        if m == 'queue_withdrawal':
            P(X.and_(X.eq(s1, X.sub(s0, w.amt)), X.eq(qsum(q1), X.add(qsum(q0), w.amt)), X.eq(p1['shares'], p0['shares'])), 'queueing moves the stated shares into the queue')
            P(X.le(w.amt, s0), 'no more than the free shares is queued')
        if m == 'dequeue_withdrawal':
            P(X.and_(X.eq(s1, X.add(s0, w.amt)), X.eq(qsum(q1), X.sub(qsum(q0), w.amt)), X.eq(p1['shares'], p0['shares'])), 'dequeueing moves the stated shares out of the queue')
            P(X.le(w.amt, qsum(q0)), 'no more than the queued shares is dequeued')
        if m == 'withdraw':
            P(X.and_(X.eq(s1, s0), X.eq(qsum(q1), X.sub(qsum(q0), w.amt)), X.le(w.amt, qsum(q0))), 'a withdrawal takes the stated shares from the queue')
        if m == 'deposit':
            P(X.and_(X.eq(qsum(q1), qsum(q0)), X.gt(s1, s0)), 'a deposit adds free shares only')
        unchanged(h, w, d, backkeys(A, USER) if m not in ('draw', 'donate') else {key('PoolBalance', A)}, m)
    for d in done[:2]: h.sample(w, d)


def cl(h, pools, to, **kw):
    w, done = claim(h, pools, to, **kw)
    for d in done:
        for p in set(pools): conserved(h, w, d, p)
        ok = set()
        for p in pools: ok |= backkeys(p, USER, to)
        unchanged(h, w, d, ok, 'claim')
    for d in done[:2]: h.sample(w, d)


def two(h, a, b):
    """two operations in a row by two depositors"""
    w = bw(h)
    A = POOLS[0]
    w.user(A, USER, 1)
    w.user(A, OTHER, 1)
    x, y = w.v('amt', 0, 2**90), w.v('amt2', 0, 2**90)
    for d in h.run(w, a, USER, A, x):
        for e in h.run(w, b, OTHER, A, y, st=d):
            conserved(h, w, e, A)
            h.prove(w, e, X.eq(X.add(*[w.ub(e.store, A, USER)[0], qsum(w.ub(e.store, A, USER)[1])]), X.add(w.ub(d.store, A, USER)[0], qsum(w.ub(d.store, A, USER)[1]))), 'another depositor\'s operation leaves the account as it is')
            h.sample(w, e)


def jobs(tier):
    J = []
    for m in OPS:
        for nq in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4):
            if nq > 1 and m in ('draw', 'donate', 'deposit'): continue
            J.append(('%s/%d' % (m, nq), one, dict(m=m, nq=nq)))
        J.append(('%s/emissions' % m, one, dict(m=m, nq=1, emis='active')))
    J.append(('deposit/new', one, dict(m='deposit', user=False)))
    J.append(('deposit/first', one, dict(m='deposit', first=True, user=False)))
    A, B = POOLS[:2]
    for n, ps, to in (('own', [A], USER), ('other', [A], OTHER), ('two', [A, B], USER), ('two-other', [A, B], OTHER), ('twice', [A, A], USER)):
        J.append(('claim/' + n, cl, dict(pools=ps, to=to)))
    for a in ('deposit', 'queue_withdrawal', 'dequeue_withdrawal', 'withdraw'):
        for b in ('deposit', 'withdraw') if tier == 'quick' else ('deposit', 'queue_withdrawal', 'dequeue_withdrawal', 'withdraw'):
            J.append(('then/%s-%s' % (a, b), two, dict(a=a, b=b)))
    return J
