"""Backstop: shares leave only after 21 days in the withdrawal queue, first in first out, at most 21 entries."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'queues of up to four, of 7, 12 and 21 (the most there can be) entries in order of expiry (19 to 21 for the size limit), one operation, or a queueing followed by a withdrawal at any later time'
ASSUMPTIONS = ['time does not run backwards', 'before the operation the queue is in the order of expiry']


def left(q, x):
    """what remains of each entry when x is taken from the front"""
    out, pre = [], 0
    for a, e in q:
        pre = X.add(pre, a)
        out.append((a, e, X.sub(pre, x)))        # remaining = clamp(prefix - x, 0, a)
    return out


def check_front(h, w, d, q0, q1, x, what):
    """q1 is q0 after taking x from the front; entries that are used up may be gone"""
    P = lambda g, t: h.prove(w, d, g, t)
    n0, n1 = len(q0), len(q1)
    P(n1 <= n0, what + ': no entry is added')
    if n1 > n0: return
    for k, (a, e, r) in enumerate(left(q0, x)):
        j = k - (n0 - n1)
        if j < 0:
            P(X.or_(X.le(r, 0), X.eq(a, 0)), what + ': only used up entries are removed')
            continue
        a1, e1 = q1[j]
        P(X.eq(e1, e), what + ': the unlock time of an entry stays')
        P(X.or_(X.and_(X.ge(r, a), X.eq(a1, a)), X.and_(X.lt(r, a), X.ge(r, 0), X.eq(a1, r)), X.and_(X.lt(r, 0), X.eq(a1, 0))), what + ': entries are taken from the front')


def one(h, m, nq, now=None):
    w, A, done = op(h, m, nq=nq, npool=1)
    x = w.amt
    for d in done:
        s0, q0 = w.ub(d.g['pre'], A, USER)
        s1, q1 = w.ub(d.store, A, USER)
        P = lambda g, t: h.prove(w, d, g, t)
        if m == 'queue_withdrawal':
            check_front(h, w, d, q0, q1[:len(q0)], 0, 'queueing')
            P(len(q1) == len(q0) + 1, 'queueing adds one entry at the end')
            if len(q1) == len(q0) + 1:
                a, e = q1[-1]
                P(X.and_(X.eq(a, x), X.eq(e, X.add(w.now, 21 * DAY))), 'the new entry holds the queued shares for 21 days')
                P(X.eq(w.get('Q4W', d.result, 'amount'), x), 'the result is the new entry')
                P(X.eq(w.get('Q4W', d.result, 'exp'), X.add(w.now, 21 * DAY)), 'the result is the new entry')
        else:
            check_front(h, w, d, q0, q1, x, m)
            P(X.le(x, qsum(q0)), 'no more than is queued')
            if m == 'withdraw':
                pre = 0
                for a, e in q0:
                    # every entry from which something is taken has expired
                    P(X.or_(X.eq(a, 0), X.le(x, pre), X.le(e, w.now)), 'only unlocked shares are withdrawn')
                    pre = X.add(pre, a)
        for j in range(len(q1) - 1): P(X.le(q1[j][1], q1[j + 1][1]), 'the queue stays in the order of expiry')
        for u in (OTHER,):
            P(enc_eq(enc(w.T, *d.g['pre']['persistent'][ubkey(A, u)]), enc(w.T, *d.store['persistent'][ubkey(A, u)])), 'another depositor\'s queue stays')
    for d in done[:3]: h.sample(w, d)


def keep(h, m):
    """operations that are no queue operations leave queues alone"""
    w, A, done = op(h, m, nq=2)
    for d in done:
        q0, q1 = w.ub(d.g['pre'], A, USER)[1], w.ub(d.store, A, USER)[1]
        check_front(h, w, d, q0, q1, 0, m)
        h.prove(w, d, len(q0) == len(q1), m + ': the queue stays')


def full(h, n):
    """a queue of n entries"""
    w = bw(h)
    A = POOLS[0]
    w.user(A, USER, n)
    for d in h.run(w, 'queue_withdrawal', USER, A, w.v('amt', 0, 2**90)):
        h.prove(w, d, len(w.ub(d.store, A, USER)[1]) <= 21, 'a queue has at most 21 entries')
        if n >= 21: h.never(w, d, 'an entry is added to a full queue')
        h.sample(w, d)


def lock(h, nq):
    """shares queued now cannot be withdrawn within 21 days, whatever else was queued before"""
    w = bw(h)
    A = POOLS[0]
    w.user(A, USER, nq)
    x, y = w.v('amt', 1, 2**90), w.v('amt2', 0, 2**90)
    for d in h.run(w, 'queue_withdrawal', USER, A, x):
        before = qsum(w.ub(d.g['pre'], A, USER)[1])
        t = w.v('later', 0, 2**32)
        d.assume(X.ge(t, w.now))
        d.ledger = dict(d.ledger, timestamp=t)
        for e in h.run(w, 'withdraw', USER, A, y, st=d):
            h.prove(w, e, X.or_(X.le(y, before), X.ge(t, X.add(w.now, 21 * DAY))), 'newly queued shares are locked for 21 days')
            h.sample(w, e)


def unlocked(h, nq, m):
    """unlocked shares can be withdrawn, queued ones dequeued, at any time"""
    w = bw(h, now=1_900_000_000)
    A = POOLS[0]
    s, q = w.user(A, USER, nq)
    st = w.st
    p = w.pb(st.store, A)
    st.assume(X.and_(X.ge(p['tokens'], 10**12), X.le(p['tokens'], 10**18), X.ge(p['shares'], 10**12), X.le(p['shares'], 10**18)))
    x = w.v('amt', 10**7, 2**90)
    tot = 0
    for k, (a, e) in enumerate(q):
        tot = X.add(tot, a)
        if m == 'withdraw': st.assume(X.le(e, w.now))
    st.assume(X.le(x, tot))
    for d in h.run(w, m, USER, A, x, reverts=True):
        if d.status != 'ok': h.never(w, d, m + ' of shares that are available is refused (%s)' % d.why.split('@')[0])


def jobs(tier):
    J = []
    for m in ('queue_withdrawal', 'dequeue_withdrawal', 'withdraw'):
        for n in (0, 1, 2, 3, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 8):
            J.append(('%s/%d' % (m, n), one, dict(m=m, nq=n)))
    for n in (7, 12, 21): J += [('%s/%d' % (m, n), one, dict(m=m, nq=n)) for m in ('dequeue_withdrawal', 'withdraw')]
    J += [('queue_withdrawal/%d' % n, one, dict(m='queue_withdrawal', nq=n)) for n in (7, 12, 20)]
    J += [('keep/' + m, keep, dict(m=m)) for m in ('deposit', 'draw', 'donate')]
    J += [('full/%d' % n, full, dict(n=n)) for n in (19, 20, 21)]
    J += [('lock/%d' % n, lock, dict(nq=n)) for n in (0, 1, 2)]
    J += [('unlocked/%s/%d' % (m, n), unlocked, dict(nq=n, m=m)) for n in (1, 2, 3, 7, 12, 21) for m in ('withdraw', 'dequeue_withdrawal')]
    return J
