"""Backstop emissions accrue to unqueued shares only, pro rata to time and shares, and no operation changes what was earned."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'one operation by one depositor with another one beside; any balances up to 2^80, any emission state (running, ended, never started, zero rate), with and without an earlier record of the accounts; claims over one or two pools'
ASSUMPTIONS = ['an account\'s recorded index is not beyond the pool\'s', 'before the operation the totals are the sums over the depositors (P24)']


def earned(h, w, d, a, u, claimed=False, what=''):
    for e in split(d, emis_conds(w, d.g['pre'], a)): earned1(h, w, e, a, u, claimed, what)


def earned1(h, w, d, a, u, claimed, what):
    pre, post = d.g['pre'], d.store
    p = w.pb(pre, a)
    i0, i1 = index_now(w, d, pre, a), index_now(w, d, post, a)
    # while nobody holds unqueued shares emissions wait for the first who does
    if settle(d, X.eq(p['shares'], p['q4w'])) is True: i1 = w.ed(post, a)
    if i0 == 'open' or i1 == 'open':
        h.undecided.append('emission case')
        return
    P = lambda g, t: h.prove(w, d, g, t)
    if i0 is None or i1 is None:
        P(i0 is None and i1 is None, what + ': emissions do not start or end')
        return
    P(X.eq(i0[0], i1[0]), what + ': the index accrues eps per second over the unqueued shares')
    e = w.ue(post, a, u)
    if e is not None: P(X.and_(X.le(e[0], i1[0]), X.ge(e[1], 0)), what + ': an account\'s record is not ahead of the pool\'s')
    x0, x1 = due(w, d, pre, a, u, i0[0]), due(w, d, post, a, u, i1[0])
    P(X.eq(x1, 0 if claimed else x0), what + (': what was claimed is gone' if claimed else ': what was earned stays, and nothing is earned for the past'))


def one(h, m, record=True, emis='any', nq=1, user=True, mine=None):
    w = bw(h, 2)
    A = POOLS[0]
    for p in POOLS[:2]:
        if user: w.user(p, USER, nq)
        w.user(p, OTHER, 1)
        w.put_emis(p, ([USER] if record and user else []) + [OTHER], active=(emis == 'active'))
    a = w.v('amt', -2**100, 2**100)
    args = {'draw': (A, a, THIRD)}.get(m, (USER, A, a))
    for d in h.run(w, m, *args):
        for u in (USER, OTHER): earned(h, w, d, A, u, what=m)
        unchanged(h, w, d, backkeys(A, USER), m)
        h.prove(w, d, enc_same(w, d, key('BEmisCfg', A)), m + ': the rate and the end of emissions stay')
    # samples come from the check of the same paths elsewhere


def enc_same(w, d, k):
    a, b = d.g['pre']['persistent'].get(k), d.store['persistent'].get(k)
    if a is None or b is None: return a is b
    return enc_eq(enc(w.T, *a), enc(w.T, *b))


def cl(h, pools, to, **kw):
    w, done = claim(h, pools, to, **kw)
    for d in done:
        for p in set(pools):
            earned(h, w, d, p, USER, claimed=True, what='claim')
            if to is not USER: earned(h, w, d, p, to, what='claim for another account')
            h.prove(w, d, enc_same(w, d, key('BEmisCfg', p)), 'claim: the rate and the end of emissions stay')
    for d in done[:2]: h.sample(w, d)


def total(h):
    """what the depositors earn together is never more than was emitted"""
    w = bw(h, 1)
    A = POOLS[0]
    w.user(A, USER, 0)
    w.user(A, OTHER, 0)
    w.put_emis(A, [USER, OTHER], active=True)
    idx, last = w.ed(w.st.store, A)
    ui = {u: w.ue(w.st.store, A, u) for u in (USER, OTHER)}
    for d in h.run(w, 'deposit', USER, A, w.v('amt', 1, 2**90)):
        i1 = w.ed(d.store, A)[0]
        di = X.sub(i1, idx)
        s = [w.ub(d.g['pre'], A, u)[0] for u in (USER, OTHER)]
        exp, eps = w.ec(d.g['pre'], A)
        emitted = X.mul(eps, X.sub(w.now, last))
        p = w.pb(d.g['pre'], A)
        free = X.sub(p['shares'], p['q4w'])
        got = X.add(*[X.mul(x, di) for x in s])
        h.prove(w, d, X.le(X.mul(free, di), X.mul(emitted, S7)), 'the index grows by at most what is emitted')
        h.prove(w, d, X.le(got, X.mul(free, di)), 'no more than the unqueued shares earn', lemmas=())
        h.sample(w, d)


def jobs(tier):
    J = []
    A_, B = POOLS[:2]
    for m in OPS:
        J.append((m, one, dict(m=m)))
        J.append((m + '/no-record', one, dict(m=m, record=False)))
        J.append((m + '/new', one, dict(m=m, user=False)))
        if tier == 'thorough' and m in ('queue_withdrawal', 'dequeue_withdrawal', 'withdraw'): J.append((m + '/3', one, dict(m=m, nq=3)))
    for n, ps, to in (('own', [A_], USER), ('other', [A_], OTHER)):
        for rec in (True, False):
            J.append(('claim/%s%s' % (n, '' if rec else '/no-record'), cl, dict(pools=ps, to=to, record=rec, emis='any')))
    J += [('claim/two', cl, dict(pools=[A_, B], to=USER)), ('claim/two-other', cl, dict(pools=[A_, B], to=OTHER)), ('total', total, {})]
    return J
