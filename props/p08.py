"""Pool status transitions follow the backstop's state exactly."""
from props.lib_pool import *

BOUNDS = 'every status 0..6, queued share 0..100 %, backstop holdings of BLND and USDC in [0, 2^90], requested status any 32-bit number'
ASSUMPTIONS = ['the backstop reports the queued share and the holdings it has']
T3 = 320_000_000_000_000_000_000_000_000


def met_cases(st, pd):
    """the pool's backstop holds the minimum: floor(blnd)^4 * floor(usdc) >= 200k^5 (as True/False/condition)"""
    b, u = X.fdiv(pd['blnd'], S7), X.fdiv(pd['usdc'], S7)
    p = X.mul(X.mul(X.mul(b, b), X.mul(b, b)), u)
    return X.ge(p, T3)


def power_lemmas(pd):
    """if the product of a prefix is already beyond 2^127 and the rest are positive, the whole product is beyond the threshold"""
    b, u = X.fdiv(pd['blnd'], S7), X.fdiv(pd['usdc'], S7)
    B2 = X.mul(b, b)
    B3, B4 = X.mul(B2, b), X.mul(B2, B2)
    P = X.mul(B4, u)
    big = 2**127 - 1
    out = []
    ps = [B2, B3, B4, P]
    for a, c in zip(ps, ps[1:]):
        k = u if c is P else b
        out.append(X.implies(X.ge(k, 1), X.ge(c, a)))
        out.append(X.implies(X.le(k, 0), X.le(P, 0)))
    out.append(X.implies(X.ge(B2, 1), X.ge(b, 1)))
    return out


def state(h, **kw):
    w = pool(h, 1, **kw)
    return w


def update(h, status):
    w = pool(h, 1, status=status)
    done = h.run(w, 'update_status', reverts=True)
    for d in done:
        pds = d.g.get('pd', ())
        if d.status != 'ok':
            if len(pds) != 1: continue
            h.prove(w, d, status in (4, 6), 'update_status is refused outside setup and admin freeze')
            continue
        h.prove(w, d, status not in (4, 6), 'update_status in setup or under an admin freeze')
        if len(pds) != 1:
            h.prove(w, d, False, 'the backstop is asked exactly once')
            continue
        pd = pds[0]
        new = cfg(w, d, 'status')
        q, met = pd['q4w_pct'], met_cases(d, pd)
        if status == 2: want = X.ite(X.ge(q, 7500000), 5, 2)
        elif status == 0: want = X.ite(X.or_(X.ge(q, 5000000), X.not_(met)), 3, 0)
        else: want = X.ite(X.ge(q, 6000000), 5, X.ite(X.or_(X.ge(q, 3000000), X.not_(met)), 3, 1))
        lem = power_lemmas(pd)
        h.prove(w, d, X.eq(new, want), 'the new status', lemmas=lem)
        h.prove(w, d, X.eq(d.result, new), 'the returned status')
        for f in ('bstop_rate', 'max_positions'): h.prove(w, d, X.eq(cfg(w, d, f), getattr(w, f)), 'other settings stay')
        h.prove(w, d, cfg(w, d, 'oracle') is ORACLE, 'the oracle stays')
        asked(h, w, d)
    for d in [d for d in done if d.status == 'ok'][:2]: h.sample(w, d)


def asked(h, w, d):
    c = [e for e in d.log if e[0] == 'pool_data']
    h.prove(w, d, len(c) >= 1 and all(e[1] is BACKSTOP and e[2][0] is POOL for e in c), 'the backstop is asked about this pool')


def cfg(w, st, f):
    return w.get('PoolConfig', w.rd(st, 'instance', skey('Config')), f)


def admin_set(h, want=None):
    w = pool(h, 1)
    x = w.v('requested', 0, 2**32 - 1) if want is None else want
    done = h.run(w, 'set_status', x, reverts=True)
    for d in done:
        pds = d.g.get('pd', ())
        if d.status == 'ok':
            h.prove(w, d, ADMIN in d.auths, 'only the admin sets the status')
            h.prove(w, d, X.or_(*[X.eq(x, k) for k in (0, 2, 3, 4)]), 'only admin statuses can be set')
            h.prove(w, d, X.eq(cfg(w, d, 'status'), x), 'the status becomes the requested one')
            if pds:
                pd = pds[0]
                lem = power_lemmas(pd)
                h.prove(w, d, X.implies(X.eq(x, 0), X.and_(X.lt(pd['q4w_pct'], 5000000), met_cases(d, pd))), 'active only with the minimum backstop and less than half of it queued', lemmas=lem)
                h.prove(w, d, X.implies(X.or_(X.eq(x, 2), X.eq(x, 3)), X.lt(pd['q4w_pct'], 7500000)), 'on ice only with less than 75 % queued', lemmas=lem)
                asked(h, w, d)
            else:
                h.prove(w, d, X.eq(x, 4), 'the backstop is asked')
            for f in ('bstop_rate', 'max_positions'): h.prove(w, d, X.eq(cfg(w, d, f), getattr(w, f)), 'other settings stay')
        elif pds:
            pd = pds[0]
            lem = power_lemmas(pd)
            h.prove(w, d, X.ne(x, 4), 'the admin can always freeze the pool')
            h.prove(w, d, X.implies(X.or_(X.eq(x, 2), X.eq(x, 3)), X.ge(pd['q4w_pct'], 7500000)), 'on ice is refused only above 75 %')
            h.prove(w, d, X.implies(X.eq(x, 0), X.or_(X.ge(pd['q4w_pct'], 5000000), X.not_(met_cases(d, pd)))), 'active is refused only without the minimum or with half queued', lemmas=lem)
    for d in [d for d in done if d.status == 'ok'][:3]: h.sample(w, d)


def only(h):
    """nothing else moves the status"""
    for f, a in (('update_pool', (5, 4)), ('cancel_set_reserve', (ASSET[0],)), ('gulp_emissions', ())):
        w = pool(h, 1)
        for d in h.run(w, f, *a):
            h.prove(w, d, X.eq(cfg(w, d, 'status'), w.status), f + ' leaves the status')
    for t in range(6):
        w, done = submit(h, [(t, 0)], 'all')
        for d in done: h.prove(w, d, X.eq(cfg(w, d, 'status'), w.status), NAMES_T[t] + ' leaves the status')


def jobs(tier):
    return [('update/%d' % s, update, dict(status=s)) for s in range(7)] + [('set', admin_set, {})] + [('set/%d' % k, admin_set, dict(want=k)) for k in (0, 2, 3, 4)] + [('others', only, {})]
