"""Backstop: the reward zone admits only funded pools, in a growing number of places, and replaces only smaller ones."""
from props.lib_back import *
from props.p08 import power_lemmas, T3

CRATES = ['backstop']
BOUNDS = 'reward zones of 0, 1, 9, 10, 11 and 12 pools at any time; any balances up to 2^80, any value of the backstop token'
ASSUMPTIONS = ['the stored value of the backstop token is what was last computed (P33)']
EPOCH = 1713139200


def add(h, n, rem, dup=False, era=None, stored=True):
    """a pool is proposed for a zone of n pools, in place of zone member `rem` (None: a pool that is not in the zone)"""
    rz = POOLS[:n]
    w = bw(h, 0, rz=rz)
    new = POOLS[n] if not dup else rz[0]
    for p in rz[:2] if rem in (None, 0, 1) else [rz[rem]]: w.put_pool(p)
    if stored and new not in w.pool: w.put_pool(new)
    old = rz[rem] if rem is not None else Addr('stranger', 60)
    if era == 'past': w.st.assume(X.lt(w.now, EPOCH))
    else: w.st.assume(X.and_(X.ge(w.now, EPOCH + era * 2**23), X.lt(w.now, EPOCH + (era + 1) * 2**23)))
    places = 10 + (0 if era == 'past' else era)
    room = n < places
    # reference
    p = w.pb(w.st.store, new)
    b, u = X.fdiv(X.mul(p['tokens'], w.lpval[0]), S7), X.fdiv(X.mul(p['tokens'], w.lpval[1]), S7)
    B, U = X.fdiv(b, S7), X.fdiv(u, S7)
    prod = X.mul(X.mul(X.mul(B, B), X.mul(B, B)), U)
    lem = power_lemmas(dict(blnd=b, usdc=u))
    met = X.ge(prod, T3)
    bigger = X.gt(p['tokens'], w.pb(w.st.store, old)['tokens'])
    fresh = X.ge(w.lastdist, X.sub(w.now, DAY))
    done = h.run(w, 'add_reward', new, old, reverts=True)
    for d in done:
        P = lambda g, t, **k: h.prove(w, d, g, t, **k)
        if d.status != 'ok':
            # refused only for a reason
            if dup or (not room and rem is None): continue
            c = [met] if room else [met, bigger, fresh]
            P(X.not_(X.and_(*c)), 'a pool that qualifies is refused (%s)' % d.why.split('@')[0], lemmas=lem)
            continue
        P(not dup, 'a pool is added twice')
        P(met, 'the pool has the minimum backstop', lemmas=lem)
        e = d.store['persistent'].get(skey('RZ'))
        z = list(e[0].e) if e else []
        if room: want = list(rz) + [new]
        else:
            P(rem is not None, 'only a pool of the zone is replaced')
            P(bigger, 'the new pool has more backstop tokens than the replaced one')
            P(fresh, 'emissions were distributed within the last day')
            want = [x for x in rz if x is not old] + [new]
        P(len(z) == len(want) and set(z) == set(want), 'the reward zone after it')
        P(len(z) <= places, 'the number of places: 10, and one more every 2^23 seconds')
        unchanged(h, w, d, {skey('RZ')}, 'the reward zone')
        P(not [x for x in d.log[d.g['pre_log']:] if x[1] is not None], 'nothing else happens')
    for d in [d for d in done if d.status == 'ok'][:2]: h.sample(w, d)


def others(h, m):
    """no other operation changes the reward zone"""
    w, A, done = op(h, m, nq=1, rz=POOLS[:2])
    for d in done:
        e = d.store['persistent'].get(skey('RZ'))
        h.prove(w, d, e is not None and list(e[0].e) == POOLS[:2], m + ': the reward zone stays')


def jobs(tier):
    J = []
    for era in ('past', 0, 1, 2) if tier == 'quick' else ('past', 0, 1, 2, 5):
        t = 10 + (0 if era == 'past' else era)
        if t + 1 < len(POOLS):
            for rem in (0, 5, None): J.append(('full/%s/%s' % (era, rem), add, dict(n=t, rem=rem, era=era)))
        for n in (0, 1, 9, t - 1): J.append(('room/%s/%d' % (era, n), add, dict(n=n, rem=None, era=era)))
    J += [('twice/%d' % n, add, dict(n=n, rem=r, dup=True, era=0)) for n, r in ((1, None), (10, 3), (10, 0))]
    J.append(('unfunded', add, dict(n=1, rem=None, era=0, stored=False)))
    J += [('other/' + m, others, dict(m=m)) for m in OPS]
    return J
