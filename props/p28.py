"""Backstop: collected emissions go 70 % to depositors and 30 % to pools of the reward zone, by unqueued deposits."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'reward zones of one or two pools (thorough: three) with any balances up to 2^80 (of 4, 11 and 20 pools: the last one\'s unknown, fixed ones of the others), any earlier emissions, any time since the last distribution'
ASSUMPTIONS = ['the emitter\'s last distribution is not in the future']


def gulp(h, n, emis=(), pemis=(), outside=True, active=True, unknown=None):
    """unknown: the pools whose balances are unknown (the others hold fixed ones)"""
    rz = POOLS[:n]
    w = bw(h, n + 1 if outside else n, rz=rz)
    if unknown is not None:
        for i, p in enumerate(rz):
            if i not in unknown:
                w.pool[p] = dict(free=10**12 + 7919 * i, queued=3 * 10**11 + i if i % 2 else 0, tokens=2 * 10**12 + 104729 * i)
                w.store_pool(p)
    for i, p in enumerate(rz):
        if i in emis: w.put_emis(p, active=active)
        if i in pemis: w.put_pemis(p)
    if outside: w.put_emis(POOLS[n])
    done = h.run(w, 'gulp_emissions')
    for d in splits(done, lambda d: [c for p in rz for c in emis_conds(w, d.g['pre'], p)]):
        P = lambda g, t, **k: h.prove(w, d, g, t, **k)
        c = [e for e in d.log if e[0] == 'get_last_distro']
        P(len(c) == 1 and c[0][1] is EMITTER and c[0][2][0] is ME, 'the emitter is asked once, about this backstop')
        if len(c) != 1: continue
        dist = c[0][4]
        pre, post = d.g['pre'], d.store
        P(X.gt(dist, X.add(w.lastdist, 3600)), 'at least an hour of emissions')
        P(X.eq(post['persistent'][skey('LastDist')][0], dist), 'the time of the distribution is recorded')
        new = X.mul(X.sub(dist, w.lastdist), S7)
        tb, tp = X.fdiv(X.mul(new, 7), 10), X.fdiv(X.mul(new, 3), 10)
        pbs = [w.pb(pre, p) for p in rz]
        nq = [non_queued(d, p) for p in pbs]
        tot = tsum(nq)
        P(X.gt(tot, 0), 'there are unqueued deposits')
        given = 0
        for p, q in zip(rz, nq):
            share = X.fdiv(X.mul(q, S7), tot)
            pe = X.fdiv(X.mul(share, tp), S7)
            P(X.eq(X.sub(w.pemis(post, p), w.pemis(pre, p)), pe), 'a pool\'s emissions grow by its share of 30 %')
            nt = X.fdiv(X.mul(share, tb), S7)
            given = X.add(given, X.add(pe, nt))
            left, old = nt, w.ec(pre, p)
            if old is not None:
                left = X.add(nt, cases(d, X.gt(old[0], w.now), lambda: X.mul(old[1], X.sub(old[0], w.now)), lambda: 0))
            exp, eps = w.ec(post, p)
            P(X.eq(exp, X.add(w.now, WEEK)), 'backstop emissions last one week')
            P(X.eq(eps, X.fdiv(left, WEEK)), 'backstop emissions: the share of 70 % and what is left of the last')
            P(X.le(X.mul(eps, WEEK), left), 'no more is emitted than there is')
            idx, last = w.ed(post, p)
            P(X.eq(last, w.now), 'emissions are accrued up to now')
            if old is None: P(X.eq(idx, 0), 'the first emissions start at zero')
            else:
                i0 = index_now(w, d, pre, p)
                if i0 == 'open': h.undecided.append('emission case')
                else: P(X.eq(idx, i0[0]), 'the earlier emissions are accrued before they are replaced')
        if n <= 2: P(X.le(given, new), 'no more is given out than was emitted')
        ok = {skey('LastDist')}
        for p in rz: ok |= {key('PoolEmis', p), key('BEmisCfg', p), key('BEmisData', p)}
        unchanged(h, w, d, ok, 'gulp')
        P(not all_flows(d), 'no token moves')
    for d in done[:2]: h.sample(w, d)


def none(h):
    """without a reward zone nothing is collected"""
    w = bw(h, 1)
    for d in h.run(w, 'gulp_emissions'): h.never(w, d, 'emissions are collected without a reward zone')


def available(h, case):
    """collection works whenever there is an hour of emissions and any unqueued deposit in the reward zone"""
    n = 2
    w = bw(h, n, rz=POOLS[:n], now=1_900_000_000, lastdist=1_899_900_000)
    st = w.st
    for i, p in enumerate(POOLS[:n]):
        w.put_emis(p)
        e = w.ed(st.store, p)
        st.assume(X.le(e[0], 2**50))
        d = w.pool[p]
        st.assume(X.and_(X.ge(d['tokens'], 1000), X.le(d['tokens'], 2**60)))
        for f in ('free', 'queued'): st.assume(X.le(d[f], 2**60))
        if i == 0 or case == 'plain': st.assume(X.and_(X.ge(d['free'], 1000), X.ge(X.add(d['tokens'], 1000), 0)))
        if i == 1 and case == 'queued': st.assume(X.and_(X.eq(d['free'], 0), X.ge(d['queued'], 1)))
        if i == 1 and case == 'empty': st.assume(X.and_(X.eq(d['free'], 0), X.eq(d['queued'], 0)))
    st.assume(X.ge(non_queued(st, w.pb(st.store, POOLS[0])), 1))
    for d in h.run(w, 'gulp_emissions', reverts=True):
        if d.status == 'ok': continue
        c = [e for e in d.log if e[0] == 'get_last_distro']
        if not c:
            h.never(w, d, 'the emitter is not asked')
            continue
        h.prove(w, d, X.or_(X.le(c[0][4], X.add(w.lastdist, 3600)), X.gt(c[0][4], w.now)), 'collection is refused although emissions are due (%s pool: %s)' % (case, d.why.split('@')[0]))


def jobs(tier):
    J = [('one', gulp, dict(n=1)), ('one/again', gulp, dict(n=1, emis=(0,), pemis=(0,), active=False)), ('two', gulp, dict(n=2)), ('two/mixed', gulp, dict(n=2, emis=(0,), pemis=(1,))),
         ('two/again', gulp, dict(n=2, emis=(0, 1), pemis=(0, 1))), ('none', none, {})]
    if tier == 'thorough': J += [('three', gulp, dict(n=3, emis=(1,), pemis=(2,))), ('two/any', gulp, dict(n=2, emis=(0, 1), pemis=(0, 1), active=False))]
    for n in (4, 11, 20): J.append(('zone/%d' % n, gulp, dict(n=n, unknown=(n - 1,), emis=(n - 1,), outside=False)))
    J += [('available/' + c, available, dict(case=c)) for c in ('plain', 'queued', 'empty')]
    return J
