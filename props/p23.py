"""New emissions are spread over a week, on top of what the last ones have not emitted."""
from props.lib_emis import *

BOUNDS = 'up to three configured shares over two reserves, with and without earlier emissions; any emission rate below 2^40 and end of the earlier ones, any new amount below 2^80'
ASSUMPTIONS = ['the backstop answers with the amount it has assigned to the pool', 'the stored shares are at most the whole (P18)']


def gulp(h, ks, have, **kw):
    w = pool(h, 2, **kw)
    sh = {k: w.v('share%d' % k, 0, S7) for k in ks}
    w.st.assume(X.le(tsum(sh.values()), S7))
    w.put('persistent', skey('PoolEmis'), w.prim('Map<u32,u64>'), SMap(sorted(sh.items())))
    for k in have: put_emis(w, k)
    done = h.run(w, 'gulp_emissions')
    for d in splits(done, lambda d: emis_conds(w, d.g['pre'], ks)):
        pre = d.g['pre']
        P = lambda goal, t, **kk: h.prove(w, d, goal, t, **kk)
        gp = calls(d, 'gulp_pool_emissions')
        P(len(gp) == 1 and gp[0][1] is BACKSTOP and gp[0][2][0] is POOL, 'the backstop is asked once, for this pool')
        new = gp[0][4]
        P(X.ge(new, S7), 'at least one token')
        P(X.eq(d.result, new), 'the result is the new amount')
        for k in range(4):
            if k not in ks:
                P(d.store['persistent'].get(key('EmisConfig', k)) is pre['persistent'].get(key('EmisConfig', k)), 'tokens without a share keep their emissions')
                continue
            c0, c1 = econf(w, pre, k), econf(w, d.store, k)
            if c1 is None:
                P(False, 'the emissions are configured')
                continue
            left = X.fdiv(X.mul(sh[k], new), S7)
            if c0 is not None:
                left = cases(d, X.gt(c0[0], w.now), lambda: X.add(left, X.mul(c0[1], X.sub(c0[0], w.now))), lambda: left)
                x = index_now(w, d, pre, k, supply(w, pre, k), 10 ** w.cfg[k // 2]['decimals'])
                if x == 'open': h.undecided.append('emission case')
                else: P(X.eq(edata(w, d.store, k)[0], x[0]), 'the old emissions are accrued up to now')
            else:
                P(X.eq(edata(w, d.store, k)[0], 0), 'new emissions start at index zero')
            P(X.eq(edata(w, d.store, k)[1], w.now), 'accrual starts now')
            P(X.eq(c1[0], X.add(w.now, WEEK)), 'they end in a week')
            P(X.eq(c1[1], X.fdiv(left, WEEK)), 'the rate spreads the share and what was left over a week')
            P(X.le(X.mul(c1[1], WEEK), left), 'no more is emitted than there is')
        P(not all_flows(d), 'no token moves')
        unchanged(h, w, d, {key(n, k) for n in ('EmisConfig', 'EmisData') for k in ks}, 'gulp')
    for d in done[-2:]: h.sample(w, d)


def jobs(tier):
    J = [('none', gulp, dict(ks=(), have=(1,)))]
    for ks, have in (((0,), ()), ((1,), (1,)), ((0, 3), (0, 3)), ((1, 2), (2,)), ((0, 1, 3), (1, 2)), ((0,), (0,))): J.append(('%s/%s' % (''.join(map(str, ks)), ''.join(map(str, have))), gulp, dict(ks=ks, have=have)))
    J.append(('dec9', gulp, dict(ks=(1,), have=(1,), decimals=9)))
    return J
