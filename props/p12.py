"""Bad debt: what can be moved to the backstop, and when it is written off."""
from props.lib_pool import *

BOUNDS = 'accounts with up to two debts, with and without collateral and plain deposits; a backstop with up to two debts; bad debt auctions with up to two assets (any percentage and age for one asset); backstop holdings of BLND and USDC in [0, 2^90]'
ASSUMPTIONS = ['the backstop reports the holdings it has', 'no reserve emissions configured']


def move(h, who, coll, supp, bs, **kw):
    w, done = scenario_bad_debt(h, who=who, coll=coll, supp=supp, bs=bs, **kw)
    for d in done:
        pre = d.g['pre']
        P = lambda goal, t: h.prove(w, d, goal, t)
        if coll:
            h.never(w, d, 'debt with collateral behind it is moved to the backstop')
            continue
        if not who:
            h.never(w, d, 'an account without debt is treated as bad debt')
            continue
        a0, a1 = w.pos_store(pre, OTHER), w.pos(d, OTHER)
        b0, b1 = w.pos_store(pre, BACKSTOP), w.pos(d, BACKSTOP)
        for i in range(w.nres):
            P(X.eq(g(a1[0], i), 0), 'all of the account\'s debt is moved')
            P(X.eq(X.sub(g(b1[0], i), g(b0[0], i)), g(a0[0], i)), 'the backstop takes exactly the account\'s debt')
            for k in (1, 2):
                P(X.eq(g(a1[k], i), g(a0[k], i)), 'the account\'s deposits stay')
                P(X.eq(g(b1[k], i), g(b0[k], i)), 'the backstop\'s deposits stay')
            for n in ('b_supply', 'd_supply'): P(X.eq(w.res(d, i, n), w.res_store(pre, i, n)), 'totals stay: ' + n)
        P(not all_flows(d), 'no token moves')
        ok = {key('Positions', OTHER), key('Positions', BACKSTOP)} | {key('ResData', ASSET[i]) for i in range(w.nres)}
        unchanged(h, w, d, ok, 'bad debt')
    for d in done[-2:]: h.sample(w, d)


def own(h):
    w = pool(h, 2)
    w.position(BACKSTOP, (0,), (), ())
    for d in h.run(w, 'bad_debt', BACKSTOP): h.never(w, d, 'the backstop\'s own debt is moved to the backstop')


T3 = 320_000_000_000_000_000_000_000_000


def burn(h, **kw):
    """debt is written off only after a bad debt fill, only what the fill left, and only with the backstop below 5 percent of its minimum"""
    w, done = scenario_fill_bad(h, **kw)
    for d in done:
        pre = d.g['pre']
        P = lambda goal, t, **k: h.prove(w, d, goal, t, **k)
        b0, b1 = w.pos_store(pre, BACKSTOP)[0], w.pos(d, BACKSTOP)[0]
        u0, u1 = w.pos_store(pre, USER)[0], w.pos(d, USER)[0]
        burnt, left, rest = {}, [], []
        for i in range(w.nres):
            took = X.sub(g(u1, i), g(u0, i))
            after = X.sub(g(b0, i), took)
            P(X.ge(after, 0), 'a fill takes no more than the backstop owes')
            burnt[i] = X.sub(after, g(b1, i))
            P(X.eq(X.sub(w.res_store(pre, i, 'd_supply'), w.res(d, i, 'd_supply')), burnt[i]), 'only what is written off leaves the total debt')
            P(X.eq(w.res(d, i, 'b_supply'), w.res_store(pre, i, 'b_supply')), 'deposits stay')
            left.append(g(b1, i))
            rest.append(after)
        pds = d.g.get('pd', ())
        none = X.and_(*[X.eq(b, 0) for b in burnt.values()])
        if not pds:
            P(none, 'nothing is written off without asking the backstop')
            P(X.and_(*[X.eq(r, 0) for r in rest]), 'the backstop is asked when it still owes something')
            continue
        pd = pds[-1]
        # below 5 %: floor(blnd)^4 * floor(usdc) / 200k^5 < 0.0000003
        b, u = X.fdiv(pd['blnd'], S7), X.fdiv(pd['usdc'], S7)
        p = X.mul(X.mul(X.mul(b, b), X.mul(b, b)), u)
        low = X.lt(X.mul(p, S7), 3 * T3)
        from props.p08 import power_lemmas
        lem = power_lemmas(pd)
        P(X.or_(low, none), 'debt is written off only below 5 percent', lemmas=lem)
        P(X.or_(X.not_(low), X.and_(*[X.eq(l, 0) for l in left])), 'below 5 percent all that is left is written off', lemmas=lem)
        for e in calls(d, 'pool_data'): P(e[1] is BACKSTOP and e[2][0] is POOL, 'the backstop is asked about this pool')
    for d in done[-2:]: h.sample(w, d)


def jobs(tier):
    J = [('fill', burn, {}), ('fill/extra', burn, dict(extra=True, regime='full'))]
    for r in ('mid', 'full'): J.append(('fill/two/' + r, burn, dict(nl=2, regime=r)))
    for who, coll, supp, bs in (((0, 1), (), (1,), (0,)), ((0,), (), (), ()), ((0, 1), (), (), ()), ((1,), (), (0,), (0, 1)), ((0,), (1,), (), ()), ((0, 1), (0,), (), (0,)), ((), (), (0,), ()), ((), (), (), ())):
        J.append(('move/%d%d%d%d' % (len(who), len(coll), len(supp), len(bs)), move, dict(who=who, coll=coll, supp=supp, bs=bs)))
    J.append(('move/accrue', move, dict(who=(0,), coll=(), supp=(), bs=(0,), accrue=(0,))))
    J.append(('own', own, {}))
    return J
