"""Bad debt auctions offer at most the backstop's tokens, at 1.4 times the debt."""
from props.lib_pool import *

BOUNDS = 'a backstop with up to two debts in [1, 2^80], also in pools of 12 and 32 reserves, prices in [1, 1e15], rates in [1, 100], oracle decimals 7 and 14; fills with one asset (any percentage and age) and two (four fixed combinations)'
ASSUMPTIONS = ['the oracle reports positive prices', 'the backstop reports the holdings it has', 'no reserve emissions configured']


def create(h, debts, n=2, **kw):
    w = pool(h, n, **kw)
    if debts: w.position(BACKSTOP, debts, (), (), tag='bs')
    done = h.run(w, 'new_bad_debt_auction')
    s = 10 ** w.oracle_dec
    for d in splits(done, lambda d: [c for i in range(n) if n <= 3 or i in debts for c in accr_conds(w, d.g['pre'], i)]):
        pre = d.g['pre']
        P = lambda goal, t, **k: h.prove(w, d, goal, t, **k)
        if not debts:
            h.never(w, d, 'a bad debt auction without bad debt')
            continue
        a = auc(w, d.store, 1, BACKSTOP)
        if a is None:
            P(False, 'the auction is stored')
            continue
        rs = [accrued(w, d, pre, i, w.now) for i in range(n)]
        if any(r is None for r in rs):
            h.undecided.append('accrual case')
            continue
        L = w.pos_store(pre, BACKSTOP)[0]
        value = 0
        for i in range(n):
            P(X.eq(g(a[0], ASSET[i]), g(L, i)), 'the bid is all of the backstop\'s debt')
            if i in debts: value = X.add(value, X.fdiv(X.mul(w.price[ASSET[i]], rs[i].assets_d(g(L, i))), rs[i].scalar))
        P(X.gt(value, 0), 'worthless debt is not auctioned')
        pd = d.g['pd'][-1]
        tv = X.fdiv(X.mul(X.mul(X.fdiv(X.mul(pd['usdc'], s), S7), 5), S7), pd['tokens'])
        lot = X.fdiv(X.mul(X.fdiv(X.mul(value, 14000000), S7), S7), tv)
        lot = cases(d, X.le(pd['tokens'], lot), lambda: pd['tokens'], lambda: lot)
        P(all(k is BTOKEN for k, _ in a[1].e), 'the lot is in backstop tokens')
        P(X.eq(g(a[1], BTOKEN), lot), 'the lot is 1.4 times the debt, at most what the backstop has')
        P(X.eq(a[2], X.add(w.seq, 1)), 'it starts at the next block')
        e = d.store['temporary'][akey(1, BACKSTOP)]
        P(enc_eq(enc(w.T, *e), enc(w.T, d.result, e[1])), 'the returned auction is the stored one')
        unchanged(h, w, d, {akey(1, BACKSTOP)}, 'creation')
        P(not all_flows(d) and not calls(d, 'draw'), 'no token moves')
        for e in calls(d, 'pool_data'): P(e[1] is BACKSTOP and e[2][0] is POOL, 'the backstop is asked about this pool')
    for d in done[-2:]: h.sample(w, d)


def second(h):
    w = pool(h, 2)
    w.position(BACKSTOP, (0,), (), ())
    auction(w, 1, BACKSTOP, [ASSET[0]], [BTOKEN])
    for d in h.run(w, 'new_bad_debt_auction'): h.never(w, d, 'a second bad debt auction while one is in progress')


def fill(h, **kw):
    w, done = scenario_fill_bad(h, **kw)
    for d in done:
        pre = d.g['pre']
        P = lambda goal, t: h.prove(w, d, goal, t)
        u0, u1 = w.pos_store(pre, USER), w.pos(d, USER)
        b0, b1 = w.pos_store(pre, BACKSTOP), w.pos(d, BACKSTOP)
        for i in range(w.nres):
            got = X.sub(g(u1[0], i), g(u0[0], i))
            P(X.ge(got, 0), 'debt goes to the filler')
            P(X.le(got, g(w.au[0], ASSET[i])), 'at most the auctioned debt')
            P(X.le(got, X.sub(g(b0[0], i), g(b1[0], i))), 'the backstop is relieved of what the filler takes')
            for k in (1, 2): P(X.eq(g(u1[k], i), g(u0[k], i)), 'the filler\'s deposits stay')
        dr = calls(d, 'draw')
        P(X.le(tsum([e[2][1] for e in dr]), g(w.au[1], BTOKEN)), 'no more than the lot is drawn')
        for e in dr: P(e[1] is BACKSTOP and e[2][0] is POOL and e[2][2] is USER, 'drawn from this pool\'s backstop for the filler')
        for (t, x, y), v in all_flows(d).items(): P(X.eq(v, 0), 'no pool asset moves')
        P(not calls(d, 'donate'), 'nothing is donated')
        ok = {akey(1, BACKSTOP), key('Positions', USER), key('Positions', BACKSTOP)} | {key('ResData', ASSET[i]) for i in range(w.nres)}
        unchanged(h, w, d, ok, 'fill')
    for d in done[-2:]: h.sample(w, d)


def backstop_fills(h):
    w = pool(h, 2)
    w.position(BACKSTOP, (0,), (), ())
    auction(w, 1, BACKSTOP, [ASSET[0]], [BTOKEN])
    for d in h.run(w, 'submit', BACKSTOP, BACKSTOP, BACKSTOP, req_list(w, (7, BACKSTOP, 100))): h.never(w, d, 'the backstop fills its own bad debt auction')


def jobs(tier):
    J = [('fill', fill, {}), ('create/0', create, dict(debts=(0,))), ('create/01', create, dict(debts=(0, 1))), ('create/1', create, dict(debts=(1,), oracle_dec=14, decimals=[7, 9])), ('create/none', create, dict(debts=())),
         ('create/accrue', create, dict(debts=(0,), n=1, accrue=True)), ('second', second, {}), ('backstop', backstop_fills, {})]
    J += [('create/many/%d' % n, create, dict(debts=d, n=n)) for d, n in (((11,), 12), ((0, 31), 32))]
    for r in REGIME: J.append(('fill/two/' + r, fill, dict(nl=2, regime=r)))
    return J
