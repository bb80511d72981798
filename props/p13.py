"""Interest auctions sell the backstop's credit at 1.4 times its value, once each."""
from props.lib_pool import *

BOUNDS = 'interest auctions over one or two reserves, listed once or several times; any percentage and age for one asset, four fixed combinations for two; credits in [0, 2^80], prices in [1, 1e15], oracle decimals 7 and 14'
ASSUMPTIONS = ['the oracle reports positive prices', 'the backstop reports the holdings it has', 'no reserve emissions configured']


def create(h, lst, n=2, **kw):
    w = pool(h, n, **kw)
    done = h.run(w, 'new_interest_auction', SVec([ASSET[i] for i in lst]))
    s = 10 ** w.oracle_dec
    for d in splits(done, lambda d: [c for i in range(n) for c in accr_conds(w, d.g['pre'], i)]):
        pre = d.g['pre']
        P = lambda goal, t, **k: h.prove(w, d, goal, t, **k)
        a = auc(w, d.store, 2, BACKSTOP)
        if a is None:
            P(False, 'the auction is stored')
            continue
        rs = [accrued(w, d, pre, i, w.now) for i in range(n)]
        if any(r is None for r in rs):
            h.undecided.append('accrual case')
            continue
        value = 0
        for i in range(n):
            r = rs[i]
            want = r.backstop_credit if i in lst else 0
            P(X.eq(g(a[1], ASSET[i]), want), 'the lot is the credit of the listed reserves')
            if i in lst and settle(d, X.eq(r.backstop_credit, 0)) is not True: value = X.add(value, X.fdiv(X.mul(w.price[ASSET[i]], r.backstop_credit), r.scalar))
        P(X.gt(value, 200 * s), 'worth more than 200')
        pd = d.g['pd'][-1]
        tv = X.fdiv(X.mul(X.mul(X.fdiv(X.mul(pd['usdc'], s), S7), 5), S7), pd['tokens'])
        bid = X.fdiv(X.mul(X.fdiv(X.mul(value, 14000000), S7), S7), tv)
        P(all(k is BTOKEN for k, _ in a[0].e), 'the bid is in backstop tokens')
        P(X.eq(g(a[0], BTOKEN), bid), 'the bid is 1.4 times the value of the lot')
        P(X.eq(a[2], X.add(w.seq, 1)), 'it starts at the next block')
        e = d.store['temporary'][akey(2, BACKSTOP)]
        P(enc_eq(enc(w.T, *e), enc(w.T, d.result, e[1])), 'the returned auction is the stored one')
        unchanged(h, w, d, {akey(2, BACKSTOP)}, 'creation')
        P(not all_flows(d), 'no token moves')
    for d in done[-2:]: h.sample(w, d)


def twice(h, lst):
    """an asset listed more than once does not raise what is asked for it"""
    create(h, lst)


def second(h):
    w = pool(h, 2)
    auction(w, 2, BACKSTOP, [BTOKEN], [ASSET[0]])
    for d in h.run(w, 'new_interest_auction', SVec([ASSET[0]])): h.never(w, d, 'a second interest auction while one is in progress')


def fill(h, **kw):
    w, done = scenario_fill_int(h, **kw)
    for d in done:
        pre = d.g['pre']
        P = lambda goal, t: h.prove(w, d, goal, t)
        for i in range(w.nres):
            out = flow(d, ASSET[i], POOL, USER)
            P(X.ge(out, 0), 'tokens go to the filler')
            P(X.eq(X.sub(w.res_store(pre, i, 'backstop_credit'), w.res(d, i, 'backstop_credit')), out), 'the credit shrinks by what is paid out')
            for n in ('b_supply', 'd_supply', 'b_rate', 'd_rate', 'ir_mod'): P(X.eq(w.res(d, i, n), w.res_store(pre, i, n)), 'the rest of the reserve stays: ' + n)
        for (t, x, y), v in all_flows(d).items():
            if not (x is POOL and y is USER and any(t is z for z in ASSET)): P(X.eq(v, 0), 'no other token moves')
        P(not calls(d, 'draw'), 'nothing is drawn')
        for e in calls(d, 'donate'):
            P(e[1] is BACKSTOP and e[2][0] is USER and e[2][1] is POOL, 'the filler pays this pool\'s backstop')
        ok = {akey(2, BACKSTOP)} | {key('ResData', ASSET[i]) for i in range(w.nres)}
        unchanged(h, w, d, ok | {key('Positions', USER)}, 'fill')
        for k, (m0, m1) in enumerate(zip(w.pos_store(pre, USER), w.pos(d, USER))):
            for i in range(w.nres): P(X.eq(g(m1, i), g(m0, i)), 'the filler\'s positions stay')
    for d in done[-2:]: h.sample(w, d)


def backstop_fills(h):
    """the backstop cannot pay itself"""
    w = pool(h, 2)
    auction(w, 2, BACKSTOP, [BTOKEN], [ASSET[0]])
    for d in h.run(w, 'submit', BACKSTOP, BACKSTOP, BACKSTOP, req_list(w, (8, BACKSTOP, 100))): h.never(w, d, 'the backstop fills its own interest auction')


def jobs(tier):
    J = [('fill', fill, {}), ('create/0', create, dict(lst=(0,))), ('create/01', create, dict(lst=(0, 1))), ('create/10', create, dict(lst=(1, 0), oracle_dec=14, decimals=[7, 9])),
         ('create/00', twice, dict(lst=(0, 0))), ('create/010', twice, dict(lst=(0, 1, 0))), ('create/accrue', create, dict(lst=(0,), n=1, accrue=True)), ('second', second, {}), ('backstop', backstop_fills, {})]
    for r in REGIME: J.append(('fill/two/' + r, fill, dict(nl=2, regime=r)))
    return J
