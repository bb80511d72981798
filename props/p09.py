"""Auction pricing over time and partial fills."""
from props.lib_pool import *

BOUNDS = 'auctions of all three types with one asset on each side: any percentage, any age up to 2^31 blocks, amounts in [1, 2^80]; with two assets on a side: four fixed percentage/age combinations, one in each regime, amounts from 1000; two fills in a row of one auction with one asset on each side'
ASSUMPTIONS = ['fill percentages fit in 64 bits', 'the backstop accepts the donation and the draw it is asked for']


def common(h, w, d, ty, who, what, gone=False):
    P = lambda goal, s: h.prove(w, d, goal, what + ': ' + s)
    P(X.ge(w.pct, 1), 'at least 1 percent')
    P(X.le(w.pct, 100), 'at most 100 percent')
    P(X.le(w.au[2], w.seq), 'not before it starts')
    if gone: P(auc(w, d.store, ty, who) is None, 'an auction for debt that is written off is removed')
    else: check_left(h, w, d, ty, who, w.pct, w.au, what)


def took(w, d, side, a):
    k = 0 if side == 'bid' else 1
    return scaled(w, d, g(w.au[k], a), side, w.pct, w.au[2])[0]


def liq(h, **kw):
    w, done = scenario_fill_liq(h, **kw)
    for d in done:
        common(h, w, d, 0, OTHER, 'liquidation')
        pre = d.g['pre']
        L0, C0, S0 = w.pos_store(pre, USER)
        L1, C1, S1 = w.pos(d, USER)
        for i in range(w.nres):
            h.prove(w, d, X.eq(X.sub(g(L1, i), g(L0, i)), took(w, d, 'bid', ASSET[i])), 'liquidation: debt the filler takes over')
            h.prove(w, d, X.eq(X.sub(g(C1, i), g(C0, i)), took(w, d, 'lot', ASSET[i])), 'liquidation: collateral the filler receives')
    for d in done[-2:]: h.sample(w, d)


def bad(h, **kw):
    w, done = scenario_fill_bad(h, **kw)
    owed = lambda store: tsum([v for _, v in w.pos_store(store, BACKSTOP)[0].e])
    taken = lambda d: tsum([X.sub(g(w.pos(d, USER)[0], i), g(w.pos_store(d.g['pre'], USER)[0], i)) for i in range(w.nres)])
    # what the backstop loses beyond what the filler takes over is written off
    off = lambda d: X.gt(X.sub(owed(d.g['pre']), owed(d.store)), taken(d))
    for d in splits(done, lambda d: [off(d)]):
        common(h, w, d, 1, BACKSTOP, 'bad debt', settle(d, off(d)) is True)
        L0 = w.pos_store(d.g['pre'], USER)[0]
        L1 = w.pos(d, USER)[0]
        for i in range(w.nres):
            h.prove(w, d, X.eq(X.sub(g(L1, i), g(L0, i)), took(w, d, 'bid', ASSET[i])), 'bad debt: debt the filler takes over')
        draws = calls(d, 'draw')
        h.prove(w, d, X.eq(tsum([e[2][1] for e in draws]), took(w, d, 'lot', BTOKEN)), 'bad debt: backstop tokens the filler receives')
        for e in draws: h.prove(w, d, e[1] is BACKSTOP and e[2][0] is POOL and e[2][2] is USER, 'bad debt: drawn from this pool\'s backstop for the filler')
    for d in done[-2:]: h.sample(w, d)


def interest(h, **kw):
    w, done = scenario_fill_int(h, **kw)
    for d in done:
        common(h, w, d, 2, BACKSTOP, 'interest')
        dn = calls(d, 'donate')
        h.prove(w, d, X.eq(tsum([e[2][2] for e in dn]), took(w, d, 'bid', BTOKEN)), 'interest: backstop tokens the filler pays')
        for e in dn: h.prove(w, d, e[1] is BACKSTOP and e[2][0] is USER and e[2][1] is POOL, 'interest: donated by the filler to this pool\'s backstop')
        for i in range(w.nres):
            t = took(w, d, 'lot', ASSET[i])
            h.prove(w, d, X.eq(flow(d, ASSET[i], POOL, USER), t), 'interest: tokens the filler receives')
    for d in done[-2:]: h.sample(w, d)


def twice(h):
    """two partial fills: each is scaled from what the auction still holds"""
    w = pool(h, 2, status=0, max_positions=10)
    w.position(USER, (1,), (0,), ())
    w.position(OTHER, (1,), (0,), (), tag='liq')
    w.au = auction(w, 0, OTHER, [ASSET[1]], [ASSET[0]], block=X.sub(w.seq, 100))
    p, q = w.v('pct', 1, 100), w.v('pct2', 1, 100)
    s2 = X.add(w.seq, 150)
    for d in h.run(w, 'submit', USER, USER, USER, req_list(w, (6, OTHER, p))):
        au = auc(w, d.store, 0, OTHER)
        if au is None: continue
        d.ledger = dict(d.ledger, sequence=s2)
        seq, w.seq = w.seq, s2
        for e in h.run(w, 'submit', THIRD, THIRD, THIRD, req_list(w, (6, OTHER, q)), st=d):
            check_left(h, w, e, 0, OTHER, q, au, 'second fill')
            L1, C1, S1 = w.pos(e, THIRD)
            for a, v in au[0].e: h.prove(w, e, X.eq(g(L1, 1), scaled(w, e, v, 'bid', q, au[2])[0]), 'second fill: debt')
            for a, v in au[1].e: h.prove(w, e, X.eq(g(C1, 0), scaled(w, e, v, 'lot', q, au[2])[0]), 'second fill: collateral')
        w.seq = seq


def jobs(tier):
    J = [('fill_bad', bad, {}), ('fill_liq', liq, {}), ('fill_int', interest, {})]
    for r in REGIME:
        J += [('fill_bad/two/' + r, bad, dict(nl=2, regime=r)), ('fill_liq/two/' + r, liq, dict(nliq=2, regime=r)), ('fill_int/two/' + r, interest, dict(nl=2, regime=r))]
    J.append(('twice', twice, {}))
    J.append(('fill_liq/nopos', liq, dict(pos=False)))
    J.append(('fill_liq/split', liq, dict(roles='split', regime='early')))
    return J
