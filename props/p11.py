"""Filling a liquidation moves positions from the liquidated account to the filler, and nothing else."""
from props.lib_pool import *

BOUNDS = 'liquidation fills with one asset on each side (any percentage and age) and two assets on each side (four fixed percentage/age combinations); the filler with and without positions, separate sender and receiver; balances in [1, 2^80]'
ASSUMPTIONS = ['no reserve emissions configured (P18 and P21 cover emissions)']


def fill(h, **kw):
    w, done = scenario_fill_liq(h, **kw)
    for d in done:
        pre = d.g['pre']
        P = lambda goal, t: h.prove(w, d, goal, t)
        a0, a1 = w.pos_store(pre, OTHER), w.pos(d, OTHER)
        f0, f1 = w.pos_store(pre, USER), w.pos(d, USER)
        bid, lot, _ = w.au
        for i in range(w.nres):
            for k, name in ((0, 'debt'), (1, 'collateral'), (2, 'supply')):
                lost = X.sub(g(a0[k], i), g(a1[k], i))
                got = X.sub(g(f1[k], i), g(f0[k], i))
                P(X.eq(lost, got), 'the filler takes exactly what the account gives: ' + name)
                if k == 2: P(X.eq(lost, 0), 'plain deposits are not part of a liquidation')
                else:
                    P(X.ge(got, 0), 'nothing flows back: ' + name)
                    P(X.le(got, g((bid, lot)[k], ASSET[i])), 'at most what the auction offers: ' + name)
                    P(X.ge(g(a1[k], i), 0), 'no overdrawn account')
        for i in range(w.nres):
            for n in NAMES: P(X.eq(w.res(d, i, n), w.res_store(pre, i, n)), 'reserve totals and rates stay: ' + n)
        for (t, x, y), v in all_flows(d).items(): P(X.eq(v, 0), 'a liquidation moves no tokens')
        P(not calls(d, 'draw') and not calls(d, 'donate'), 'the backstop is not involved')
        ok = {akey(0, OTHER), key('Positions', OTHER), key('Positions', USER)} | {key('ResData', ASSET[i]) for i in range(w.nres)}
        unchanged(h, w, d, ok, 'fill')
    for d in done[-2:]: h.sample(w, d)


def self_fill(h, ty):
    w = pool(h, 2)
    w.position(USER, (1,), (0,), ())
    auction(w, ty, USER, [ASSET[1]], [ASSET[0]])
    for d in h.run(w, 'submit', USER, USER, USER, req_list(w, (6 + ty, USER, w.v('pct', 0, 2**64 - 1)))): h.never(w, d, 'an account fills its own auction')


def none(h):
    w = pool(h, 2)
    w.position(USER, (1,), (0,), ())
    w.position(OTHER, (1,), (0,), (), tag='liq')
    for d in h.run(w, 'submit', USER, USER, USER, req_list(w, (6, OTHER, w.v('pct', 0, 2**64 - 1)))): h.never(w, d, 'a fill without an auction')


def mixed(h, ty, first):
    """a fill together with a lending request of the filler in one submission"""
    w = pool(h, 2, status=0, max_positions=10)
    w.position(USER, (1,), (0,), ())
    w.position(OTHER, (1,), (0,), (0,), tag='liq')
    w.au = auction(w, 0, OTHER, [ASSET[1]], [ASSET[0]], block=X.sub(w.seq, 150))
    for m in w.au[:2]:
        for k, v in m.e: w.st.assume(X.ge(v, 1000))
    a = w.v('amt', 0, 2**100)
    i = 0 if ty in (2, 3) else 1
    rs = [(6, OTHER, 40), (ty, ASSET[i], a)]
    if not first: rs = rs[::-1]
    for d in h.run(w, 'submit', USER, USER, USER, req_list(w, *rs)):
        pre = d.g['pre']
        a0, a1 = w.pos_store(pre, OTHER), w.pos(d, OTHER)
        bid = scaled(w, d, g(w.au[0], ASSET[1]), 'bid', 40, w.au[2])[0]
        lot = scaled(w, d, g(w.au[1], ASSET[0]), 'lot', 40, w.au[2])[0]
        P = lambda goal, t: h.prove(w, d, goal, t)
        P(X.eq(X.sub(g(a0[0], 1), g(a1[0], 1)), bid), 'with a request alongside: debt taken over')
        P(X.eq(X.sub(g(a0[1], 0), g(a1[1], 0)), lot), 'with a request alongside: collateral given')
        # the filler: exactly the fill plus the request
        ref = Ref(w, pre, USER, 2, None, d)

        def take():
            ref.L[1] = X.add(ref.L[1], bid)
            ref.C[0] = X.add(ref.C[0], lot)
        if first: take()
        ref.req(ty, i, a)
        if not first: take()
        L, C, S = w.pos(d, USER)
        for k in range(2):
            P(X.eq(g(L, k), ref.L[k]), 'with a request alongside: the filler\'s debt')
            P(X.eq(g(C, k), ref.C[k]), 'with a request alongside: the filler\'s collateral')
            P(X.eq(g(S, k), ref.S[k]), 'with a request alongside: the filler\'s supply')
            P(X.eq(w.res(d, k, 'b_supply'), ref.r[k].b_supply), 'with a request alongside: deposits')
            P(X.eq(w.res(d, k, 'd_supply'), ref.r[k].d_supply), 'with a request alongside: debts')


def jobs(tier):
    J = [('one', fill, {}), ('one/nopos', fill, dict(pos=False))]
    for r in REGIME: J.append(('two/' + r, fill, dict(nliq=2, regime=r)))
    J.append(('split', fill, dict(roles='split', regime='mid')))
    for t in (0, 1, 2): J.append(('self/%d' % t, self_fill, dict(ty=t)))
    J.append(('none', none, {}))
    for ty in (2, 3, 4, 5):
        for first in (True, False): J.append(('mixed/%s/%d' % (NAMES_T[ty], first), mixed, dict(ty=ty, first=first)))
    return J
