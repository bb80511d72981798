"""Open auctions stay backed by what they sell."""
from props.lib_pool import *
from props.lib_emis import put_emis
from props.p15 import any_config, put_queued, NEW

BOUNDS = 'one operation of every kind on a pool in which one auction of each type is open, with up to two assets on each side; two requests by the auctioned account; fills of any part at any age'
ASSUMPTIONS = ['before the operation every open auction is backed (creation is shown to establish this)', 'fill percentages fit in 64 bits']
A01 = [ASSET[0], ASSET[1]]


def backed(w, store, credit=True):
    """[(what, condition)] for every open auction"""
    out = []
    for ty, who, what in ((0, OTHER, 'liquidation'), (1, BACKSTOP, 'bad debt auction')):
        a = auc(w, store, ty, who)
        if a is None: continue
        L, C, _ = w.pos_store(store, who)
        for n, m, P in (('debt', a[0], L), ('collateral', a[1], C)):
            if ty == 1 and n == 'collateral': continue
            for x, v in m.e: out.append(('%s of asset %d in the %s is still there' % (n, ASSET.index(x), what), X.le(v, g(P, ASSET.index(x)))))
    a = auc(w, store, 2, BACKSTOP)
    if a is not None and credit:
        for x, v in a[1].e: out.append(('credit of asset %d in the interest auction is still there' % ASSET.index(x), X.le(v, w.res_store(store, ASSET.index(x), 'backstop_credit'))))
    return out


def world(h, n=2, types=(0, 1, 2), age=None, **kw):
    w = pool(h, 2, **kw)
    st = w.st
    ids, at = tuple(range(n)), A01[:n]
    w.position(OTHER, ids, ids, (0,), tag='liq')
    w.position(BACKSTOP, ids, (), (), tag='bs')
    start = w.v('start', 900, 2**31) if age is None else X.sub(w.seq, age)
    for ty in types:
        who = BACKSTOP if ty else OTHER
        auction(w, ty, who, [BTOKEN] if ty == 2 else at, [BTOKEN] if ty == 1 else at, tag='au%d' % ty, block=start)
    for _, c in backed(w, st.store): st.assume(c)
    return w


def hold(h, w, done, what):
    for d in done:
        for n, c in backed(w, d.store): h.prove(w, d, c, '%s: %s' % (what, n))
    for d in done[:1]: h.sample(w, d)


def lend(h, who, reqs, pos='two', **kw):
    w = world(h, **kw)
    if who is not OTHER: w.position(who, *POS[pos])
    rs = [(t, ASSET[i], w.v('amt%d' % k, 0, 2**100)) for k, (t, i) in enumerate(reqs)]
    done = h.run(w, 'submit', who, who, who, req_list(w, *rs))
    hold(h, w, done, '+'.join(NAMES_T[t] for t, _ in reqs) + (' by the auctioned account' if who is OTHER else ''))


def fill(h, ty, n=1, regime=None):
    w = world(h, n, types=(0, 1, 2) if n == 1 else (ty,), age=REGIME[regime][1] if regime else None)
    pct = REGIME[regime][0] if regime else w.v('pct', 0, 2**64 - 1)
    w.position(USER, (1,), (0,), ())
    hold(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, (6 + ty, BACKSTOP if ty else OTHER, pct))), NAMES_T[6 + ty])


def take_rate(h, lower):
    """interest that is part of the lot becomes credit later; the take rate can change in between"""
    w = pool(h, 1, status=0, accrue=True, now=1_700_000_000, cfg=dict(c_factor=9000000, l_factor=9000000, util=7500000, max_util=9500000, r_base=100000, r_one=500000, r_two=5000000, r_three=15000000, reactivity=1000))
    w.put('persistent', key('ResData', ASSET[0]), 'ReserveData', w.mk('ReserveData', d_rate=S9, b_rate=S9, ir_mod=S9, b_supply=10**15, d_supply=9 * 10**14, backstop_credit=w.v('credit', 0, 10**12), last_time=1_690_000_000))
    w.price[ASSET[0]] = S7
    w.x_pool_data = lambda st, addr, args, rty: w.mk('PoolBackstopData', tokens=10**14, q4w_pct=0, blnd=10**14, usdc=10**13)
    rate = w.v('new_rate', 0, S7 - 1)
    w.st.assume(X.lt(rate, w.bstop_rate) if lower else X.ge(rate, w.bstop_rate))
    done = h.run(w, 'new_interest_auction', SVec([ASSET[0]]))
    n = 0
    for d in done:
        for e in h.run(w, 'update_pool', rate, 4, st=d):
            e.ledger = dict(e.ledger, sequence=X.add(w.seq, 201))
            for f in h.run(w, 'submit', USER, USER, USER, req_list(w, (8, BACKSTOP, 100)), st=e):
                n += 1
                h.prove(w, f, X.ge(w.res(f, 0, 'backstop_credit'), 0), 'a filled interest auction has not paid out more than the credit')
                if not lower: h.sample(w, f)
    if not n: h.undecided.append('no successful run')


def create(h, m, accrue=False):
    liq = m == 'new_liquidation_auction'
    w = pool(h, 1 if liq and accrue else 2, accrue=accrue)
    a = ()
    if liq:
        w.position(OTHER, *POS['all' if accrue else 'two'])
        a = (OTHER, 37 if accrue else w.v('pct', 0, 100))
    elif m == 'new_bad_debt_auction': w.position(BACKSTOP, (0, 1), (), ())
    else: a = (SVec(A01[:1] if accrue else A01),)
    done = h.run(w, m, *a)
    for d in done:
        assert any(auc(w, d.store, t, u) for t, u in ((0, OTHER), (1, BACKSTOP), (2, BACKSTOP)))
        if m != 'new_interest_auction' or not accrue: hold(h, w, [d], m)
        else:
            # the credit that is auctioned is what the reserve has once its interest is stored
            for e in h.run(w, 'submit', THIRD, THIRD, THIRD, req_list(w, (0, ASSET[0], 10**9)), st=d): hold(h, w, [e], m)


def plain_op(h, m):
    w = world(h, status=0, max_positions=10)
    a = ()
    if m == 'delete':
        m, a = 'submit', (OTHER, OTHER, OTHER, req_list(w, (9, OTHER, 0)))
    elif m == 'bad_debt':
        a = (OTHER,)
    elif m == 'bad_debt/third':
        w.position(THIRD, (0, 1), (), ())
        m, a = 'bad_debt', (THIRD,)
    elif m == 'new_liquidation_auction':
        w.position(USER, (0,), (1,), ())
        a = (USER, 37)
    elif m == 'set_admin': a = (OTHER,)
    elif m == 'update_pool': a = (w.v('rate', 0, S7 - 1), w.v('maxp', 2, 60))
    elif m == 'queue_set_reserve': a = (ASSET[0], any_config(w, valid=True)[1])
    elif m == 'set_reserve':
        put_queued(w, ASSET[0])
        a = (ASSET[0],)
    elif m == 'set_reserve/new':
        put_queued(w, NEW)
        m, a = 'set_reserve', (NEW,)
    elif m == 'set_status': a = (w.v('s', 0, 6),)
    elif m == 'set_emissions_config': a = (SVec([w.mk('ReserveEmissionMetadata', res_index=0, res_type=1, share=w.v('share', 0, S7))]),)
    elif m == 'claim':
        for k in range(4): put_emis(w, k, [OTHER])
        a = (OTHER, SVec([0, 1]), OTHER)
    elif m == 'gulp_emissions':
        for k in (0, 1): put_emis(w, k)
        w.put('persistent', skey('PoolEmis'), w.prim('Map<u32,u64>'), SMap([(k, w.v('sh%d' % k, 1, 5000000)) for k in (0, 1)]))
    hold(h, w, h.run(w, m, *a), m)


def jobs(tier):
    J = [('%s/other' % NAMES_T[t], lend, dict(who=USER, reqs=[(t, 0)])) for t in range(6)]
    J += [('%s/own' % NAMES_T[t], lend, dict(who=OTHER, reqs=[(t, 0)])) for t in range(6)]
    J += [('%s/accrue' % NAMES_T[t], lend, dict(who=USER, reqs=[(t, 0)], n=1, pos='all', accrue=True, types=(2,))) for t in (0, 4, 5)]
    J += [('%s+%s/own' % (NAMES_T[a], NAMES_T[b]), lend, dict(who=OTHER, reqs=[(a, 0), (b, 1)])) for a in (0, 2, 4) for b in (0, 2, 4)]
    J += [('fill/' + NAMES_T[6 + t], fill, dict(ty=t)) for t in range(3)]
    J += [('fill/%s/two/%s' % (NAMES_T[6 + t], r), fill, dict(ty=t, n=2, regime=r)) for t in range(3) for r in REGIME]
    J += [('take_rate/%s' % n, take_rate, dict(lower=l)) for n, l in (('lower', True), ('higher', False))]
    J += [(m, create, dict(m=m)) for m in ('new_liquidation_auction', 'new_bad_debt_auction', 'new_interest_auction')]
    J += [(m + '/accrue', create, dict(m=m, accrue=True)) for m in ('new_liquidation_auction', 'new_bad_debt_auction', 'new_interest_auction')]
    J += [('op/' + m, plain_op, dict(m=m)) for m in ('delete', 'bad_debt', 'bad_debt/third', 'new_liquidation_auction', 'set_admin', 'update_pool', 'update_status', 'set_status', 'queue_set_reserve', 'set_reserve', 'set_reserve/new', 'set_emissions_config', 'claim', 'gulp_emissions')]
    return J
