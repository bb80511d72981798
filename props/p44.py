"""A pool's tokens and loans cover its deposits and the backstop's credit: no operation but the write-off of bad debt lowers what is left over."""
from props.lib_pool import *
from props.lib_emis import put_emis
from props.p15 import any_config, put_queued, NEW

BOUNDS = 'one operation of every kind (lists of up to two lending requests, thorough: three) with any accrual that is due; balances and supplies up to 2^80, rates in [1, 100], decimals 7 and 9'
ASSUMPTIONS = ['a token transfer moves exactly the amount asked for']


def left(w, store, i):
    """what the pool's loans exceed the deposits and the credit by: the rest is in tokens"""
    r = {n: w.res_store(store, i, n) for n in ('d_supply', 'd_rate', 'b_supply', 'b_rate', 'backstop_credit')}
    return X.sub(X.cdiv(X.mul(r['d_supply'], r['d_rate']), S9), X.add(X.fdiv(X.mul(r['b_supply'], r['b_rate']), S9), r['backstop_credit']))


def covered(h, w, d, what, lost=None):
    for i in range(w.nres):
        gain = X.add(X.sub(flow(d, ASSET[i], to=POOL), flow(d, ASSET[i], frm=POOL)), X.sub(left(w, d.store, i), left(w, d.g['pre'], i)))
        x = 0
        if lost is not None: x = lost(d, i)
        h.prove(w, d, X.ge(gain, X.neg(x)), what + ': tokens and loans still cover deposits and credit')


def each(h, w, done, what, lost=None):
    for d in done: covered(h, w, d, what, lost)
    for d in done[:1]: h.sample(w, d)


def lend(h, reqs, pos='all', **kw):
    w, done = submit(h, reqs, pos=pos, **kw)
    each(h, w, done, ' '.join(NAMES_T[t] for t, _ in reqs))


def fill(h, f, what, **kw):
    w, done = f(h, **kw)

    def off(d, i):
        """value of the debt that leaves the backstop without reaching the filler"""
        L0, L1 = w.pos_store(d.g['pre'], BACKSTOP)[0], w.pos_store(d.store, BACKSTOP)[0]
        U0, U1 = w.pos_store(d.g['pre'], USER)[0], w.pos_store(d.store, USER)[0]
        n = X.sub(X.sub(g(L0, i), g(L1, i)), X.sub(g(U1, i), g(U0, i)))
        if settle(d, X.eq(n, 0)) is True: return 0
        return X.cdiv(X.mul(n, w.res(d, i, 'd_rate')), S9)
    each(h, w, done, what, off if what == 'fill/bad' else None)


def other(h, m, acc=True):
    w = pool(h, 2, accrue=acc)
    a = ()
    if m == 'new_liquidation_auction':
        w.position(OTHER, (0,), (1,), ())
        a = (OTHER, 37)
    elif m == 'new_bad_debt_auction': w.position(BACKSTOP, (0,), (), ())
    elif m == 'new_interest_auction': a = (SVec([ASSET[0]]),)
    elif m == 'bad_debt':
        w.position(OTHER, (0, 1), (), (1,))
        w.position(BACKSTOP, (0,), (), ())
        a = (OTHER,)
    elif m == 'update_pool': a = (w.v('rate', 0, S7 - 1), w.v('maxp', 2, 60))
    elif m.startswith('set_reserve'):
        x = NEW if m.endswith('new') else ASSET[0]
        put_queued(w, x)
        m, a = 'set_reserve', (x,)
    elif m == 'claim':
        w.position(USER, *POS['all'])
        for k in range(4): put_emis(w, k, [USER])
        a = (USER, SVec([0, 1]), USER)
    elif m == 'gulp_emissions':
        for k in (0, 1): put_emis(w, k)
        w.put('persistent', skey('PoolEmis'), w.prim('Map<u32,u64>'), SMap([(k, w.v('sh%d' % k, 1, 5000000)) for k in (0, 1)]))
    elif m == 'set_status': a = (w.v('s', 0, 6),)
    each(h, w, h.run(w, m, *a), m)


def jobs(tier):
    J = []
    for t in range(6):
        for dec in (7, 9) if t in (1, 4) else (7,): J.append(('%s/%d' % (NAMES_T[t], dec), lend, dict(reqs=[(t, 0)], decimals=dec)))
        J.append((NAMES_T[t] + '/accrue', lend, dict(reqs=[(t, 0)], accrue=True)))
    J.append(('split', lend, dict(reqs=[(3, 0)], roles='split')))
    two = [(0, 1), (1, 1), (4, 5), (5, 5), (2, 4), (3, 5), (4, 4), (5, 3)] if tier != 'thorough' else [(a, b) for a in range(6) for b in range(6)]
    for a, b in two: J.append(('%s-%s' % (NAMES_T[a], NAMES_T[b]), lend, dict(reqs=[(a, 0), (b, 0)], status=0)))
    J.append(('supply_coll-borrow/2', lend, dict(reqs=[(2, 0), (4, 1)], pos='two', status=0)))
    if tier == 'thorough':
        for a, b, c in ((0, 4, 5), (2, 4, 3), (5, 5, 5), (4, 5, 1)): J.append(('%s-%s-%s' % tuple(NAMES_T[x] for x in (a, b, c)), lend, dict(reqs=[(a, 0), (b, 0), (c, 0)], status=0)))
    for n, f in (('fill/liq', scenario_fill_liq), ('fill/bad', scenario_fill_bad), ('fill/int', scenario_fill_int)):
        J.append((n + '/full', fill, dict(f=f, what=n, regime='full')))
        J.append((n + '/late', fill, dict(f=f, what=n, regime='late')))
        if n != 'fill/bad' or tier == 'thorough': J.append((n, fill, dict(f=f, what=n)))
    J.append(('fill/int/accrue', fill, dict(f=scenario_fill_int, what='fill/int', regime='full', accrue=True)))
    for m in ('new_liquidation_auction', 'new_bad_debt_auction', 'new_interest_auction', 'update_pool', 'set_reserve/new', 'set_reserve/old', 'claim', 'gulp_emissions', 'set_status', 'update_status'):
        J.append((m, other, dict(m=m, acc=[0] if m == 'new_liquidation_auction' and tier != 'thorough' else True)))
    J.append(('bad_debt', other, dict(m='bad_debt', acc=False)))
    if tier == 'thorough': J.append(('bad_debt/accrue', other, dict(m='bad_debt', acc=[0])))
    return J
