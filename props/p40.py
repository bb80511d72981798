"""What meets its conditions is not refused."""
from props.lib_pool import *
from props.lib_emis import put_emis, econf, edata
from props.p15 import any_config, put_queued, NEW
from props import lib_back as LB

CRATES = ['pool', 'backstop']
BOUNDS = 'ordinary magnitudes: amounts and balances of 10^3 to 10^18, rates in [1, 3], prices of 1 (collateral and debt) and in [1, 10^9] (auctions), emissions below 2^60; every status in which the operation is open; interest of up to a month and the emissions of the token in question accrue first in a part of the harnesses'
ASSUMPTIONS = ['tokens, oracle and the LP pool do what is asked of them', 'the callers authorise their calls']


def open_(h, w, done, what, only=None):
    n = 0
    for d in done:
        if d.status == 'ok': n += 1
        else: h.never(w, d, '%s is refused (%s)' % (what, d.why.split('@')[0]))
    h.prove(w, w.st, n > 0, what + ' is never possible')
    for d in done:
        if d.status == 'ok':
            a = d.auths[d.g['hist'][-1]['auths']:]
            h.prove(w, d, len(a) == len(set(map(id, a))), what + ': an authorisation is asked for twice')
    for d in [d for d in done if d.status == 'ok'][:1]: h.sample(w, d)


def where(done, cond):
    """the paths on which the answers of the other contracts are ordinary"""
    from engine.machine import Dead
    out = []
    for d in done:
        if d.status != 'ok':
            c = cond(d)
            if c is not None:
                try: d.assume(c)
                except Dead: continue
        out.append(d)
    return out


def answers(d, f): return [e[4] for e in d.log if e[0] == f]


def between(w, x, lo, hi): w.st.assume(X.and_(X.ge(x, lo), X.le(x, hi)))


def tame(h, n=2, status=None, wide=False, **kw):
    w = pool(h, n, max_positions=10, **kw)
    if status is not None:
        w.st.assume(X.le(w.status, status))
    for i in range(n):
        r, c = w.data[i], w.cfg[i]
        for f in ('d_rate', 'b_rate'): w.st.assume(X.le(r[f], 3 * S9))
        between(w, r['b_supply'], 10**12 if wide else 10**16, 10**18)
        between(w, r['d_supply'], 1 if wide else 10**12, 10**18 if wide else 10**14)
        between(w, r['backstop_credit'], 0, 10**16)
        w.st.assume(X.and_(X.ge(c['c_factor'], 5000000), X.ge(c['l_factor'], 5000000)))
        if not wide: w.st.assume(X.ge(c['max_util'], 9000000))
    return w


def set_data(w, i): w.put('persistent', key('ResData', ASSET[i]), 'ReserveData', w.mk('ReserveData', **w.data[i]))


def one(w, i): w.st.assume(X.eq(w.price[ASSET[i]], S7))


def lending(h, ty, pos, **kw):
    """a single request of an account with ample collateral"""
    w = tame(h, 2, 1 if ty == 4 else 3 if ty in (0, 2) else None, **kw)
    for i in range(2): one(w, i)
    L, C, S = w.position(USER, *POS[pos])
    for v in L.values(): between(w, v, 10**6, 10**7)
    for v in list(C.values()) + list(S.values()): between(w, v, 10**11, 10**12)
    i = {5: next(iter(L), 0), 3: next(iter(C), 0), 1: next(iter(S), 0)}.get(ty, 0)
    a = w.v('amt', 1000, 10**7 if ty in (3, 4) else 10**15 if ty in (0, 2, 5) else 10**12)
    open_(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, (ty, ASSET[i], a)), reverts=True), 'a %s of an account with ample collateral' % NAMES_T[ty])


def late(h, ty, pos, **kw):
    """the same with emissions and interest to be accrued first"""
    w = tame(h, 1, 1 if ty == 4 else 3 if ty in (0, 2) else None, accrue=True, now=1_900_000_000, **kw)
    one(w, 0)
    r, c = w.data[0], w.cfg[0]
    between(w, r['last_time'], 1_900_000_000 - 31536000 // 12, 1_900_000_000)
    for f in ('r_base', 'r_one', 'r_two', 'r_three'): w.st.assume(X.le(c[f], S7))
    L, C, S = w.position(USER, *POS[pos])
    for v in L.values(): between(w, v, 10**6, 10**7)
    for v in list(C.values()) + list(S.values()): between(w, v, 10**11, 10**12)
    emissions(w, (int(ty not in (4, 5)),))
    a = w.v('amt', 1000, 10**7 if ty in (3, 4) else 10**15 if ty in (0, 2, 5) else 10**12)
    open_(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, (ty, ASSET[0], a)), reverts=True), 'a %s after some time' % NAMES_T[ty])


def emissions(w, ks):
    for k in ks:
        put_emis(w, k, [USER])
        exp, eps = econf(w, w.st.store, k)
        w.st.assume(X.and_(X.le(eps, 10**9), X.le(edata(w, w.st.store, k)[0], 10**15)))


def first(h, ty, emis):
    """the first deposit into a reserve, and the first borrow from one"""
    w = tame(h, 2, 1)
    for i in range(2): one(w, i)
    i = 0 if ty in (0, 2) else 1
    r = w.data[i]
    if ty in (0, 2): z = ('b_supply', 'd_supply', 'backstop_credit')
    else: z = ('d_supply',)
    for f in z: r[f] = 0
    set_data(w, i)
    if emis: emissions(w, (2 * i + (ty != 4),))
    if ty == 4:
        for v in w.position(USER, (), (0,), ())[1].values(): between(w, v, 10**11, 10**12)
    a = w.v('amt', 1000, 10**7 if ty == 4 else 10**15)
    open_(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, (ty, ASSET[i], a)), reverts=True), 'the first %s of a reserve' % NAMES_T[ty])


def out(h, which):
    """the last account repays and withdraws everything"""
    w = tame(h, 1)
    one(w, 0)
    L, C, S = w.position(USER, (0,) if which == 'both' else (), (0,), ())
    for v in L.values(): between(w, v, 10**6, 10**9)
    for v in C.values(): between(w, v, 10**10, 10**12)
    r = w.data[0]
    r.update(d_supply=L.get(0, 0), b_supply=C[0], backstop_credit=0)
    set_data(w, 0)
    if which != 'both': w.st.assume(X.eq(r['b_rate'], S9))
    rs = ([(5, ASSET[0], 10**17)] if which == 'both' else []) + [(3, ASSET[0], 10**17)]
    open_(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, *rs), reverts=True), 'the repayment and withdrawal of everything')


def within(h, pos):
    """a borrow that keeps within the maximum utilisation"""
    w = tame(h, 2, 1, wide=True)
    for i in range(2): one(w, i)
    r, c = w.data[0], w.cfg[0]
    L, C, S = w.position(USER, *POS[pos])
    for v in L.values(): between(w, v, 10**6, 10**7)
    for v in C.values(): between(w, v, 10**15, 10**16)
    a = w.v('amt', 1000, 10**14)
    ref = Res(w, w.st.store, 0)
    ref.d_supply = X.add(ref.d_supply, X.cdiv(X.mul(a, S9), ref.d_rate))
    w.st.assume(X.le(X.mul(ref.liab(), S7), X.mul(c['max_util'], ref.supply())))
    open_(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, (4, ASSET[0], a)), reverts=True), 'a borrow within the maximum utilisation')


def partial(h):
    """an account at a health of 0.94, of which 35 percent can be liquidated fairly"""
    w = tame(h)
    L, C, S = w.position(OTHER, (1,), (0,), (), tag='liq')
    for i in range(2):
        one(w, i)
        w.st.assume(X.and_(X.eq(w.data[i]['d_rate'], S9), X.eq(w.data[i]['b_rate'], S9), X.eq(w.cfg[i]['c_factor'], 7500000), X.eq(w.cfg[i]['l_factor'], 7500000)))
    between(w, C[0], 10**9, 10**11)
    w.st.assume(X.and_(X.ge(X.mul(L[1], 1000), X.mul(C[0], 599)), X.le(X.mul(L[1], 1000), X.mul(C[0], 601))))
    open_(h, w, h.run(w, 'new_liquidation_auction', OTHER, 35, reverts=True), 'a fair partial liquidation')


def bad_debt(h, who, bs):
    w = tame(h)
    for t, x, p in (('liq', OTHER, who), ('bs', BACKSTOP, bs)):
        if p:
            for v in w.position(x, p, (), (), tag=t)[0].values(): between(w, v, 1, 10**11)
    open_(h, w, h.run(w, 'bad_debt', OTHER, reverts=True), 'the transfer of a debt without collateral')


def create(h, f, n=1):
    w = tame(h)
    for i in range(2): between(w, w.price[ASSET[i]], 100, 10**9)
    if f == 'int':
        for i in range(n): w.st.assume(X.ge(X.mul(w.price[ASSET[i]], w.data[i]['backstop_credit']), 201 * S7 * S7))
        done = h.run(w, 'new_interest_auction', SVec(ASSET[:n]), reverts=True)
    elif f == 'bad':
        L = w.position(BACKSTOP, tuple(range(n)), (), (), tag='bs')[0]
        for i, v in L.items():
            between(w, v, 10**6, 10**11)
            w.st.assume(X.ge(X.mul(w.price[ASSET[i]], v), S7))
        done = h.run(w, 'new_bad_debt_auction', reverts=True)
    else:
        # an account that owes more than twice what its collateral is worth
        L, C, S = w.position(OTHER, (1,), (0,), (), tag='liq')
        for i in range(2): one(w, i)
        between(w, C[0], 10**6, 10**11)
        w.st.assume(X.and_(X.ge(L[1], X.mul(C[0], 8)), X.le(L[1], 10**12)))
        done = h.run(w, 'new_liquidation_auction', OTHER, 100, reverts=True)
    what = {'int': 'an interest auction of enough value', 'bad': 'a bad debt auction', 'liq': 'the liquidation of an account deep under water'}[f]
    def cond(d):
        pd = d.g.get('pd')
        return pd and X.and_(X.ge(pd[-1]['tokens'], 10**7), X.le(pd[-1]['tokens'], 10**17), X.ge(pd[-1]['usdc'], pd[-1]['tokens']), X.le(pd[-1]['usdc'], 10**17))
    done = where(done, cond)        # the backstop's own tokens are worth something
    open_(h, w, done, what)


def admin(h, f):
    w = tame(h)
    if f == 'queue/new': m, a = 'queue_set_reserve', (NEW, any_config(w, valid=True)[1])
    elif f == 'queue/old': m, a = 'queue_set_reserve', (ASSET[0], any_config(w, valid=True)[1])
    elif f.startswith('set/'):
        c, u = put_queued(w, NEW if f == 'set/new' else ASSET[0])
        w.st.assume(X.le(u, w.now))
        if f == 'set/old': w.st.assume(X.and_(X.eq(c['decimals'], 7), X.eq(c['index'], 0)))
        m, a = 'set_reserve', (NEW if f == 'set/new' else ASSET[0],)
    elif f == 'cancel':
        put_queued(w, ASSET[0])
        m, a = 'cancel_set_reserve', (ASSET[0],)
    elif f == 'update': m, a = 'update_pool', (w.v('rate', 0, S7 - 1), w.v('maxp', 2, 60))
    elif f == 'set_admin': m, a = 'set_admin', (OTHER,)
    elif f == 'emissions':
        s = [w.v('share%d' % k, 0, S7) for k in range(2)]
        w.st.assume(X.le(X.add(*s), S7))
        m, a = 'set_emissions_config', (SVec([w.mk('ReserveEmissionMetadata', res_index=k, res_type=w.v('rt%d' % k, 0, 1), share=s[k]) for k in range(2)]),)
    open_(h, w, h.run(w, m, *a, reverts=True), {'queue/new': 'a valid new configuration', 'queue/old': 'a valid changed configuration', 'set/new': 'setting an unlocked new reserve', 'set/old': 'setting an unlocked configuration',
                                             'cancel': 'cancelling', 'update': 'a valid update', 'set_admin': 'a change of the admin', 'emissions': 'a valid split of the emissions'}[f])


def emis(h, f, ids=(0, 1)):
    w = tame(h)
    w.position(USER, *POS['two'])
    L, C, S = w.pos_store(w.st.store, USER)
    for m in (L, C, S):
        for _, v in m.e: between(w, v, 1, 10**11)
    for k in ids: put_emis(w, k, [USER])
    if f == 'claim': m, a = 'claim', (USER, SVec(list(ids)), USER)
    else:
        w.put('persistent', skey('PoolEmis'), w.prim('Map<u32,u64>'), SMap([(k, w.v('sh%d' % k, 1, 5000000)) for k in ids]))
        m, a = 'gulp_emissions', ()
    done = h.run(w, m, *a, reverts=True)
    done = where(done, lambda d: X.and_(*[X.and_(X.ge(x, S7), X.le(x, 10**17)) for x in answers(d, 'gulp_pool_emissions')]))
    open_(h, w, done, {'claim': 'a claim of emissions', 'gulp': 'the collection of at least one token'}[f])


def back(h, m, first=False, emis=False):
    w = LB.bw(h, 1, now=1_900_000_000)
    A = LB.POOLS[0]
    if first:
        w.pool[A] = dict(free=0, queued=0, tokens=0)
        w.store_pool(A)
        if emis: w.put_emis(A, [])
    else:
        w.user(A, LB.USER, 1)
        p = w.pb(w.st.store, A)
        between(w, p['tokens'], 10**12, 10**18)
        between(w, p['shares'], 10**12, 10**18)
    a = w.v('amt', 10**7, 10**18)
    if m == 'draw': w.st.assume(X.le(a, w.pb(w.st.store, A)['tokens']))
    if m == 'dequeue_withdrawal': w.st.assume(X.le(a, w.ub(w.st.store, A, LB.USER)[1][0][0]))
    if m == 'queue_withdrawal': w.st.assume(X.le(a, w.ub(w.st.store, A, LB.USER)[0]))
    if m == 'withdraw':
        s, q = w.ub(w.st.store, A, LB.USER)
        w.st.assume(X.and_(X.le(q[0][1], w.now), X.le(a, q[0][0])))
    args = {'draw': (A, a, LB.THIRD), 'donate': (LB.USER, A, a)}.get(m, (LB.USER, A, a))
    done = h.run(w, m, *args, reverts=True)
    done = where(done, lambda d: X.and_(*answers(d, 'is_pool')))        # the factory knows the pool
    open_(h, w, done, '%s of an ordinary amount' % m)


def back_claim(h, to):
    w = LB.bw(h, 1)
    A = LB.POOLS[0]
    w.user(A, LB.USER, 1)
    if to is not LB.USER: w.user(A, to, 0)
    w.put_emis(A, [LB.USER, to] if to is not LB.USER else [LB.USER], active=True)
    p = w.pb(w.st.store, A)
    between(w, p['tokens'], 10**12, 10**18)
    between(w, p['shares'], 10**12, 10**18)
    i, last = w.ed(w.st.store, A)
    w.st.assume(X.le(i, 10**9))
    w.st.assume(X.le(w.ec(w.st.store, A)[1], 10**7))
    for u in {LB.USER, to}: w.st.assume(X.le(w.ue(w.st.store, A, u)[1], 10**16))
    done = h.run(w, 'claim', LB.USER, SVec([A]), to, reverts=True)
    done = where(done, lambda d: X.and_(*[X.and_(X.ge(x, 10**7), X.le(x, 10**15)) for x in answers(d, 'dep_tokn_amt_in_get_lp_tokns_out')]))
    open_(h, w, done, 'a claim of backstop emissions')


def jobs(tier):
    J = []
    for ty in range(6):
        for pos in {0: ('none', 'lc'), 1: ('all',), 2: ('none', 'lc'), 3: ('c0', 'lc'), 4: ('c0', 'lc'), 5: ('l0', 'lc')}[ty]: J.append(('%s/%s' % (NAMES_T[ty], pos), lending, dict(ty=ty, pos=pos)))
    for who, bs in (((0,), ()), ((0, 1), ()), ((0, 1), (0,))): J.append(('bad_debt/%d%d' % (len(who), len(bs)), bad_debt, dict(who=who, bs=bs)))
    J += [('new/int', create, dict(f='int')), ('new/int/two', create, dict(f='int', n=2)), ('new/bad', create, dict(f='bad')), ('new/bad/two', create, dict(f='bad', n=2)), ('new/liq', create, dict(f='liq'))]
    J += [('admin/' + f, admin, dict(f=f)) for f in ('queue/new', 'queue/old', 'set/new', 'set/old', 'cancel', 'update', 'set_admin', 'emissions')]
    J += [('within/' + p, within, dict(pos=p)) for p in ('c0', 'cl')] + [('partial', partial, {})]
    for ty in (0, 1, 2, 3, 5): J.append(('late/' + NAMES_T[ty], late, dict(ty=ty, pos={1: 'all', 3: 'c0', 5: 'l0'}.get(ty, 'none'))))
    for ty in (0, 2, 4): J += [('first/%s/%d' % (NAMES_T[ty], e), first, dict(ty=ty, emis=e)) for e in (0, 1)]
    J += [('out/' + x, out, dict(which=x)) for x in ('both', 'coll')]
    J += [('emis/claim', emis, dict(f='claim')), ('emis/gulp', emis, dict(f='gulp'))]
    J += [('backstop/' + m, back, dict(m=m)) for m in ('deposit', 'queue_withdrawal', 'dequeue_withdrawal', 'withdraw', 'draw', 'donate')] + [('backstop/deposit/first', back, dict(m='deposit', first=True)), ('backstop/deposit/first/emissions', back, dict(m='deposit', first=True, emis=True))]
    J += [('backstop/claim', back_claim, dict(to=LB.USER)), ('backstop/claim/other', back_claim, dict(to=LB.OTHER))]
    return J
