"""Scenarios and reference formulas for the pool's properties."""
from engine.poolw import *
from engine.vals import *
from engine import expr as X

ROLES = {'same': (USER, USER, USER), 'split': (USER, OTHER, THIRD)}
NAMES_T = ['supply', 'withdraw', 'supply_coll', 'withdraw_coll', 'borrow', 'repay', 'fill_liq', 'fill_bad', 'fill_int', 'delete']


def g(m, k): return smap_get(m, k)


def flow(st, token=None, frm=None, to=None, since=None):
    """sum of the token movements the contract asked for"""
    r = 0
    n = 0
    for e in st.log[st.g['pre_log'] if since is None else since:]:
        f, a, args = e[0], e[1], e[2]
        if f == 'transfer': x, y, amt = args
        elif f == 'transfer_from': x, y, amt = args[1:]
        else: continue
        if (token is None or a is token) and (frm is None or x is frm) and (to is None or y is to):
            r = X.add(r, amt)
            n += 1
    return r


def all_flows(st, since=None):
    out = {}
    for e in st.log[st.g['pre_log'] if since is None else since:]:
        f, a, args = e[0], e[1], e[2]
        if f == 'transfer': x, y, amt = args
        elif f == 'transfer_from': x, y, amt = args[1:]
        else: continue
        k = (a, x, y)
        out[k] = X.add(out.get(k, 0), amt)
    return out


# ---------------------------------------------------------------- reference model
class Res:
    """reference reserve: the stored numbers as terms"""

    def __init__(s, w, store, i):
        s.w, s.i = w, i
        s.asset = ASSET[i]
        c = store['persistent'][key('ResConfig', s.asset)][0]
        for f in 'index decimals c_factor l_factor util max_util r_base r_one r_two r_three reactivity'.split():
            setattr(s, f, w.get('ReserveConfig', c, f))
        d = store['persistent'][key('ResData', s.asset)][0]
        for f in NAMES: setattr(s, f, w.get('ReserveData', d, f))
        s.scalar = 10 ** s.decimals

    def assets_d(s, n): return X.cdiv(X.mul(n, s.d_rate), S9)
    def assets_b(s, n): return X.fdiv(X.mul(n, s.b_rate), S9)
    def liab(s): return s.assets_d(s.d_supply)
    def supply(s): return s.assets_b(s.b_supply)
    def util_now(s): return X.cdiv(X.mul(s.liab(), S7), s.supply())

    def rate(s, u):
        """the yearly rate (7 decimals) at utilisation u: three segments"""
        t = s.util
        seg1 = X.cdiv(X.mul(X.add(X.cdiv(X.mul(X.cdiv(X.mul(u, S7), t), s.r_one), S7), s.r_base), s.ir_mod), S9)
        seg2 = X.cdiv(X.mul(X.add(X.add(X.cdiv(X.mul(X.cdiv(X.mul(X.sub(u, t), S7), X.sub(9500000, t)), s.r_two), S7), s.r_one), s.r_base), s.ir_mod), S9)
        seg3 = X.add(X.cdiv(X.mul(X.cdiv(X.mul(X.sub(u, 9500000), S7), 500000), s.r_three), S7),
                     X.cdiv(X.mul(s.ir_mod, X.add(X.add(s.r_two, s.r_one), s.r_base)), S9))
        return seg1, seg2, seg3


def settle(st, c):
    """True/False when the path decides c (linear reasoning), else None"""
    from engine import solve
    if c is True or c is False: return c
    if st.known(c) is True: return True
    if not solve.feasible(st.pc, X.not_(c)): return True
    if st.known(X.not_(c)) is True or not solve.feasible(st.pc, c): return False
    return None


def split(d, conds):
    """the same path under each combination of the conditions that it leaves open"""
    from engine.machine import Dead
    out = [d]
    for f in conds:
        nxt = []
        for e in out:
            c = f(e) if callable(f) else f
            s = settle(e, c)
            if s is not None:
                nxt.append(e)
                continue
            for q in (c, X.not_(c)):
                n = e.copy()
                try: n.assume(q)
                except Dead: continue
                nxt.append(n)
        out = nxt
    return out


def splits(done, conds):
    for d in done:
        if d.status != 'ok': yield d
        else: yield from split(d, conds(d))


def accr_conds(w, store, i):
    """the cases that accrual distinguishes"""
    def used(e):
        r = Res(w, store, i)
        return True if settle(e, X.gt(r.b_supply, 0)) is not True else X.eq(r.util_now(), 0)
    return [X.eq(w.res_store(store, i, 'last_time'), w.now), X.eq(w.res_store(store, i, 'b_supply'), 0), used]


def cases(st, c, a, b):
    """a if c else b, by thunks, with the condition settled on the path where possible"""
    d = settle(st, c)
    if d is True: return a()
    if d is False: return b()
    a, b = a(), b()
    if isinstance(a, (X.E, int)) and isinstance(b, (X.E, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        # the two agree where the path leaves the case open (a boundary the code puts on the other side)
        differ = X.not_(X.eq(a, b))
        if not settle_feasible(st, X.and_(c, differ)): return b
        if not settle_feasible(st, X.and_(X.not_(c), differ)): return a
    return X.ite(c, a, b)


def settle_feasible(st, c):
    from engine import solve
    return c is True or c is not False and solve.feasible(st.pc, c)


def accrued(w, st, store, i, now):
    """reference reserve i after accrual up to now.
    The cases are settled by asking the solver about the path condition, so this does not depend on how the code branches."""
    r = Res(w, store, i)
    r.accr = r.ir = None
    r.cut = r.inc = 0
    if now is r.last_time or settle(st, X.eq(r.last_time, now)): return r
    if settle(st, X.lt(r.last_time, now)) is not True: return None
    r0 = r.last_time
    r.last_time = now
    e = settle(st, X.eq(r.b_supply, 0))
    if e: return r
    if e is None and settle(st, X.gt(r.b_supply, 0)) is not True: return None
    u = r.util_now()
    e = settle(st, X.eq(u, 0))
    if e: return r
    if e is None: return None
    seg = r.rate(u)
    dt = X.sub(now, r0)
    ir = cases(st, X.le(u, r.util), lambda: seg[0], lambda: cases(st, X.le(u, 9500000), lambda: seg[1], lambda: seg[2]))
    r.ir = ir
    tw = X.fdiv(X.mul(dt, S9), 31536000)
    accr = X.add(S9, X.cdiv(X.mul(tw, X.mul(ir, 100)), S9))
    # the rate modifier follows the utilisation error
    err = X.mul(X.sub(u, r.util), 100)

    def down():
        nxt = X.add(r.ir_mod, X.cdiv(X.mul(X.mul(dt, err), r.reactivity), S7))
        return cases(st, X.lt(nxt, S9 // 10), lambda: S9 // 10, lambda: nxt)

    def up():
        nxt = X.add(r.ir_mod, X.fdiv(X.mul(X.mul(dt, err), r.reactivity), S7))
        return cases(st, X.gt(nxt, 10 * S9), lambda: 10 * S9, lambda: nxt)
    r.ir_mod = cases(st, X.ge(err, 0), up, down)
    sup0, li0 = r.supply(), r.liab()
    r.d_rate = X.cdiv(X.mul(accr, r.d_rate), S9)
    r.accr = accr
    inc = X.sub(r.liab(), li0)
    r.inc = inc
    pos = settle(st, X.gt(inc, 0))
    if pos is False: return r
    cut = X.fdiv(X.mul(inc, w.bstop_rate), S7)
    if settle(st, X.eq(w.bstop_rate, 0)): cut = 0
    br = X.fdiv(X.mul(X.sub(X.add(sup0, inc), cut), S9), r.b_supply)
    if pos is None:
        cut, br = X.ite(X.gt(inc, 0), cut, 0), X.ite(X.gt(inc, 0), br, r.b_rate)
    r.cut = cut
    r.backstop_credit = X.add(r.backstop_credit, cut)
    r.b_rate = br
    return r


def accrued_as_stored(w, st, i):
    """reserve i before the requests, at the rates the contract stored at the end (P04 and P05 decide whether those are right)"""
    r = Res(w, st.g['pre'], i)
    for n in ('d_rate', 'b_rate', 'ir_mod', 'backstop_credit', 'last_time'): setattr(r, n, w.res(st, i, n))
    return r


class Ref:
    """reference effect of lending requests on one account"""

    def __init__(s, w, store, who, nres, reserves=None, st=None):
        s.w = w
        L, C, S = w.pos_store(store, who)
        n = range(nres)
        s.L = {i: g(L, i) for i in n}
        s.C = {i: g(C, i) for i in n}
        s.S = {i: g(S, i) for i in n}
        s.r = reserves or [Res(w, store, i) for i in n]
        s.paid = {i: 0 for i in n}
        s.out = {i: 0 for i in n}
        s.ite = (lambda c, a, b: cases(st, c, lambda: a, lambda: b)) if st is not None else X.ite

    def req(s, ty, i, a):
        r = s.r[i]
        if ty in (0, 2):
            m = X.fdiv(X.mul(a, S9), r.b_rate)
            P = s.S if ty == 0 else s.C
            P[i] = X.add(P[i], m)
            r.b_supply = X.add(r.b_supply, m)
            s.paid[i] = X.add(s.paid[i], a)
        elif ty in (1, 3):
            P = s.S if ty == 1 else s.C
            cur = P[i]
            need = X.cdiv(X.mul(a, S9), r.b_rate)
            cap = X.gt(need, cur)
            burn = s.ite(cap, cur, need)
            out = s.ite(cap, r.assets_b(cur), a)
            P[i] = X.sub(cur, burn)
            r.b_supply = X.sub(r.b_supply, burn)
            s.out[i] = X.add(s.out[i], out)
        elif ty == 4:
            m = X.cdiv(X.mul(a, S9), r.d_rate)
            s.L[i] = X.add(s.L[i], m)
            r.d_supply = X.add(r.d_supply, m)
            s.out[i] = X.add(s.out[i], a)
        elif ty == 5:
            cur = s.L[i]
            m = X.fdiv(X.mul(a, S9), r.d_rate)
            cap = X.gt(m, cur)
            burn = s.ite(cap, cur, m)
            s.L[i] = X.sub(cur, burn)
            r.d_supply = X.sub(r.d_supply, burn)
            s.paid[i] = X.add(s.paid[i], a)
            s.out[i] = X.add(s.out[i], s.ite(cap, X.sub(a, r.assets_d(cur)), 0))


def health(w, res, L, C):
    """(weighted collateral value, weighted liability value) in the oracle's units"""
    cb = lb = 0
    for i, r in enumerate(res):
        p = w.price[ASSET[i]]
        c, l = C.get(i, 0), L.get(i, 0)
        if not (type(c) is int and c == 0):
            cb = X.add(cb, X.fdiv(X.mul(p, X.fdiv(X.mul(r.assets_b(c), r.c_factor), S7)), r.scalar))
        if not (type(l) is int and l == 0):
            lb = X.add(lb, X.cdiv(X.mul(p, X.cdiv(X.mul(r.assets_d(l), S7), r.l_factor)), r.scalar))
    return cb, lb


def health_raw(w, res, L, C):
    cb = lb = 0
    for i, r in enumerate(res):
        p = w.price[ASSET[i]]
        c, l = C.get(i, 0), L.get(i, 0)
        if not (type(c) is int and c == 0): cb = X.add(cb, X.fdiv(X.mul(p, r.assets_b(c)), r.scalar))
        if not (type(l) is int and l == 0): lb = X.add(lb, X.cdiv(X.mul(p, r.assets_d(l)), r.scalar))
    return cb, lb


# ---------------------------------------------------------------- scenarios
def pool(h, nres=1, **kw): return PoolWorld(h.prog('pool'), nres, **kw)


POS = {
    'none': ((), (), ()),
    'all': ((0,), (0,), (0,)),
    'two': ((0, 1), (0, 1), (0, 1)),
    'lc': ((0,), (1,), ()),
    'cl': ((1,), (0,), ()),
    's0c1': ((), (1,), (0,)),
    'l0': ((0,), (), ()),
    'c0': ((), (0,), ()),
    'l0c01': ((0,), (0, 1), ()),
    'l1c01': ((1,), (0, 1), ()),
    'l01c0': ((0, 1), (0,), ()),
    'l01c1': ((0, 1), (1,), ()),
    # reserves far down the list of a pool with many
    'far': ((0,), (11,), ()),
    'rfar': ((11,), (0,), ()),
    'last': ((31,), (16,), ()),
}


def submit(h, reqs, pos='all', nres=None, roles='same', w=None, emis=False, **kw):
    """reqs: list of (type, reserve index or Addr); amounts are unknowns"""
    if nres is None: nres = max([2 if pos in ('two', 'lc', 'cl', 's0c1') else 1] + [r[1] + 1 for r in reqs if isinstance(r[1], int)])
    if w is None:
        w = pool(h, nres, **kw)
    if pos is not None and POS[pos] != ((), (), ()): w.position(USER, *POS[pos])
    rs, w.amts = [], []
    for k, (ty, i) in enumerate(reqs):
        if ty in (6, 7, 8): a = w.v('pct%d' % k, 0, 2**64 - 1)
        else: a = w.v('amt%d' % k, -2**100, 2**100)
        w.amts.append(a)
        rs.append(w.request(ty, ASSET[i] if isinstance(i, int) else i, a))
    f, sp, to = ROLES[roles]
    return w, h.run(w, 'submit', f, sp, to, SVec(rs))


def auction(w, ty, who, bid, lot, tag='auc', block=None):
    """a stored auction: unknown positive amounts"""
    b = SMap([(a, w.v('%s.bid.%s' % (tag, a.name), 1, MAXAMT)) for a in sorted(bid, key=lambda a: a.ord)])
    l = SMap([(a, w.v('%s.lot.%s' % (tag, a.name), 1, MAXAMT)) for a in sorted(lot, key=lambda a: a.ord)])
    blk = w.v(tag + '.block', 900, 2**31) if block is None else block
    w.put('temporary', akey(ty, who), 'AuctionData', w.mk('AuctionData', bid=b, lot=l, block=blk))
    return b, l, blk


def akey(ty, who): return key('Auction', kmap(auct_type=ty, user=who))


def auc(w, store, ty, who):
    e = store['temporary'].get(akey(ty, who))
    if e is None: return None
    return tuple(w.get('AuctionData', e[0], f) for f in ('bid', 'lot', 'block'))


def req_list(w, *rs): return SVec([w.request(*r) for r in rs])


REGIME = {'early': (37, 73), 'mid': (61, 291), 'late': (99, 400), 'full': (100, 200)}      # percent, blocks since the start


def plain(w, regime, pos=()):
    """two assets on a side: fixed percentage and age, amounts of at least 1000 below the positions they come from
    (corner cases are in the scenarios with one asset on each side, where percentage and age are unknowns too)"""
    for m in w.au[:2]:
        for k, v in m.e: w.st.assume(X.ge(v, 1000))
    for p, a in pos: w.st.assume(X.gt(p, a))


def regime_of(w, regime):
    """(percent, first block) of the fill"""
    if regime is None: return w.v('pct', 0, 2**64 - 1), None
    p, d = REGIME[regime]
    return p, X.sub(w.seq, d)


def scenario_fill_liq(h, pos=True, nliq=1, regime=None, roles='same', **kw):
    """USER fills the liquidation auction of OTHER"""
    w = pool(h, 2, **kw)
    if pos: w.position(USER, (1,), (0,), ())
    two = nliq == 2
    L, Cc, S = w.position(OTHER, (0, 1) if two else (1,), (0, 1) if two else (0,), (0,), tag='liq')
    w.liq = OTHER
    w.pct, blk = regime_of(w, regime)
    w.au = auction(w, 0, OTHER, [ASSET[0], ASSET[1]] if two else [ASSET[1]], [ASSET[0], ASSET[1]] if two else [ASSET[0]], block=blk)
    if regime:
        plain(w, regime, [(L[i], g(w.au[0], ASSET[i])) for i in L] + [(Cc[i], g(w.au[1], ASSET[i])) for i in Cc])
    f, sp, to = ROLES[roles]
    if roles == 'split': sp, to = THIRD, THIRD
    return w, h.run(w, 'submit', f, sp, to, req_list(w, (6, OTHER, w.pct)))


def scenario_fill_bad(h, nl=1, pos=True, regime=None, extra=False, **kw):
    """USER fills the bad debt auction of the backstop"""
    w = pool(h, 2, **kw)
    if pos: w.position(USER, (1,), (0,), ())
    two = nl == 2
    L, _, _ = w.position(BACKSTOP, (0, 1) if two or extra else (0,), (), (), tag='bs')
    w.liq = BACKSTOP
    w.pct, blk = regime_of(w, regime)
    w.au = auction(w, 1, BACKSTOP, [ASSET[0], ASSET[1]] if two else [ASSET[0]], [BTOKEN], block=blk)
    if regime: plain(w, regime, [(L[i], g(w.au[0], ASSET[i])) for i in range(2 if two else 1)])
    return w, h.run(w, 'submit', USER, USER, USER, req_list(w, (7, BACKSTOP, w.pct)))


def scenario_fill_int(h, nl=1, regime=None, **kw):
    w = pool(h, 2, **kw)
    w.position(USER, (), (0,), ())
    w.pct, blk = regime_of(w, regime)
    w.au = auction(w, 2, BACKSTOP, [BTOKEN], [ASSET[0], ASSET[1]] if nl == 2 else [ASSET[0]], block=blk)
    if regime: plain(w, regime)
    return w, h.run(w, 'submit', USER, USER, USER, req_list(w, (8, BACKSTOP, w.pct)))


def scenario_delete(h, pos='lc', **kw):
    w = pool(h, 2, **kw)
    w.position(USER, *POS[pos])
    auction(w, 0, USER, [ASSET[0]], [ASSET[1]])
    return w, h.run(w, 'submit', USER, USER, USER, req_list(w, (9, USER, w.v('amt0', -10, 2**100))))


def scenario_bad_debt(h, who=(0, 1), coll=(), bs=(0,), supp=(1,), **kw):
    w = pool(h, 2, **kw)
    w.position(OTHER, who, coll, supp, tag='liq')
    if bs: w.position(BACKSTOP, bs, (), (), tag='bs')
    return w, h.run(w, 'bad_debt', OTHER)


# ---------------------------------------------------------------- auctions
def scaled(w, st, base, side, pct, block):
    """(taken now, left in the auction) of one entry when pct percent is filled"""
    div = X.cdiv if side == 'bid' else X.fdiv
    part = div(X.mul(base, X.mul(pct, 100000)), S7)
    d = X.sub(w.seq, block)
    if side == 'bid':
        f = lambda m: div(X.mul(part, m), S7)
        took = cases(st, X.le(d, 200), lambda: part, lambda: cases(st, X.lt(d, 400), lambda: f(X.sub(S7, X.mul(X.sub(d, 200), 50000))), lambda: 0))
    else:
        took = cases(st, X.ge(d, 200), lambda: part, lambda: div(X.mul(part, X.mul(d, 50000)), S7))
    return took, X.sub(base, part)


def check_left(h, w, d, ty, who, pct, au, what):
    """the auction that stays in the ledger after the fill"""
    b, l, blk = au
    left = auc(w, d.store, ty, who)
    tot = []
    for side, m, k in (('bid', b, 0), ('lot', l, 1)):
        for a, v in m.e:
            _, rest = scaled(w, d, v, side, pct, blk)
            tot.append(rest)
            got = 0 if left is None else g(left[k], a)
            h.prove(w, d, X.eq(got, rest), what + ': what stays in the auction (%s)' % side)
        if left is not None:
            for a, v in left[k].e:
                if not any(a is x for x, _ in m.e): h.prove(w, d, False, what + ': a new asset appears in the auction')
    if left is not None:
        h.prove(w, d, X.eq(left[2], blk), what + ': the auction keeps its start')
        h.prove(w, d, X.or_(*[X.gt(t, 0) for t in tot]), what + ': an emptied auction is removed')


# ---------------------------------------------------------------- availability
def reach(d, c):
    from engine import solve
    return solve.feasible(d.pc, c)


def friendly(h, ty, age=200):
    """withdrawals, repayments and fills are available in every status (the user has no debt where health could interfere)"""
    w = pool(h, 2, max_positions=10)
    if age is None: age = w.v('age', 0, 900)
    st = w.st
    # both reserves are well supplied, at rates in [1, 3]
    for i in range(2):
        r = w.data[i]
        for n in ('d_rate', 'b_rate'): st.assume(X.le(r[n], 3 * S9))
        st.assume(X.ge(r['b_supply'], 10**12)); st.assume(X.le(r['b_supply'], 10**18))
        st.assume(X.ge(r['d_supply'], 10**12)); st.assume(X.le(r['d_supply'], 10**18))
    amt = w.v('amt0', 1000, 10**9)
    if ty in (1, 3):
        w.position(USER, (), (0,), (0,))
        L, Cc, S = w.pos_store(st.store, USER)
        for m in (Cc, S): st.assume(X.and_(X.ge(g(m, 0), 10**11), X.le(g(m, 0), 10**12)))
        rs = [(ty, ASSET[0], amt)]
    elif ty == 5:
        w.position(USER, (0,), (), ())
        st.assume(X.and_(X.ge(g(w.pos_store(st.store, USER)[0], 0), 10**11), X.le(g(w.pos_store(st.store, USER)[0], 0), 10**12)))
        rs = [(5, ASSET[0], amt)]
    elif ty == 6:
        w.position(OTHER, (0,), (1,), (), tag='liq')
        w.position(USER, (), (1,), (), tag='u')
        L, Cc, S = w.pos_store(st.store, OTHER)
        b, l, blk = auction(w, 0, OTHER, [ASSET[0]], [ASSET[1]], block=X.sub(w.seq, age))
        bid, lot = g(b, ASSET[0]), g(l, ASSET[1])
        st.assume(X.and_(X.ge(bid, 1000), X.le(bid, 10**6)))
        st.assume(X.and_(X.ge(lot, 1000), X.le(lot, 10**6)))
        st.assume(X.and_(X.ge(g(L, 0), 10**7), X.le(g(L, 0), 10**9)))
        st.assume(X.and_(X.ge(g(Cc, 1), 10**7), X.le(g(Cc, 1), 10**9)))
        C = w.pos_store(st.store, USER)[1]
        st.assume(X.and_(X.ge(g(C, 1), 10**14), X.le(g(C, 1), 10**15)))
        for i in range(2):
            c = w.cfg[i]
            st.assume(X.eq(w.price[ASSET[i]], S7))
            st.assume(X.ge(c['c_factor'], 5000000)); st.assume(X.ge(c['l_factor'], 5000000))
        rs = [(6, OTHER, 100)]
    elif ty == 7:
        w.position(BACKSTOP, (0,), (), (), tag='bs')
        w.position(USER, (), (1,), (), tag='u')
        L = w.pos_store(st.store, BACKSTOP)[0]
        b, l, blk = auction(w, 1, BACKSTOP, [ASSET[0]], [BTOKEN], block=X.sub(w.seq, age))
        bid, lot = g(b, ASSET[0]), g(l, BTOKEN)
        st.assume(X.and_(X.ge(bid, 1000), X.le(bid, 10**6)))
        st.assume(X.and_(X.ge(lot, 1000), X.le(lot, 10**6)))
        st.assume(X.and_(X.ge(g(L, 0), 10**7), X.le(g(L, 0), 10**9)))
        C = w.pos_store(st.store, USER)[1]
        st.assume(X.and_(X.ge(g(C, 1), 10**14), X.le(g(C, 1), 10**15)))
        for i in range(2):
            c = w.cfg[i]
            st.assume(X.eq(w.price[ASSET[i]], S7))
            st.assume(X.ge(c['c_factor'], 5000000)); st.assume(X.ge(c['l_factor'], 5000000))
        rs = [(7, BACKSTOP, 100)]
    elif ty == 8:
        b, l, blk = auction(w, 2, BACKSTOP, [BTOKEN], [ASSET[0]], block=X.sub(w.seq, age))
        for x in (g(b, BTOKEN), g(l, ASSET[0])): st.assume(X.and_(X.ge(x, 1000), X.le(x, 10**6)))
        st.assume(X.and_(X.ge(w.data[0]['backstop_credit'], 10**7), X.le(w.data[0]['backstop_credit'], 10**9)))
        rs = [(8, BACKSTOP, 100)]
    return w, h.run(w, 'submit', USER, USER, USER, req_list(w, *rs), reverts=True)


def still_open(h, w, done, ty):
    for d in done:
        if d.status != 'ok': h.never(w, d, NAMES_T[ty] + ' is refused in a plain situation (%s)' % d.why.split('@')[0])
    for d in [d for d in done if d.status == 'ok'][:2]: h.sample(w, d)
