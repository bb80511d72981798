"""Liquidation auctions can be created only against under-collateralised accounts, with a fair size."""
from props.lib_pool import *

BOUNDS = 'accounts with up to two collateral and two debt reserves, in pools of two and (one of each) of 12 and 32 reserves; any percentage for one of each, three fixed percentages for two; prices in [1, 1e15], balances in [1, 2^80], rates in [1, 100], oracle decimals 7 and 14'
ASSUMPTIONS = ['the oracle reports positive prices']


def expected(h, w, d, r, pct, L, C):
    """(bid per asset, lot per asset, withdrawn value, raw collateral)"""
    s = 10 ** w.oracle_dec
    cb, lb = health(w, r, L, C)
    cr, lr = health_raw(w, r, L, C)
    ps = X.mul(pct, s // 100)
    acf = X.fdiv(X.mul(cb, s), cr)
    alf = X.fdiv(X.mul(lb, s), lr)
    inc = X.add(X.cdiv(X.mul(X.sub(s, X.cdiv(X.mul(acf, s), alf)), s), 2 * s), s)
    wd = X.fdiv(X.mul(X.fdiv(X.mul(lr, ps), s), inc), s)
    f = X.cdiv(X.mul(wd, s), cr)
    f = cases(d, X.gt(f, s), lambda: s, lambda: f)
    bid = {i: X.cdiv(X.mul(v, ps), s) for i, v in L.items()}
    lot = {i: X.cdiv(X.mul(v, f), s) for i, v in C.items()}
    return cb, lb, cr, wd, bid, lot


def pins(w, d, p, L, C, cb, lb):
    """whole accounts to look for counterexamples at: the size of the collateral is chosen so that the path is taken"""
    out = []
    at = lambda e: e.t[0][0][0]
    S = {nm: at(k) for nm, k in w.vars.items() if nm.endswith('_supply') and type(k) is not int}
    full = {a: 10**17 for a in S.values()}
    bare = {a: 0 for nm, a in S.items() if int(nm[1:nm.index('.')]) not in (L if 'd_supply' in nm else C)}
    cfgs = [({**full, **x}, hint, pv) for hint in w.rate_hints() for pv in ([100, 37, 77] if type(p) is not int else [p])
            for x in ({}, bare, {a: 0 for nm, a in S.items() if a in bare and 'd_s' in nm}, {a: 0 for nm, a in S.items() if a in bare and 'b_s' in nm})]
    for sup, hint, pv in cfgs:
        base = {**hint, **sup} if not w.accrue else {**sup, **hint}
        if type(p) is not int: base[at(p)] = pv
        for k, v in enumerate(L.values()): base[at(v)] = 10**12 + 1357921 * k + 13579
        for k, v in enumerate(C.values()): base[at(v)] = 10**12 + 24681 * k
        M = X.Model(base)
        l, c = M.ev(lb), M.ev(cb)
        if c <= 0: continue
        n = 0
        for x in range(1000, 300, -17):
            m = dict(base)
            for k, v in enumerate(C.values()): m[at(v)] = (10**12 + 24681 * k) * l * x // (1000 * c)
            M = X.Model(m)
            if all(M.cond(q) for q in d.pc):
                out.append(m)
                n += 1
                if n >= 6: break
        if len(out) >= 18: break
    return out


def create(h, liab, coll, supp=(), pct=None, n=2, **kw):
    w = pool(h, n, **kw)
    L, C, S = w.position(OTHER, liab, coll, supp, tag='liq')
    p = w.v('pct', 0, 2**64 - 1) if pct is None else pct
    done = h.run(w, 'new_liquidation_auction', OTHER, p)
    s = 10 ** w.oracle_dec
    for d in splits(done, lambda d: [c for i in range(n) if n <= 3 or i in liab + coll for c in accr_conds(w, d.g['pre'], i)]):
        P = lambda goal, t, **k: h.prove(w, d, goal, t, **k)
        P(X.and_(X.ge(p, 1), X.le(p, 100)), 'between 1 and 100 percent')
        rs = [accrued(w, d, d.g['pre'], i, w.now) for i in range(n)]
        if any(r is None for r in rs):
            h.undecided.append('accrual case')
            continue
        cb, lb, cr, wd, bid, lot = expected(h, w, d, rs, p, L, C)
        hints = pins(w, d, p, L, C, cb, lb) + w.hints_for()
        P = lambda goal, t, **k: h.prove(w, d, goal, t, hints=hints, **k)
        P(X.ge(lb, cb), 'only an under-collateralised account is liquidated')
        a = auc(w, d.store, 0, OTHER)
        if a is None:
            P(False, 'the auction is stored')
            continue
        P(X.eq(a[2], X.add(w.seq, 1)), 'it starts at the next block')
        for m, want, side in ((a[0], bid, 'bid'), (a[1], lot, 'lot')):
            for i in range(n): P(X.eq(g(m, ASSET[i]), want.get(i, 0)), 'auctioned ' + {'bid': 'debt', 'lot': 'collateral'}[side])
            P(all(any(k is x for x in ASSET) for k, _ in m.e), 'only the account\'s assets')
        e = d.store['temporary'][akey(0, OTHER)]
        P(enc_eq(enc(w.T, *e), enc(w.T, d.result, e[1])), 'the returned auction is the stored one')
        if settle(d, X.eq(p, 100)) is True: P(X.ge(wd, cr), 'a full liquidation only where a partial one cannot restore the account')
        else:
            if settle(d, X.lt(p, 100)) is not True: h.undecided.append('percentage case')
            cb2, lb2 = health(w, rs, {i: X.sub(v, bid[i]) for i, v in L.items()}, {i: X.sub(v, lot[i]) for i, v in C.items()})
            lo, hi = s * 10300000 // S7, X.cdiv(s * 11500000, S7)
            P(X.gt(lb2, 0), 'a partial liquidation leaves some debt')
            hf = X.fdiv(X.mul(cb2, s), lb2)
            h.prove_any(w, d, [X.le(hf, hi), X.lt(X.mul(cb2, s), X.mul(X.add(hi, 1), lb2))], 'the account\'s health after it is at most 1.15')
            h.prove_any(w, d, [X.ge(hf, lo), X.ge(X.mul(cb2, s), X.mul(lo, lb2))], 'the account\'s health after it is at least 1.03')
        unchanged(h, w, d, {akey(0, OTHER)}, 'creation')
        P(not all_flows(d), 'no token moves')
    for d in done[:2]: h.sample(w, d)


def refused(h, who):
    """the pool itself, the backstop, and accounts with an auction in progress"""
    w = pool(h, 2)
    w.position(who, (0,), (1,), ())
    if who is OTHER: auction(w, 0, OTHER, [ASSET[0]], [ASSET[1]])
    for d in h.run(w, 'new_liquidation_auction', who, w.v('pct', 0, 2**64 - 1)):
        h.never(w, d, {POOL: 'the pool itself is liquidated', BACKSTOP: 'the backstop is liquidated'}.get(who, 'a second auction while one is in progress'))


def jobs(tier):
    J = [('one', create, dict(liab=(1,), coll=(0,), supp=(0,))), ('one/14', create, dict(liab=(0,), coll=(1,), oracle_dec=14, decimals=[7, 9])), ('same', create, dict(liab=(0,), coll=(0,), n=1))]
    for i in (0, 1): J.append(('accrue/%d' % i, create, dict(liab=(1,), coll=(0,), pct=50, accrue=(i,))))
    for p in (37, 99, 100) if tier == 'thorough' else (37, 100):
        J.append(('two-one/%d' % p, create, dict(liab=(0, 1), coll=(1,), pct=p)))
        J.append(('one-two/%d' % p, create, dict(liab=(1,), coll=(0, 1), pct=p)))
        if tier == 'thorough' or p == 100: J.append(('two/%d' % p, create, dict(liab=(0, 1), coll=(0, 1), pct=p)))
    J += [('many/%d/%d' % (n, l), create, dict(liab=(l,), coll=(c,), n=n)) for l, c, n in ((11, 0, 12), (0, 11, 12), (31, 17, 32))]
    if tier == 'thorough': J += [('many/two-one', create, dict(liab=(0, 11), coll=(1,), n=12, pct=37)), ('many/one-two', create, dict(liab=(1,), coll=(0, 11), n=12, pct=37))]
    J += [('refused/' + a.name, refused, dict(who=a)) for a in (POOL, BACKSTOP, OTHER)]
    return J
