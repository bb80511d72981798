"""Backstop: a claim pays what was accrued, once, into the same pools as backstop deposits of the recipient."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'claims over lists of one or two pools, the same pool twice included, for oneself or another account, with any balances up to 2^80 and any emission state (single pool) or running emissions (several)'
ASSUMPTIONS = ['the LP pool reports the LP tokens it minted and takes the stated emission tokens, with an approval up to the next multiple of 100000 ledgers (as comet.wasm does)']


def cl(h, pools, to, **kw):
    w, done = claim(h, pools, to, **kw)
    uniq = list(dict.fromkeys(pools))
    for d in splits(done, lambda d: [c for p in uniq for c in emis_conds(w, d.g['pre'], p)]):
        P = lambda g, t, **k: h.prove(w, d, g, t, **k)
        pre, post = d.g['pre'], d.store
        amt, bad = {}, False
        for p in uniq:
            i = index_now(w, d, pre, p)
            if i == 'open': bad = True
            else: amt[p] = 0 if i is None else due(w, d, pre, p, USER, i[0])
        if bad:
            h.undecided.append('emission case')
            continue
        total = tsum(amt.values())
        P(X.eq(d.result, total), 'the claim is everything that was accrued')
        for p in uniq:
            if w.ec(pre, p) is None: continue
            e = w.ue(post, p, USER)
            P(e is not None and X.eq(e[1], 0), 'what is claimed cannot be claimed again')
            if e is not None: P(X.eq(e[0], index_now(w, d, pre, p)[0]), 'the claimer has accrued up to now')
        c = [e for e in d.log if e[0] == 'dep_tokn_amt_in_get_lp_tokns_out']
        au = [e for e in d.log if e[0] == 'authorize']
        P(X.or_(X.eq(total, 0), len(c) == 1), 'the claimed tokens are turned into LP tokens once')
        P(X.or_(X.gt(total, 0), len(c) == 0 and len(au) == 0), 'a claim of nothing moves nothing')
        for p in uniq:
            p0, p1 = w.pb(pre, p), w.pb(post, p)
            s0, s1 = w.ub(pre, p, to), w.ub(post, p, to)
            if not c:
                P(X.and_(*[X.eq(p0[f], p1[f]) for f in p0], X.eq(s0[0], s1[0])), 'a claim of nothing changes no balance')
                continue
            out = c[0][4]
            dep = X.fdiv(X.mul(out, amt[p]), total)
            P(X.eq(X.sub(p1['tokens'], p0['tokens']), dep), 'each pool is credited its part of the LP tokens')
            mint = to_shares(d, p0, dep)
            P(X.eq(X.sub(s1[0], s0[0]), mint), 'the recipient gets the shares of that part')
            P(X.eq(X.sub(p1['shares'], p0['shares']), mint), 'the shares are part of the pool\'s')
            P(X.eq(p1['q4w'], p0['q4w']), 'no queue changes')
        if c:
            out = c[0][4]
            _, a, args, *_ = c[0]
            P(a is LP and args[0] is BLND and args[3] is ME, 'the LP tokens are bought for the backstop with the emission token')
            P(X.and_(X.eq(args[1], total), X.eq(args[2], 0)), 'exactly the claimed tokens are used')
            dt = tsum([X.sub(w.pb(post, p)['tokens'], w.pb(pre, p)['tokens']) for p in uniq])
            P(X.and_(X.le(dt, out), X.gt(dt, X.sub(out, len(uniq)))), 'the LP tokens are credited completely, up to rounding')
            P(len(au) == 1, 'one approval is authorised')
            approval(h, w, d, au, total)
        ok = set()
        for p in uniq: ok |= backkeys(p, USER, to)
        unchanged(h, w, d, ok, 'claim')
        P(not [e for e in d.log[d.g['pre_log']:] if e[0] in ('transfer', 'transfer_from', 'approve', 'mint')], 'nothing is transferred directly')
    for d in done[:2]: h.sample(w, d)


def approval(h, w, d, au, total):
    """the authorised call: approve(backstop, LP pool, claimed, ledger) of the emission token, exactly as comet.wasm makes it
    (it approves up to the next multiple of 100000 ledgers): any other call would not be covered and the claim fail"""
    def find(v, out):
        if isinstance(v, Typed): v = v.v
        if isinstance(v, (A, SVec)):
            for x in (v.f if isinstance(v, A) else v.e): find(x, out)
        else: out.append(v)
        return out
    flat = find(au[0][2][0], [])
    names = [x.s for x in flat if isinstance(x, Sym)]
    ads = [x for x in flat if isinstance(x, Addr)]
    nums = [x for x in flat if not isinstance(x, (Sym, Addr, bool))]
    h.prove(w, d, names == ['approve'] and ads == [BLND, ME, LP], 'only an approval of the emission token for the LP pool is authorised')
    h.prove(w, d, X.or_(*[X.eq(x, total) for x in nums[:1]]), 'the approval is for the claimed tokens')
    seq = d.ledger['sequence']
    h.prove(w, d, len(nums) == 2 and X.eq(nums[1], X.mul(100000, X.add(X.fdiv(seq, 100000), 1))), 'the approval is the one that the LP pool asks for')


def twice(h):
    """two claims in a row: the second finds only what accrued in between"""
    w = bw(h, 1)
    p = POOLS[0]
    w.user(p, USER, 1)
    w.put_emis(p, [USER], active=True)
    for d in h.run(w, 'claim', USER, SVec([p]), OTHER):
        for e in h.run(w, 'claim', USER, SVec([p]), OTHER, st=d):
            h.prove(w, e, X.eq(e.result, 0), 'a second claim at the same time pays nothing')
            h.sample(w, e)


def empty(h):
    w = bw(h, 1)
    for d in h.run(w, 'claim', USER, SVec([]), USER): h.never(w, d, 'a claim over no pool')


def jobs(tier):
    A_, B = POOLS[:2]
    J = []
    for n, ps, to in (('own', [A_], USER), ('other', [A_], OTHER)):
        J.append((n, cl, dict(pools=ps, to=to)))
        J.append((n + '/any', cl, dict(pools=ps, to=to, emis='any')))
    J.append(('new', cl, dict(pools=[A_], to=USER, record=False)))
    J += [('two', cl, dict(pools=[A_, B], to=USER)), ('two-other', cl, dict(pools=[B, A_], to=OTHER)), ('twice-listed', cl, dict(pools=[A_, A_], to=USER)), ('twice-listed-other', cl, dict(pools=[A_, A_], to=OTHER)),
          ('one-of-two', cl, dict(pools=[B], to=OTHER, npool=2)), ('again', twice, {}), ('empty', empty, {})]
    if tier == 'thorough': J += [('three', cl, dict(pools=[A_, B, POOLS[2]], to=USER)), ('two/any', cl, dict(pools=[A_, B], to=USER, emis='any'))]
    return J
