"""Balances change only after emissions up to that moment are credited at the old balance."""
from props.lib_emis import *

BOUNDS = 'every request type, alone and in pairs on one reserve, fills of liquidation and bad debt auctions and bad debt transfers with one asset per side (fixed percentage and age); emissions as in P18, with and without earlier records'
ASSUMPTIONS = ['an account\'s recorded index is not above the token\'s', 'the account\'s shares are part of the totals (P01)']


def credited(h, w, d, who, ks, what):
    """for each token whose balance changed: index and credit as if accrued right before"""
    pre = d.g['pre']
    for k in ks:
        sc = 10 ** w.cfg[k // 2]['decimals']
        touched = settle(d, X.eq(tot(w, pre, k), tot(w, d.store, k))) is not True or any(settle(d, X.eq(balance(w, pre, u, k), balance(w, d.store, u, k))) is not True for u in who)
        if not touched or econf(w, pre, k) is None: continue
        for e in split(d, emis_conds(w, pre, [k])): credit1(h, w, e, who, k, sc, what)


def credit1(h, w, d, who, k, sc, what):
    pre = d.g['pre']
    P = lambda goal, t, **kw: h.prove(w, d, goal, what + ': ' + t, **kw)
    x = index_now(w, d, pre, k, supply(w, pre, k), sc)
    if x == 'open':
        h.undecided.append(what + ': emission case')
        return
    P(X.eq(edata(w, d.store, k)[0], x[0]), 'the index is brought up to date with the supply of before')
    P(X.eq(edata(w, d.store, k)[1], x[1]), 'accrued up to now, or to the end of the emissions')
    for u in who:
        b = balance(w, pre, u, k)
        if settle(d, X.eq(b, balance(w, d.store, u, k))) is True: continue
        r = udata(w, d.store, u, k)
        if r is None:
            P(False, 'a changed balance has a record')
            continue
        P(X.eq(r[0], x[0]), 'the account is up to date')
        P(X.eq(r[1], due(w, d, pre, u, k, x[0], b, sc)), 'credited at the balance of before')


def tot(w, store, k): return supply(w, store, k)


def no_other(h, w, d, who, ks, what):
    """the emissions of others, and of other tokens, are untouched; nothing is paid"""
    for kind in d.store:
        for q in set(d.store[kind]) | set(d.g['pre'][kind]):
            a, b = d.g['pre'][kind].get(q), d.store[kind].get(q)
            if a is b or q[0] != 'vec' or q[1][0][1] not in ('UserEmis', 'EmisConfig'): continue
            if q[1][0][1] == 'UserEmis' and any(q == ukey(u, k) for u in who for k in ks): continue
            h.prove(w, d, a is not None and b is not None and enc_eq(enc(w.T, *a), enc(w.T, *b)), what + ': the emissions of others stay')


def lend(h, reqs, pos, rec, active=False, **kw):
    n = 1 + max(i for _, i in reqs)
    w = pool(h, n, status=0, max_positions=10, **kw)
    if pos != 'none': w.position(USER, *POS[pos])
    if n > 1 or pos == 'all': w.position(OTHER, (0,), (0,), (), tag='o')
    ks = range(2 * n)
    for k in ks:
        if active or any(k == 2 * i + (t not in (4, 5)) for t, i in reqs): put_emis(w, k, ([USER] if rec else []) + [OTHER], active=active)
    rs = [(t, ASSET[i], w.v('amt%d' % j, 0, 2**100)) for j, (t, i) in enumerate(reqs)]
    done = h.run(w, 'submit', USER, USER, USER, req_list(w, *rs))
    what = '+'.join(NAMES_T[t] for t, _ in reqs)
    for d in done:
        # a list of several requests on one token: all at the balance of before the first
        credited(h, w, d, [USER], ks, what)
        no_other(h, w, d, [USER], ks, what)
    for d in done[-2:]: h.sample(w, d)


def liq(h, rec, pos=True, both=False):
    w = pool(h, 2, status=0, max_positions=10)
    if pos: w.position(USER, (1,), (0,), ())
    w.position(OTHER, (1,), (0,), (0,), tag='liq')
    for k in (1, 2) if not both else range(4): put_emis(w, k, [USER, OTHER] if rec else [], active=True)
    w.pct = 37
    w.au = auction(w, 0, OTHER, [ASSET[1]], [ASSET[0]], block=X.sub(w.seq, 100))
    plain(w, None)
    done = h.run(w, 'submit', USER, USER, USER, req_list(w, (6, OTHER, 37)))
    for d in done:
        credited(h, w, d, [USER, OTHER], range(4), 'liquidation')
        no_other(h, w, d, [USER, OTHER], range(4), 'liquidation')
    for d in done[-1:]: h.sample(w, d)


def bad(h, rec):
    w = pool(h, 2, status=0, max_positions=10)
    w.position(USER, (1,), (0,), ())
    w.position(BACKSTOP, (0,), (), (), tag='bs')
    for k in (0, 2, 3): put_emis(w, k, [USER, BACKSTOP] if rec else [], active=True)
    w.au = auction(w, 1, BACKSTOP, [ASSET[0]], [BTOKEN], block=X.sub(w.seq, 100))
    plain(w, None)
    for d in h.run(w, 'submit', USER, USER, USER, req_list(w, (7, BACKSTOP, 37))):
        credited(h, w, d, [USER, BACKSTOP], range(4), 'bad debt fill')
        no_other(h, w, d, [USER, BACKSTOP], range(4), 'bad debt fill')


def move(h, rec, bs):
    w = pool(h, 2)
    w.position(OTHER, (0, 1), (), (1,), tag='liq')
    if bs: w.position(BACKSTOP, (0,), (), (), tag='bs')
    for k in (0, 2) if not bs else (0, 1): put_emis(w, k, [OTHER, BACKSTOP] if rec else [], active=not bs)
    done = h.run(w, 'bad_debt', OTHER)
    for d in done:
        credited(h, w, d, [OTHER, BACKSTOP], range(4), 'bad debt')
        no_other(h, w, d, [OTHER, BACKSTOP], range(4), 'bad debt')
    for d in done[-1:]: h.sample(w, d)


def jobs(tier):
    J = []
    for rec in (False, True):
        for t in range(6): J.append(('%s/%d' % (NAMES_T[t], rec), lend, dict(reqs=[(t, 0)], pos='all', rec=rec)))
        for t in (0, 2, 4): J.append(('%s/none/%d' % (NAMES_T[t], rec), lend, dict(reqs=[(t, 0)], pos='none' if t != 4 else 'c0', rec=rec)))
        J += [('liq/%d' % rec, liq, dict(rec=rec)), ('bad/%d' % rec, bad, dict(rec=rec)), ('move/%d' % rec, move, dict(rec=rec, bs=True)), ('move/none/%d' % rec, move, dict(rec=rec, bs=False))]
    J += [('liq/nopos', liq, dict(rec=True, pos=False)), ('liq/all', liq, dict(rec=True, both=True))]
    for a in range(6):
        for b in range(6): J.append(('%s+%s' % (NAMES_T[a], NAMES_T[b]), lend, dict(reqs=[(a, 0), (b, 0)], pos='all', rec=True, active=True)))
    J.append(('supply/dec9', lend, dict(reqs=[(0, 0)], pos='all', rec=True, decimals=9)))
    J.append(('supply/accrue', lend, dict(reqs=[(0, 0)], pos='all', rec=True, accrue=True)))
    return J
