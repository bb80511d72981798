"""No account ends a risk-increasing submission under-collateralised."""
from props.lib_pool import *

BOUNDS = 'one or two requests, at most 3 reserves, one request also in pools of 12 and 32 (the most there can be) reserves; decimals 7/9/5, oracle decimals 7 and 14; amounts in [-2^100, 2^100], balances in [1, 2^80], rates in [1, 100], prices in [1, 1e15]'
ASSUMPTIONS = ['the oracle reports positive prices']
RISK = (3, 4, 6, 7, 9)


def healthy(h, w, st, what):
    L, C, S = w.pos(st, USER)
    if not L.e: return
    used = [i for i in range(w.nres) if not (g(L, i) == 0 and g(C, i) == 0) and w.accrue and w.res(st, i, 'last_time') is not w.now]
    for e in split(st, [c for i in used for c in accr_conds(w, st.g['pre'], i)]): healthy1(h, w, e, what, L, C)


def healthy1(h, w, st, what, L, C):
    pre = st.g['pre']
    rs = []
    for i in range(w.nres):
        if g(L, i) == 0 and g(C, i) == 0:
            rs.append(Res(w, pre, i))
            continue
        rs.append(accrued_as_stored(w, st, i) if w.res(st, i, 'last_time') is w.now or not w.accrue else accrued(w, st, pre, i, w.now))
        if rs[-1] is None:
            h.undecided.append(what + ': accrual case')
            return
    cb, lb = health(w, rs, {i: g(L, i) for i in range(w.nres)}, {i: g(C, i) for i in range(w.nres)})
    s = 10 ** w.oracle_dec
    m = s * 10000100 // S7
    a = X.ge(X.fdiv(X.mul(cb, s), lb), m) if type(lb) is int and lb > 0 or st.known(X.gt(lb, 0)) else None
    b = X.ge(X.mul(cb, s), X.mul(lb, m))
    if a is not None: h.prove_any(w, st, [a, b], what + ': collateral covers the debt')
    else: h.prove(w, st, b, what + ': collateral covers the debt')


def run(h, reqs, pos, **kw):
    w, done = submit(h, reqs, pos, **kw)
    what = '+'.join(NAMES_T[t] for t, _ in reqs)
    for d in done: healthy(h, w, d, what)
    for d in done[:2]: h.sample(w, d)


def scen(h, f, then=None, **kw):
    w, done = f(h, **kw)
    for d in done: healthy(h, w, d, f.__name__[9:])
    for d in done[-1:]: h.sample(w, d)


def deleted(h, pos, more=None):
    w = pool(h, 2)
    w.position(USER, *POS[pos])
    auction(w, 0, USER, [ASSET[0]], [ASSET[1]])
    rs = [(9, USER, 0)]
    if more is not None: rs.insert(0 if more < 0 else 1, (abs(more), ASSET[0], w.v('amt', 0, 2**100)))
    done = h.run(w, 'submit', USER, USER, USER, req_list(w, *rs))
    for d in done: healthy(h, w, d, 'delete')
    for d in done[-1:]: h.sample(w, d)


def untouched(h, ty, i, j):
    """the reserve the requests do not touch counts with its interest up to now: at the rates it would be stored with by anyone else's operation at that moment"""
    w = pool(h, 2, accrue=(j,), status=0, max_positions=10)
    w.position(USER, *POS['lc'])
    a, b = w.v('amt0', 0, 2**100), w.v('amt1', 0, 2**100)
    for d in h.run(w, 'submit', USER, USER, USER, req_list(w, (ty, ASSET[i], a))):
        pos = w.pos(d, USER)
        if not pos[0].e: continue
        for e in h.run(w, 'submit', THIRD, THIRD, THIRD, req_list(w, (0, ASSET[j], b)), st=d):
            rs = [accrued_as_stored(w, e, k) for k in range(2)]
            cb, lb = health(w, rs, {k: g(pos[0], k) for k in range(2)}, {k: g(pos[1], k) for k in range(2)})
            s = 10 ** w.oracle_dec
            m = s * 10000100 // S7
            h.prove_any(w, e, [X.ge(X.fdiv(X.mul(cb, s), lb), m), X.ge(X.mul(cb, s), X.mul(lb, m))] if e.known(X.gt(lb, 0)) else [X.ge(X.mul(cb, s), X.mul(lb, m))], '%s: collateral covers the debt, with interest on the other reserve' % NAMES_T[ty])
            h.sample(w, e)


def jobs(tier):
    J = []
    for f, k in ((scenario_fill_liq, 'nliq'), (scenario_fill_bad, 'nl')):
        J.append((f.__name__[9:], scen, dict(f=f)))
        for r in REGIME: J.append(('%s/two/%s' % (f.__name__[9:], r), scen, dict(f=f, regime=r, **{k: 2})))
    for t in (3, 4):
        for pos in ('all', 'lc', 'cl', 'two'):
            J.append(('%s/%s' % (NAMES_T[t], pos), run, dict(reqs=[(t, 0)], pos=pos, decimals=[7, 9])))
        J.append((NAMES_T[t] + '/oracle14', run, dict(reqs=[(t, 0)], pos='two', oracle_dec=14)))
        J.append((NAMES_T[t] + '/three', run, dict(reqs=[(t, 2)], pos='two', nres=3, decimals=[7, 9, 5])))
        J.append((NAMES_T[t] + '/accrue', run, dict(reqs=[(t, 0)], pos='all', accrue=True)))
    for t, i, pos, n in ((4, 0, 'far', 12), (4, 11, 'rfar', 12), (3, 11, 'far', 12), (3, 0, 'rfar', 12), (4, 0, 'rfar', 12), (3, 16, 'last', 32), (4, 31, 'last', 32)):
        J.append(('%s/%d/%s' % (NAMES_T[t], i, pos), run, dict(reqs=[(t, i)], pos=pos, nres=n)))
    J.append(('borrow/untouched', untouched, dict(ty=4, i=0, j=1)))
    J.append(('withdraw_coll/untouched', untouched, dict(ty=3, i=1, j=0)))
    J.append(('borrow/c0', run, dict(reqs=[(4, 0)], pos='c0')))
    J.append(('borrow/none', run, dict(reqs=[(4, 0)], pos='none')))
    for a in range(6):
        for b in range(6):
            if a in RISK or b in RISK:
                J.append(('%s+%s/same' % (NAMES_T[a], NAMES_T[b]), run, dict(reqs=[(a, 0), (b, 0)], pos='all')))
                J.append(('%s+%s/two' % (NAMES_T[a], NAMES_T[b]), run, dict(reqs=[(a, 0), (b, 1)], pos='two')))
    for pos in ('lc', 'cl', 'all', 'two'):
        J.append(('delete/' + pos, deleted, dict(pos=pos)))
    J.append(('delete+repay', deleted, dict(pos='all', more=5)))
    J.append(('repay+delete', deleted, dict(pos='all', more=-5)))
    J.append(('delete+supply', deleted, dict(pos='lc', more=2)))
    return J
