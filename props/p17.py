"""No decision is made on a price older than a day, or from anyone but the pool's oracle."""
from props.lib_pool import *

BOUNDS = 'price timestamps in [0, 2^40], every request type on positions over up to two reserves, creation of each kind of auction; oracle decimals 7'
ASSUMPTIONS = ['the oracle answers with the price and time it has']
STALE = 'error:1210'


def fresh(w, i): return X.ge(X.add(w.price_ts[ASSET[i]], 86400), w.now)


def check(h, w, done, need, what):
    for d in done:
        if d.status == 'ok':
            for i in need(d): h.prove(w, d, fresh(w, i), what + ': the price is at most a day old')
            for e in calls(d):
                if e[0] in ('lastprice', 'decimals') and e[1] is not None: h.prove(w, d, e[1] is ORACLE, what + ': the pool\'s oracle is asked')
        elif d.why == STALE:
            h.prove(w, d, X.or_(*[X.not_(fresh(w, i)) for i in range(w.nres)]), what + ': refused as stale only when a price is more than a day old')
    for d in [d for d in done if d.status == 'ok'][:2]: h.sample(w, d)


def lend(h, ty, i, pos):
    w = pool(h, 2, stale=True, status=0)
    w.position(USER, *POS[pos])
    done = h.run(w, 'submit', USER, USER, USER, req_list(w, (ty, ASSET[i], w.v('amt', 0, 2**100))), reverts=True)

    def need(d):
        if ty not in (3, 4): return []
        L, C, S = w.pos(d, USER)
        if not L.e: return []
        return sorted({k for k, _ in L.e} | {k for k, _ in C.e})
    check(h, w, done, need, NAMES_T[ty])


def fill(h, ty):
    w, done = (scenario_fill_liq, scenario_fill_bad)[ty](h, stale=True, regime='mid')

    def need(d):
        L, C, S = w.pos(d, USER)
        if not L.e: return []
        return sorted({k for k, _ in L.e} | {k for k, _ in C.e})
    check(h, w, done, need, ('liquidation fill', 'bad debt fill')[ty])


def delete(h, pos):
    w = pool(h, 2, stale=True)
    w.position(USER, *POS[pos])
    auction(w, 0, USER, [ASSET[0]], [ASSET[1]])
    check(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, (9, USER, 0)), reverts=True), lambda d: [0, 1], 'delete')


def create(h, kind, pos='lc'):
    w = pool(h, 2, stale=True)
    if kind == 'liq':
        w.position(OTHER, *POS[pos])
        done, need = h.run(w, 'new_liquidation_auction', OTHER, 37, reverts=True), [0, 1]
    elif kind == 'bad':
        w.position(BACKSTOP, (0, 1), (), ())
        done, need = h.run(w, 'new_bad_debt_auction', reverts=True), [0, 1]
    else:
        done, need = h.run(w, 'new_interest_auction', SVec([ASSET[0], ASSET[1]]), reverts=True), None

    def n(d):
        if need is not None: return need
        a = auc(w, d.store, 2, BACKSTOP)
        return [i for i in range(2) if any(k is ASSET[i] for k, _ in a[1].e)]
    check(h, w, done, n, 'new ' + kind + ' auction')


def jobs(tier):
    J = [('%s/%d/%s' % (NAMES_T[t], i, p), lend, dict(ty=t, i=i, pos=p)) for t in (3, 4) for i in (0, 1) for p in ('two', 'lc', 'cl', 'l0', 'l0c01', 'l1c01', 'l01c0', 'l01c1')]
    J += [(NAMES_T[t], lend, dict(ty=t, i=0, pos='two')) for t in (0, 1, 2, 5)]
    J += [('fill/%d' % t, fill, dict(ty=t)) for t in (0, 1)]
    J += [('delete/' + p, delete, dict(pos=p)) for p in ('lc', 'l0c01', 'l01c1')]
    J += [('create/liq/' + p, create, dict(kind='liq', pos=p)) for p in ('l0c01', 'l01c1')]
    return J + [('create/' + k, create, dict(kind=k)) for k in ('liq', 'bad', 'interest')]
