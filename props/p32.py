"""Backstop: a pool collects its assigned emissions once, as a larger allowance."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'every assigned amount up to 2^80, every earlier allowance, one or two collections in a row, two pools'
ASSUMPTIONS = ['the token reports the allowance it has']


def gulp(h, stored=True):
    w = bw(h, 2)
    P0, P1 = POOLS[:2]
    x = w.put_pemis(P0) if stored else 0
    w.put_pemis(P1)
    for d in h.run(w, 'gulp_pool_emissions', P0):
        P = lambda g, t: h.prove(w, d, g, t)
        P(X.gt(x, 0), 'nothing to collect is refused')
        P(X.eq(d.result, x), 'exactly the assigned emissions are reported')
        P(X.eq(w.pemis(d.store, P0), 0), 'they are assigned no more')
        P(P0 in d.auths, 'the pool authorises it')
        al = [e for e in d.log if e[0] == 'allowance']
        ap = [e for e in d.log if e[0] == 'approve']
        ok = len(al) == 1 and len(ap) == 1 and al[0][1] is BLND and ap[0][1] is BLND and al[0][2][0] is ME and al[0][2][1] is P0 and ap[0][2][0] is ME and ap[0][2][1] is P0
        P(ok, 'the pool\'s allowance of the emission token is read and set')
        if ok:
            P(X.eq(ap[0][2][2], X.add(al[0][4], x)), 'the allowance grows by exactly the emissions')
            P(X.ge(ap[0][2][3], X.add(w.seq, 17280 * 120)), 'the allowance lasts at least 120 days')
        P(not all_flows(d), 'no token moves')
        P(not [e for e in d.log if e[0] not in ('allowance', 'approve')], 'nothing else is called')
        unchanged(h, w, d, {key('PoolEmis', P0)}, 'collection')
        h.sample(w, d)
        for e in h.run(w, 'gulp_pool_emissions', P0, st=d): h.never(w, e, 'emissions are collected twice')


def others(h, m):
    """no other operation touches the assigned emissions"""
    w, A, done = op(h, m, nq=1)
    for d in done: unchanged(h, w, d, lambda kind, k: kname(k) != 'PoolEmis', m + ': assigned emissions')


def jobs(tier):
    return [('gulp', gulp, {}), ('none', gulp, dict(stored=False))] + [('other/' + m, others, dict(m=m)) for m in OPS]
