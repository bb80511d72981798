"""A borrow never leaves the reserve's utilisation above its maximum."""
from props.lib_pool import *

BOUNDS = 'request lists of one or two requests with at least one borrow (three in the thorough tier) on up to two reserves; amounts in [-2^100, 2^100], supplies in [0, 2^80], rates in [1, 100], maximum utilisation in (0, 1]'
ASSUMPTIONS = ['token contracts move exactly the requested amount']


def capped(h, w, d, reqs, what, accrue):
    rs = [accrued_as_stored(w, d, i) for i in range(w.nres)] if accrue else None
    ref = Ref(w, d.g['pre'], USER, w.nres, rs, d)
    for (ty, i), a in zip(reqs, w.amts):
        ref.req(ty, i, a)
        if ty == 4:
            r = ref.r[i]
            # debt / deposits, rounded up, is at most the maximum: debt * 10^7 <= max * deposits
            h.prove_any(w, d, [X.le(r.util_now(), r.max_util), X.le(X.mul(r.liab(), S7), X.mul(r.max_util, r.supply()))], what + ': utilisation right after the borrow')
            h.prove(w, d, X.gt(r.supply(), 0), what + ': nothing is borrowed from an empty reserve')


def run(h, reqs, pos, accrue=False, **kw):
    w, done = submit(h, reqs, pos, accrue=accrue, **kw)
    what = '+'.join(NAMES_T[t] for t, _ in reqs)
    for d in done: capped(h, w, d, reqs, what, accrue)
    for d in done[:2]: h.sample(w, d)


def triple(h, a, b):
    for c in range(6):
        if 4 in (a, b, c): run(h, [(a, 0), (b, 0), (c, 0)], 'all')


def jobs(tier):
    J = [('borrow/accrue', run, dict(reqs=[(4, 0)], pos='all', accrue=True))]
    for pos in ('all', 'c0', 'lc', 'cl'): J.append(('borrow/' + pos, run, dict(reqs=[(4, 0)], pos=pos)))
    J.append(('borrow/split9', run, dict(reqs=[(4, 0)], pos='all', roles='split', decimals=9)))
    for a in range(6):
        J.append(('%s+borrow' % NAMES_T[a], run, dict(reqs=[(a, 0), (4, 0)], pos='all')))
        J.append(('%s+borrow/two' % NAMES_T[a], run, dict(reqs=[(a, 0), (4, 1)], pos='two')))
        if a != 4:
            J.append(('borrow+%s' % NAMES_T[a], run, dict(reqs=[(4, 0), (a, 0)], pos='all')))
            J.append(('borrow+%s/two' % NAMES_T[a], run, dict(reqs=[(4, 0), (a, 1)], pos='two')))
    if tier == 'thorough':
        for a in range(6):
            for b in range(6): J.append(('triples/%s+%s' % (NAMES_T[a], NAMES_T[b]), triple, dict(a=a, b=b)))
    return J
