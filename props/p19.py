"""The limit on positions."""
from props.lib_pool import *

BOUNDS = 'request lists of one or two requests (three in the thorough tier) and fills of every auction type on up to two reserves (four debts and collaterals); the limit any number from 0 to 60'
ASSUMPTIONS = []
MAXED = 'error:1208'


def count(p): return len(p[0].e) + len(p[1].e)


def within(h, w, done, what):
    for d in done:
        if d.status == 'ok':
            pre, post = w.pos_store(d.g['pre'], USER), w.pos(d, USER)
            n0, n1 = count(pre), count(post)
            if n1 > n0: h.prove(w, d, X.le(n1, w.max_positions), what + ': no more positions than the limit')
            for m in post:
                for k, v in m.e: h.prove(w, d, X.gt(v, 0), what + ': an empty position does not count')
    for d in [d for d in done if d.status == 'ok'][:2]: h.sample(w, d)


def lend(h, reqs, pos, maxp=None):
    w = pool(h, 2)
    if POS[pos] != ((), (), ()): w.position(USER, *POS[pos])
    rs = [(t, ASSET[i], w.v('amt%d' % k, -2**100, 2**100)) for k, (t, i) in enumerate(reqs)]
    done = h.run(w, 'submit', USER, USER, USER, req_list(w, *rs), reverts=True)
    what = '+'.join(NAMES_T[t] for t, _ in reqs)
    within(h, w, done, what)
    ty = [t for t, _ in reqs]
    for d in done:
        if d.status != 'ok' and d.why == MAXED and not any(t in (2, 4) for t in ty): h.never(w, d, what + ': the limit refuses a list that opens no position')
        if d.status != 'ok' and d.why == MAXED: h.prove(w, d, X.lt(w.max_positions, count(w.pos_store(d.g['pre'], USER)) + len(reqs)), what + ': the limit refuses only what exceeds it')


def fill(h, f, **kw):
    w, done = f(h, **kw)
    within(h, w, done, f.__name__[9:])


def triple(h, a, b):
    for c in range(6): lend(h, [(a, 0), (b, 1), (c, 0)], 'two' if a in (1, 3, 5) else 'l0')


def jobs(tier):
    J = [('fill_bad', fill, dict(f=scenario_fill_bad)), ('fill_liq', fill, dict(f=scenario_fill_liq)), ('fill_int', fill, dict(f=scenario_fill_int)), ('fill_liq/nopos', fill, dict(f=scenario_fill_liq, pos=False)),
         ('fill_liq/two', fill, dict(f=scenario_fill_liq, nliq=2, regime='mid'))]
    for t in range(6):
        for p in ('none', 'all', 'two', 'lc', 'l0', 'c0'): J.append(('%s/%s' % (NAMES_T[t], p), lend, dict(reqs=[(t, 0)], pos=p)))
    for a in range(6):
        for b in range(6):
            if a in (2, 4) or b in (2, 4):
                for p in ('none', 'cl', 'lc'): J.append(('%s+%s/%s' % (NAMES_T[a], NAMES_T[b], p), lend, dict(reqs=[(a, 0), (b, 1)], pos=p)))
    if tier == 'thorough':
        for a in range(6):
            for b in range(6): J.append(('triples/%s+%s' % (NAMES_T[a], NAMES_T[b]), triple, dict(a=a, b=b)))
    return J
