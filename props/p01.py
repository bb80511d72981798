"""Share supply accounting."""
from props.lib_pool import *

BOUNDS = 'request lists of length 1 and 2 (3 in the thorough tier), auction fills with up to two assets on a side, bad debt transfers with up to two reserves; amounts in [-2^100, 2^100], balances and supplies in [0, 2^80], rates in [1, 100], decimals 7 and 9'
ASSUMPTIONS = ['token contracts and the backstop do not call back into the pool', 'fill percentages fit in 64 bits']


def conserve(h, w, st, what):
    pre, post = st.g['hist'][0]['pre'], st.store
    users = set(w.users(pre)) | set(w.users(post))
    for i in range(w.nres):
        db = X.sub(w.res_store(post, i, 'b_supply'), w.res_store(pre, i, 'b_supply'))
        dd = X.sub(w.res_store(post, i, 'd_supply'), w.res_store(pre, i, 'd_supply'))
        sb = sd = 0
        for u in users:
            L0, C0, S0 = w.pos_store(pre, u)
            L1, C1, S1 = w.pos_store(post, u)
            sb = X.add(sb, X.sub(X.add(g(C1, i), g(S1, i)), X.add(g(C0, i), g(S0, i))))
            sd = X.add(sd, X.sub(g(L1, i), g(L0, i)))
        h.prove(w, st, X.eq(db, sb), what + ': supplied shares of reserve %d add up' % i)
        h.prove(w, st, X.eq(dd, sd), what + ': debt shares of reserve %d add up' % i)
    for u in users:
        for m in w.pos_store(post, u):
            for k, v in m.e:
                if (k, v) not in [x for p in w.pos_store(pre, u) for x in p.e]:
                    h.prove(w, st, X.ge(v, 0), what + ': no negative balance')


def one(h, ty, pos, roles='same', **kw):
    w, done = submit(h, [(ty, 0)], pos, roles=roles, **kw)
    for d in done:
        conserve(h, w, d, NAMES_T[ty])
        h.sample(w, d)


def pair(h, a, b, j):
    w, done = submit(h, [(a, 0), (b, j)], 'all' if j == 0 else 'two')
    for d in done: conserve(h, w, d, NAMES_T[a] + '+' + NAMES_T[b])
    if done: h.sample(w, done[0])


def triple(h, a):
    for b in range(6):
        for c in range(6):
            w, done = submit(h, [(a, 0), (b, 0), (c, 0)], 'all', max_positions=60)
            for d in done: conserve(h, w, d, '+'.join(NAMES_T[x] for x in (a, b, c)))


def other(h, f, **kw):
    w, done = f(h, **kw)
    for d in done:
        conserve(h, w, d, f.__name__.replace('scenario_', ''))
        h.sample(w, d)


def jobs(tier):
    J = []
    for t in range(6):
        for pos in ('all', 'none', 's0c1', 'l0', 'c0'):
            J.append(('%s/%s' % (NAMES_T[t], pos), one, dict(ty=t, pos=pos)))
        J.append(('%s/accrue' % NAMES_T[t], one, dict(ty=t, pos='all', accrue=True)))
        J.append(('%s/split' % NAMES_T[t], one, dict(ty=t, pos='all', roles='split', decimals=9)))
    for a in range(6):
        for b in range(6):
            J.append(('%s+%s/same' % (NAMES_T[a], NAMES_T[b]), pair, dict(a=a, b=b, j=0)))
            J.append(('%s+%s/two' % (NAMES_T[a], NAMES_T[b]), pair, dict(a=a, b=b, j=1)))
    for f in (scenario_fill_liq, scenario_fill_bad, scenario_fill_int, scenario_delete, scenario_bad_debt):
        J.append((f.__name__[9:], other, dict(f=f)))
        if 'fill' in f.__name__:
            for r in REGIME:
                J.append(('%s/two/%s' % (f.__name__[9:], r), other, dict(f=f, regime=r, **{'nliq' if f is scenario_fill_liq else 'nl': 2})))
    if tier == 'thorough':
        for a in range(6): J.append(('triples/' + NAMES_T[a], triple, dict(a=a)))
    return J
