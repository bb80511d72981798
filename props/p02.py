"""Lending requests exchange tokens and shares at the current rate, rounding against the user, and do nothing else."""
from props.lib_pool import *

BOUNDS = 'request lists of length 1 and 2 (3 in the thorough tier) on one or two reserves; amounts in [-2^100, 2^100]; share balances and supplies in [0, 2^80]; rates in [1, 100]; decimals 7 and 9'
ASSUMPTIONS = ['token contracts move exactly the requested amount', 'no reserve emissions configured (P18/P21 cover emissions)']


def same_as_ref(h, w, st, ref, what, roles, accrue=False):
    f, sp, to = ROLES[roles]
    L, C, S = w.pos(st, USER)
    P = lambda goal, s: h.prove(w, st, goal, what + ': ' + s)
    for i in range(w.nres):
        P(X.eq(g(L, i), ref.L[i]), 'debt shares')
        P(X.eq(g(C, i), ref.C[i]), 'collateral shares')
        P(X.eq(g(S, i), ref.S[i]), 'supply shares')
        r = ref.r[i]
        for n in ('b_supply', 'd_supply') if accrue else ('b_supply', 'd_supply', 'b_rate', 'd_rate', 'backstop_credit'):
            P(X.eq(w.res(st, i, n), getattr(r, n)), 'reserve ' + n)
    want = {}
    for i in range(w.nres):
        for k, v in (((ASSET[i], sp, POOL), ref.paid[i]), ((ASSET[i], POOL, to), ref.out[i])):
            want[k] = v
    got = all_flows(st)
    for k in set(want) | set(got):
        P(X.eq(got.get(k, 0), want.get(k, 0)), 'tokens %s -> %s' % (k[1].name, k[2].name) if k in want else 'an unexpected token movement %s -> %s' % (k[1].name, k[2].name))
    post = w.users(st.store)
    for u in post:
        if u is not USER: P(False, 'positions of another account are written')


def run(h, reqs, pos, roles='same', accrue=False, **kw):
    w, done = submit(h, reqs, pos, roles=roles, accrue=accrue, **kw)
    what = '+'.join(NAMES_T[t] for t, _ in reqs)
    for d in done:
        pre = d.g['pre']
        rs = [accrued_as_stored(w, d, i) for i in range(w.nres)] if accrue else None
        ref = Ref(w, pre, USER, w.nres, rs, d)
        for (ty, i), a in zip(reqs, w.amts): ref.req(ty, i, a)
        for a in w.amts: h.prove(w, d, X.ge(a, 0), what + ': amount is not negative')
        same_as_ref(h, w, d, ref, what, roles, accrue)
    for d in done[:2]: h.sample(w, d)


def triple(h, a, b):
    for c in range(6): run(h, [(a, 0), (b, 0), (c, 0)], 'all')


def jobs(tier):
    J = []
    for t in range(6):
        J.append((NAMES_T[t] + '/accrue', run, dict(reqs=[(t, 0)], pos='all', accrue=True)))
    for a in range(6):
        for b in range(6):
            J.append(('%s+%s/same' % (NAMES_T[a], NAMES_T[b]), run, dict(reqs=[(a, 0), (b, 0)], pos='all', roles='split')))
            J.append(('%s+%s/two' % (NAMES_T[a], NAMES_T[b]), run, dict(reqs=[(a, 0), (b, 1)], pos='two')))
    for t in range(6):
        for pos in ('all', 'none', 's0c1', 'l0', 'c0'):
            J.append(('%s/%s' % (NAMES_T[t], pos), run, dict(reqs=[(t, 0)], pos=pos)))
        J.append((NAMES_T[t] + '/split', run, dict(reqs=[(t, 0)], pos='all', roles='split', decimals=9)))
    if tier == 'thorough':
        for a in range(6):
            for b in range(6): J.append(('triples/%s+%s' % (NAMES_T[a], NAMES_T[b]), triple, dict(a=a, b=b)))
    return J
