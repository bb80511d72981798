"""Interest: what borrowers accrue is what lenders and the backstop receive, never more; nothing ever shrinks; once per second at most."""
from props.lib_pool import *

BOUNDS = 'one accrual from an arbitrary reserve state: rates in [1, 100], supplies up to 2^80, up to 79 years since the last one, curve parameters up to 10, take rate below 1; reached through every request type and through bad debt transfers, reserve updates and auction fills'
ASSUMPTIONS = ['the stored last accrual time is not after the current time']


def conserves(h, w, d, what, others=True):
    pre = d.g['pre']
    for i in range(w.nres):
        r = Res(w, pre, i)
        if d.store['persistent'][key('ResData', ASSET[i])] is pre['persistent'][key('ResData', ASSET[i])]: continue
        d1, b1, c1 = (w.res(d, i, n) for n in ('d_rate', 'b_rate', 'backstop_credit'))
        P = lambda goal, s, **k: h.prove(w, d, goal, what + ': ' + s, **k)
        P(X.eq(w.res(d, i, 'last_time'), w.now), 'the reserve is accrued up to now')
        P(X.ge(d1, r.d_rate), 'debt never shrinks')
        inc = X.sub(X.cdiv(X.mul(r.d_supply, d1), S9), r.liab())
        cut = X.sub(c1, r.backstop_credit)
        P(X.ge(cut, 0), 'the backstop is never charged')
        if d1 is r.d_rate or settle(d, X.eq(d1, r.d_rate)):
            P(X.eq(b1, r.b_rate), 'no interest, no gain')
            P(X.eq(cut, 0), 'no interest, no cut')
            continue
        pos = settle(d, X.gt(inc, 0))
        lem = [X.implies(X.gt(inc, 0), X.le(X.mul(inc, w.bstop_rate), X.mul(inc, S7 - 1))),                       # the take rate is below 1
               X.implies(X.ge(d1, r.d_rate), X.ge(X.mul(d1, r.d_supply), X.mul(r.d_rate, r.d_supply))),
               X.or_(X.ge(b1, r.b_rate), X.le(X.mul(b1, r.b_supply), X.sub(X.mul(r.b_rate, r.b_supply), r.b_supply)))]
        P(X.eq(cut, 0 if pos is False else X.fdiv(X.mul(inc, w.bstop_rate), S7)), 'the backstop receives its take rate', lemmas=lem)
        if pos is not False:
            less = X.implies(X.gt(inc, 0), X.lt(cut, inc))
            if P(less, 'the backstop receives less than what accrues', lemmas=lem) == 'proved': lem.append(less)
        P(X.ge(b1, r.b_rate), 'deposits never shrink', lemmas=lem)
        gain = X.sub(X.fdiv(X.mul(b1, r.b_supply), S9), r.supply())
        left = X.sub(inc, cut)
        P(X.le(gain, left), 'lenders do not receive more than borrowers accrue', lemmas=lem)
        P(X.gt(X.mul(b1, r.b_supply), X.sub(X.mul(X.add(r.supply(), left), S9), r.b_supply)), 'lenders receive the rest', lemmas=lem)


def one(h, ty, pos='all', status=0, **kw):
    w, done = submit(h, [(ty, 0)], pos, accrue=True, status=status, max_positions=10, **kw)
    for d in done: conserves(h, w, d, NAMES_T[ty])
    for d in done[-2:]: h.sample(w, d)


def bad_debt(h):
    w, done = scenario_bad_debt(h, who=(0,), bs=(), supp=(), accrue=True)
    for d in done: conserves(h, w, d, 'bad debt')
    for d in done[-1:]: h.sample(w, d)


def twice(h):
    """a second operation in the same ledger time accrues nothing"""
    w = pool(h, 1, accrue=True, status=0)
    a, b = w.v('a', 0, 2**100), w.v('b', 0, 2**100)
    for d in h.run(w, 'submit', USER, USER, USER, req_list(w, (0, ASSET[0], a))):
        for e in h.run(w, 'submit', OTHER, OTHER, OTHER, req_list(w, (2, ASSET[0], b)), st=d):
            for n in ('d_rate', 'b_rate', 'ir_mod', 'backstop_credit', 'last_time'):
                h.prove(w, e, X.eq(w.res(e, 0, n), w.res_store(e.g['pre'], 0, n)), 'a second accrual at the same time: ' + n)


def jobs(tier):
    J = [(NAMES_T[t], one, dict(ty=t)) for t in (3, 5, 1, 4, 0, 2)]
    J.append(('supply/dec9', one, dict(ty=0, pos='none', decimals=9)))
    J.append(('bad_debt', bad_debt, {}))
    J.append(('twice', twice, {}))
    return J
