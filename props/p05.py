"""The interest rate follows the documented curve and its modifier moves towards the target utilisation."""
from props.lib_pool import *

BOUNDS = 'one accrual from an arbitrary reserve state: rates in [1, 100], supplies up to 2^80, up to 79 years since the last one, curve parameters up to 10, reactivity up to 0.0001, target utilisation in (0, 0.95)'
ASSUMPTIONS = ['the stored last accrual time is not after the current time']


def exact(h, w, d, what):
    for i in range(w.nres):
        if d.store['persistent'][key('ResData', ASSET[i])] is d.g['pre']['persistent'][key('ResData', ASSET[i])]: continue
        for e in split(d, accr_conds(w, d.g['pre'], i)): exact1(h, w, e, i, what)


def exact1(h, w, d, i, what):
    r = accrued(w, d, d.g['pre'], i, w.now)
    if r is None:
        h.undecided.append(what + ': accrual case')
        return
    P = lambda goal, s, **k: h.prove(w, d, goal, what + ': ' + s, **k)
    P(X.eq(w.res(d, i, 'd_rate'), r.d_rate), 'debt grows by the rate of the curve, rounded up')
    m = w.res(d, i, 'ir_mod')
    P(X.eq(m, r.ir_mod), 'the rate modifier')
    P(X.ge(m, S9 // 10), 'the rate modifier is at least 0.1')
    P(X.le(m, 10 * S9), 'the rate modifier is at most 10')
    P(X.eq(w.res(d, i, 'b_rate'), r.b_rate), 'deposit rate')
    P(X.eq(w.res(d, i, 'backstop_credit'), r.backstop_credit), 'backstop credit')


def one(h, ty, pos='none', **kw):
    w, done = submit(h, [(ty, 0)], pos, accrue=True, status=0, max_positions=10, **kw)
    for d in done: exact(h, w, d, NAMES_T[ty])
    for d in done[-2:]: h.sample(w, d)


def bad_debt(h):
    w, done = scenario_bad_debt(h, who=(0,), bs=(), supp=(), accrue=True)
    for d in done: exact(h, w, d, 'bad debt')
    for d in done[-1:]: h.sample(w, d)


def jobs(tier):
    return [('supply', one, dict(ty=0)), ('supply_coll/all', one, dict(ty=2, pos='all')), ('repay', one, dict(ty=5, pos='l0')), ('supply/dec9', one, dict(ty=0, decimals=9)),
            ('bad_debt', bad_debt, {})]
