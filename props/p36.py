"""Emitter: each backstop hands out its initial drop once, at most 50 million tokens."""
from props.lib_emitter import *

CRATES = ['emitter']
BOUNDS = 'lists of up to three entries (thorough: six) with any amounts, equal and distinct receivers; repeated drops, also after a swap there and back'
ASSUMPTIONS = ['the token refuses to mint negative amounts']
MAX = 50_000_000 * S7


def drop(h, who, dropped=()):
    w = ew(h, dropped=dropped)
    am = [w.v('a%d' % i, -2**100, 2**100) for i in range(len(who))]
    lst = SVec([A(0, (u, a)) for u, a in zip(who, am)])
    for d in h.run(w, 'drop', lst, reverts=True):
        P = lambda g, t: h.prove(w, d, g, t)
        if BACKSTOP in dropped:
            if d.status == 'ok': h.never(w, d, 'a second drop')
            continue
        if d.status != 'ok':
            P(X.or_(X.gt(tsum(am), MAX), *[X.lt(a, 0) for a in am]), 'a drop within the limit is refused')
            continue
        P(BACKSTOP in d.auths, 'the current backstop authorises it')
        P(X.le(tsum(am), MAX), 'at most 50 million tokens')
        m = mints(d)
        # each receiver gets the sum of its entries
        for u in set(who) | {x[0] for x in m}:
            P(X.eq(tsum([x[1] for x in m if x[0] is u]), tsum([a for v, a in zip(who, am) if v is u])), 'every receiver gets what the list says')
        P(all(x[2] is BLND for x in m), 'the emission token is minted')
        P(w.dropped(d.store, BACKSTOP) is True, 'the drop is recorded')
        unchanged(h, w, d, {key('Dropped', BACKSTOP)}, 'drop')
        only(h, w, d, ('mint',), 'drop')
        h.sample(w, d)
        for e in h.run(w, 'drop', SVec([A(0, (USER, 1))]), st=d): h.never(w, e, 'a second drop')
        for e in h.run(w, 'drop', SVec([]), st=d): h.never(w, e, 'a second drop')


def negative(h):
    """no entry below zero is minted past the limit: amounts above it need entries the token refuses"""
    w = ew(h)
    am = [w.v('a%d' % i, -2**100, 2**100) for i in range(2)]
    for d in h.run(w, 'drop', SVec([A(0, (USER, am[0])), A(0, (OTHER, am[1]))])):
        for u, x, _ in mints(d): h.prove(w, d, X.or_(X.le(x, MAX), *[X.lt(y, 0) for _, y, _ in mints(d)]), 'no single amount above the limit')


def after_swap(h, known):
    """a new backstop has its own drop, the old one has none any more"""
    w = ew(h, swap=NEWB, dropped=(BACKSTOP, NEWB) if known else (BACKSTOP,))
    lst = SVec([A(0, (USER, w.v('a0', 0, 2**60)))])
    for d in h.run(w, 'swap_backstop'):
        h.prove(w, d, w.dropped(d.store, BACKSTOP) is True, 'a drop stays recorded')
        for e in h.run(w, 'drop', lst, st=d):
            if known: h.never(w, e, 'a backstop that comes back drops again')
            else:
                h.prove(w, e, NEWB in e.auths and w.dropped(e.store, NEWB) is True, 'the drop is of the new backstop')
                h.sample(w, e)


def others(h, m, swap):
    w = ew(h, swap=NEWB if swap else None, dropped=(BACKSTOP,))
    for d in h.run(w, m, *vals(w, m)):
        unchanged(h, w, d, lambda kind, k: kname(k) != 'Dropped', m + ': recorded drops')


def jobs(tier):
    J = [('drop/%d' % len(w), drop, dict(who=w)) for w in ([], [USER], [USER, OTHER], [USER, OTHER, THIRD])]
    J += [('same', drop, dict(who=[USER, USER])), ('same3', drop, dict(who=[USER, OTHER, USER])), ('contracts', drop, dict(who=[BACKSTOP, ME, BLND])), ('again', drop, dict(who=[USER], dropped=(BACKSTOP,))), ('other backstop', drop, dict(who=[USER], dropped=(OTHER,)))]
    if tier == 'thorough': J += [('drop/6', drop, dict(who=[USER, OTHER, THIRD, NEWB, BACKSTOP, ME]))]
    J += [('negative', negative, {}), ('swap', after_swap, dict(known=False)), ('swap/back', after_swap, dict(known=True))]
    return J + [('other/%s/%d' % (m, s), others, dict(m=m, swap=s)) for m in OPS if m != 'drop' for s in (0, 1)]
