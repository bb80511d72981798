"""Emitter: one token per second, to the current backstop, each second once."""
from props.lib_emitter import *

CRATES = ['emitter']
BOUNDS = 'every time and time of the last distribution; sequences of two operations at any two times'
ASSUMPTIONS = ['time does not run backwards', 'the token mints what it is asked to']


def one(h):
    w = ew(h, seen=(NEWB,))
    for d in h.run(w, 'distribute', reverts=True):
        if d.status != 'ok':
            h.never(w, d, 'a distribution is refused (%s)' % d.why.split('@')[0])
            continue
        P = lambda g, t: h.prove(w, d, g, t)
        m = mints(d)
        P(len(m) == 1 and m[0][2] is BLND, 'the emission token is minted once')
        if len(m) == 1:
            P(m[0][0] is BACKSTOP, 'it is minted to the current backstop')
            P(X.eq(m[0][1], due(w, d, w.last)), 'one token for each second since the last distribution')
        P(X.eq(d.result, due(w, d, w.last)), 'the amount is reported')
        P(X.eq(w.lastof(d.store, BACKSTOP), w.now), 'the time of the distribution is recorded')
        unchanged(h, w, d, {key('LastDistro', BACKSTOP)}, 'distribution')
        only(h, w, d, ('mint',), 'distribution')
        h.sample(w, d)
        for q in h.run(w, 'get_last_distro', BACKSTOP, st=d): h.prove(w, q, X.eq(q.result, w.now), 'the last distribution is reported')
        t = w.v('later', 0, 4_100_000_000)
        e = d.copy()
        e.assume(X.ge(t, w.now))
        e.ledger = dict(d.ledger, timestamp=t)
        n = len(e.log)
        for f in h.run(w, 'distribute', st=e):
            mm = mints(f, n)
            h.prove(w, f, len(mm) == 1 and mm[0][0] is BACKSTOP, 'second distribution: minted to the backstop')
            h.prove(w, f, X.eq(tsum([x[1] for x in mm]), X.mul(X.sub(t, w.now), S7)), 'a second is paid once')
            h.sample(w, f)


def swapped(h, known, token=NEWT):
    """the old backstop is paid until the swap, the new one from then on"""
    w = ew(h, swap=NEWB, seen=(NEWB,) if known else (), token=token)
    for d in h.run(w, 'swap_backstop'):
        P = lambda g, t: h.prove(w, d, g, t)
        m = mints(d)
        P(all(x[2] is BLND for x in m), 'the emission token is minted')
        P(all(x[0] is BACKSTOP for x in m), 'what is due before the swap goes to the old backstop')
        P(X.eq(tsum([x[1] for x in m]), due(w, d, w.last)), 'the old backstop is paid until the swap')
        P(X.eq(w.lastof(d.store, NEWB), w.now), 'the new backstop is paid from the swap on')
        P(X.eq(w.lastof(d.store, BACKSTOP), w.now), 'the old backstop is paid up to the swap')
        t = w.v('later', 0, 4_100_000_000)
        e = d.copy()
        e.assume(X.ge(t, w.now))
        e.ledger = dict(d.ledger, timestamp=t)
        n = len(e.log)
        for f in h.run(w, 'distribute', st=e):
            mm = mints(f, n)
            h.prove(w, f, len(mm) == 1 and mm[0][0] is NEWB and mm[0][2] is BLND, 'after the swap the new backstop is paid')
            h.prove(w, f, X.eq(tsum([x[1] for x in mm]), X.mul(X.sub(t, w.now), S7)), 'the new backstop is paid from the swap on')
            h.sample(w, f)


def others(h, m, swap):
    """no other operation changes the times of distribution or mints (the drop: P36)"""
    w = ew(h, swap=NEWB if swap else None, seen=(NEWB, OTHER))
    for d in h.run(w, m, *vals(w, m)):
        unchanged(h, w, d, lambda kind, k: kname(k) != 'LastDistro', m + ': times of distribution')
        if m != 'drop': h.prove(w, d, not mints(d), m + ': nothing is minted')


def jobs(tier):
    J = [('one', one, {})] + [('swap%s%s' % (k, n), swapped, dict(known=k != '', token=t)) for n, t in TOKENS.items() for k in ('', '/back')]
    return J + [('other/%s/%d' % (m, s), others, dict(m=m, swap=s)) for m in OPS if m not in ('distribute', 'swap_backstop') for s in (0, 1)]
