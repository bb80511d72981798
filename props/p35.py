"""Emitter: the backstop is replaced only by a larger one, after 31 days."""
from props.lib_emitter import *

CRATES = ['emitter']
BOUNDS = 'every pair of balances at queueing and at execution, every time; sequences of queueing, cancellation and execution'
ASSUMPTIONS = ['time does not run backwards']


def bals(w): return w.bal.get((LP, NEWB)), w.bal.get((LP, BACKSTOP))


def larger(h, w, d, what, yes=True):
    n, o = bals(w)
    h.prove(w, d, n is not None and o is not None, what + ': the balances of the backstop token are compared')
    if n is None or o is None: return
    h.prove(w, d, X.gt(n, o) if yes else X.le(n, o), what)


def queue(h, swap=None, NEWT=NEWT, NEWB=NEWB):
    w = ew(h, swap=swap, token=NEWT)
    for d in h.run(w, 'queue_swap_backstop', NEWB, NEWT, reverts=True):
        if d.status != 'ok':
            n, o = bals(w)
            if swap is None and NEWB is not BACKSTOP: h.prove(w, d, n is not None and o is not None and X.le(n, o), 'a larger backstop can be queued')
            continue
        if swap is not None:
            h.never(w, d, 'a second swap is queued')
            continue
        P = lambda g, t: h.prove(w, d, g, t)
        if NEWB is BACKSTOP:
            h.never(w, d, 'the current backstop replaces itself')
            continue
        larger(h, w, d, 'the new backstop is larger when it is queued')
        s = w.swap(d.store)
        P(s is not None, 'the swap is queued')
        if s:
            P(s[0] is NEWB and s[1] is NEWT, 'the swap is to the named backstop and token')
            P(X.eq(s[2], X.add(w.now, 31 * DAY)), 'the swap unlocks in 31 days')
        unchanged(h, w, d, {skey('Swap')}, 'queueing')
        only(h, w, d, ('balance',), 'queueing')
        h.sample(w, d)
        for q in h.run(w, 'get_queued_swap', st=d):
            r = q.result
            h.prove(w, q, r.v == 1, 'the queued swap is reported')
        # afterwards: not before 31 days have passed
        t = w.v('later', 0, 4_100_000_000)
        e = d.copy()
        e.assume(X.ge(t, w.now))
        e.ledger = dict(d.ledger, timestamp=t)
        for f in h.run(w, 'swap_backstop', st=e):
            h.prove(w, f, X.ge(t, X.add(w.now, 31 * DAY)), 'a swap takes 31 days')
            h.prove(w, f, w.inst(f, 'Backstop') is NEWB and w.inst(f, 'BToken') is NEWT, 'the queued backstop and token are set')
            for g in h.run(w, 'swap_backstop', st=f): h.never(w, g, 'a swap is executed twice')
        for f in h.run(w, 'queue_swap_backstop', OTHER, THIRD, st=e): h.never(w, f, 'a queued swap is replaced')


def execute(h, new=NEWB, reverts=True, NEWT=NEWT):
    w = ew(h, swap=new, token=NEWT)
    for d in h.run(w, 'swap_backstop', reverts=True):
        n, o = w.bal.get((LP, new)), w.bal.get((LP, BACKSTOP))
        if d.status != 'ok':
            h.prove(w, d, X.or_(X.gt(w.unlock, w.now), X.le(n, o)) if n is not None and o is not None else X.gt(w.unlock, w.now), 'an unlocked swap to a larger backstop can be executed')
            continue
        P = lambda g, t: h.prove(w, d, g, t)
        P(X.ge(w.now, w.unlock), 'the swap is unlocked')
        P(n is not None and o is not None and X.gt(n, o), 'the new backstop is still larger')
        P(w.inst(d, 'Backstop') is new and w.inst(d, 'BToken') is NEWT, 'the queued backstop and token are set')
        P(w.inst(d, 'BLNDTkn') is BLND, 'the emission token stays')
        P(w.swap(d.store) is None, 'the swap is not queued any more')
        unchanged(h, w, d, {skey('Swap'), skey('Backstop'), skey('BToken'), key('LastDistro', new), key('LastDistro', BACKSTOP)}, 'swap')
        only(h, w, d, ('balance', 'mint'), 'swap')
        h.sample(w, d)
        for q in h.run(w, 'get_backstop', st=d): h.prove(w, q, q.result is new, 'the current backstop is reported')


def cancel(h, NEWT=NEWT):
    w = ew(h, swap=NEWB, token=NEWT)
    for d in h.run(w, 'cancel_swap_backstop', reverts=True):
        if d.status != 'ok':
            n, o = bals(w)
            h.prove(w, d, n is not None and o is not None and X.gt(n, o), 'a swap to a backstop that is not larger can be cancelled')
            continue
        larger(h, w, d, 'a swap is cancelled only when the new backstop is not larger', False)
        h.prove(w, d, w.swap(d.store) is None, 'the swap is cancelled')
        unchanged(h, w, d, {skey('Swap')}, 'cancellation')
        only(h, w, d, ('balance',), 'cancellation')
        h.sample(w, d)
        for e in h.run(w, 'swap_backstop', st=d): h.never(w, e, 'a cancelled swap is executed')


def nothing(h, m):
    w = ew(h)
    for d in h.run(w, m): h.never(w, d, '%s without a queued swap' % m)


def others(h, m, swap, NEWT=NEWT):
    """no other operation changes the backstop or the queued swap"""
    w = ew(h, swap=NEWB if swap else None, token=NEWT)
    for d in h.run(w, m, *vals(w, m)):
        unchanged(h, w, d, lambda kind, k: kname(k) not in ('Swap', 'Backstop', 'BToken', 'BLNDTkn', 'IsInit'), m + ': backstop and swap')


def jobs(tier):
    J = []
    for n, t in TOKENS.items():
        J += [('queue' + n, queue, dict(NEWT=t)), ('queue/again' + n, queue, dict(swap=OTHER, NEWT=t)), ('queue/again/other' + n, queue, dict(swap=NEWB, NEWT=t)),
              ('execute' + n, execute, dict(NEWT=t)), ('execute/self' + n, execute, dict(new=BACKSTOP, NEWT=t)), ('execute/token' + n, execute, dict(new=t, NEWT=t)), ('cancel' + n, cancel, dict(NEWT=t))]
    J += [('none/' + m, nothing, dict(m=m)) for m in ('swap_backstop', 'cancel_swap_backstop')]
    J.append(('queue/self', queue, dict(NEWB=BACKSTOP)))
    return J + [('other/%s/%d%s' % (m, s, n), others, dict(m=m, swap=s, NEWT=t)) for n, t in TOKENS.items() for m in OPS if m not in ('queue_swap_backstop', 'swap_backstop', 'cancel_swap_backstop') for s in (0, 1)]
