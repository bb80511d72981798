"""Entries that the ledger forgets live long enough for their purpose."""
from props.lib_pool import *
from props.p15 import any_config, NEW
from props import lib_back as LB

CRATES = ['pool', 'backstop']
BOUNDS = 'auctions of all three types over one or two reserves, queued reserve configurations, drop lists; every ledger number'
ASSUMPTIONS = ['the network keeps a new temporary entry for at least 16 ledgers if it is not extended', 'a ledger closes every five seconds']
DAYL = 17280


def lives(h, w, d, k, n, what):
    e = d.store['temporary'].get(k)
    if e is None:
        # kept for good, or not kept at all (other properties)
        return
    u = d.ttl.get(k)
    h.prove(w, d, u is not None and X.ge(u, X.add(d.ledger['sequence'], n)), what)


def new(h, f, **kw):
    w = pool(h, 2)
    if f == 'liq':
        w.position(OTHER, (1,), (0,), ())
        done, k = h.run(w, 'new_liquidation_auction', OTHER, w.v('pct', 1, 100)), akey(0, OTHER)
    elif f == 'bad':
        w.position(BACKSTOP, (0,), (), ())
        done, k = h.run(w, 'new_bad_debt_auction'), akey(1, BACKSTOP)
    else: done, k = h.run(w, 'new_interest_auction', SVec([ASSET[0]])), akey(2, BACKSTOP)
    for d in done:
        h.prove(w, d, k in d.store['temporary'] or k in d.store['persistent'], 'the auction is stored')
        lives(h, w, d, k, DAYL, 'an auction lives for a day at least, past the end of its price curve')
        h.sample(w, d)


def queued(h, a):
    w = pool(h, 1)
    c, v = any_config(w, valid=True)
    for d in h.run(w, 'queue_set_reserve', a, v):
        lives(h, w, d, key('ResInit', a), 14 * DAYL, 'a queued configuration lives for two weeks at least, one longer than its lock')
        h.sample(w, d)


def drop(h):
    w = LB.BackstopWorld(h.prog('backstop'), 0, empty=True)
    N = [Addr('n%d' % i, 40 + i) for i in range(4)]
    for d in h.run(w, 'initialize', N[0], LB.EMITTER, N[1], N[2], N[3], SVec([A(0, (N[0], w.v('drop', 0, 2**60)))])):
        lives(h, w, d, skey('DropList'), 31 * DAYL, 'the drop list lives for 31 days at least, as long as it takes to swap the backstop')
        h.sample(w, d)


def jobs(tier):
    return [('new/' + f, new, dict(f=f)) for f in ('liq', 'bad', 'int')] + [('queued/new', queued, dict(a=NEW)), ('queued/old', queued, dict(a=ASSET[0])), ('drop', drop, {})]
