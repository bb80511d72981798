"""Reserve configuration: valid, timelocked, stable in its identity, and never losing interest."""
from props.lib_pool import *

BOUNDS = 'every field of a proposed configuration any 32-bit number, every status, any two timestamps for queueing and setting; new, existing and last-possible reserves; reserve states as in P05'
ASSUMPTIONS = ['ledger entries do not expire']
FIELDS = 'index decimals c_factor l_factor util max_util r_base r_one r_two r_three reactivity'.split()
NEW = Addr('newasset', 40)


def any_config(w, tag='q', valid=False):
    c = {f: w.v('%s.%s' % (tag, f), 0, 2**32 - 1) for f in FIELDS}
    if valid:
        for g in rules(c): w.st.assume(g)
    return c, w.mk('ReserveConfig', **c)


def rules(c):
    return [X.le(c['decimals'], 18), X.le(c['c_factor'], S7), X.le(c['l_factor'], S7), X.le(c['util'], 9500000), X.le(c['max_util'], S7), X.lt(c['util'], c['max_util']),
            X.ge(c['r_base'], 1000), X.lt(c['r_base'], S7), X.le(c['r_one'], c['r_two']), X.le(c['r_two'], c['r_three']), X.le(c['reactivity'], 1000)]


RULES = ['at most 18 decimals', 'collateral factor at most 1', 'liability factor at most 1', 'target utilisation at most 95 percent', 'maximum utilisation at most 1', 'maximum above target utilisation',
         'base rate at least 0.01 percent', 'base rate below 1', 'r_one at most r_two', 'r_two at most r_three', 'reactivity bounded']


def conf(w, st, a):
    v = w.rd(st, 'persistent', key('ResConfig', a))
    return None if v is None else {f: w.get('ReserveConfig', v, f) for f in FIELDS}


def queue(h, a, **kw):
    w = pool(h, 1, **kw)
    c, v = any_config(w)
    done = h.run(w, 'queue_set_reserve', a, v)
    for d in done:
        P = lambda goal, t: h.prove(w, d, goal, t)
        P(ADMIN in d.auths, 'only the admin queues')
        for goal, t in zip(rules(c), RULES): P(goal, 'a queued configuration is valid: ' + t)
        e = d.store['temporary'].get(key('ResInit', a))
        if e is None:
            P(False, 'the configuration is queued')
            continue
        q = w.get('QueuedReserveInit', e[0], 'new_config')
        for f in FIELDS: P(X.eq(w.get('ReserveConfig', q, f), c[f]), 'what is queued is what was proposed')
        u = w.get('QueuedReserveInit', e[0], 'unlock_time')
        P(X.ge(u, w.now), 'unlocked no earlier than now')
        P(X.implies(X.ne(w.status, 6), X.ge(u, X.add(w.now, 604800))), 'locked for a week outside setup')
        P(X.le(u, X.add(w.now, 604800)), 'locked for no more than a week')
        unchanged(h, w, d, {key('ResInit', a)}, 'queueing')
    for d in done[:2]: h.sample(w, d)


def requeue(h):
    """a queued configuration cannot be replaced (which would let its content change without restarting the lock)"""
    w = pool(h, 1)
    put_queued(w, ASSET[0])
    c, v = any_config(w, 'p')
    for d in h.run(w, 'queue_set_reserve', ASSET[0], v): h.never(w, d, 'a queued configuration is replaced')


def put_queued(w, a, valid=True):
    c, v = any_config(w, 'q', valid)
    u = w.v('unlock', 0, 2**40)
    w.put('temporary', key('ResInit', a), 'QueuedReserveInit', w.mk('QueuedReserveInit', new_config=v, unlock_time=u))
    return c, u


def fresh(h, n):
    """a reserve that is not there yet, in a pool with n reserves"""
    w = pool(h, min(n, 2))
    if n > 2:
        w.put('persistent', skey('ResList'), w.prim('Vec<Address>'), SVec(ASSET[:2] + [Addr('filler%d' % k, 50 + k) for k in range(n - 2)]))
    c, u = put_queued(w, NEW)
    done = h.run(w, 'set_reserve', NEW)
    for d in done:
        P = lambda goal, t: h.prove(w, d, goal, t)
        if n >= 32:
            h.never(w, d, 'more than 32 reserves')
            continue
        P(X.le(u, w.now), 'set only once unlocked')
        P(X.eq(d.result, n), 'the returned index is the next one')
        l = w.rd(d, 'persistent', skey('ResList')).e
        P(len(l) == n + 1 and l[-1] is NEW, 'the reserve is appended to the list')
        old = w.rd(w.st, 'persistent', skey('ResList')) if n else None
        if old is not None: P(list(l[:-1]) == list(d.g['pre']['persistent'][skey('ResList')][0].e), 'the others keep their places')
        k = conf(w, d, NEW)
        if k is None:
            P(False, 'the configuration is stored')
            continue
        for f in FIELDS: P(X.eq(k[f], n if f == 'index' else c[f]), 'the stored configuration is the queued one: ' + f)
        v = w.rd(d, 'persistent', key('ResData', NEW))
        for f, x in (('d_rate', S9), ('b_rate', S9), ('ir_mod', S9), ('b_supply', 0), ('d_supply', 0), ('backstop_credit', 0), ('last_time', w.now)):
            P(X.eq(w.get('ReserveData', v, f), x), 'a new reserve starts empty at rate 1: ' + f)
        P(key('ResInit', NEW) not in d.store['temporary'], 'the queue entry is used up')
        unchanged(h, w, d, {key('ResInit', NEW), key('ResConfig', NEW), key('ResData', NEW), skey('ResList')}, 'setting')
    for d in done[-1:]: h.sample(w, d)


def existing(h, accrue=True, **kw):
    w = pool(h, 2, accrue=(0,) if accrue else False, **kw)
    c, u = put_queued(w, ASSET[0])
    done = h.run(w, 'set_reserve', ASSET[0])
    for d in splits(done, lambda d: accr_conds(w, d.g['pre'], 0)):
        P = lambda goal, t, **k: h.prove(w, d, goal, t, **k)
        P(X.le(u, w.now), 'set only once unlocked')
        P(X.eq(d.result, 0), 'the returned index is the reserve\'s')
        k, old = conf(w, d, ASSET[0]), w.cfg[0]
        for f in FIELDS: P(X.eq(k[f], 0 if f == 'index' else c[f]), 'the stored configuration is the queued one: ' + f)
        P(X.eq(k['decimals'], old['decimals']), 'decimals never change')
        l = w.rd(d, 'persistent', skey('ResList')).e
        P(list(l) == ASSET[:2], 'the list of reserves stays')
        r = accrued(w, d, d.g['pre'], 0, w.now)
        if r is None:
            h.undecided.append('accrual case')
            continue
        for f in ('d_rate', 'b_rate', 'b_supply', 'd_supply', 'backstop_credit', 'last_time'):
            P(X.eq(w.res(d, 0, f), getattr(r, f)), 'interest up to the change is accrued with the old configuration: ' + f)
        m = w.res(d, 0, 'ir_mod')
        same = X.and_(*[X.eq(c[f], old[f]) for f in ('r_base', 'r_one', 'r_two', 'r_three', 'util')])
        s = settle(d, same)
        if s is False or s is None: P(X.or_(same, X.eq(m, S9)), 'the rate modifier restarts when the curve changes')
        if s is True or s is None: P(X.or_(X.not_(same), X.eq(m, r.ir_mod)), 'the rate modifier stays when the curve stays')
        P(key('ResInit', ASSET[0]) not in d.store['temporary'], 'the queue entry is used up')
        unchanged(h, w, d, {key('ResInit', ASSET[0]), key('ResConfig', ASSET[0]), key('ResData', ASSET[0])}, 'setting')
    for d in done[-1:]: h.sample(w, d)


def unqueued(h):
    for a in (ASSET[0], NEW):
        w = pool(h, 1)
        put_queued(w, OTHER)
        for d in h.run(w, 'set_reserve', a): h.never(w, d, 'a reserve is set without being queued')


def cancelled(h):
    w = pool(h, 1)
    put_queued(w, ASSET[0])
    for d in h.run(w, 'cancel_set_reserve', ASSET[0]):
        h.prove(w, d, ADMIN in d.auths, 'only the admin cancels')
        h.prove(w, d, key('ResInit', ASSET[0]) not in d.store['temporary'], 'the queue entry is gone')
        unchanged(h, w, d, {key('ResInit', ASSET[0])}, 'cancelling')
        for e in h.run(w, 'set_reserve', ASSET[0], st=d): h.never(w, e, 'a cancelled configuration is set')


def later(h):
    """queue, wait, set: the whole history"""
    w = pool(h, 1)
    c, v = any_config(w)
    for d in h.run(w, 'queue_set_reserve', NEW, v):
        t1 = w.v('t1', 1_600_000_000, 4_100_000_000)
        d.assume(X.ge(t1, w.now))
        d.ledger = dict(d.ledger, timestamp=t1)
        for e in h.run(w, 'set_reserve', NEW, st=d):
            h.prove(w, e, X.or_(X.eq(w.status, 6), X.ge(t1, X.add(w.now, 604800))), 'outside setup a change takes a week')
            k = conf(w, e, NEW)
            for f in FIELDS[1:]: h.prove(w, e, X.eq(k[f], c[f]), 'what is set is what was queued: ' + f)
            for x in h.run(w, 'set_reserve', NEW, st=e): h.never(w, x, 'one queue entry is used twice')
            h.sample(w, e)


def jobs(tier):
    J = [('existing', existing, {}), ('existing/now', existing, dict(accrue=False)), ('queue/new', queue, dict(a=NEW)), ('queue/old', queue, dict(a=ASSET[0])), ('requeue', requeue, {})]
    J += [('fresh/%d' % n, fresh, dict(n=n)) for n in (0, 1, 2, 31, 32)]
    return J + [('unqueued', unqueued, {}), ('cancel', cancelled, {}), ('later', later, {})]
