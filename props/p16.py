"""Only the admin administers; the pool is initialised once; its fixed settings stay."""
from props.lib_pool import *
from props.p15 import any_config, put_queued, NEW

BOUNDS = 'every entry point, with arbitrary arguments for the administrative ones and one representative call for the others'
ASSUMPTIONS = ['authorisation is what the host grants: require_auth either returns or aborts the transaction']
FIXED = ('Admin', 'Backstop', 'BLNDTkn', 'USDCTkn', 'IsInit', 'Name')


def cfg(w, st, f): return w.get('PoolConfig', w.rd(st, 'instance', skey('Config')), f)


def fixed(h, w, d, what, but=()):
    """who the pool answers to and what it is made of"""
    pre = d.g['pre']['instance']
    for n in FIXED:
        if n in but: continue
        a, b = pre.get(skey(n)), d.store['instance'].get(skey(n))
        if a is b: continue
        h.prove(w, d, a is not None and b is not None and enc_eq(enc(w.T, *a), enc(w.T, *b)), what + ' leaves ' + n)
    c0 = pre[skey('Config')][0]
    for f in ('bstop_rate', 'max_positions', 'status'):
        if f not in but: h.prove(w, d, X.eq(cfg(w, d, f), w.get('PoolConfig', c0, f)), what + ' leaves ' + f)
    h.prove(w, d, cfg(w, d, 'oracle') is w.get('PoolConfig', c0, 'oracle'), what + ' leaves the oracle')


def set_admin(h, new=OTHER):
    w = pool(h, 1)
    for d in h.run(w, 'set_admin', new):
        h.prove(w, d, ADMIN in d.auths, 'the old admin agrees')
        h.prove(w, d, new in d.auths, 'the new admin agrees')
        h.prove(w, d, w.rd(d, 'instance', skey('Admin')) is new, 'the new admin is the one named')
        fixed(h, w, d, 'set_admin', ('Admin',))
        unchanged(h, w, d, {skey('Admin')}, 'set_admin')
        # from then on the old admin is nobody
        for e in h.run(w, 'update_pool', w.v('rate', 0, 2**32 - 1), w.v('maxp', 0, 2**32 - 1), st=d):
            h.prove(w, e, new in e.auths[e.g['hist'][-1]['auths']:], 'the new admin governs')
            h.sample(w, e)


def update(h):
    w = pool(h, 1)
    r, m = w.v('rate', 0, 2**32 - 1), w.v('maxp', 0, 2**32 - 1)
    for d in h.run(w, 'update_pool', r, m):
        h.prove(w, d, ADMIN in d.auths, 'only the admin updates the pool')
        h.prove(w, d, X.lt(r, S7), 'the take rate is below 1')
        h.prove(w, d, X.eq(cfg(w, d, 'bstop_rate'), r), 'the take rate is the one named')
        h.prove(w, d, X.eq(cfg(w, d, 'max_positions'), m), 'the position limit is the one named')
        fixed(h, w, d, 'update_pool', ('bstop_rate', 'max_positions'))
        unchanged(h, w, d, {skey('Config')}, 'update_pool')
        h.sample(w, d)


def init(h, again):
    w = pool(h, 1)
    r, m = w.v('rate', 0, 2**32 - 1), w.v('maxp', 0, 2**32 - 1)
    if not again:
        for k in w.st.store: w.st.store[k] = {}
    for d in h.run(w, 'initialize', OTHER, Str('a pool'), THIRD, r, m, BTOKEN, BLND):
        P = lambda goal, t: h.prove(w, d, goal, t)
        if again:
            h.never(w, d, 'a second initialisation')
            continue
        P(OTHER in d.auths, 'the admin agrees')
        P(X.lt(r, S7), 'the take rate is below 1')
        P(X.ge(m, 2), 'at least two positions')
        P(X.eq(cfg(w, d, 'status'), 6), 'the pool starts in setup')
        P(X.eq(cfg(w, d, 'bstop_rate'), r), 'the take rate is the one named')
        P(X.eq(cfg(w, d, 'max_positions'), m), 'the position limit is the one named')
        P(cfg(w, d, 'oracle') is THIRD, 'the oracle is the one named')
        nm = w.rd(d, 'instance', skey('Name'))
        P(nm is not None and getattr(nm, 's', None) == 'a pool', 'the name is the one named')
        for n, a in (('Admin', OTHER), ('Backstop', BTOKEN), ('BLNDTkn', BLND)): P(w.rd(d, 'instance', skey(n)) is a, 'the stored %s is the one named' % n)
        for e in h.run(w, 'initialize', OTHER, Str('a pool'), THIRD, r, m, BTOKEN, BLND, st=d): h.never(w, e, 'a second initialisation')
        h.sample(w, d)


def admin_only(h, f):
    w = pool(h, 1)
    a = {'queue_set_reserve': lambda: (NEW, any_config(w)[1]), 'cancel_set_reserve': lambda: (ASSET[0],), 'set_status': lambda: (w.v('s', 0, 2**32 - 1),),
         'set_emissions_config': lambda: (SVec([w.mk('ReserveEmissionMetadata', res_index=w.v('ri', 0, 5), res_type=w.v('rt', 0, 5), share=w.v('share', 0, 2**64 - 1))]),)}[f]()
    if f == 'cancel_set_reserve': put_queued(w, ASSET[0])
    for d in h.run(w, f, *a):
        h.prove(w, d, ADMIN in d.auths, 'only the admin may ' + f)
        fixed(h, w, d, f, ('status',) if f == 'set_status' else ())


def others(h, f):
    """what anybody can call"""
    if f == 'submit':
        for t in range(6):
            w, done = submit(h, [(t, 0)], 'all')
            for d in done: fixed(h, w, d, f)
        return
    if f == 'fills':
        for sc in (scenario_fill_liq, scenario_fill_bad, scenario_fill_int):
            w, done = sc(h, regime='full')
            for d in done: fixed(h, w, d, f)
        return
    if f == 'bad_debt': w, done = scenario_bad_debt(h)
    elif f == 'set_reserve':
        w = pool(h, 1)
        put_queued(w, NEW)
        done = h.run(w, f, NEW)
    elif f == 'new_liquidation_auction':
        w = pool(h, 2)
        w.position(OTHER, (0,), (1,), ())
        done = h.run(w, f, OTHER, 37)
    elif f == 'new_bad_debt_auction':
        w = pool(h, 2)
        w.position(BACKSTOP, (0,), (), ())
        done = h.run(w, f)
    elif f == 'new_interest_auction':
        w = pool(h, 1)
        done = h.run(w, f, SVec([ASSET[0]]))
    elif f == 'claim':
        w = pool(h, 1)
        w.position(USER, (0,), (0,), ())
        done = h.run(w, f, USER, SVec([0, 1]), USER)
    elif f == 'update_status':
        w = pool(h, 1)
        done = h.run(w, f)
    else:
        w = pool(h, 1)
        done = h.run(w, f)
    for d in done: fixed(h, w, d, f, ('status',) if f == 'update_status' else ())


def jobs(tier):
    J = [('set_admin' + n, set_admin, dict(new=a)) for n, a in (('', OTHER), ('/backstop', BACKSTOP), ('/oracle', ORACLE), ('/token', BLND), ('/asset', ASSET[0]), ('/same', ADMIN))]
    J += [ ('update_pool', update, {}), ('init', init, dict(again=False)), ('init/again', init, dict(again=True))]
    J += [('admin/' + f, admin_only, dict(f=f)) for f in ('queue_set_reserve', 'cancel_set_reserve', 'set_status', 'set_emissions_config')]
    return J + [('others/' + f, others, dict(f=f)) for f in ('submit', 'fills', 'bad_debt', 'set_reserve', 'new_liquidation_auction', 'new_bad_debt_auction', 'new_interest_auction', 'claim', 'update_status', 'gulp_emissions')]
