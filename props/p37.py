"""Pool factory: deploys pools with valid settings for the admin who asked, and vouches for those only."""
from engine.emitw import *
from engine.vals import *
from engine import expr as X

CRATES = ['pool_factory']
BOUNDS = 'every take rate and position limit, two deployments in a row by equal and different admins with equal and different salts, up to two earlier pools'
ASSUMPTIONS = ['the host deploys a contract once per deployer and salt', 'the hash of the salt has no collisions', 'a contract that is deployed is a new one']
OLD1, OLD2 = Addr('pool1', 21), Addr('pool2', 22)


def fw(h, **kw): return FactoryWorld(h.prog('pool_factory'), **kw)


def deploys(d): return [e for e in d.log if e[0] == '__deploy']


def check(h, w, d, before, who, oracle, r, m, name):
    P = lambda g, t: h.prove(w, d, g, t)
    P(who in d.auths[d.g['hist'][-1]['auths']:], 'the admin authorises the deployment')
    P(X.and_(X.ge(r, 0), X.lt(r, S7)), 'the take rate is below 1')
    P(X.ge(m, 2), 'at least two positions')
    n = d.g['pre_log']
    dp = [e for e in d.log[n:] if e[0] == '__deploy']
    it = [e for e in d.log[n:] if e[0] == 'initialize']
    P(len(dp) == 1 and len(it) == 1, 'one pool is deployed and initialised')
    if len(dp) != 1 or len(it) != 1: return
    P(dp[0][2][1].segs == byt(bytes.fromhex(HASH)).segs, 'it runs the pool code of the factory')
    a = it[0][2]
    P(it[0][1] is dp[0][4], 'the deployed pool is initialised')
    P(len(a) == 7 and a[0] is who and a[1].s == name and a[2] is oracle and a[5] is BACKSTOP and a[6] is BLND, 'initialised with the admin, name and oracle asked for and the factory\'s backstop and token')
    if len(a) == 7:
        P(X.eq(a[3], r), 'initialised with the take rate asked for')
        P(X.eq(a[4], m), 'initialised with the position limit asked for')
    P(d.result is dp[0][4], 'the address of the pool is returned')
    P(w.listed(d.store) == set(before) | {dp[0][4]}, 'exactly the deployed pool is added to the pools of the factory')
    P(not [e for e in d.log[n:] if e[1] is not None and e[0] not in ('__deploy', 'initialize')], 'nothing else is called')
    unchanged(h, w, d, {key('Contracts', dp[0][4])}, 'deployment')
    for x, yes in [(dp[0][4], True), (BACKSTOP, False), (Addr('stranger', 60), False), (who, False)] + [(b, True) for b in before]:
        for q in h.run(w, 'is_pool', x, st=d): h.prove(w, q, q.result if yes else X.not_(q.result), 'a pool of the factory is recognised' if yes else 'nothing but pools of the factory is recognised')


def deploy(h, pools=()):
    w = fw(h, pools=pools)
    r, m = w.v('rate', 0, 2**32 - 1), w.v('max', 0, 2**32 - 1)
    for d in h.run(w, 'deploy', USER, Str('a pool'), byt(SALTS[0]), OTHER, r, m, reverts=True):
        if d.status != 'ok':
            h.prove(w, d, X.or_(X.ge(r, S7), X.lt(m, 2)), 'a valid deployment is refused')
            continue
        check(h, w, d, pools, USER, OTHER, r, m, 'a pool')
        h.sample(w, d)


def second(h, who, salt, same):
    """another deployment cannot take the address of the first, nor be kept from its own"""
    w = fw(h, pools=(OLD1,))
    r, m = w.v('rate', 0, S7 - 1), w.v('max', 2, 60)
    r2, m2 = w.v('rate2', 0, 2**32 - 1), w.v('max2', 0, 2**32 - 1)
    for d in h.run(w, 'deploy', USER, Str('a pool'), byt(SALTS[0]), THIRD, r, m):
        a = deploys(d)[0][4]
        for e in h.run(w, 'deploy', who, Str('a pool'), byt(SALTS[salt]), OTHER, r2, m2, st=d, reverts=True):
            if e.status != 'ok':
                if not same: h.prove(w, e, X.or_(X.ge(r2, S7), X.lt(m2, 2)), 'a deployment is kept from its address by another admin or salt')
                continue
            if same: h.never(w, e, 'two pools at one address')
            else:
                check(h, w, e, (OLD1, a), who, OTHER, r2, m2, 'a pool')
                h.sample(w, e)


def queries(h):
    w = fw(h, pools=(OLD1, OLD2))
    for a, yes in ((OLD1, True), (OLD2, True), (USER, False), (FACTORY, False)):
        for d in h.run(w, 'is_pool', a, reverts=True):
            if d.status != 'ok':
                h.never(w, d, 'the question is refused')
                continue
            h.prove(w, d, d.result if yes else X.not_(d.result), 'a pool of the factory is recognised' if yes else 'nothing but pools of the factory is recognised')
            unchanged(h, w, d, set(), 'the question')
            h.sample(w, d)


def init(h, again):
    w = fw(h, empty=not again, pools=(OLD1,) if again else ())
    meta = w.mk('PoolInitMeta', pool_hash=byt(bytes.fromhex(HASH)), backstop=OTHER, blnd_id=THIRD)
    for d in h.run(w, 'initialize', meta, reverts=True):
        if d.status != 'ok':
            if not again: h.never(w, d, 'the first initialisation is refused')
            continue
        if again:
            h.never(w, d, 'a second initialisation')
            continue
        e = d.store['instance'].get(skey('PoolMeta'))
        h.prove(w, d, e is not None and w.get('PoolInitMeta', e[0], 'backstop') is OTHER and w.get('PoolInitMeta', e[0], 'blnd_id') is THIRD and
                w.get('PoolInitMeta', e[0], 'pool_hash').segs == byt(bytes.fromhex(HASH)).segs, 'the settings are the ones named')
        h.prove(w, d, not w.listed(d.store), 'no pool exists at the start')
        h.sample(w, d)
        for f in h.run(w, 'initialize', w.meta(), st=d): h.never(w, f, 'a second initialisation')


def jobs(tier):
    J = [('deploy', deploy, {}), ('deploy/2', deploy, dict(pools=(OLD1, OLD2))), ('queries', queries, {}), ('init', init, dict(again=False)), ('init/again', init, dict(again=True))]
    for n, who in (('same', USER), ('other', OTHER)):
        for s in (0, 1, 2): J.append(('second/%s/%d' % (n, s), second, dict(who=who, salt=s, same=who is USER and s == 0)))
    return J
