"""The contracts and the records they use are kept alive by use."""
from props.lib_pool import *
from props.lib_emis import put_emis
from props.p15 import any_config, put_queued, NEW
from props import lib_back as LB, lib_emitter as LE
from props.p37 import fw, byt, SALTS

CRATES = ['pool', 'backstop', 'emitter', 'pool_factory']
BOUNDS = 'one operation of every kind with records of up to two reserves, two accounts and two pools; every ledger number'
ASSUMPTIONS = ['a ledger closes every five seconds', 'extensions ask for a fixed number of ledgers', 'a new permanent entry lives for as long as the network keeps one that is not extended']
DAYL = 17280
OWN = ('Positions', 'UserEmis', 'UserBalance', 'UEmisData', 'Contracts')
# administration and creation that the pool leaves to the operations that follow them
LATER = ('set_reserve', 'bad_debt', 'set_emissions_config', 'new_liquidation_auction')


def lives(ext, n):
    """some extension leaves at least n ledgers: entries with less than the threshold are extended to the bump"""
    return X.or_(*[X.and_(X.ge(a, n), X.ge(b, n)) for a, b in ext]) if ext else False


def alive(h, w, d, what, instance=True):
    for k, ext in sorted(d.kept.items(), key=str):
        if k == 'instance' or k not in d.store['persistent']: continue
        n = k[1][0][1] if k[0] == 'vec' else k[1]
        h.prove(w, d, lives(ext, (100 if n in OWN else 45) * DAYL), '%s: %s stays alive' % (what, n))
    if instance: h.prove(w, d, lives(d.kept.get('instance', ()), 30 * DAYL), what + ': the contract stays alive')


def each(h, w, done, what, instance=True):
    for d in done: alive(h, w, d, what, instance)
    for d in done[:1]: h.sample(w, d)


def lend(h, ty):
    w = pool(h, 2, status=0, max_positions=10)
    w.position(USER, *POS['all'])
    for k in range(4): put_emis(w, k, [USER])
    each(h, w, h.run(w, 'submit', USER, USER, USER, req_list(w, (ty, ASSET[0], w.v('amt', 0, 2**100)))), NAMES_T[ty])


def scen(h, f, what, **kw):
    w, done = f(h, **kw)
    each(h, w, done, what, what not in LATER)


def plain(h, m):
    w = pool(h, 2)
    a = ()
    if m == 'new_liquidation_auction':
        w.position(OTHER, (0,), (1,), ())
        a = (OTHER, 37)
    elif m == 'new_bad_debt_auction': w.position(BACKSTOP, (0,), (), ())
    elif m == 'new_interest_auction': a = (SVec([ASSET[0]]),)
    elif m == 'set_admin': a = (OTHER,)
    elif m == 'update_pool': a = (w.v('rate', 0, S7 - 1), w.v('maxp', 2, 60))
    elif m.startswith('queue'): m, a = 'queue_set_reserve', (NEW if m.endswith('new') else ASSET[0], any_config(w, valid=True)[1])
    elif m.startswith('set_reserve'):
        a = NEW if m.endswith('new') else ASSET[0]
        put_queued(w, a)
        m, a = 'set_reserve', (a,)
    elif m == 'cancel_set_reserve':
        put_queued(w, NEW)
        a = (NEW,)
    elif m == 'set_status': a = (w.v('s', 0, 6),)
    elif m == 'set_emissions_config': a = (SVec([w.mk('ReserveEmissionMetadata', res_index=0, res_type=1, share=w.v('share', 0, S7))]),)
    elif m == 'claim':
        w.position(USER, *POS['all'])
        for k in range(4): put_emis(w, k, [USER])
        a = (USER, SVec([0, 1]), USER)
    elif m == 'gulp_emissions':
        for k in (0, 1): put_emis(w, k)
        w.put('persistent', skey('PoolEmis'), w.prim('Map<u32,u64>'), SMap([(k, w.v('sh%d' % k, 1, 5000000)) for k in (0, 1)]))
    elif m == 'initialize':
        for k in w.st.store: w.st.store[k] = {}
        a = (OTHER, Str('a pool'), THIRD, w.v('rate', 0, S7 - 1), w.v('maxp', 2, 60), BTOKEN, BLND)
    each(h, w, h.run(w, m, *a), m, m not in LATER)


def back(h, m):
    if m == 'claim': w, done = LB.claim(h, LB.POOLS[:1], LB.OTHER)
    elif m in LB.OPS: w, _, done = LB.op(h, m, nq=1)
    elif m == 'initialize':
        w = LB.BackstopWorld(h.prog('backstop'), 0, empty=True)
        N = [Addr('n%d' % i, 40 + i) for i in range(4)]
        done = h.run(w, m, N[0], LB.EMITTER, N[1], N[2], N[3], SVec([]))
    else:
        w = LB.bw(h, 2, rz=LB.POOLS[:1])
        A0 = LB.POOLS[0]
        w.put_pemis(A0)
        w.put_emis(A0)
        w.put('temporary', skey('DropList'), w.prim('Vec<(Address,i128)>'), SVec([A(0, (LB.USER, 1))]))
        done = h.run(w, m, *{'gulp_emissions': (), 'gulp_pool_emissions': (A0,), 'add_reward': (LB.POOLS[1], A0), 'update_tkn_val': (), 'drop': (), 'pool_data': (A0,)}[m])
    each(h, w, done, m, m not in ('drop', 'pool_data', 'initialize'))


def emit(h, m):
    w = LE.ew(h, swap=LE.NEWB if m in ('cancel_swap_backstop', 'swap_backstop') else None)
    each(h, w, h.run(w, m, *LE.vals(w, m)), m)


def fact(h, m):
    w = fw(h, pools=())
    done = h.run(w, 'deploy', USER, Str('a pool'), byt(SALTS[0]), OTHER, w.v('rate', 0, S7 - 1), w.v('max', 2, 60))
    each(h, w, done, 'deploy')
    for d in done:
        for k in d.store['persistent']: h.prove(w, d, lives(d.kept.get(k, ()), 100 * DAYL), 'the record of a deployed pool stays alive')
        p = [e[4] for e in d.log if e[0] == '__deploy']
        for x in p:
            e0 = d.copy()
            e0.kept = {}
            for e in h.run(w, 'is_pool', x, st=e0): alive(h, w, e, 'is_pool')


def jobs(tier):
    J = [('lend/' + NAMES_T[t], lend, dict(ty=t)) for t in range(6)]
    J += [(n, scen, dict(f=f, what=n)) for n, f in (('delete', scenario_delete), ('bad_debt', scenario_bad_debt))]
    J += [(n, scen, dict(f=f, what=n, regime='full')) for n, f in (('fill/liq', scenario_fill_liq), ('fill/bad', scenario_fill_bad), ('fill/int', scenario_fill_int))]
    J += [(m, plain, dict(m=m)) for m in ('new_liquidation_auction', 'new_bad_debt_auction', 'new_interest_auction', 'set_admin', 'update_pool', 'queue/new', 'queue/old', 'set_reserve/new', 'set_reserve/old', 'cancel_set_reserve',
                                          'set_status', 'update_status', 'set_emissions_config', 'claim', 'gulp_emissions', 'initialize')]
    J += [('backstop/' + m, back, dict(m=m)) for m in tuple(LB.OPS) + ('claim', 'initialize', 'gulp_emissions', 'gulp_pool_emissions', 'add_reward', 'update_tkn_val', 'drop', 'pool_data')]
    J += [('emitter/' + m, emit, dict(m=m)) for m in LE.OPS if not m.startswith('get_')]
    return J + [('factory', fact, dict(m='deploy'))]
