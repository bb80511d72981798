"""The backstop and the emitter are set up once, as named, and keep their settings."""
from props import lib_back as LB, lib_emitter as LE
from engine.vals import *
from engine import expr as X
from engine.world import *

CRATES = ['backstop', 'emitter']
BOUNDS = 'every initialisation with arbitrary addresses; every other entry point afterwards; drop lists of up to three entries'
ASSUMPTIONS = ['for the emitter\'s backstop and its token: P35']
N = [Addr('n%d' % i, 40 + i) for i in range(6)]


def back(h, again, nd):
    w = LB.BackstopWorld(h.prog('backstop'), 0, empty=not again)
    am = [w.v('drop%d' % i, -2**100, 2**100) for i in range(nd)]
    lst = SVec([A(0, (a, x)) for a, x in zip(N, am)])
    args = (N[0], LB.EMITTER, N[1], N[2], N[3], lst)
    for d in h.run(w, 'initialize', *args, reverts=True):
        if d.status != 'ok':
            if not again: h.never(w, d, 'the first initialisation is refused')
            continue
        if again:
            h.never(w, d, 'a second initialisation')
            continue
        P = lambda g, t: h.prove(w, d, g, t)
        I = lambda n: w.rd(d, 'instance', skey(n))
        for n, a in (('BToken', N[0]), ('Emitter', LB.EMITTER), ('USDCTkn', N[1]), ('BLNDTkn', N[2]), ('PoolFact', N[3])): P(I(n) is a, 'the stored %s is the one named' % n)
        c = [e for e in d.log if e[1] is not None]
        P(len(c) == 1 and c[0][0] == 'get_last_distro' and c[0][1] is LB.EMITTER and c[0][2][0] is LB.ME, 'the emitter is asked for the last distribution to this backstop')
        if len(c) == 1:
            l = w.rd(d, 'persistent', skey('LastDist'))
            P(l is not None and X.eq(l, c[0][4]), 'emissions start at the last distribution')
        h.sample(w, d)
        for e in h.run(w, 'initialize', N[4], LB.EMITTER, N[5], N[2], N[3], SVec([]), st=d): h.never(w, e, 'a second initialisation')
        for q in h.run(w, 'backstop_token', st=d): h.prove(w, q, q.result is N[0], 'the backstop token is reported')
        # the drop list reaches the emitter as it was named
        for q in h.run(w, 'drop', st=d):
            c = [e for e in q.log[q.g['pre_log']:] if e[1] is not None]
            ok = len(c) == 1 and c[0][0] == 'drop' and c[0][1] is LB.EMITTER
            h.prove(w, q, ok, 'the drop is passed to the emitter')
            if ok:
                got = c[0][2][0].e
                h.prove(w, q, len(got) == nd and all(g.f[0] is a for g, a in zip(got, N)), 'the receivers of the drop are the ones named')
                if len(got) == nd: h.prove(w, q, X.and_(*[X.eq(g.f[1], x) for g, x in zip(got, am)]), 'the amounts of the drop are the ones named')


def back_keep(h, m):
    names = {'Emitter', 'BToken', 'PoolFact', 'BLNDTkn', 'USDCTkn', 'IsInit', 'DropList'}
    if m == 'claim':
        w, done = LB.claim(h, [LB.POOLS[0]], LB.USER)
    elif m in LB.OPS: w, _, done = LB.op(h, m, nq=1)
    else:
        w = LB.bw(h, 2, rz=LB.POOLS[:1])
        w.put_pemis(LB.POOLS[0])
        w.put('temporary', skey('DropList'), w.prim('Vec<(Address,i128)>'), SVec([A(0, (LB.USER, 1))]))
        A0 = LB.POOLS[0]
        done = h.run(w, m, *{'gulp_emissions': (), 'gulp_pool_emissions': (A0,), 'add_reward': (LB.POOLS[1], A0), 'update_tkn_val': (), 'drop': (), 'user_balance': (A0, LB.USER), 'pool_data': (A0,), 'backstop_token': ()}[m])
    for d in done: unchanged(h, w, d, lambda kind, k: kname(k) not in names, m + ': settings')


def emit(h, again):
    w = LE.ew(h, empty=not again)
    for d in h.run(w, 'initialize', N[0], N[1], N[2], reverts=True):
        if d.status != 'ok':
            if not again: h.never(w, d, 'the first initialisation is refused')
            continue
        if again:
            h.never(w, d, 'a second initialisation')
            continue
        for n, a in (('BLNDTkn', N[0]), ('Backstop', N[1]), ('BToken', N[2])): h.prove(w, d, w.inst(d, n) is a, 'the stored %s is the one named' % n)
        h.prove(w, d, X.eq(w.lastof(d.store, N[1]), w.now), 'emissions start at the initialisation')
        h.prove(w, d, not LE.mints(d) and w.swap(d.store) is None, 'nothing is minted or queued')
        h.sample(w, d)
        for e in h.run(w, 'initialize', N[3], N[4], N[5], st=d): h.never(w, e, 'a second initialisation')
        t = w.v('later', 0, 4_100_000_000)
        e = d.copy()
        e.assume(X.ge(t, w.now))
        e.ledger = dict(d.ledger, timestamp=t)
        for f in h.run(w, 'distribute', st=e):
            mm = LE.mints(f, len(d.log))
            h.prove(w, f, all(x[0] is N[1] and x[2] is N[0] for x in mm), 'the first emissions are minted to the backstop named')
            h.prove(w, f, X.eq(tsum([x[1] for x in mm]), X.mul(X.sub(t, w.now), S7)), 'the first emissions count from the initialisation')


def jobs(tier):
    J = [('back/%d' % n, back, dict(again=False, nd=n)) for n in (0, 1, 2, 3)] + [('back/again', back, dict(again=True, nd=1)), ('emitter', emit, dict(again=False)), ('emitter/again', emit, dict(again=True))]
    return J + [('keep/' + m, back_keep, dict(m=m)) for m in LB.OPS + ('claim', 'gulp_emissions', 'gulp_pool_emissions', 'add_reward', 'update_tkn_val', 'drop', 'user_balance', 'pool_data', 'backstop_token')]
