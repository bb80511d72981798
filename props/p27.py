"""Backstop: every pool's funds are its own; they leave only to depositors and, with the pool's authorisation, by a draw."""
from props.lib_back import *

CRATES = ['backstop']
BOUNDS = 'one operation with two pools and two depositors in each, all balances up to 2^80; up to two queued withdrawals; claims over up to two pools'
ASSUMPTIONS = ['tokens move what they are asked to move', 'the LP pool reports the LP tokens it minted']


def auths(d): return set(d.auths[d.g['hist'][-1]['auths']:])


NEED = {'deposit': {USER}, 'queue_withdrawal': {USER}, 'dequeue_withdrawal': {USER}, 'withdraw': {USER}, 'draw': {POOLS[0]}, 'donate': {USER, POOLS[0]}}


def one(h, m, **kw):
    w, A, done = op(h, m, **kw)
    for d in done:
        P = lambda g, t: h.prove(w, d, g, t)
        P(NEED[m] <= auths(d), m + ': authorised by the ' + ('pool' if m in ('draw', 'donate') else 'depositor'))
        p0, p1 = w.pb(d.g['pre'], A), w.pb(d.store, A)
        net = 0
        for (tok, x, y), v in all_flows(d).items():
            if tok is not LP:
                P(X.eq(v, 0), m + ': no other token moves')
                continue
            P(x is ME or y is ME, m + ': only the backstop\'s tokens move')
            if x is not ME: P(x in auths(d), m + ': tokens are taken only from an account that authorised it')
            if y is ME: net = X.add(net, v)
            if x is ME:
                net = X.sub(net, v)
                P(y is (THIRD if m == 'draw' else USER), m + ': tokens go to the stated account')
        P(X.eq(net, X.sub(p1['tokens'], p0['tokens'])), m + ': the pool\'s tokens follow the transfers')
        P(not [e for e in d.log[d.g['pre_log']:] if e[0] == 'approve'], m + ': no allowance is given')
        unchanged(h, w, d, backkeys(A, USER) if m not in ('draw', 'donate') else {key('PoolBalance', A)}, m + ': other pools and depositors')
    for d in done[:2]: h.sample(w, d)


def cl(h, pools, to):
    w, done = claim(h, pools, to)
    for d in done:
        P = lambda g, t: h.prove(w, d, g, t)
        P(USER in auths(d), 'claim: authorised by the depositor')
        out = tsum([e[4] for e in d.log if e[0] == 'dep_tokn_amt_in_get_lp_tokns_out'])
        dt = tsum([X.sub(w.pb(d.store, p)['tokens'], w.pb(d.g['pre'], p)['tokens']) for p in set(pools)])
        P(X.le(dt, out), 'claim: the pools are credited with no more LP tokens than were minted')
        P(not all_flows(d), 'claim: no token is transferred directly')
        ok = set()
        for p in pools: ok |= backkeys(p, USER, to)
        unchanged(h, w, d, ok, 'claim: other pools and depositors')
        for p in set(pools):
            for u in (USER, to):
                if u is not to: P(enc_eq(enc(w.T, *d.g['pre']['persistent'][ubkey(p, u)]), enc(w.T, *d.store['persistent'][ubkey(p, u)])), 'claim: only the recipient is credited')
    for d in done[:1]: h.sample(w, d)


def foreign(h, m, user):
    """pools that the factory did not deploy get no funds"""
    w = bw(h, 0)
    A = POOLS[0]
    a = w.v('amt', -2**100, 2**100)
    for d in h.run(w, m, USER, A, a):
        c = [e for e in d.log if e[0] == 'is_pool']
        h.prove(w, d, X.or_(*[e[4] for e in c if e[1] is FACTORY and e[2][0] is A]), m + ' to a contract that the factory did not deploy is refused')
        h.sample(w, d)


def selfdep(h, m, who):
    w = bw(h, 1)
    A = POOLS[0]
    for d in h.run(w, m, who, A, w.v('amt', 0, 2**100)): h.never(w, d, m + ' from the %s' % ('pool itself' if who is A else 'backstop itself'))


def bystander(h, m):
    """entry points about one pool or none leave all balances alone"""
    w = bw(h, 2, rz=POOLS[:2])
    A = POOLS[0]
    for p in POOLS[:2]:
        w.user(p, USER, 1)
        w.put_emis(p, [USER], active=True)
        w.put_pemis(p)
    args = {'gulp_emissions': (), 'gulp_pool_emissions': (A,), 'add_reward': (POOLS[2], A), 'update_tkn_val': (), 'drop': (), 'user_balance': (A, USER), 'pool_data': (A,), 'backstop_token': ()}[m]
    if m == 'drop': w.put('temporary', skey('DropList'), w.prim('Vec<(Address,i128)>'), SVec([A_(0, (USER, 1))]))
    for d in h.run(w, m, *args):
        names = {'PoolBalance', 'UserBalance'}
        ok = lambda kind, k: kname(k) not in names
        unchanged(h, w, d, ok, m)
        h.prove(w, d, not all_flows(d), m + ': no token moves')
        if m == 'gulp_pool_emissions': h.prove(w, d, A in auths(d), 'the emissions of a pool are collected by the pool')
        else: h.prove(w, d, not [e for e in d.log[d.g['pre_log']:] if e[0] == 'approve'], m + ': no allowance is given')
        for e in d.log[d.g['pre_log']:]:
            if e[0] == 'approve': h.prove(w, d, e[1] is BLND and e[2][0] is ME and e[2][1] is A, 'an allowance is given in emission tokens and to the pool only')
        h.sample(w, d)


A_ = A


def jobs(tier):
    J = []
    for m in OPS:
        J.append((m, one, dict(m=m, nq=1)))
        J.append((m + '/2', one, dict(m=m, nq=2, emis='active')))
    J += [('deposit/new', one, dict(m='deposit', user=False)), ('deposit/first', one, dict(m='deposit', first=True, user=False)), ('donate/first', one, dict(m='donate', first=True, user=False))]
    A, B = POOLS[:2]
    for n, ps, to in (('own', [A], USER), ('other', [A], OTHER), ('two', [A, B], USER), ('two-other', [A, B], OTHER)): J.append(('claim/' + n, cl, dict(pools=ps, to=to)))
    for m in ('deposit', 'donate'):
        J.append(('foreign/' + m, foreign, dict(m=m, user=False)))
        for x in (A, ME): J.append(('self/%s/%s' % (m, x.name), selfdep, dict(m=m, who=x)))
    for m in ('gulp_emissions', 'gulp_pool_emissions', 'add_reward', 'update_tkn_val', 'drop', 'user_balance', 'pool_data', 'backstop_token'): J.append(('bystander/' + m, bystander, dict(m=m)))
    return J
