"""Events and answers report what was done."""
from props.lib_pool import *
from props.lib_emis import put_emis
from props.p15 import any_config, put_queued, NEW
from props import lib_back as LB, lib_emitter as LE
from props import p33
from props.p37 import fw, byt, SALTS, OLD1, OLD2

CRATES = ['pool', 'backstop', 'emitter', 'pool_factory']
BOUNDS = 'one operation of every kind, and two lending actions in one request list; every amount, rate and time, positions in up to two reserves, reward emissions of up to two tokens'
ASSUMPTIONS = ['a failed call leaves no events (the host discards them)']
A_ = lambda a: ('addr', a)
i128, u32, u64 = (lambda x: ('i128', x)), (lambda x: ('u32', x)), (lambda x: ('u64', x))
VOID = ('void',)


def V(*xs): return ('vec', xs)


def evs(w, d, since=None):
    """[(name, topics, data)] of the last call"""
    out = []
    for a, ta, b, tb in d.events[d.g['hist'][-1]['events'] if since is None else since:]:
        t = enc(w.T, a, ta)
        t = t[1] if t[0] == 'vec' else (t,)
        out.append((t[0][1], t[1:], enc(w.T, b, tb)))
    return out


def exact(h, w, d, what, *want):
    """the call published these events: (name, topics, data), with the order kept among events of the same name and topics"""
    P = lambda c, t: h.prove(w, d, c, '%s: %s' % (what, t))
    got = evs(w, d)
    P(sorted(x[0] for x in got) == sorted(x[0] for x in want), 'the events are %s' % (', '.join(sorted(x[0] for x in want)) or 'none'))
    left = list(got)
    for n, t, v in want:
        same = [x for x in left if x[0] == n]
        if not same: continue
        x = next((y for y in same if enc_eq(V(*y[1]), V(*t)) is True), same[0])
        left.remove(x)
        P(enc_eq(V(*x[1]), V(*t)), 'the topics of %s' % n)
        P(enc_eq(x[2], v), 'the data of %s' % n)


def answer(h, w, d, want, what):
    h.prove(w, d, enc_eq(enc(w.T, d.result, d.g['hist'][-1]['rty']), want), what + ': the answer')


def stored(w, d, kind, k):
    e = d.store[kind].get(k)
    return None if e is None else enc(w.T, *e)


def moved(d, a):
    """net tokens that came in"""
    return X.sub(flow(d, a, to=POOL), flow(d, a, frm=POOL))


EVENT = ['supply', 'withdraw', 'supply_collateral', 'withdraw_collateral', 'borrow', 'repay']
PART = [2, 2, 1, 1, 0, 0]
IN = [1, 0, 1, 0, 0, 1]           # tokens come in
MORE = [1, 0, 1, 0, 1, 0]         # shares grow


def change(w, d, who, ty, i):
    k = PART[ty]
    return X.sub(g(w.pos_store(d.store, who)[k], i), g(w.pos_store(d.g['pre'], who)[k], i))


def positions_answer(h, w, d, who, what):
    """the answer is the stored account, and so is what a query answers"""
    s = stored(w, d, 'persistent', key('Positions', who))
    n = 'Positions'
    zero = enc(w.T, w.mk(n, liabilities=SMap(), collateral=SMap(), supply=SMap()), w.tid(n))
    answer(h, w, d, s or zero, what)
    for e in h.run(w, 'get_positions', who, st=d):
        answer(h, w, e, s or zero, what + ', then a query')
        exact(h, w, e, 'a query')
        unchanged(h, w, e, set(), 'a query')


def one(h, ty, pos, roles='same', **kw):
    w, done = submit(h, [(ty, 0)], pos=pos, roles=roles, **kw)
    for d in done:
        tok, sh = moved(d, ASSET[0]), change(w, d, USER, ty, 0)
        exact(h, w, d, EVENT[ty], (EVENT[ty], (A_(ASSET[0]), A_(USER)), V(i128(tok if IN[ty] else X.neg(tok)), i128(sh if MORE[ty] else X.neg(sh)))))
        positions_answer(h, w, d, USER, EVENT[ty])
    for d in done[:2]: h.sample(w, d)


def two(h, t1, i1, t2, i2):
    """two actions: each is reported, for its own asset; for the same asset the reported amounts add up to what was done"""
    w, done = submit(h, [(t1, i1), (t2, i2)], pos='two', status=0)
    for d in done:
        got = evs(w, d)
        P = lambda c, t: h.prove(w, d, c, '%s, %s: %s' % (EVENT[t1], EVENT[t2], t))
        ok = [x[0] for x in got] == [EVENT[t1], EVENT[t2]] and all(enc_eq(V(*x[1]), V(A_(ASSET[i]), A_(USER))) is True for x, i in zip(got, (i1, i2)))
        P(ok, 'one event for each, in order')
        if not ok: continue
        sums, sh = {}, {}
        for x, t, i in zip(got, (t1, t2), (i1, i2)):
            a, b = x[2][1][0][1], x[2][1][1][1]
            P(X.and_(X.ge(a, 0), X.ge(b, 0)), 'the reported amounts are not negative')
            sums[i] = X.add(sums.get(i, 0), a if IN[t] else X.neg(a))
            sh[PART[t], i] = X.add(sh.get((PART[t], i), 0), b if MORE[t] else X.neg(b))
        for i in sums: P(X.eq(sums[i], moved(d, ASSET[i])), 'the reported tokens are those that moved')
        for (k, i), v in sh.items():
            P(X.eq(v, X.sub(g(w.pos_store(d.store, USER)[k], i), g(w.pos_store(d.g['pre'], USER)[k], i))), 'the reported shares are those minted and burned')
        positions_answer(h, w, d, USER, 'two requests')
    for d in done[:1]: h.sample(w, d)


def fill(h, f, ty, **kw):
    w, done = f(h, **kw)
    for d in done:
        who = w.liq if ty < 2 else BACKSTOP
        want = [('fill_auction', (A_(who), u32(ty)), V(A_(USER), i128(w.pct)))]
        got = evs(w, d)
        # debt of the backstop that is written off
        lost = [x for x in got if x[0] == 'bad_debt'] if ty == 1 else []
        exact_but(h, w, d, 'a fill', want, 'bad_debt' if ty == 1 else None)
        if ty == 1:
            L0, L1 = w.pos_store(d.g['pre'], BACKSTOP)[0], w.pos_store(d.store, BACKSTOP)[0]
            for i in range(w.nres):
                off = X.sub(X.sub(g(L0, i), g(L1, i)), change(w, d, USER, 4, i))
                mine = [x for x in lost if enc_eq(x[2][1][0], A_(ASSET[i])) is True]
                h.prove(w, d, X.eq(off, mine[0][2][1][1][1]) if len(mine) == 1 else X.and_(not mine, X.eq(off, 0)), 'a fill: what is written off is reported')
            for x in lost: h.prove(w, d, enc_eq(V(*x[1]), V(A_(BACKSTOP))), 'a fill: the debt that is written off is the backstop\'s')
        positions_answer(h, w, d, USER, 'a fill')
    for d in done[-2:]: h.sample(w, d)


def exact_but(h, w, d, what, want, free):
    n = [x for x in evs(w, d) if x[0] != free]
    h.prove(w, d, [x[0] for x in n] == [x[0] for x in want], '%s: the events are %s' % (what, ', '.join(x[0] for x in want)))
    for x, y in zip(n, want):
        h.prove(w, d, enc_eq(V(*x[1]), V(*y[1])), '%s: the topics of %s' % (what, y[0]))
        h.prove(w, d, enc_eq(x[2], y[2]), '%s: the data of %s' % (what, y[0]))


def delete(h):
    w, done = scenario_delete(h)
    for d in done:
        exact(h, w, d, 'delete', ('delete_liquidation_auction', (A_(USER),), VOID))
        positions_answer(h, w, d, USER, 'delete')
    for d in done[:1]: h.sample(w, d)


def baddebt(h, **kw):
    w, done = scenario_bad_debt(h, **kw)
    for d in done:
        L = w.pos_store(d.g['pre'], OTHER)[0]
        exact(h, w, d, 'bad debt', *[('bad_debt', (A_(OTHER),), V(A_(ASSET[i]), i128(g(L, i)))) for i, _ in L.e])
    for d in done[:1]: h.sample(w, d)


def auct(h, m):
    """the answer, the event and a query of the auction are what is stored"""
    w = pool(h, 2)
    a = ()
    if m == 'new_liquidation_auction':
        w.position(OTHER, (0,), (1,), ())
        a = (OTHER, 37)
        ty, who, ev = 0, OTHER, ('new_liquidation_auction', (A_(OTHER),))
    elif m == 'new_bad_debt_auction':
        w.position(BACKSTOP, (0,), (), ())
        ty, who, ev = 1, BACKSTOP, ('new_auction', (u32(1),))
    else:
        a = (SVec([ASSET[0]]),)
        ty, who, ev = 2, BACKSTOP, ('new_auction', (u32(2),))
    done = h.run(w, m, *a)
    for d in done:
        s = stored(w, d, 'temporary', akey(ty, who))
        if s is None:
            h.prove(w, d, False, m + ': the auction is stored')
            continue
        exact(h, w, d, m, ev + (s,))
        answer(h, w, d, s, m)
        for e in h.run(w, 'get_auction', ty, who, st=d):
            answer(h, w, e, s, m + ', then a query')
            exact(h, w, e, 'a query')
    for d in done[:1]: h.sample(w, d)


def admin(h, m):
    w = pool(h, 2)
    want = None
    if m == 'set_admin': a, want = (OTHER,), lambda d: ('set_admin', (A_(ADMIN),), A_(OTHER))
    elif m == 'update_pool':
        r, n = w.v('rate', 0, 2**32 - 1), w.v('maxp', 0, 2**32 - 1)
        a, want = (r, n), lambda d: (m, (A_(ADMIN),), V(u32(r), u32(n)))
    elif m == 'queue_set_reserve':
        c = any_config(w)[1]
        a, want = (NEW, c), lambda d: (m, (A_(ADMIN),), V(A_(NEW), enc(w.T, c, w.tid('ReserveConfig'))))
    elif m == 'cancel_set_reserve':
        put_queued(w, NEW)
        a, want = (NEW,), lambda d: (m, (A_(ADMIN),), A_(NEW))
    elif m.startswith('set_reserve'):
        x = NEW if m.endswith('new') else ASSET[1]
        put_queued(w, x)
        m, a, want = 'set_reserve', (x,), lambda d: ('set_reserve', (), V(A_(x), u32(at(w, d, x))))
    elif m == 'update_status': a, want = (), lambda d: ('set_status', (), u32(status(w, d)))
    elif m == 'set_status':
        s = w.v('s', 0, 2**32 - 1)
        a, want = (s,), lambda d: (m, (A_(ADMIN),), u32(s))
    elif m == 'set_emissions_config':
        a = (SVec([w.mk('ReserveEmissionMetadata', res_index=0, res_type=1, share=w.v('share', 0, S7))]),)
    elif m == 'initialize':
        for k in w.st.store: w.st.store[k] = {}
        a = (OTHER, Str('a pool'), THIRD, w.v('rate', 0, S7 - 1), w.v('maxp', 2, 60), BTOKEN, BLND)
    done = h.run(w, m, *a)
    for d in done:
        exact(h, w, d, m, *([want(d)] if want else []))
        if m == 'set_reserve': answer(h, w, d, u32(at(w, d, a[0])), m)
        if m == 'update_status': answer(h, w, d, u32(status(w, d)), m)
        if m == 'set_status': h.prove(w, d, X.eq(status(w, d), a[0]), m + ': the reported status is in force')
    for d in done[:2]: h.sample(w, d)


def at(w, d, a):
    """place of an asset in the pool's list"""
    l = w.rd(d, 'persistent', skey('ResList'))
    return next((i for i, x in enumerate(l.e) if x is a), -1)


def status(w, d): return w.get('PoolConfig', w.rd(d, 'instance', skey('Config')), 'status')


def gulp(h, ks, old=()):
    w = pool(h, 2)
    for k in old: put_emis(w, k)
    w.put('persistent', skey('PoolEmis'), w.prim('Map<u32,u64>'), SMap([(k, w.v('sh%d' % k, 1, 5000000)) for k in ks]))
    done = h.run(w, 'gulp_emissions')
    for d in done:
        x = [e[4] for e in calls(d, 'gulp_pool_emissions')]
        want = []
        for k in ks:
            c = d.store['persistent'].get(key('EmisConfig', k))
            exp, eps = [w.get('ReserveEmissionsConfig', c[0], f) for f in ('expiration', 'eps')]
            want.append(('reserve_emission_update', (), V(u32(k), u64(eps), u64(exp))))
        h.prove(w, d, len(x) == 1, 'the new emissions are asked for once')
        if len(x) != 1: continue
        exact(h, w, d, 'gulp_emissions', ('update_emissions', (), i128(x[0])), *want)
        answer(h, w, d, i128(x[0]), 'gulp_emissions')
    for d in done[:2]: h.sample(w, d)


def claim(h, ids, to):
    w = pool(h, 1)
    w.position(USER, *POS['all'])
    for k in (0, 1): put_emis(w, k, [USER])
    done = h.run(w, 'claim', USER, SVec(list(ids)), to)
    for d in done:
        paid = flow(d, BLND, BACKSTOP, to)
        exact(h, w, d, 'claim', ('claim', (A_(USER),), V(V(*[u32(k) for k in ids]), i128(paid))))
        answer(h, w, d, i128(paid), 'claim')
    for d in done[:2]: h.sample(w, d)


# ---------------------------------------------------------------- backstop
def back(h, m, **kw):
    w, A0, done = LB.op(h, m, nq=1, **kw)
    who = LB.USER
    for d in done:
        pre = d.g['pre']
        p0, p1 = w.pb(pre, A0), w.pb(d.store, A0)
        (s0, q0), (s1, q1) = w.ub(pre, A0, who), w.ub(d.store, A0, who)
        tok = X.sub(p1['tokens'], p0['tokens'])
        own = X.sub(X.add(s1, LB.qsum(q1)), X.add(s0, LB.qsum(q0)))
        to = (A_(A0), A_(who))
        if m == 'deposit':
            exact(h, w, d, m, (m, to, V(i128(tok), i128(own))))
            answer(h, w, d, i128(own), m)
        elif m == 'queue_withdrawal':
            h.prove(w, d, len(q1) > 0, m + ': an entry is queued')
            if not q1: continue
            exact(h, w, d, m, (m, to, V(i128(X.sub(s0, s1)), u64(q1[-1][1]))))
            answer(h, w, d, enc(w.T, w.mk('Q4W', amount=q1[-1][0], exp=q1[-1][1]), w.tid('Q4W')), m)
        elif m == 'dequeue_withdrawal': exact(h, w, d, m, (m, to, i128(X.sub(s1, s0))))
        elif m == 'withdraw':
            exact(h, w, d, m, (m, to, V(i128(X.neg(own)), i128(X.neg(tok)))))
            answer(h, w, d, i128(X.neg(tok)), m)
        elif m == 'draw': exact(h, w, d, m, (m, (A_(A0),), V(A_(LB.THIRD), i128(X.neg(tok)))))
        else: exact(h, w, d, m, (m, to, i128(tok)))
    for d in done[:2]: h.sample(w, d)


def backclaim(h, pools, to):
    w, done = LB.claim(h, pools, to)
    for d in done:
        sp = [e for e in d.log[d.g['pre_log']:] if e[0] == 'dep_tokn_amt_in_get_lp_tokns_out']
        # what is claimed buys backstop tokens that are deposited for the receiver
        got = sp[0][2][1] if sp else 0
        want = [('claim', (A_(LB.USER),), i128(got))]
        if sp:
            for a in dict.fromkeys(pools):
                p0, p1 = w.pb(d.g['pre'], a), w.pb(d.store, a)
                s0, s1 = w.ub(d.g['pre'], a, to)[0], w.ub(d.store, a, to)[0]
                want.append(('deposit', (A_(a), A_(to)), V(i128(X.sub(p1['tokens'], p0['tokens'])), i128(X.sub(s1, s0)))))
        exact(h, w, d, 'claim', *want)
        answer(h, w, d, i128(got), 'claim')
        h.prove(w, d, len(sp) <= 1, 'claim: one purchase')
    for d in done[:2]: h.sample(w, d)


def backadmin(h, m):
    A0 = LB.POOLS[0]
    if m == 'initialize':
        w = LB.BackstopWorld(h.prog('backstop'), 0, empty=True)
        N = [Addr('n%d' % i, 40 + i) for i in range(4)]
        done = h.run(w, m, *(N[0], LB.EMITTER, N[1], N[2], N[3], SVec([])))
    else:
        w = LB.bw(h, 2, rz=LB.POOLS[:1])
        pe = w.put_pemis(A0)
        w.put_emis(A0)
        w.put('temporary', skey('DropList'), w.prim('Vec<(Address,i128)>'), SVec([A(0, (LB.USER, 1))]))
        done = h.run(w, m, *{'gulp_emissions': (), 'gulp_pool_emissions': (A0,), 'add_reward': (LB.POOLS[1], A0), 'update_tkn_val': (), 'drop': ()}[m])
    for d in done:
        if m == 'gulp_emissions':
            last = d.store['persistent'][skey('LastDist')][0]
            exact(h, w, d, m, (m, (), i128(X.mul(X.sub(last, w.lastdist), S7))))
        elif m == 'add_reward': exact(h, w, d, m, ('rw_zone', (), V(A_(LB.POOLS[1]), A_(A0))))
        else: exact(h, w, d, m)
        if m == 'gulp_pool_emissions': answer(h, w, d, i128(pe), m)
    for d in done[:1]: h.sample(w, d)


# ---------------------------------------------------------------- emitter and factory
def emit(h, m):
    w = LE.ew(h, swap=LE.NEWB if m in ('cancel_swap_backstop', 'swap_backstop', 'get_queued_swap') else None)
    done = h.run(w, m, *LE.vals(w, m))
    for d in done:
        mi = LE.mints(d)
        q = stored(w, d, 'persistent', skey('Swap'))
        old = d.g['pre']['persistent'].get(skey('Swap'))
        old = None if old is None else enc(w.T, *old)
        if m == 'distribute':
            n = tsum([x[1] for x in mi])
            exact(h, w, d, m, (m, (), V(A_(LE.BACKSTOP), i128(n))))
            answer(h, w, d, i128(n), m)
        elif m == 'queue_swap_backstop': exact(h, w, d, m, ('q_swap', (), q))
        elif m in ('cancel_swap_backstop', 'swap_backstop'): exact(h, w, d, m, ('swap' if m == 'swap_backstop' else 'del_swap', (), old))
        elif m == 'drop': exact(h, w, d, m, (m, (), V(*[V(A_(x[0]), i128(x[1])) for x in mi])))
        else:
            exact(h, w, d, m)
            if m == 'get_backstop': answer(h, w, d, A_(LE.BACKSTOP), m)
            elif m == 'get_last_distro': answer(h, w, d, u64(w.last), m)
            else: answer(h, w, d, old or VOID, m)
    for d in done[:1]: h.sample(w, d)


def fact(h):
    w = fw(h, pools=())
    done = h.run(w, 'deploy', USER, Str('a pool'), byt(SALTS[0]), OTHER, w.v('rate', 0, S7 - 1), w.v('max', 2, 60))
    for d in done:
        p = [e[4] for e in d.log if e[0] == '__deploy']
        h.prove(w, d, len(p) == 1, 'one pool is deployed')
        if len(p) != 1: continue
        exact(h, w, d, 'deploy', ('deploy', (), A_(p[0])))
        answer(h, w, d, A_(p[0]), 'deploy')
    for d in done[:1]: h.sample(w, d)


def queries(h):
    """what is stored is what a query answers, for every account and auction, known or not"""
    w = pool(h, 2)
    w.position(OTHER, *POS['two'])
    au = [(0, OTHER), (1, BACKSTOP), (2, BACKSTOP)]
    for ty, who in au[:2]: auction(w, ty, who, [ASSET[0], ASSET[1]], [ASSET[1]] if ty == 0 else [BTOKEN], tag='a%d' % ty)
    for who in (OTHER, USER, BACKSTOP):
        for d in h.run(w, 'get_positions', who): positions_answer(h, w, d, who, 'a query')
    for ty, who in au + [(0, USER)]:
        for d in h.run(w, 'get_auction', ty, who, reverts=True):
            s = stored(w, d, 'temporary', akey(ty, who))
            if d.status != 'ok': h.prove(w, d, s is None, 'an auction that is open can be queried')
            elif s is None: h.never(w, d, 'a query answers an auction that is not open')
            else:
                answer(h, w, d, s, 'a query')
                exact(h, w, d, 'a query')
                unchanged(h, w, d, set(), 'a query')


def listed(h):
    """the factory vouches for the pools on its list only"""
    w = fw(h, pools=(OLD1,))
    for a, yes in ((OLD1, True), (OLD2, False), (USER, False)):
        for d in h.run(w, 'is_pool', a):
            h.prove(w, d, d.result if yes else X.not_(d.result), 'is_pool: the answer')
            exact(h, w, d, 'is_pool')
            unchanged(h, w, d, set(), 'is_pool')


def jobs(tier):
    J = [('queries', queries, {}), ('is_pool', listed, {}), ('backstop/pool_data', p33.data, {}), ('backstop/pool_data/unknown', p33.data, dict(stored=False)), ('backstop/value', p33.value, {})]
    J += [('backstop/user_balance/%d' % n, p33.bal, dict(nq=n)) for n in (0, 2)]
    for t in range(6):
        for pos in ('all', 'none') if t in (0, 2, 4) else ('all', {1: 's0c1', 3: 'c0', 5: 'l0'}[t]):
            J.append(('one/%s/%s' % (NAMES_T[t], pos), one, dict(ty=t, pos=pos)))
        J.append(('one/%s/split' % NAMES_T[t], one, dict(ty=t, pos='all', roles='split')))
        if t in (0, 3, 5) or tier == 'thorough': J.append(('one/%s/accrue' % NAMES_T[t], one, dict(ty=t, pos='all', accrue=True)))
    pairs = [(2, 0, 4, 1), (5, 0, 3, 0), (0, 0, 1, 0), (1, 1, 2, 1), (4, 0, 5, 0), (5, 1, 5, 1)]
    if tier == 'thorough': pairs = [(a, i, b, j) for a in range(6) for b in range(6) for i, j in ((0, 0), (0, 1))]
    J += [('two/%s%d-%s%d' % (NAMES_T[a], i, NAMES_T[b], j), two, dict(t1=a, i1=i, t2=b, i2=j)) for a, i, b, j in pairs]
    for n, f, ty, kws in (('liq', scenario_fill_liq, 0, [{}, dict(nliq=2, regime='mid'), dict(nliq=2, regime='late')]), ('bad', scenario_fill_bad, 1, [{}, dict(extra=True), dict(nl=2, regime='late'), dict(nl=2, regime='full')]),
                          ('int', scenario_fill_int, 2, [{}, dict(nl=2, regime='full')])):
        kws = kws if tier == 'thorough' or ty != 1 else [k for k in kws if 'extra' not in k]
        J += [('fill/%s/%s' % (n, '-'.join('%s' % v for v in k.values()) or 'any'), fill, dict(f=f, ty=ty, **k)) for k in kws]
    J += [('delete', delete, {}), ('bad_debt', baddebt, {}), ('bad_debt/1', baddebt, dict(who=(1,), bs=(), supp=()))]
    J += [(m, auct, dict(m=m)) for m in ('new_liquidation_auction', 'new_bad_debt_auction', 'new_interest_auction')]
    J += [(m, admin, dict(m=m)) for m in ('set_admin', 'update_pool', 'queue_set_reserve', 'cancel_set_reserve', 'set_reserve/new', 'set_reserve/old', 'update_status', 'set_status', 'set_emissions_config', 'initialize')]
    J += [('gulp/new', gulp, dict(ks=(0, 1))), ('gulp/old', gulp, dict(ks=(0, 3), old=(0, 3))), ('gulp/mixed', gulp, dict(ks=(0, 1), old=(1,))), ('gulp/none', gulp, dict(ks=()))]
    J += [('claim/' + n, claim, dict(ids=i, to=t)) for n, i, t in (('one', (1,), USER), ('two', (0, 1), OTHER), ('twice', (1, 1), USER), ('absent', (0, 3), USER))]
    for m in LB.OPS: J.append(('backstop/' + m, back, dict(m=m)))
    J += [('backstop/deposit/first', back, dict(m='deposit', first=True)), ('backstop/queue_withdrawal/emis', back, dict(m='queue_withdrawal', emis=True))]
    P_ = LB.POOLS
    J += [('backstop/claim/' + n, backclaim, dict(pools=p, to=t)) for n, p, t in (('own', P_[:1], LB.USER), ('other', P_[:1], LB.OTHER), ('two', P_[:2], LB.USER), ('twice', [P_[0], P_[0]], LB.USER))]
    J += [('backstop/' + m, backadmin, dict(m=m)) for m in ('initialize', 'gulp_emissions', 'gulp_pool_emissions', 'add_reward', 'update_tkn_val', 'drop')]
    J += [('emitter/' + m, emit, dict(m=m)) for m in LE.OPS]
    return J + [('factory', fact, {})]
