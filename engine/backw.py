"""Backstop contract world: pools, depositors with withdrawal queues, emissions, the reward zone, and the other contracts' answers."""
from .world import *

ME = Addr('backstop', 4)
EMITTER, FACTORY, BLND, USDC, LP = Addr('emitter', 3), Addr('factory', 8), Addr('blnd', 5), Addr('usdc', 6), Addr('lp', 7)
POOLS = [Addr("pool%d" % i, 20 + i) for i in range(20)]
USER, OTHER, THIRD = Addr('user', 10), Addr('other', 11), Addr('third', 12)
MAXAMT = 2**80
WEEK = 604800
DAY = 86400


class BackstopWorld(World):
    def __init__(s, prog, npool=1, now=None, rz=(), lastdist=None, empty=False):
        super().__init__(prog)
        st = s.st
        st.cur = s.me = ME
        s.now = now if now is not None else s.v('now', 1_600_000_000, 4_000_000_000)
        s.seq = s.v('seq', 1000, 2**31)
        st.ledger = {'timestamp': s.now, 'sequence': s.seq}
        st.ext = s.ext
        P = s.put
        if not empty:
            for n, a in (('Emitter', EMITTER), ('BToken', LP), ('PoolFact', FACTORY), ('BLNDTkn', BLND), ('USDCTkn', USDC)):
                P('instance', skey(n), s.prim('Address'), a)
            P('instance', skey('IsInit'), s.prim('bool'), True)
            s.lastdist = s.v('lastdist', 0, 4_000_000_000) if lastdist is None else lastdist
            st.assume(X.le(s.lastdist, s.now))
            P('persistent', skey('LastDist'), s.prim('u64'), s.lastdist)
            s.lpval = (s.v('lpval.blnd', 0, 2**60), s.v('lpval.usdc', 0, 2**60))
            P('persistent', skey('LPTknVal'), s.prim('(i128,i128)'), A(0, s.lpval))
            if rz: P('persistent', skey('RZ'), s.prim('Vec<Address>'), SVec(rz))
        s.pool = {}
        s.held = {}
        for i in range(npool): s.put_pool(POOLS[i])

    def put_pool(s, a, shares=None):
        """unknown totals: the shares of accounts that are not spelled out are unknowns too"""
        n = a.name + '.'
        d = dict(free=s.v(n + 'others_free', 0, MAXAMT), queued=s.v(n + 'others_queued', 0, MAXAMT), tokens=s.v(n + 'tokens', 0, MAXAMT))
        s.pool[a] = d
        s.store_pool(a)

    def store_pool(s, a):
        d = s.pool[a]
        s.put('persistent', key('PoolBalance', a), 'PoolBalance', s.mk('PoolBalance', shares=X.add(d['free'], d['queued']), tokens=d['tokens'], q4w=d['queued']))

    def user(s, a, who, nq=0, free=True, expired=None):
        """a depositor of a pool with nq queued withdrawals (a queue is in the order of expiry: P26 decides that this is preserved)"""
        n = '%s.%s.' % (a.name, who.name)
        sh = s.v(n + 'shares', 0, MAXAMT) if free is True else free
        q = []
        prev = None
        for k in range(nq):
            am, ex = s.v('%sq%d' % (n, k), 0, MAXAMT), s.v('%sexp%d' % (n, k), 1_400_000_000, 4_100_000_000)
            s.st.assume(X.le(ex, X.add(s.now, 21 * DAY)))
            if prev is not None: s.st.assume(X.le(prev, ex))
            prev = ex
            q.append((am, ex))
        d = s.pool[a]
        d['free'] = X.add(d['free'], sh)
        d['queued'] = X.add(d['queued'], tsum([x for x, _ in q]))
        s.put('persistent', ubkey(a, who), 'UserBalance', s.mk('UserBalance', shares=sh, q4w=SVec(s.mk('Q4W', amount=x, exp=y) for x, y in q)))
        s.store_pool(a)
        return sh, q

    def put_emis(s, a, users=(), active=False):
        n = a.name + '.e.'
        exp, eps = s.v(n + 'exp', 0, 4_100_000_000), s.v(n + 'eps', 0, 2**40)
        idx, last = s.v(n + 'index', 0, 2**60), s.v(n + 'last', 1_500_000_000, 4_000_000_000)
        s.st.assume(X.le(last, s.now))
        if active:
            s.st.assume(X.and_(X.lt(last, s.now), X.lt(s.now, exp)))
            s.st.assume(X.ge(eps, 1))
        s.put('persistent', key('BEmisCfg', a), 'BackstopEmissionConfig', s.mk('BackstopEmissionConfig', expiration=exp, eps=eps))
        s.put('persistent', key('BEmisData', a), 'BackstopEmissionsData', s.mk('BackstopEmissionsData', index=idx, last_time=last))
        for u in users: s.put_uemis(a, u, X.sub(idx, 1) if active else idx)

    def put_uemis(s, a, u, idx):
        n = '%s.%s.e.' % (a.name, u.name)
        ui, ac = s.v(n + 'index', 0, 2**60), s.v(n + 'accrued', 0, 2**80)
        s.st.assume(X.le(ui, idx))
        s.put('persistent', uekey(a, u), 'UserEmissionData', s.mk('UserEmissionData', index=ui, accrued=ac))

    def put_pemis(s, a):
        x = s.v(a.name + '.pemis', 0, MAXAMT)
        s.put('persistent', key('PoolEmis', a), s.prim('i128'), x)
        return x

    # ---- readers
    def pb(s, store, a):
        e = store['persistent'].get(key('PoolBalance', a))
        if e is None: return dict(shares=0, tokens=0, q4w=0)
        return {f: s.get('PoolBalance', e[0], f) for f in ('shares', 'tokens', 'q4w')}

    def ub(s, store, a, u):
        """(shares, [(amount, expiry)...])"""
        e = store['persistent'].get(ubkey(a, u))
        if e is None: return 0, []
        q = s.get('UserBalance', e[0], 'q4w')
        return s.get('UserBalance', e[0], 'shares'), [(s.get('Q4W', x, 'amount'), s.get('Q4W', x, 'exp')) for x in q.e]

    def ed(s, store, a):
        e = store['persistent'].get(key('BEmisData', a))
        return None if e is None else tuple(s.get('BackstopEmissionsData', e[0], f) for f in ('index', 'last_time'))

    def ec(s, store, a):
        e = store['persistent'].get(key('BEmisCfg', a))
        return None if e is None else tuple(s.get('BackstopEmissionConfig', e[0], f) for f in ('expiration', 'eps'))

    def ue(s, store, a, u):
        e = store['persistent'].get(uekey(a, u))
        return None if e is None else tuple(s.get('UserEmissionData', e[0], f) for f in ('index', 'accrued'))

    def pemis(s, store, a):
        e = store['persistent'].get(key('PoolEmis', a))
        return 0 if e is None else e[0]

    def userkeys(s, store, a):
        """the accounts with a stored balance in the pool"""
        out = []
        for k in store['persistent']:
            if k[0] == 'vec' and k[1][0] == ('sym', 'UserBalance'):
                m = dict((x[1], y) for x, y in k[1][1][1])
                if m['pool'][1] is a: out.append(m['user'][1])
        return out

    # ---- other contracts
    def ext(s, st, addr, fname, args, rty, c):
        h = getattr(s, 'x_' + fname, None)
        if h is None: return havoc(st, s.T, rty, fname)
        return h(st, addr, args, rty)

    def x_transfer(s, st, addr, args, rty): return UNIT
    def x_transfer_from(s, st, addr, args, rty): return UNIT
    def x_approve(s, st, addr, args, rty): return UNIT
    def x_drop(s, st, addr, args, rty): return UNIT

    def num(s, st, tag, lo, hi):
        st.nfresh += 1
        return s.v('%s%d' % (tag, st.nfresh), lo, hi)

    def x_allowance(s, st, addr, args, rty): return s.num(st, 'allowance', 0, 2**80)
    def x_balance(s, st, addr, args, rty): return s.num(st, 'balance', 0, 2**80)
    def x_get_total_supply(s, st, addr, args, rty): return s.num(st, 'lpsupply', 1, 2**80)
    def x_dep_tokn_amt_in_get_lp_tokns_out(s, st, addr, args, rty): return s.num(st, 'lpout', 0, 2**80)

    def x_get_last_distro(s, st, addr, args, rty):
        return s.num(st, 'distro', 0, 4_000_000_000)

    def x_is_pool(s, st, addr, args, rty):
        st.nfresh += 1
        return X.eq(s.v('ispool%d' % st.nfresh, 0, 1), 1)

    def rate_hints(s):
        out = []
        for k in range(4):
            h = {}
            for nm, e in s.vars.items():
                if type(e) is int: continue
                f = nm.split('.')[-1]
                x = {'tokens': [10**12, 123456789012, 777 * 10**9, 10**10 + 1], 'others_free': [9 * 10**11, 10**11 + 7, 10**12, 5 * 10**9],
                     'others_queued': [10**10, 0, 3 * 10**11, 10**9 + 3]}.get(f)
                if x: h[e.t[0][0][0]] = x[k]
                elif nm == 'lpval.blnd': h[e.t[0][0][0]] = [5 * S7, 12345678, S7, 3][k]
                elif nm == 'lpval.usdc': h[e.t[0][0][0]] = [S7, 345678, S7 // 5, 9][k]
            out.append(h)
        return out


def ubkey(a, u): return key('UserBalance', kmap(pool=a, user=u))
def uekey(a, u): return key('UEmisData', kmap(pool=a, user=u))
