"""Pool contract world: reserves, users, oracle, backstop and tokens as unknowns."""
from .world import *

POOL, USER, ADMIN = Addr('pool', 1), Addr('user', 10), Addr('admin', 2)
ORACLE, BACKSTOP, BLND, USDC, BTOKEN = Addr('oracle', 3), Addr('backstop', 4), Addr('blnd', 5), Addr('usdc', 6), Addr('btoken', 7)
ASSET = [Addr('asset%d' % i, 20 + i if i < 4 else 200 + i) for i in range(32)]      # a pool has at most 32 reserves
OTHER, THIRD = Addr('other', 11), Addr('third', 12)
NAMES = 'd_rate b_rate ir_mod b_supply d_supply backstop_credit last_time'.split()
MAXAMT = 2**80


class PoolWorld(World):
    def __init__(s, prog, nres=1, status=None, accrue=False, now=None, decimals=7, cfg=None, max_positions=None, oracle_dec=7, stale=False):
        super().__init__(prog)
        st = s.st
        st.cur = s.me = POOL
        s.nres = nres
        s.now = now if now is not None else s.v('now', 1_600_000_000, 4_000_000_000)
        s.seq = s.v('seq', 1000, 2**31)
        st.ledger = {'timestamp': s.now, 'sequence': s.seq}
        s.status = s.v('status', 0, 6) if status is None else status
        s.max_positions = s.v('max_positions', 2, 60) if max_positions is None else max_positions
        s.bstop_rate = s.v('bstop_rate', 0, S7 - 1)
        s.accrue = accrue
        s.oracle_dec = oracle_dec
        P = s.put
        sym = 'instance'
        P('instance', skey('Admin'), s.prim('Address'), ADMIN)
        P('instance', skey('Backstop'), s.prim('Address'), BACKSTOP)
        P('instance', skey('BLNDTkn'), s.prim('Address'), BLND)
        P('instance', skey('USDCTkn'), s.prim('Address'), USDC)
        P('instance', skey('IsInit'), s.prim('bool'), True)
        P('instance', skey('Config'), 'PoolConfig', s.mk('PoolConfig', oracle=ORACLE, bstop_rate=s.bstop_rate, status=s.status, max_positions=s.max_positions))
        P('persistent', skey('ResList'), s.prim('Vec<Address>'), SVec(ASSET[:nres]))
        s.cfg, s.data = [], []
        for i in range(nres):
            d = decimals if isinstance(decimals, int) else decimals[i]
            n = 'r%d.' % i
            c = dict(index=i, decimals=d,
                     c_factor=s.v(n + 'c_factor', 0, S7), l_factor=s.v(n + 'l_factor', 1, S7),
                     util=s.v(n + 'util', 1, 9500000 - 1), max_util=s.v(n + 'max_util', 1, S7),
                     r_base=s.v(n + 'r_base', 0, 10 * S7), r_one=s.v(n + 'r_one', 0, 10 * S7), r_two=s.v(n + 'r_two', 0, 10 * S7),
                     r_three=s.v(n + 'r_three', 0, 10 * S7), reactivity=s.v(n + 'reactivity', 0, 1000))
            if cfg: c.update(cfg)
            s.cfg.append(c)
            P('persistent', key('ResConfig', ASSET[i]), 'ReserveConfig', s.mk('ReserveConfig', **c))
            r = dict(d_rate=s.v(n + 'd_rate', S9, 100 * S9), b_rate=s.v(n + 'b_rate', S9, 100 * S9),
                     ir_mod=s.v(n + 'ir_mod', S9 // 10, 10 * S9),
                     b_supply=s.v(n + 'b_supply', 0, MAXAMT), d_supply=s.v(n + 'd_supply', 0, MAXAMT),
                     backstop_credit=s.v(n + 'credit', 0, MAXAMT))
            if accrue is True or accrue and i in accrue:
                r['last_time'] = s.v(n + 'last_time', 1_500_000_000, 4_000_000_000)
                st.assume(X.le(r['last_time'], s.now))
            else:
                r['last_time'] = s.now
            s.data.append(r)
            P('persistent', key('ResData', ASSET[i]), 'ReserveData', s.mk('ReserveData', **r))
        s.price = {}
        s.price_ts = {}
        for i in range(nres):
            s.price[ASSET[i]] = s.v('price%d' % i, 1, 10**15)
            s.price_ts[ASSET[i]] = s.v('price_ts%d' % i, 0, 2**40) if stale else s.now
        st.ext = s.ext
        s.held = {}

    def position(s, who, liab=(), coll=(), supp=(), tag=None, hi=MAXAMT):
        """a user's stored positions: an unknown positive amount for each listed reserve index"""
        tag = tag or who.name
        L = {i: s.v('%s.liab%d' % (tag, i), 1, hi) for i in liab}
        Cc = {i: s.v('%s.coll%d' % (tag, i), 1, hi) for i in coll}
        S = {i: s.v('%s.supp%d' % (tag, i), 1, hi) for i in supp}
        # every account's shares are part of the reserve's totals (P01 decides that this is preserved)
        for i in range(s.nres):
            h = s.held.setdefault(i, [0, 0])
            h[0] = X.add(h[0], L.get(i, 0))
            h[1] = X.add(h[1], X.add(Cc.get(i, 0), S.get(i, 0)))
            s.st.assume(X.ge(s.data[i]['d_supply'], h[0]))
            s.st.assume(X.ge(s.data[i]['b_supply'], h[1]))
        mk = lambda d: SMap(sorted(d.items()))
        s.put('persistent', key('Positions', who), 'Positions', s.mk('Positions', liabilities=mk(L), collateral=mk(Cc), supply=mk(S)))
        return L, Cc, S

    def rate_hints(s, n=4):
        """concrete values for rates, prices, configuration, to help finding models"""
        out = []
        vals = [(S9, S9), (S9 + 123456789, S9 + 98765432), (3 * S9 + 7, 2 * S9 + 1), (S9 + 1, S9 + 1)]
        for k in range(n):
            h = {}

            def put(nm, x):
                e = s.vars.get(nm)
                if e is not None and type(e) is not int: h[e.t[0][0][0]] = x
            for i in range(s.nres):
                d, b = vals[(k + i) % len(vals)]
                n_ = 'r%d.' % i
                put(n_ + 'd_rate', d)
                put(n_ + 'b_rate', b)
                put(n_ + 'c_factor', [7500000, 9000000, 5000001, 9999999][k % 4])
                put(n_ + 'l_factor', [8000000, 9500000, 3333333, 9999999][k % 4])
                put('price%d' % i, [S7, 2 * S7 + 3, S7 // 7, 123 * S7][(k + i) % 4])
                if s.accrue:
                    put(n_ + 'util', [5000000, 7500000, 9000001, 1][k % 4])
                    put(n_ + 'r_base', [100000, 12345, 10000, 999999][k % 4])
                    put(n_ + 'r_one', [300000, 500000, 1, 700001][k % 4])
                    put(n_ + 'r_two', [2000000, 1500000, 13, 900001][k % 4])
                    put(n_ + 'r_three', [7500000, 15000000, 1777777, 900003][k % 4])
                    put(n_ + 'reactivity', [100, 1000, 7, 0][k % 4])
                    put(n_ + 'ir_mod', [S9, S9 // 10 + 1, 9 * S9 + 77, 10 * S9][k % 4])
                    if n_ + 'last_time' in s.vars: put(n_ + 'last_time', 1_700_000_000 - [86400, 1, 31536000, 604801][k % 4])
                    put(n_ + 'd_supply', [10**12, 65 * 10**10 + 3, 10**9, 99 * 10**10][k % 4])
                    put(n_ + 'b_supply', [2 * 10**12, 10**12 + 11, 10**13, 10**12][k % 4])
            for n_ in range(1, 12):
                put('pd%d.tokens' % n_, [10**12, 123456789012, 10**9, 7 * 10**13][k % 4])
                put('pd%d.usdc' % n_, [10**11, 51234567890, 10**10, 3][k % 4])
                put('pd%d.blnd' % n_, [10**12, 1234567890123, 5 * 10**10, 10**13][k % 4])
            if s.accrue:
                put('now', 1_700_000_000)
                put('bstop_rate', [1000000, 0, 9999999, 2500001][k % 4])
            out.append(h)
        if s.accrue:      # also without fixing the amounts
            out.append({a: v for a, v in out[0].items() if not X.ATOMS[a].name.endswith('supply')})
        return out

    # ---- other contracts
    def ext(s, st, addr, fname, args, rty, c):
        h = getattr(s, 'x_' + fname, None)
        if h is None:
            return havoc(st, s.T, rty, fname)
        return h(st, addr, args, rty)

    def x_transfer(s, st, addr, args, rty): return UNIT
    def x_transfer_from(s, st, addr, args, rty): return UNIT
    def x_approve(s, st, addr, args, rty): return UNIT
    def x_mint(s, st, addr, args, rty): return UNIT
    def x_decimals(s, st, addr, args, rty): return s.oracle_dec

    def x_lastprice(s, st, addr, args, rty):
        asset = args[0].f[0]
        if addr is not ORACLE or asset not in s.price:
            return havoc(st, s.T, rty, 'lastprice')
        return some(s.mk('PriceData', price=s.price[asset], timestamp=s.price_ts[asset]))

    # ---- the backstop's answers
    def x_backstop_token(s, st, addr, args, rty): return BTOKEN
    def x_draw(s, st, addr, args, rty): return UNIT
    def x_donate(s, st, addr, args, rty): return UNIT

    def x_pool_data(s, st, addr, args, rty):
        st.nfresh += 1
        n = 'pd%d.' % st.nfresh
        d = dict(tokens=s.v(n + 'tokens', 0, 2**90), q4w_pct=s.v(n + 'q4w_pct', 0, S7), blnd=s.v(n + 'blnd', 0, 2**90), usdc=s.v(n + 'usdc', 0, 2**90))
        st.g['pd'] = st.g.get('pd', ()) + (d,)
        return s.mk('PoolBackstopData', **d)

    def x_gulp_pool_emissions(s, st, addr, args, rty):
        st.nfresh += 1
        return s.v('gulped%d' % st.nfresh, 0, 2**80)

    # ---- post-state readers
    def res(s, st, i, f):
        v = s.rd(st, 'persistent', key('ResData', ASSET[i]))
        return s.get('ReserveData', v, f)

    def pos(s, st, who):
        v = s.rd(st, 'persistent', key('Positions', who))
        if v is None: return SMap(), SMap(), SMap()
        return tuple(s.get('Positions', v, f) for f in ('liabilities', 'collateral', 'supply'))

    def pos_store(s, store, who):
        e = store['persistent'].get(key('Positions', who))
        if e is None: return SMap(), SMap(), SMap()
        return tuple(s.get('Positions', e[0], f) for f in ('liabilities', 'collateral', 'supply'))

    def res_store(s, store, i, f):
        return s.get('ReserveData', store['persistent'][key('ResData', ASSET[i])][0], f)

    def users(s, store):
        return [k[1][1][1] for k in store['persistent'] if k[0] == 'vec' and k[1][0] == ('sym', 'Positions')]

    def request(s, ty, addr, amount):
        return s.mk('Request', request_type=ty, address=addr, amount=amount)
