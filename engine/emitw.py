"""Emitter and pool factory worlds."""
from .world import *

ME = Addr('emitter', 3)
BACKSTOP, BLND, LP = Addr('backstop', 4), Addr('blnd', 5), Addr('lp', 7)
NEWB, NEWT = Addr('newbackstop', 13), Addr('newtoken', 14)
USER, OTHER, THIRD = Addr('user', 10), Addr('other', 11), Addr('third', 12)
DAY = 86400


class EmitterWorld(World):
    def __init__(s, prog, empty=False, swap=None, dropped=None, seen=(), token=None):
        """swap: None, or the new backstop of a queued swap; seen: other backstops that have had distributions"""
        super().__init__(prog)
        st = s.st
        st.cur = s.me = ME
        s.now = s.v('now', 1_600_000_000, 4_000_000_000)
        st.ledger = {'timestamp': s.now, 'sequence': s.v('seq', 1000, 2**31)}
        st.ext = s.ext
        s.bal = {}
        if empty: return
        P = s.put
        for n, a in (('Backstop', BACKSTOP), ('BToken', LP), ('BLNDTkn', BLND)): P('instance', skey(n), s.prim('Address'), a)
        P('instance', skey('IsInit'), s.prim('bool'), True)
        s.last = s.v('last', 0, 4_000_000_000)
        st.assume(X.le(s.last, s.now))
        P('persistent', key('LastDistro', BACKSTOP), s.prim('u64'), s.last)
        s.older = {}
        for a in seen:
            t = s.older[a] = s.v('last.' + a.name, 0, 4_000_000_000)
            st.assume(X.le(t, s.now))
            P('persistent', key('LastDistro', a), s.prim('u64'), t)
        if swap is not None:
            s.unlock = s.v('unlock', 0, 4_100_000_000)
            P('persistent', skey('Swap'), 'Swap', s.mk('Swap', new_backstop=swap, new_backstop_token=token or NEWT, unlock_time=s.unlock))
        for a in dropped or (): P('persistent', key('Dropped', a), s.prim('bool'), True)

    def ext(s, st, addr, fname, args, rty, c):
        if fname == 'mint': return UNIT
        if fname == 'balance':
            k = (addr, args[0])
            if k not in s.bal: s.bal[k] = s.v('bal.%s.%s' % (addr.name, args[0].name), 0, 2**90)
            return s.bal[k]
        return havoc(st, s.T, rty, fname)

    # ---- readers
    def inst(s, d, n): return s.rd(d, 'instance', skey(n))
    def lastof(s, store, a):
        e = store['persistent'].get(key('LastDistro', a))
        return None if e is None else e[0]

    def swap(s, store):
        e = store['persistent'].get(skey('Swap'))
        return None if e is None else tuple(s.get('Swap', e[0], f) for f in ('new_backstop', 'new_backstop_token', 'unlock_time'))

    def dropped(s, store, a):
        e = store['persistent'].get(key('Dropped', a))
        return False if e is None else e[0]


# ---------------------------------------------------------------- pool factory
FACTORY = Addr('factory', 8)
HASH = '426a0164c76ced446dae108899f20174d444ba489a455bb3d5cca80aa23a3658'      # of the stand-in that the replay program uploads
SALTS = [bytes(range(1, 33)), bytes(range(1, 32)) + b'\xff', b'\xfe' + bytes(range(2, 33))]


def byt(b): return Byt((b,), len(b))


class FactoryWorld(World):
    def __init__(s, prog, empty=False, pools=(), stale=()):
        super().__init__(prog)
        st = s.st
        st.cur = s.me = FACTORY
        s.now = s.v('now', 1_600_000_000, 4_000_000_000)
        st.ledger = {'timestamp': s.now, 'sequence': s.v('seq', 1000, 2**31)}
        st.ext = s.ext
        if empty: return
        s.put('instance', skey('IsInit'), s.prim('bool'), True)
        s.put('instance', skey('PoolMeta'), 'PoolInitMeta', s.meta())
        for a in pools: s.put('persistent', key('Contracts', a), s.prim('bool'), True)

    def meta(s): return s.mk('PoolInitMeta', pool_hash=byt(bytes.fromhex(HASH)), backstop=BACKSTOP, blnd_id=BLND)

    def ext(s, st, addr, fname, args, rty, c):
        """a contract can be deployed at an address once; the address is a function of the deployer and the salt"""
        if fname == '__deploy':
            old = [e for e in st.log if e[0] == '__deploy']
            if any(e[2][0].segs == args[0].segs for e in old): raise Revert('panic:the contract exists')
            return Addr('deployed%d' % len(old), 100 + len(old))
        if fname == 'initialize': return Typed(UNIT, None)
        return havoc(st, s.T, rty, fname)

    def listed(s, store): return {k[1][1][1] for k, v in store['persistent'].items() if kname(k) == 'Contracts' and v[0] is not False}
