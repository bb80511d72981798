"""Reserve emissions: accrual by time and share, claimed once."""
from props.lib_emis import *

BOUNDS = 'claims of one to three token ids (with repetitions) over up to two reserves, also in pools of 12 and 32 reserves; any emission rate below 2^40, end, index below 2^60, balances in [1, 2^80], with and without earlier records'
ASSUMPTIONS = ['the backstop has given the pool the allowance it emits from (the transfer succeeds)', 'an account\'s recorded index is not above the token\'s']


def claim(h, ids, have=(0, 1, 2, 3), rec=(), pos='two', n=None, **kw):
    if n is None: n = 2 if pos in ('two', 'lc', 'cl') else 1
    w = pool(h, n, **kw)
    if POS[pos] != ((), (), ()): w.position(USER, *POS[pos])
    for k in have:
        if k // 2 < n: put_emis(w, k, [USER] if k in rec else [])
    done = h.run(w, 'claim', USER, SVec(list(ids)), THIRD)
    for d in splits(done, lambda d: emis_conds(w, d.g['pre'], sorted(set(ids)))):
        pre = d.g['pre']
        P = lambda goal, t, **k: h.prove(w, d, goal, t, **k)
        P(USER in d.auths, 'only with the account\'s authorisation')
        total = 0
        for k in sorted(set(ids)):
            if k // 2 >= n:
                h.never(w, d, 'emissions of a reserve that does not exist are claimed')
                break
            sc = 10 ** w.cfg[k // 2]['decimals']
            x = index_now(w, d, pre, k, supply(w, pre, k), sc)
            if x is None:
                P(edata(w, d.store, k) is None and udata(w, d.store, USER, k) is None, 'no emissions, no record')
                continue
            if x == 'open':
                h.undecided.append('emission case')
                continue
            P(X.eq(edata(w, d.store, k)[0], x[0]), 'the index grows by rate times time over supply')
            P(X.eq(edata(w, d.store, k)[1], x[1]), 'accrued up to now, or to the end of the emissions')
            own = due(w, d, pre, USER, k, x[0], balance(w, pre, USER, k), sc)
            total = X.add(total, own)
            u = udata(w, d.store, USER, k)
            if u is None: P(False, 'a claim is recorded')
            else:
                P(X.eq(u[1], 0), 'nothing stays claimable')
                P(X.eq(u[0], x[0]), 'the account is up to date')
        else:
            P(X.eq(d.result, total), 'what is claimed is what is due')
            paid = flow(d, BLND, BACKSTOP, THIRD)
            P(X.eq(paid, total), 'what is due is paid, from the backstop to the receiver')
            for key_, v in all_flows(d).items():
                if key_ != (BLND, BACKSTOP, THIRD): P(X.eq(v, 0), 'nothing else is paid')
            for e in calls(d, 'transfer_from'): P(e[2][0] is POOL, 'paid out of the pool\'s allowance')
            unchanged(h, w, d, {key('EmisData', k) for k in ids} | {ukey(USER, k) for k in ids}, 'claim')
    for d in done[-2:]: h.sample(w, d)


def again(h):
    """a second claim at the same time pays nothing; a later one pays only what accrued in between"""
    w = pool(h, 1)
    w.position(USER, *POS['all'])
    put_emis(w, 1, [USER])
    for d in h.run(w, 'claim', USER, SVec([1]), USER):
        for e in h.run(w, 'claim', USER, SVec([1]), USER, st=d): h.prove(w, e, X.eq(e.result, 0), 'a second claim at the same time pays nothing')


def config(h):
    """emission shares never exceed the whole"""
    for n in (1, 2, 3):
        w = pool(h, 2)
        md = [(w.v('ri%d' % k, 0, 2**32 - 1), w.v('rt%d' % k, 0, 2**32 - 1), w.v('share%d' % k, 0, 2**64 - 1)) for k in range(n)]
        done = h.run(w, 'set_emissions_config', SVec([w.mk('ReserveEmissionMetadata', res_index=a, res_type=b, share=c) for a, b, c in md]))
        for d in done:
            P = lambda goal, t: h.prove(w, d, goal, t)
            P(ADMIN in d.auths, 'only the admin configures emissions')
            m = w.rd(d, 'persistent', skey('PoolEmis'))
            if m is None:
                P(False, 'the shares are stored')
                continue
            P(X.le(tsum([v for _, v in m.e]), S7), 'the shares are at most the whole')
            for a, b, c in md:
                P(X.lt(a, 2), 'only reserves of the pool receive emissions')
                P(X.le(b, 1), 'only debt and deposits receive emissions')
            for k, v in m.e: P(X.and_(X.ge(k, 0), X.le(k, 3)), 'only tokens of the pool receive emissions')
            if n == 1: P(X.and_(X.eq(m.e[0][0], X.add(X.mul(md[0][0], 2), md[0][1])), X.eq(m.e[0][1], md[0][2])), 'the share is the one named')
            unchanged(h, w, d, {skey('PoolEmis')}, 'configuring')
        for d in done[-1:]: h.sample(w, d)


def jobs(tier):
    J = []
    for ids in ((0,), (1,), (3,), (0, 1), (1, 1), (1, 2), (4,), (0, 9)):
        for rec in ((), (0, 1, 2, 3)): J.append(('claim/%s/%d' % (''.join(map(str, ids)), len(rec)), claim, dict(ids=ids, rec=rec)))
    J += [('claim/part', claim, dict(ids=(0, 1, 3), have=(1, 2), rec=(1,))), ('claim/empty', claim, dict(ids=(0, 1), pos='none')), ('claim/empty/rec', claim, dict(ids=(0, 1), rec=(0, 1), pos='none')),
          ('claim/dec9', claim, dict(ids=(0, 1), rec=(1,), pos='all', decimals=9)), ('claim/acc', claim, dict(ids=(1,), rec=(1,), pos='all', accrue=True))]
    if tier == 'thorough':
        J += [('claim/%s/t' % ''.join(map(str, ids)), claim, dict(ids=ids, rec=(0, 1, 2, 3))) for ids in ((0, 1, 2), (1, 2, 1), (3, 0, 1))]
    J += [('claim/many/%d' % n, claim, dict(ids=ids, have=ids, rec=ids, pos=pos, n=n)) for ids, pos, n in (((23,), 'far', 12), ((0, 22), 'rfar', 12), ((62, 33), 'last', 32))]
    return J + [('again', again, {}), ('config', config, {})]
