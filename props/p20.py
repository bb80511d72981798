"""An account's shares and tokens move only with its authorisation."""
from props.lib_pool import *

BOUNDS = 'all combinations of owner, payer and receiver among distinct and equal accounts, the pool and the backstop; every request type, in lists of one and two; claims'
ASSUMPTIONS = ['authorisation is what the host grants: require_auth either returns or aborts the transaction']
COMBOS = [(USER, USER, USER), (USER, OTHER, THIRD), (USER, OTHER, USER), (USER, OTHER, OTHER), (USER, USER, THIRD), (BACKSTOP, USER, USER), (USER, BACKSTOP, USER)]


def allowed(h, w, d, f, s, t, what):
    P = lambda goal, x: h.prove(w, d, goal, what + ': ' + x)
    P(f in d.auths, 'the owner of the positions agrees')
    P(s in d.auths, 'the payer agrees')
    for (tok, x, y), v in all_flows(d).items():
        if x is POOL: P(X.or_(y is t, X.eq(v, 0)), 'tokens leave only for the receiver')
        else: P(X.or_(x is s and y is POOL, X.eq(v, 0)), 'tokens come only from the payer')
    for e in d.log:
        if e[0] == 'transfer_from': P(e[2][0] is POOL, 'the pool spends only allowances given to it')


def only_owner(h, w, d, who, what):
    for kind in d.store:
        for k in set(d.store[kind]) | set(d.g['pre'][kind]):
            a, b = d.g['pre'][kind].get(k), d.store[kind].get(k)
            if a is b or k[0] != 'vec' or k[1][0][1] != 'Positions': continue
            if k[1][1][1] in who: continue
            h.prove(w, d, a is not None and b is not None and enc_eq(enc(w.T, *a), enc(w.T, *b)), what + ': the positions of others stay')


def lend(h, reqs, who):
    f, s, t = who
    w = pool(h, 2, status=0)
    w.position(f, (1,), (0,), (0,))
    for o in (USER, OTHER, THIRD):
        if o is not f: w.position(o, (0,), (1,), (0,), tag='o.' + o.name)
    rs = [(y, ASSET[i], w.v('amt%d' % k, 0, 2**100)) for k, (y, i) in enumerate(reqs)]
    done = h.run(w, 'submit', f, s, t, req_list(w, *rs))
    what = '+'.join(NAMES_T[y] for y, _ in reqs)
    for d in done:
        allowed(h, w, d, f, s, t, what)
        only_owner(h, w, d, (f,), what)
    for d in done[-1:]: h.sample(w, d)


def pool_party(h, who):
    for y in range(6):
        w = pool(h, 2, status=0)
        for o in set(who): w.position(o, (1,), (0,), (0,), tag='p.' + o.name)
        for d in h.run(w, 'submit', *who, req_list(w, (y, ASSET[0], w.v('amt', 0, 2**100)))): h.never(w, d, 'the pool itself takes part in a submission')
    w = pool(h, 2, status=0)
    for d in h.run(w, 'submit', *who, SVec([])): h.never(w, d, 'the pool itself takes part in a submission')


def fill(h, ty, who):
    f, s, t = who
    w = pool(h, 2, status=0, max_positions=10)
    w.position(f, (1,), (0,), ())
    if ty == 0:
        vic = Addr('victim', 15)
        w.position(vic, (1,), (0,), (0,), tag='liq')
        auction(w, 0, vic, [ASSET[1]], [ASSET[0]], block=X.sub(w.seq, 150))
    else:
        vic = BACKSTOP
        if ty == 1: w.position(vic, (0,), (), (), tag='bs')
        auction(w, ty, vic, [ASSET[0]] if ty == 1 else [BTOKEN], [BTOKEN] if ty == 1 else [ASSET[0]], block=X.sub(w.seq, 150))
    done = h.run(w, 'submit', f, s, t, req_list(w, (6 + ty, vic, 40)))
    for d in done:
        h.prove(w, d, f in d.auths and s in d.auths, 'fill: owner and payer agree')
        only_owner(h, w, d, (f, vic), 'fill')
        for (tok, x, y), v in all_flows(d).items(): h.prove(w, d, X.or_(x is POOL and y is f, X.eq(v, 0)), 'fill: tokens go to the filler only')
        for e in calls(d, 'donate'): h.prove(w, d, e[2][0] is f, 'fill: the filler pays')
    for d in done[-1:]: h.sample(w, d)


def cancel(h):
    """a list of someone else cannot cancel an account's auction"""
    w = pool(h, 2)
    w.position(OTHER, (0,), (1,), (), tag='liq')
    w.position(USER, (0,), (1,), ())
    auction(w, 0, OTHER, [ASSET[0]], [ASSET[1]])
    for mine in (False, True):
        st = w.st.copy()
        if mine: w.put('temporary', akey(0, USER), 'AuctionData', w.mk('AuctionData', bid=SMap([(ASSET[0], 5)]), lot=SMap([(ASSET[1], 7)]), block=1000), st=st)
        for d in h.run(w, 'submit', USER, USER, USER, req_list(w, (9, OTHER, 0)), st=st):
            h.prove(w, d, akey(0, OTHER) in d.store['temporary'], 'an auction of somebody else is cancelled')
            h.prove(w, d, mine and akey(0, USER) not in d.store['temporary'], 'cancelling removes the own auction')


def no_trust(h):
    """what anybody can call cannot touch accounts except as P10 and P12 say"""
    for f, a in (('new_liquidation_auction', (OTHER, 50)), ('new_interest_auction', (SVec([ASSET[0]]),)), ('new_bad_debt_auction', ()), ('update_status', ()), ('gulp_emissions', ())):
        w = pool(h, 2)
        w.position(OTHER, (0,), (1,), (), tag='liq')
        w.position(BACKSTOP, (0,), (), (), tag='bs')
        for d in h.run(w, f, *a):
            only_owner(h, w, d, (), f)
            h.prove(w, d, not all_flows(d), f + ': no tokens move')


def jobs(tier):
    J = []
    for k, c in enumerate(COMBOS):
        for y in range(6): J.append(('%s/%d' % (NAMES_T[y], k), lend, dict(reqs=[(y, 1 if y == 5 else 0)], who=c)))
        for ty in range(3):
            if BACKSTOP in c and ty: continue
            J.append(('fill%d/%d' % (ty, k), fill, dict(ty=ty, who=c)))
    for a, b in ((3, 5), (1, 4), (2, 4), (0, 3), (4, 5), (5, 3)): J.append(('%s+%s' % (NAMES_T[a], NAMES_T[b]), lend, dict(reqs=[(a, 1 if a == 5 else 0), (b, 1 if b == 5 else 0)], who=COMBOS[1])))
    for k, c in enumerate([(POOL, USER, USER), (USER, POOL, USER), (USER, USER, POOL), (POOL, POOL, POOL)]): J.append(('pool/%d' % k, pool_party, dict(who=c)))
    return J + [('cancel', cancel, {}), ('anybody', no_trust, {})]
