"""The pool's status gates exactly the risk-increasing requests."""
from props.lib_pool import *

BOUNDS = 'request lists of one or two requests of every type, every status 0..6; amounts in [-2^100, 2^100]; the availability half on representative healthy states with every status'
ASSUMPTIONS = ['the refusal half holds for arbitrary states; the availability half is checked from states in which only the status could stand in the way']
BLOCK = {4: 1, 9: 1, 0: 3, 2: 3}
INVALID_STATUS = 'error:1206'


def gate(h, reqs, pos):
    two = any(i == 1 for t, i in reqs)
    w = pool(h, 2)
    w.position(USER, *POS[pos])
    if pos != 'none': w.position(OTHER, (1,), (0,), (0,), tag='liq')
    auction(w, 0, USER, [ASSET[0]], [ASSET[1]])
    rs = []
    for k, (t, i) in enumerate(reqs):
        rs.append((t, USER if t == 9 else ASSET[i], w.v('amt%d' % k, -2**100, 2**100)))
    done = h.run(w, 'submit', USER, USER, USER, req_list(w, *rs), reverts=True)
    what = '+'.join(NAMES_T[t] for t, _ in reqs)
    lim = min([BLOCK.get(t, 6) for t, _ in reqs])
    for d in done:
        if d.status == 'ok':
            h.prove(w, d, X.le(w.status, lim), what + ': accepted only in a status that allows it')
        elif d.why == INVALID_STATUS:
            h.prove(w, d, X.gt(w.status, lim), what + ': refused for the status only when the status forbids it')
    for d in [d for d in done if d.status == 'ok'][:2]: h.sample(w, d)


def available(h, ty):
    w, done = friendly(h, ty)
    still_open(h, w, done, ty)
    ok = [d for d in done if d.status == 'ok']
    for s in range(7):
        if not any(reach(d, X.eq(w.status, s)) for d in ok): h.undecided.append(NAMES_T[ty] + ': no successful run in status %d' % s)


def jobs(tier):
    J = [('available/' + NAMES_T[t], available, dict(ty=t)) for t in (1, 3, 5, 6, 7, 8)]
    ts = (0, 1, 2, 3, 4, 5, 9)
    for t in ts:
        for pos in ('all', 'two'): J.append(('%s/%s' % (NAMES_T[t], pos), gate, dict(reqs=[(t, 0)], pos=pos)))
    for a in ts:
        for b in ts:
            if (a in BLOCK or b in BLOCK) and not (a == b == 9): J.append(('%s+%s' % (NAMES_T[a], NAMES_T[b]), gate, dict(reqs=[(a, 0), (b, 1)], pos='two')))
    return J
