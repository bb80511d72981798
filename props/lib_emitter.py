"""Scenarios of the emitter's properties."""
from engine.emitw import *
from engine.vals import *
from engine import expr as X
from props.lib_pool import settle, cases, all_flows, flow, reach

OPS = ('distribute', 'queue_swap_backstop', 'cancel_swap_backstop', 'swap_backstop', 'drop', 'get_backstop', 'get_last_distro', 'get_queued_swap')


def ew(h, **kw): return EmitterWorld(h.prog('emitter'), **kw)


def mints(d, since=0): return [(e[2][0], e[2][1], e[1]) for e in d.log[since:] if e[0] == 'mint']


TOKENS = {'': NEWT, '/same token': LP, '/blnd': BLND}          # the token of a new backstop


def vals(w, m, lst=None, token=NEWT):
    if m == 'queue_swap_backstop': return (NEWB, token)
    if m == 'drop': return (lst if lst is not None else SVec([A(0, (USER, w.v('a0', 0, 2**90)))]),)
    if m == 'get_last_distro': return (BACKSTOP,)
    return ()


def only(h, w, d, names, what):
    """no external call other than those named"""
    h.prove(w, d, not [e for e in d.log[d.g['pre_log']:] if e[1] is not None and e[0] not in names], what + ': no other contract is called')


def due(w, d, last): return X.mul(X.sub(d.ledger['timestamp'], last), S7)
