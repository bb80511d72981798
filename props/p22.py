"""An open auction can be filled at every block from its start on."""
from props.lib_pool import *

BOUNDS = 'auctions of all three types with one asset on each side, at any age from 0 to 900 blocks, full fills, in every pool status, from states in which nothing but the age could stand in the way (healthy filler, amounts well within the positions)'
ASSUMPTIONS = ['the backstop accepts the donation and the draw it is asked for']


def run(h, ty):
    w, done = friendly(h, ty, None)
    still_open(h, w, done, ty)
    ok = [d for d in done if d.status == 'ok']
    for n, c in (('early', X.le(w.vars['age'], 199)), ('full', X.eq(w.vars['age'], 200)), ('late', X.gt(w.vars['age'], 200)), ('free', X.ge(w.vars['age'], 400))):
        if not any(reach(d, c) for d in ok): h.undecided.append(NAMES_T[ty] + ': no successful run (%s)' % n)


def jobs(tier): return [(NAMES_T[t], run, dict(ty=t)) for t in (6, 7, 8)]
