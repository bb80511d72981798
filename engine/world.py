"""Building pre-states and reading post-states; common to all harnesses."""
from . import expr as X, solve
from .vals import *
from .machine import Prog, State, run, Limits, Revert, Dead, INT
from .models import havoc, enc_eq

ZERO = 0
S7 = 10**7
S9 = 10**9


def key(name, *parts):
    """ledger key of a data-key enum entry"""
    return ('vec', (('sym', name),) + tuple(kenc(p) for p in parts))


def kenc(p):
    if isinstance(p, Addr): return ('addr', p)
    if isinstance(p, tuple): return p
    if isinstance(p, int): return ('u32', p)
    raise TypeError(p)


def skey(name):
    return ('sym', name)


def kmap(**kw):
    return ('map', tuple((('sym', a), kenc(b)) for a, b in sorted(kw.items())))


class World:
    def __init__(s, prog):
        s.prog = prog
        s.T = prog.T
        s.st = State(prog)
        s.vars = {}
        s.hints = []
        s.rates = []        # the variables that get concrete values when a model is searched for

    def v(s, name, lo, hi):
        e = s.prog.getvar(name, lo, hi)
        s.vars[name] = e
        return e

    def tid(s, name):
        t = s.T.find(name)
        if t is None: raise Unsupported('type %s is not there' % name)
        return t

    def mk(s, tname, **kw):
        """a struct value by field names"""
        t = s.tid(tname)
        fs = s.T[t]['v'][0]['f']
        miss = [n for n, _ in fs if n not in kw]
        if miss or len(kw) != len(fs):
            raise Unsupported('fields of %s: %s' % (tname, [n for n, _ in fs]))
        return A(0, tuple(kw[n] for n, _ in fs))

    def get(s, tname, v, f):
        i, _ = s.T.field(s.tid(tname), f)
        return v.f[i]

    def upd(s, tname, v, **kw):
        fs = list(v.f)
        for k, x in kw.items():
            fs[s.T.field(s.tid(tname), k)[0]] = x
        return A(v.v, tuple(fs))

    def put(s, kind, k, tname, v, st=None):
        t = tname if isinstance(tname, int) else s.tid(tname)
        (st or s.st).store[kind][k] = (v, t)

    def prim(s, name):
        """type id of a primitive such as u32, i128, bool, Address, Vec<Address>"""
        for k, t in s.T.t.items():
            if s.T.name(k).replace('soroban_sdk::', '') == name: return k
        raise Unsupported('no type ' + name)

    def rd(s, st, kind, k, default=None):
        e = st.store[kind].get(k)
        return default if e is None else e[0]

    def args(s, method, *vals):
        """argument values of an entry point: references are made for reference parameters"""
        sym = s.prog.entry(method)
        fn = s.prog.fn(sym)
        out = []
        vs = (ENV,) + vals
        if fn.argc != len(vs):
            raise Unsupported('arity of entry %s' % method)
        for i in range(fn.argc):
            t = s.T[fn.ltypes[i + 1]]
            out.append(R(K(vs[i])) if t['k'] == 'ref' else vs[i])
        return sym, out

    def call(s, method, *vals, st=None, limits=None, keep_reverts=False):
        sym, a = s.args(method, *vals)
        st = (st or s.st)
        fn = s.prog.fn(sym)
        pre = {k: dict(v) for k, v in st.store.items()}
        st = st.copy()
        st.g['pre'] = pre
        st.g['pre_log'] = len(st.log)
        st.g['hist'] = st.g.get('hist', ()) + ({'fn': method, 'vals': vals, 'tids': list(fn.ltypes[2:2 + len(vals)]), 'rty': fn.ltypes[0], 'pre': pre,
                                               'ledger': dict(st.ledger), 'log': len(st.log), 'auths': len(st.auths), 'events': len(st.events)},)
        return run(st, sym, a, limits, keep_reverts)

    def hints_for(s):
        return s.rate_hints() if hasattr(s, 'rate_hints') else [{}]


def smap_get(m, k, default=0):
    if m is None: return default
    for a, b in m.e:
        if type(a) is int and type(k) is int:
            if a == k: return b
        elif a is k: return b
    return default


def calls(st, fname=None, addr=None):
    r = []
    for e in st.log:
        if (fname is None or e[0] == fname) and (addr is None or e[1] is addr):
            r.append(e)
    return r


def tsum(xs):
    r = 0
    for x in xs: r = X.add(r, x)
    return r


def unchanged(h, w, st, allowed, what, since=None):
    """everything in the ledger except the allowed keys is as before the call.  allowed: set of keys, or a predicate on (kind, key)"""
    pre = st.g['pre'] if since is None else since
    ok = allowed if callable(allowed) else (lambda kind, k: k in allowed)
    for kind in st.store:
        a, b = pre.get(kind, {}), st.store[kind]
        for k in set(a) | set(b):
            if a.get(k) is b.get(k) or ok(kind, k): continue
            if k not in a or k not in b:
                h.prove(w, st, False, '%s: an unexpected ledger entry is %s (%s)' % (what, 'added' if k in b else 'removed', kname(k)))
                continue
            h.prove(w, st, enc_eq(enc(w.T, *a[k]), enc(w.T, *b[k])), '%s: nothing else changes (%s)' % (what, kname(k)))


def kname(k):
    """the name of a ledger key"""
    try:
        if k[0] == 'sym': return k[1]
        return k[1][0][1]
    except Exception:
        return repr(k)
