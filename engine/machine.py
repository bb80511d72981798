"""Symbolic executor for the MIR of the contracts."""
import json, re, time
from . import expr as X
from . import solve
from .vals import *

C, E = X.C, X.E


class Fork(Exception):
    def __init__(s, cond): s.cond = cond


class Revert(Exception):
    """the transaction fails here (panic, error, trap)"""

    def __init__(s, why): s.why = why


class Dead(Exception):
    """the path is infeasible"""


class Frame:
    __slots__ = ('fn', 'l', 'bb', 'i', 'uid', 'dest', 'target')

    def copy(s):
        f = Frame()
        f.fn, f.l, f.bb, f.i, f.uid, f.dest, f.target = s.fn, s.l[:], s.bb, s.i, s.uid, s.dest, s.target
        return f


class State:
    def __init__(s, prog):
        s.prog = prog
        s.frames = []
        s.nuid = 0
        s.pc = []
        s.b = {}            # primitive polynomial -> (lo, hi)
        s.ne = set()
        s.facts = set()
        s.decs = []
        s.dptr = 0
        s.store = {'instance': {}, 'persistent': {}, 'temporary': {}}   # key -> (value, type id)
        s.kept = {}         # instance and permanent entries: which were read, and how far they were extended
        s.ttl = {}          # last ledger of the temporary entries written so far, where it is known
        s.log = []          # external calls, in order
        s.auths = []
        s.events = []
        s.cur = None        # the current contract address
        s.ledger = {}
        s.nfresh = 0
        s.status = None     # None running, 'ok', 'revert'
        s.result = None
        s.why = None
        s.g = {}            # harness ghost data (immutable values)
        s.steps = 0
        s.funcs = set()
        s.ext = None
        s.asserted = 0

    def copy(s):
        n = State.__new__(State)
        n.prog = s.prog
        n.frames = [f.copy() for f in s.frames]
        n.nuid = s.nuid
        n.pc = s.pc[:]
        n.b = dict(s.b)
        n.ne = set(s.ne)
        n.facts = set(s.facts)
        n.decs = s.decs[:]
        n.dptr = s.dptr
        n.store = {k: dict(v) for k, v in s.store.items()}
        n.ttl = dict(s.ttl)
        n.kept = dict(s.kept)
        n.log = s.log[:]
        n.auths = s.auths[:]
        n.events = s.events[:]
        n.cur = s.cur
        n.ledger = dict(s.ledger)
        n.nfresh = s.nfresh
        n.status, n.result, n.why = s.status, s.result, s.why
        n.g = dict(s.g)
        n.steps = s.steps
        n.funcs = s.funcs
        n.ext = s.ext
        n.asserted = s.asserted
        return n

    # ---- facts
    def bounds(s, e):
        if type(e) is int:
            return e, e
        lo, hi = e.lo, e.hi
        if not s.b:
            return lo, hi
        p, g, c = X.norm(e)
        r = s.b.get(p)
        if r is not None:
            l, h = r
            if g > 0:
                l, h = (None if l is None else g * l + c), (None if h is None else g * h + c)
            else:
                l, h = (None if h is None else g * h + c), (None if l is None else g * l + c)
            if l is not None and (lo is None or l > lo): lo = l
            if h is not None and (hi is None or h < hi): hi = h
        if len(e.t) > 1 or len(e.t[0][0]) > 1:
            # refine through the single monomials
            sl = sh = 0
            for m, k in e.t:
                if m == ():
                    l = h = k
                else:
                    l, h = s.mono_b(m)
                    if k >= 0:
                        l, h = (None if l is None else l * k), (None if h is None else h * k)
                    else:
                        l, h = (None if h is None else h * k), (None if l is None else l * k)
                sl = None if sl is None or l is None else sl + l
                sh = None if sh is None or h is None else sh + h
            if sl is not None and (lo is None or sl > lo): lo = sl
            if sh is not None and (hi is None or sh < hi): hi = sh
        return lo, hi

    def mono_b(s, m):
        lo, hi = X.mono_bounds(m)
        if len(m) > 1:
            l, h = 1, 1
            for a in m:
                al, ah = s.mono_b((a,))
                l, h = X.imul(l, h, al, ah)
            if l is not None and (lo is None or l > lo): lo = l
            if h is not None and (hi is None or h < hi): hi = h
        r = s.b.get(X._mk({m: 1}))
        if r is not None:
            l, h = r
            if l is not None and (lo is None or l > lo): lo = l
            if h is not None and (hi is None or h < hi): hi = h
        return lo, hi

    def known(s, c):
        """True/False if decided without a solver, else None"""
        if c is True or c is False:
            return c
        k = c.k
        if k in ('le', 'ge', 'eq', 'ne'):
            lo, hi = s.bounds(c.p)
            v = c.c
            if k == 'le':
                if hi is not None and hi <= v: return True
                if lo is not None and lo > v: return False
            elif k == 'ge':
                if lo is not None and lo >= v: return True
                if hi is not None and hi < v: return False
            else:
                r = None
                if lo is not None and lo > v or hi is not None and hi < v or (c.p, v) in s.ne: r = False
                elif lo is not None and lo == hi == v: r = True
                if r is not None:
                    return r if k == 'eq' else not r
            return None
        if c in s.facts: return True
        if X.not_(c) in s.facts: return False
        if k == 'and':
            r = True
            for x in c.p:
                y = s.known(x)
                if y is False: return False
                if y is None: r = None
            return r
        if k == 'or':
            r = False
            for x in c.p:
                y = s.known(x)
                if y is True: return True
                if y is None: r = None
            return r
        return None

    def assume(s, c, quiet=False):
        """add c to the path condition; Dead when it is plainly contradictory"""
        if isinstance(c, A):
            raise Unsupported('assume of aggregate')
        r = s.known(c)
        if r is True:
            return
        if r is False:
            raise Dead()
        if c.k == 'and':
            for x in c.p:
                s.assume(x)
            return
        s.pc.append(c)
        if c.k in ('le', 'ge', 'eq', 'ne'):
            if c.k == 'ne':
                s.ne.add((c.p, c.c))
                lo, hi = s.bounds(c.p)
                if lo == c.c: s.b[c.p] = (lo + 1, hi)
                elif hi == c.c and hi is not None: s.b[c.p] = (lo, hi - 1)
                return
            lo, hi = s.bounds(c.p)
            if c.k == 'le': hi = c.c if hi is None else min(hi, c.c)
            elif c.k == 'ge': lo = c.c if lo is None else max(lo, c.c)
            else: lo = hi = c.c
            while (c.p, lo) in s.ne: lo += 1
            while (c.p, hi) in s.ne: hi -= 1
            s.b[c.p] = (lo, hi)
        else:
            s.facts.add(c)

    def require(s, c):
        """an assertion of the code: the path goes on only where it holds"""
        r = s.known(c)
        if r is False:
            raise Revert('assert')
        s.assume(c)

    def branch(s, c):
        """decide c on this path, forking if both outcomes are possible"""
        if c is True or c is False:
            return c
        i = s.dptr
        if i < len(s.decs):
            s.dptr += 1
            return s.decs[i]
        r = s.known(c)
        if r is None:
            if not solve.feasible(s.pc, c):
                r = False
                if False:
                    pass
            elif not solve.feasible(s.pc, X.not_(c)):
                r = True
            if r is None:
                raise Fork(c)
            s.assume(c if r else X.not_(c))
        s.decs.append(r)
        s.dptr += 1
        return r

    def fresh(s, name, lo=None, hi=None):
        s.nfresh += 1
        return s.prog.getvar('%s!%d' % (name, s.nfresh), lo, hi)

    # ---- memory
    def frame(s, uid):
        for f in reversed(s.frames):
            if f.uid == uid:
                return f
        raise Unsupported('dangling reference')

    def load(s, ref):
        b = ref.b
        v = b.v if isinstance(b, K) else s.frame(b[0]).l[b[1]]
        for i in ref.p:
            v = proj(v, i)
        return v

    def write(s, ref, val):
        b = ref.b
        if isinstance(b, K):
            raise Unsupported('write through constant')
        f = s.frame(b[0])
        f.l[b[1]] = upd(f.l[b[1]], ref.p, val)

    def deref(s, v):
        while isinstance(v, R):
            v = s.load(v)
        return v


def ext(p, i):
    """the path p extended by an index; the last element of a path to a part of an array is (start, length)"""
    if p and type(p[-1]) is tuple:
        return p[:-1] + (p[-1][0] + i,)
    return p + (i,)


def part(p, lo, n):
    if p and type(p[-1]) is tuple:
        return p[:-1] + ((p[-1][0] + lo, n),)
    return p + ((lo, n),)


TRANSPARENT = re.compile(r'^core::(mem::(manually_drop::ManuallyDrop|maybe_dangling::MaybeDangling|ManuallyDrop|MaybeDangling|MaybeUninit|maybe_uninit::MaybeUninit)|ptr::(non_null::)?NonNull)$')


def transparent(ty):
    return ty['k'] == 'adt' and (ty['kind'] == 'union' or TRANSPARENT.match(ty['n']) is not None)


def proj(v, i):
    if isinstance(v, A):
        if type(i) is tuple:
            return A(0, v.f[i[0]:i[0] + i[1]])
        if type(i) is not int:
            raise Unsupported('symbolic index')
        if i < 0:
            raise Unsupported('index below an array')
        if i >= len(v.f):
            raise Unsupported('field %d of %r' % (i, v))
        return v.f[i]
    if isinstance(v, Op) and v.k == 'env' or isinstance(v, Typed):
        return v
    raise Unsupported('projection %r of %r' % (i, v))


def upd(v, path, val):
    if not path:
        return val
    i = path[0]
    if type(i) is tuple:
        if len(path) > 1 or not isinstance(v, A):
            raise Unsupported('update of a part of %r' % (v,))
        return A(v.v, v.f[:i[0]] + tuple(val.f) + v.f[i[0] + i[1]:])
    if isinstance(v, A):
        f = list(v.f)
        while len(f) <= i: f.append(UNDEF)
        f[i] = upd(f[i], path[1:], val)
        return A(v.v, tuple(f))
    if v is UNDEF or v is None:
        f = [UNDEF] * (i + 1)
        f[i] = upd(UNDEF, path[1:], val)
        return A(0, tuple(f))
    raise Unsupported('update of %r' % (v,))


INT = {}
for b in (8, 16, 32, 64, 128):
    INT[(False, b)] = (0, (1 << b) - 1)
    INT[(True, b)] = (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def wrap(st, v, ty):
    lo, hi = INT[ty]
    if type(v) is int:
        if lo <= v <= hi: return v
        n = 1 << ty[1]
        v %= n
        return v - n if v > hi else v
    l, h = st.bounds(v)
    if l is not None and l >= lo and h is not None and h <= hi:
        return v
    if st.branch(X.and_(X.le(lo, v), X.le(v, hi))):
        return v
    n = 1 << ty[1]
    if ty[0]:
        return X.sub(X.add(v, -lo), X.mul(X.fdiv(X.add(v, -lo), n), n)) + lo
    return X.sub(v, X.mul(X.fdiv(v, n), n))


def tdiv(st, a, b):
    """truncated division; b != 0 established"""
    if type(a) is int and type(b) is int:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    if not st.branch(X.gt(b, 0)):
        return tdiv(st, X.neg(a), X.neg(b))
    if type(b) is int and type(a) is not int:
        lo, hi = st.bounds(a)
    if st.branch(X.ge(a, 0)):
        return X.fdiv(a, b)
    return X.neg(X.fdiv(X.neg(a), b))


def b2i(st, v):
    if v is True: return 1
    if v is False: return 0
    if isinstance(v, C): return X.ite(v, 1, 0)
    return v


def shift(r, n):
    """the pointer r moved by n elements"""
    if n == 0: return r
    if not r.p or type(r.p[-1]) is not int: raise Unsupported('offset of %r' % (r,))
    return R(r.b, r.p[:-1] + (r.p[-1] + n,))


class Prog:
    def __init__(s, path, crate):
        d = json.load(open(path))
        s.crate = crate
        s.T = Types(d['types'])
        s.entries = d['entries']
        s.raw = d['fns']
        s.virtuals = {(k, t): c for k, t, c in d.get('virtuals', [])}
        s.fns = {}
        s.vars = {}
        s.track_panics = False

    def getvar(s, name, lo=None, hi=None):
        k = (name, lo, hi)
        v = s.vars.get(k)
        if v is None:
            v = s.vars[k] = X.var(name, lo, hi)
        return v

    def entry(s, method):
        c = [(n, sym) for n, sym in s.entries.items() if n.split('::')[-1] == method]
        # prefer the trait implementation on the contract type
        c.sort(key=lambda z: (not z[0].startswith('<'), len(z[0])))
        if not c:
            raise Unsupported('no entry point ' + method)
        return c[0][1]

    def fn(s, sym):
        f = s.fns.get(sym)
        if f is None:
            r = s.raw.get(sym)
            if r is None or r.get('nobody'):
                raise Unsupported('no body: %s' % (r['n'] if r else sym))
            f = Fn(s, sym, r)
            s.fns[sym] = f
        return f


class Fn:
    def __init__(s, prog, sym, r):
        s.prog = prog
        s.sym = sym
        s.name = r['n']
        s.crate = r['c']
        s.argc = r['argc']
        s.spread = r['spread']
        s.ltypes = r['l']
        s.rawb = r['b']
        s.span = r['span']
        s.blocks = [None] * len(r['b'])
        s.closure = '{closure' in r['n'].rsplit('::', 1)[-1]

    def block(s, i):
        b = s.blocks[i]
        if b is None:
            st, t = s.rawb[i]
            b = s.blocks[i] = ([s.stmt(x) for x in st], s.term(t))
        return b

    # -------- compile
    def opaque_fields(s, local, pj):
        """drop the projections into wrappers that have the representation of what they hold"""
        if not any(e[0] == 'f' for e in pj): return pj
        T = s.prog.T
        t, out = s.ltypes[local], []
        for e in pj:
            k = e[0]
            ty = T[t] if t is not None else {'k': '?'}
            if k == 'f':
                if not transparent(ty): out.append(e)
                t = e[2]
                continue
            out.append(e)
            if k in ('d', 'i', 'c'): t = ty.get('e')
            elif k == 'o': t = None
        return out

    def tint(s, t):
        ty = s.prog.T[t]
        if ty['k'] == 'int': return (ty['s'], ty['b'])
        return None

    def place(s, p):
        """compile a place to (read, resolve, write)"""
        local, pj = p
        pj = s.opaque_fields(local, pj)
        if not pj:
            def read(st, fr): return fr.l[local]
            def res(st, fr): return R((fr.uid, local), ())
            def write(st, fr, v): fr.l[local] = v
            return read, res, write
        steps = []
        for e in pj:
            k = e[0]
            if k == 'd': steps.append(('d',))
            elif k == 'f': steps.append(('f', e[1]))
            elif k == 'i': steps.append(('i', e[1]))
            elif k == 'c': steps.append(('c', e[1], e[3]))
            elif k in ('v', 'o'): pass
            elif k == 's': steps.append(('s', e[1], e[2], e[3]))

        def res(st, fr):
            base, path = (fr.uid, local), ()
            for e in steps:
                k = e[0]
                if k == 'f':
                    path = path + (e[1],)
                elif k == 'd':
                    v = st.load(R(base, path))
                    if isinstance(v, R):
                        base, path = v.b, v.p
                    elif isinstance(v, Op) and v.k == 'env':
                        pass
                    else:
                        raise Unsupported('deref of %r' % (v,))
                elif k == 'i':
                    path = ext(path, s.conc(st, fr.l[e[1]]))
                elif k == 'c':
                    n = len(st.load(R(base, path)).f) if e[2] else 0
                    path = ext(path, (n - e[1]) if e[2] else e[1])
                else:
                    hi = len(st.load(R(base, path)).f) - e[2] if e[3] else e[2]
                    path = part(path, e[1], hi - e[1])
            return R(base, path)
        if all(e[0] == 'f' for e in steps):
            idx = tuple(e[1] for e in steps)

            def read(st, fr):
                v = fr.l[local]
                for i in idx:
                    v = proj(v, i)
                return v

            def write(st, fr, v):
                fr.l[local] = upd(fr.l[local], idx, v)
            return read, res, write

        def read(st, fr): return st.load(res(st, fr))
        def write(st, fr, v): st.write(res(st, fr), v)
        return read, res, write

    def conc(s, st, v):
        """a concrete integer for v, forking over its small range"""
        if type(v) is int:
            return v
        lo, hi = st.bounds(v)
        if lo is None or hi is None or hi - lo > 64:
            raise Unsupported('symbolic index with a large range')
        for k in range(lo, hi):
            if st.branch(X.eq(v, k)):
                return k
        return hi

    def operand(s, o):
        k = o[0]
        if k in ('c', 'm'):
            return s.place(o[1])[0]
        if k == 'rc':
            v = o[1] == 'OverflowChecks'
            return lambda st, fr: v
        v = s.const(o[2], o[1])
        return lambda st, fr: v

    def const(s, c, t=None):
        if isinstance(c, (bool, int)):
            if t is not None and isinstance(c, int) and not isinstance(c, bool):
                ty = s.prog.T[t]
                if ty['k'] == 'bool': return bool(c)
            return c
        if isinstance(c, dict):
            if 'zst' in c:
                ty = s.prog.T[t] if t is not None else {'k': '?'}
                if ty['k'] in ('fndef', 'closure'):
                    return Op('fn', t)
                return UNIT
            if 'agg' in c:
                ct = c.get('t', t)
                ty = s.prog.T[ct] if ct is not None else None
                if ty and ty['k'] == 'adt' and ty['n'].endswith('soroban_sdk::Symbol'):
                    return Sym(decode_symbol(first_int(c)))
                fts = None
                if ty and ty['k'] == 'adt' and ty['v']:
                    fts = [f[1] for f in ty['v'][c['v']]['f']]
                elif ty and ty['k'] == 'tuple':
                    fts = ty['e']
                fs = tuple(s.const(x, fts[i] if fts else None) for i, x in enumerate(c['agg']))
                return fs[0] if ty and transparent(ty) else A(c['v'], fs)
            if 'arr' in c:
                et = s.prog.T[t].get('e') if t is not None else None
                return A(0, tuple(s.const(x, et) for x in c['arr']))
            if 'ref' in c:
                x = c['ref']
                if isinstance(x, dict) and 'str' in x:
                    return R(K(Str(x['str'])))
                et = s.prog.T[t].get('e') if t is not None else None
                return R(K(s.const(x, et)))
            if 'str' in c: return Str(c['str'])
            if 'fnsym' in c: return Op('fnsym', c['fnsym'])
            if 'ptrint' in c: return c['ptrint']
            return Op('badconst', str(c))
        raise Unsupported('const %r' % (c,))

    def stmt(s, x):
        p, r = x
        rv = s.rvalue(r, p)
        if p is None:
            return rv
        w = s.place(p)[2]

        def run(st, fr):
            w(st, fr, rv(st, fr))
        return run

    def rvalue(s, r, dest):
        k = r[0]
        T = s.prog.T
        if k == 'use':
            return s.operand(r[1])
        if k == 'ref':
            pl = r[1]
            # reborrow of a whole reference: keep it as is
            res = s.place(pl)[1]
            if len(pl[1]) == 1 and pl[1][0][0] == 'd':
                rd = s.place([pl[0], []])[0]

                def f(st, fr):
                    v = rd(st, fr)
                    return v if isinstance(v, (R, Op)) else res(st, fr)
                return f
            return res
        if k == 'agg':
            ops = [s.operand(o) for o in r[3]]
            v = r[1]
            if r[2] is not None and transparent(T[r[2]]):
                return ops[0]
            return lambda st, fr: A(v, tuple(o(st, fr) for o in ops))
        if k == 'arr':
            ops = [s.operand(o) for o in r[1]]
            return lambda st, fr: A(0, tuple(o(st, fr) for o in ops))
        if k == 'rep':
            o = s.operand(r[1])
            n = r[2]
            return lambda st, fr: A(0, (o(st, fr),) * n)
        if k == 'bin':
            return s.binop(r[1], s.operand(r[2]), s.operand(r[3]), r[4])
        if k == 'chk':
            ty = s.tint(r[4])
            a, b = s.operand(r[2]), s.operand(r[3])
            f = {'Add': X.add, 'Sub': X.sub, 'Mul': X.mul}[r[1]]
            lo, hi = INT[ty]

            def run(st, fr):
                v = f(a(st, fr), b(st, fr))
                if type(v) is int:
                    ov = not (lo <= v <= hi)
                    return A(0, (wrap(st, v, ty), ov))
                l, h = st.bounds(v)
                if l is not None and l >= lo and h is not None and h <= hi:
                    return A(0, (v, False))
                return A(0, (v, X.not_(X.and_(X.le(lo, v), X.le(v, hi)))))
            return run
        if k == 'cast':
            return s.cast(r[1], s.operand(r[2]), r[3], r[4])
        if k == 'disc':
            rd = s.place(r[1])[0]
            ty = T[r[2]]

            def run(st, fr):
                v = rd(st, fr)
                if isinstance(v, A):
                    if ty['k'] == 'adt' and ty['v']:
                        return int(ty['v'][v.v]['d'])
                    return v.v
                if v is UNDEF: return v       # only a branch on it would be wrong
                raise Unsupported('discriminant of %r' % (v,))
            return run
        if k == 'rawptr':
            a, b = s.operand(r[1][0]), s.operand(r[1][1])

            def run(st, fr):
                x, n = a(st, fr), b(st, fr)
                if isinstance(x, R) and type(n) is int and x.p and type(x.p[-1]) is int:
                    return R(x.b, x.p[:-1] + ((x.p[-1], n),))
                if isinstance(x, R) and isinstance(n, A): return x
                raise Unsupported('raw pointer %r %r' % (x, n))
            return run
        if k == 'len':
            rd = s.place(r[1])[0]
            return lambda st, fr: len(rd(st, fr).f)
        if k == 'un':
            o = s.operand(r[2])
            ty = T[r[3]]
            if r[1] == 'Not':
                if ty['k'] == 'bool':
                    return lambda st, fr: X.not_(o(st, fr))
                it = (ty['s'], ty['b'])
                return lambda st, fr: X.sub(-1, o(st, fr)) if it[0] else X.sub(INT[it][1], o(st, fr))
            if r[1] == 'Neg':
                it = (ty['s'], ty['b'])
                return lambda st, fr: wrap(st, X.neg(o(st, fr)), it)
            if r[1] == 'PtrMetadata':
                def run(st, fr):
                    v = st.deref(o(st, fr))
                    if isinstance(v, A): return len(v.f)
                    if isinstance(v, Str): return len(v.s)
                    raise Unsupported('metadata of %r' % (v,))
                return run
        if k == 'setd':
            rd, res, w = s.place(dest)
            v = r[1]

            def run(st, fr):
                x = rd(st, fr)
                return A(v, x.f if isinstance(x, A) else ())
            return run

        def bad(st, fr):
            raise Unsupported('rvalue %s' % (r,))
        return bad

    def cast(s, kind, o, from_, to):
        T = s.prog.T
        ft, tt = T[from_], T[to]
        if kind.startswith('IntToInt') or (kind.startswith('Transmute') and ft['k'] in ('int', 'bool', 'char') and tt['k'] in ('int', 'char')):
            it = (tt['s'], tt['b']) if tt['k'] == 'int' else (False, 32)

            def run(st, fr):
                v = b2i(st, o(st, fr))
                if isinstance(v, A):   # field-less enum
                    v = int(ft['v'][v.v]['d']) if ft['k'] == 'adt' else v.v
                return wrap(st, v, it)
            return run
        if kind.startswith('PointerCoercion') and ('ReifyFnPointer' in kind or 'ClosureFnPointer' in kind):
            return lambda st, fr: Op('fn', from_)
        if kind.startswith('Transmute'):
            return lambda st, fr: s.transmute(st, o(st, fr), from_, to)
        if kind.startswith('PtrToPtr') and ft['k'] in ('ptr', 'ref') and tt['k'] in ('ptr', 'ref'):
            return lambda st, fr: s.repoint(o(st, fr), ft['e'], tt['e'])
        if kind.startswith('PointerCoercion') and 'Unsize' in kind and tt.get('e') is not None and T[tt['e']]['k'] == 'dyn':
            def run(st, fr):
                v = o(st, fr)
                return v if isinstance(v, Dyn) else Dyn(v.b, v.p, ft['e'])
            return run
        if kind.startswith(('PointerExpose', 'PointerWith')):
            def run(st, fr):
                v = o(st, fr)
                if type(v) is int: return v
                raise Unsupported('address of a pointer')
            return run
        return o

    def repoint(s, v, fe, te):
        """the pointer v to a value of type fe as a pointer to te"""
        T = s.prog.T
        if fe == te or not isinstance(v, R): return v
        f, t = T[fe], T[te]
        while transparent(f) and not f['n'].endswith('NonNull'): f = T[[x for x in f['a'] if isinstance(x, int)][0]]
        while transparent(t) and not t['n'].endswith('NonNull'): t = T[[x for x in t['a'] if isinstance(x, int)][0]]
        fa, ta = f['k'] in ('array', 'slice'), t['k'] in ('array', 'slice')
        if fa and not ta: return R(v.b, ext(v.p, 0))
        if ta and not fa:
            if t['k'] == 'array' and v.p and type(v.p[-1]) is int: return R(v.b, v.p[:-1] + ((v.p[-1], t['n']),))
            raise Unsupported('cast of a pointer to an array')
        return v

    def only(s, ty):
        """the one field of a struct that is not empty, as (index, type)"""
        if ty['k'] != 'adt' or ty['kind'] != 'struct' or not ty['v']: return None
        r = [(i, f[1]) for i, f in enumerate(ty['v'][0]['f']) if not s.empty(f[1])]
        return r[0] if len(r) == 1 else None

    def empty(s, t):
        ty = s.prog.T[t]
        if ty['k'] == 'tuple': return all(s.empty(x) for x in ty['e'])
        return ty['k'] == 'adt' and ty['kind'] == 'struct' and ty['n'].endswith('PhantomData')

    def transmute(s, st, v, f, t):
        T = s.prog.T
        if f == t or v is UNDEF: return v
        ft, tt = T[f], T[t]
        prim = ('int', 'bool', 'char')
        if tt['k'] == 'adt' and tt['n'] == 'core::option::Option' and ft['k'] in prim:
            if st.branch(X.eq(v, 0)): return NONE
            return some(s.transmute(st, v, f, tt['a'][0]))
        if ft['k'] == 'adt' and ft['n'] == 'core::option::Option' and tt['k'] in prim:
            return 0 if v.v == 0 else s.transmute(st, v.f[0], ft['a'][0], t)
        if ft['k'] == 'int' and tt['k'] == 'adt' and tt['kind'] == 'enum':
            for i, va in enumerate(tt['v']):
                if st.branch(X.eq(v, int(va['d']))): return A(i, ())
            raise Dead()
        if ft['k'] in prim and tt['k'] == 'bool': return X.ne(v, 0)
        if ft['k'] in prim and tt['k'] in prim:
            return wrap(st, b2i(st, v), (tt['s'], tt['b']) if tt['k'] == 'int' else (False, 32))
        def pointee(ty):
            if ty['k'] in ('ptr', 'ref'): return ty['e']
            return ty['a'][0] if ty['k'] == 'adt' and ty['n'].endswith('NonNull') else None
        if pointee(ft) is not None and pointee(tt) is not None: return s.repoint(v, pointee(ft), pointee(tt))
        if ft['k'] in ('array', 'slice') and tt['k'] == ft['k']:
            return A(0, tuple(s.transmute(st, x, ft['e'], tt['e']) for x in v.f))
        for ty, inner in ((ft, None), (tt, None)):
            if transparent(ty) and ty['a']:
                e = [x for x in ty['a'] if isinstance(x, int)][0]
                if ty['n'].endswith('NonNull'):
                    e = ty['v'][0]['f'][0][1]
                return s.transmute(st, v, e, t) if ty is ft else s.transmute(st, v, f, e)
        if ft['k'] == 'other' or tt['k'] == 'other': return v
        x = s.only(ft)
        if x is not None and not (tt['k'] == 'adt' and tt['n'] == ft['n']):
            return s.transmute(st, v.f[x[0]], x[1], t)
        x = s.only(tt)
        if x is not None and not (ft['k'] == 'adt' and tt['n'] == ft['n']):
            y = s.transmute(st, v, f, x[1])
            return A(0, tuple(y if i == x[0] else UNIT for i in range(len(tt['v'][0]['f']))))
        if ft['k'] == 'adt' and tt['k'] == 'adt' and ft['n'] == tt['n']: return v
        raise Unsupported('transmute %s to %s' % (T.name(f), T.name(t)))

    def binop(s, op, a, b, t):
        T = s.prog.T
        ty = T[t]
        it = (ty['s'], ty['b']) if ty['k'] == 'int' else None
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            f = {'Eq': X.eq, 'Ne': X.ne, 'Lt': X.lt, 'Le': X.le, 'Gt': X.gt, 'Ge': X.ge}[op]

            def run(st, fr):
                x, y = a(st, fr), b(st, fr)
                if ty['k'] == 'bool' and op not in ('Eq', 'Ne'):
                    x, y = b2i(st, x), b2i(st, y)
                if isinstance(x, (A, Op, R)):
                    if isinstance(x, R) and isinstance(y, R) and x.b == y.b and (x.p == y.p or x.p and y.p and x.p[:-1] == y.p[:-1]):
                        i, j = [z.p[-1] if z.p else 0 for z in (x, y)]
                        if type(i) is type(j): return f(i, j) if type(i) is int else f(int(i != j), 0)
                    raise Unsupported('comparison of %r' % (x,))
                if x is UNDEF or y is UNDEF: return UNDEF
                c = f(x, y)
                k = st.known(c)
                return c if k is None else k
            return run
        if op == 'Offset':
            def run(st, fr):
                x, y = a(st, fr), b(st, fr)
                if not isinstance(x, R): raise Unsupported('offset of %r' % (x,))
                return shift(x, s.conc(st, y))
            return run
        if op == 'Cmp':
            def run(st, fr):
                x, y = a(st, fr), b(st, fr)
                if st.branch(X.lt(x, y)): return A(0, ())
                if st.branch(X.eq(x, y)): return A(1, ())
                return A(2, ())
            return run
        if ty['k'] == 'bool':
            f = {'BitAnd': X.and_, 'BitOr': X.or_, 'BitXor': lambda x, y: X.not_(X.eq(x, y))}[op]
            return lambda st, fr: f(a(st, fr), b(st, fr))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            f = {'A': X.add, 'S': X.sub, 'M': X.mul}[op[0]]
            return lambda st, fr: wrap(st, f(a(st, fr), b(st, fr)), it)
        if op == 'Div':
            return lambda st, fr: wrap(st, tdiv(st, a(st, fr), b(st, fr)), it)
        if op == 'Rem':
            def run(st, fr):
                x, y = a(st, fr), b(st, fr)
                return X.sub(x, X.mul(tdiv(st, x, y), y))
            return run

        def bits(st, fr):
            return both(st, a(st, fr), b(st, fr))

        def both(st, x, y):
            if op.startswith('Sh') and type(y) is not int: y = s.conc(st, y)
            if op in ('Shl', 'ShlUnchecked') and type(y) is int:
                return wrap(st, X.mul(x, 1 << (y % it[1])), it)
            if op in ('Shr', 'ShrUnchecked') and type(y) is int:
                return X.fdiv(x, 1 << (y % it[1]))
            if type(x) is int and type(y) is int:
                m = (1 << it[1]) - 1
                if op == 'BitAnd': r = (x & y)
                elif op == 'BitOr': r = (x | y)
                elif op == 'BitXor': r = (x ^ y)
                else: raise Unsupported(op)
                return wrap(st, r, it)
            if op == 'BitAnd':
                for u, v in ((x, y), (y, x)):
                    if type(v) is int and v >= 0:
                        if v == 0: return 0
                        if v & (v + 1) == 0:      # low mask
                            return X.sub(u, X.mul(X.fdiv(u, v + 1), v + 1))
                        if v & (v - 1) == 0:      # one bit
                            h = X.fdiv(u, v)
                            return X.mul(X.sub(h, X.mul(X.fdiv(h, 2), 2)), v)
            if op in ('BitOr', 'BitXor'):
                bit = lambda u, v: X.sub(X.fdiv(u, v), X.mul(X.fdiv(u, 2 * v), 2))
                for u, v in ((x, y), (y, x)):
                    if type(v) is int:
                        if v < 0 or st.bounds(u)[0] is None or st.bounds(u)[0] < 0: continue
                        r = u
                        for i in range(v.bit_length()):
                            if v >> i & 1:
                                t = X.mul(bit(u, 1 << i), 1 << i)
                                r = X.add(r, X.sub(1 << i, t if op == 'BitOr' else X.mul(t, 2)))
                        return r
                    l, hi = st.bounds(v)
                    if l is not None and l >= 0 and hi is not None and type(u) is X.E:
                        n = 1 << hi.bit_length()
                        if all(k % n == 0 for _, k in u.t): return X.add(u, v)       # no common bits
                for u, v in ((x, y), (y, x)):
                    l, hi = st.bounds(v)
                    if type(v) is X.E and l is not None and l >= 0 and hi is not None and hi <= 16:
                        k = s.conc(st, v)
                        return both(st, u, k)
            raise Unsupported('symbolic %s' % op)
        return bits

    # terminators return nothing; they change the state
    def term(s, t):
        k = t[0]
        if k == 'goto':
            tg = t[1]

            def run(st, fr):
                fr.bb, fr.i = tg, 0
            return run
        if k == 'sw':
            o = s.operand(t[1])
            br = t[2]
            other = t[3]
            ty = s.prog.T[t[4]]
            isbool = ty['k'] == 'bool'

            def run(st, fr):
                v = o(st, fr)
                tg = None
                if v is UNDEF: raise Unsupported('branch on an uninitialised value')
                if isbool:
                    v = v if isinstance(v, (bool, C)) else X.ne(v, 0)
                    r = st.branch(v)
                    for val, bb in br:
                        if bool(int(val)) == r:
                            tg = bb
                else:
                    if isinstance(v, (C, bool)): v = b2i(st, v)
                    for val, bb in br:
                        val = int(val)
                        if ty['k'] == 'int' and ty['s'] and val > INT[(True, ty['b'])][1]:
                            val -= 1 << ty['b']
                        if st.branch(X.eq(v, val)):
                            tg = bb
                            break
                fr.bb, fr.i = (other if tg is None else tg), 0
            return run
        if k == 'ret':
            def run(st, fr):
                v = fr.l[0]
                st.frames.pop()
                if not st.frames:
                    st.status = 'ok'
                    st.result = v
                    return
                c = st.frames[-1]
                fr.dest(st, c, UNIT if v is UNDEF else v)
                if fr.target is None:
                    raise Unsupported('return into diverging call')
                c.bb, c.i = fr.target, 0
            return run
        if k == 'assert':
            o = s.operand(t[1])
            exp = t[2]
            tg = t[3]
            kind, loc = t[4], t[5]

            def run(st, fr):
                c = o(st, fr)
                if c is UNDEF: raise Unsupported('assertion of an uninitialised value')
                c = c if exp else X.not_(c)
                st.asserted += 1
                if s.prog.track_panics:
                    if not st.branch(c):
                        raise Revert('panic:%s@%s' % (kind, loc))
                else:
                    if st.known(c) is False:
                        raise Revert('panic:%s@%s' % (kind, loc))
                    st.assume(c)
                fr.bb, fr.i = tg, 0
            return run
        if k == 'unreachable':
            def run(st, fr): raise Dead()
            return run
        if k == 'call':
            return s.call(t)

        def run(st, fr): raise Unsupported('terminator %s' % t[0])
        return run

    def call(s, t):
        _, cal, args, dest, target, aty, rty, loc = t
        ops = [s.operand(o) for o in args]
        w = s.place(dest)[2]
        unwrapped = s.unwraps(target, dest)
        if cal.get('kind') == 'ptr':
            f = s.operand(cal['op'])

            def run(st, fr):
                v = st.deref(f(st, fr))
                av = [o(st, fr) for o in ops]
                if isinstance(v, Op) and v.k == 'fnsym':
                    push(st, fr, s.prog.fn(v.d[0]), av, w, target)
                    return
                if isinstance(v, Op) and v.k == 'fn':
                    ty = s.prog.T[v.d[0]]
                    if ty['k'] == 'fndef':
                        s.callee(ty['c'], aty, rty, loc, w, target, unwrapped)(st, fr, av)
                        return
                    if ty['k'] == 'closure' and ty['syms']:
                        fn = s.prog.fn(ty['syms'][0])
                        push(st, fr, fn, [A(0, ())] + ([A(0, tuple(av))] if fn.argc == 2 and fn.spread is None and not fn.closure else av), w, target)
                        return
                raise Unsupported('call through pointer %r' % (v,))
            return run
        go = s.callee(cal, aty, rty, loc, w, target, unwrapped)

        def run(st, fr):
            go(st, fr, [o(st, fr) for o in ops])
        return run

    def callee(s, cal, aty, rty, loc, w, target, unwrapped):
        """what a call of cal does, as a function of the state and the argument values"""
        from . import models
        m = models.lookup(s.prog, cal, aty, rty)
        rustcall = cal['p'].startswith('core::ops::Fn')
        if m is not None:
            def run(st, fr, av):
                r = m(models.Ctx(st, fr, s.prog, cal, aty, rty, loc, unwrapped), *av)
                if isinstance(r, PushCall):
                    push(st, fr, s.prog.fn(r.sym), r.args, w if r.dest is None else r.dest, target)
                    return
                if target is None:
                    raise Revert('diverges')
                w(st, fr, r)
                fr.bb, fr.i = target, 0
            return run
        sym = cal['sym']
        if cal['kind'] == 'virtual':
            key = cal['p'] + json.dumps(cal['a'], separators=(',', ':'))

            def run(st, fr, av):
                v = av[0]
                while isinstance(v, R) and not isinstance(v, Dyn): v = st.load(v)
                c = s.prog.virtuals.get((key, v.t)) if isinstance(v, Dyn) else None
                if c is None:
                    raise Unsupported('virtual call of %s on %r' % (cal['p'], v))
                s.callee(c, aty, rty, loc, w, target, unwrapped)(st, fr, [R(v.b, v.p)] + av[1:])
            return run

        def run(st, fr, av):
            fn = s.prog.fn(sym) if sym else None
            if fn is None:
                raise Unsupported('call of %s (%s)' % (cal['p'], cal['rd']))
            if rustcall and fn.closure and len(av) == 2 and isinstance(av[1], A) and fn.spread is None:
                av = [av[0]] + list(av[1].f)
            push(st, fr, fn, av, w, target)
        return run

    def unwraps(s, target, dest):
        """the call's result is unwrapped at once (and reverts when it is None)"""
        if target is None or dest[1]: return False
        st, t = s.rawb[target]
        if t[0] != 'call': return False
        for x in st:
            if x[0] not in ('nop', 'live', 'dead') and not (x[0] == 'as' and False): return False
        if not re.search(r'(unwrap_optimized|Option::<i128>::unwrap|Option::<i128>::expect)$', t[1].get('rd', '')): return False
        o = t[2][0]
        return o[0] in ('c', 'm') and o[1][0] == dest[0] and not o[1][1]


class PushCall:
    def __init__(s, sym, args, dest=None):
        s.sym, s.args, s.dest = sym, args, dest


def push(st, fr, fn, av, dest, target):
    if len(st.frames) > 200:
        raise Unsupported('recursion')
    f = Frame()
    f.fn = fn
    f.l = [UNDEF] * len(fn.ltypes)
    if fn.spread is not None and len(av) > fn.argc:
        k = fn.spread - 1
        av = av[:k] + [A(0, tuple(av[k:]))]
    if len(av) != fn.argc:
        raise Unsupported('arity of %s: %d for %d' % (fn.name, len(av), fn.argc))
    for i, v in enumerate(av):
        f.l[i + 1] = v
    f.bb = f.i = 0
    st.nuid += 1
    f.uid = st.nuid
    f.dest = dest
    f.target = target
    st.frames.append(f)
    st.funcs.add(fn.sym)


def first_int(c):
    if isinstance(c, bool): return None
    if isinstance(c, int): return c
    if isinstance(c, dict):
        for k in ('agg', 'arr'):
            if k in c:
                for x in c[k]:
                    r = first_int(x)
                    if r is not None: return r
    return None


def decode_symbol(bits):
    body = bits >> 8
    cs = ''
    al = '_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
    while body:
        k = body & 63
        if k: cs = al[k - 1] + cs
        body >>= 6
    return cs


class Limits:
    def __init__(s, paths=20000, seconds=600, steps=400000):
        s.paths, s.seconds, s.steps = paths, seconds, steps


class Incomplete(Exception):
    pass


def run(st, entry_sym, args, limits=None, keep_reverts=False):
    """run a function from st on every path; returns the final states (ok; reverts too when asked)"""
    prog = st.prog
    fn = prog.fn(entry_sym)
    st = st.copy()
    st.frames = []
    st.status = None
    st.decs, st.dptr = [], 0
    push(st, None, fn, list(args), None, None)
    return explore(st, limits, keep_reverts)


def explore(st, limits=None, keep_reverts=False):
    limits = limits or Limits()
    t0 = time.time()
    work = [st]
    done = []
    npaths = 0
    info = {'paths': 0, 'ok': 0, 'revert': 0, 'dead': 0, 'steps': 0}
    while work:
        st = work.pop()
        while True:
            fr = st.frames[-1]
            stmts, term = fr.fn.block(fr.bb)
            mark = None
            try:
                n = len(stmts)
                while fr.i < n:
                    st.dptr = 0
                    stmts[fr.i](st, fr)
                    fr.i += 1
                    if st.decs: st.decs = []
                st.dptr = 0
                mark = (len(st.log), len(st.auths), len(st.events), st.nfresh)
                term(st, fr)
                if st.decs: st.decs = []
                st.steps += n + 1
                if st.steps > limits.steps:
                    raise Incomplete('step bound')
            except Fork as f:
                if mark is not None:      # the terminator is run again: drop what it had recorded
                    del st.log[mark[0]:], st.auths[mark[1]:], st.events[mark[2]:]
                    st.nfresh = mark[3]
                o = st.copy()
                o.decs = o.decs + [False]
                st.decs = st.decs + [True]
                a_ok = True
                try:
                    o.assume(X.not_(f.cond))
                    work.append(o)
                except Dead:
                    pass
                try:
                    st.assume(f.cond)
                except Dead:
                    info['dead'] += 1
                    break
                if len(work) > limits.paths or npaths > limits.paths:
                    raise Incomplete('path bound')
                if time.time() - t0 > limits.seconds:
                    raise Incomplete('time bound')
                continue
            except Dead:
                info['dead'] += 1
                break
            except Revert as r:
                st.status, st.why = 'revert', r.why
                npaths += 1
                info['revert'] += 1
                if keep_reverts:
                    done.append(st)
                break
            except Unsupported as u:
                where = ' in %s (%s) bb%d' % (fr.fn.name, fr.fn.span, fr.bb)
                if ' in ' not in str(u):
                    raise Unsupported(str(u) + where) from u
                raise
            if st.status == 'ok':
                npaths += 1
                if solve.feasible(st.pc, True):
                    info['ok'] += 1
                    done.append(st)
                else:
                    info['dead'] += 1
                break
    info['paths'] = npaths
    for d in done:
        d.g['info'] = info
    return done, info
