"""Values of the symbolic machine other than integers (expr.E / int) and conditions (expr.C / bool)."""
from . import expr as X


class A:
    """struct / tuple / array / enum / closure value: variant index and fields (immutable)"""
    __slots__ = ('v', 'f')

    def __init__(s, v, f):
        s.v = v
        s.f = f

    def __repr__(s):
        return '%s(%s)' % ('' if s.v == 0 else '#%d' % s.v, ', '.join(map(repr, s.f)))


UNIT = A(0, ())
NONE = A(0, ())


def some(x): return A(1, (x,))


class R:
    """reference: base = (frame uid, local) or a K constant holder; path = field indices"""
    __slots__ = ('b', 'p')

    def __init__(s, b, p=()):
        s.b = b
        s.p = p

    def __repr__(s): return 'R(%r,%r)' % (s.b, s.p)


class Dyn(R):
    """reference to a trait object: also the type of what it points to"""
    __slots__ = ('t',)

    def __init__(s, b, p, t):
        R.__init__(s, b, p)
        s.t = t


class K:
    __slots__ = ('v',)

    def __init__(s, v): s.v = v
    def __repr__(s): return 'K(%r)' % (s.v,)


class Addr:
    """a concrete address atom; ord is its place in the host's ordering"""
    __slots__ = ('name', 'ord')
    _all = {}

    def __new__(cls, name, ord=None):
        r = cls._all.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            r.ord = len(cls._all) if ord is None else ord
            cls._all[name] = r
        return r

    def __repr__(s): return '@' + s.name


class Sym:
    __slots__ = ('s',)

    def __init__(s, x): s.s = x
    def __repr__(s): return ':' + s.s


class Str:
    """rust str / soroban String; content is a python str or a tuple of symbolic parts"""
    __slots__ = ('s',)

    def __init__(s, x): s.s = x
    def __repr__(s): return '"%s"' % (s.s,)


class Byt:
    """Bytes / BytesN: tuple of segments (python bytes or opaque hashables)"""
    __slots__ = ('segs', 'fixed')

    def __init__(s, segs, fixed=None):
        s.segs = tuple(segs)
        s.fixed = fixed

    def __repr__(s): return 'Byt%r' % (s.segs,)


class SVec:
    __slots__ = ('e',)

    def __init__(s, e=()): s.e = tuple(e)
    def __repr__(s): return '[%s]' % ', '.join(map(repr, s.e))


class SMap:
    """host map, entries kept in key order"""
    __slots__ = ('e',)

    def __init__(s, e=()): s.e = tuple(e)
    def __repr__(s): return '{%s}' % ', '.join('%r: %r' % kv for kv in s.e)


class Op:
    """opaque host object"""
    __slots__ = ('k', 'd')

    def __init__(s, k, *d):
        s.k = k
        s.d = d

    def __repr__(s): return '<%s %r>' % (s.k, s.d)


class Undef:
    __slots__ = ()
    def __repr__(s): return 'undef'


UNDEF = Undef()
ENV = Op('env')


class Unsupported(Exception):
    pass


class Typed:
    """a value crossing into the untyped host world (Val): remembers its type"""
    __slots__ = ('v', 't')

    def __init__(s, v, t):
        s.v = v
        s.t = t

    def __repr__(s): return 'Val(%r)' % (s.v,)


class Types:
    def __init__(s, d):
        s.t = {int(k): v for k, v in d.items()}
        s.byname = {}
        for k, t in s.t.items():
            if t['k'] == 'adt' and not any(isinstance(x, int) for x in t['a']):
                s.byname.setdefault(t['n'].split('::')[-1], k)

    def __getitem__(s, i): return s.t[i]

    def find(s, name):
        return s.byname.get(name)

    def name(s, i):
        t = s.t.get(i)
        if t is None: return '?'
        k = t['k']
        if k == 'int': return ('i' if t['s'] else 'u') + str(t['b'])
        if k == 'adt':
            a = [s.name(x) for x in t['a'] if isinstance(x, int)]
            return t['n'] + ('<' + ','.join(a) + '>' if a else '')
        if k in ('ref', 'ptr'): return '&' + s.name(t['e'])
        if k == 'tuple': return '(' + ','.join(s.name(x) for x in t['e']) + ')'
        if k in ('array', 'slice'): return '[' + s.name(t['e']) + ']'
        return k

    def field(s, tid, fname, variant=0):
        for i, (n, t) in enumerate(s.t[tid]['v'][variant]['f']):
            if n == fname:
                return i, t
        raise KeyError(fname)


# --------------------------------------------------------------- ScVal-like encoding
def enc(T, v, t):
    """value v of type id t as a canonical host value (tuples with symbolic leaves)"""
    ty = T[t]
    k = ty['k']
    if k in ('ref', 'ptr'):
        return enc(T, v, ty['e'])
    if isinstance(v, Typed):
        return enc(T, v.v, v.t) if v.t is not None else v.v
    if k == 'bool':
        return ('bool', v)
    if k == 'int':
        return (('i' if ty['s'] else 'u') + str(ty['b']), v)
    if k == 'tuple':
        if not ty['e']:
            return ('void',)
        return ('vec', tuple(enc(T, x, e) for x, e in zip(v.f, ty['e'])))
    if k == 'adt':
        n = ty['n']
        last = n.split('::')[-1]
        if isinstance(v, Addr): return ('addr', v)
        if isinstance(v, Sym): return ('sym', v.s)
        if isinstance(v, Str): return ('str', v.s)
        if isinstance(v, Byt): return ('bytes', v.segs)
        if isinstance(v, SVec): return ('vec', tuple(enc(T, x, ty['a'][0]) for x in v.e))
        if isinstance(v, SMap):
            return ('map', tuple((enc(T, a, ty['a'][0]), enc(T, b, ty['a'][1])) for a, b in v.e))
        if isinstance(v, Op): return ('op', v)
        if n == 'core::option::Option':
            return ('void',) if v.v == 0 else enc(T, v.f[0], ty['a'][0])
        if ty['kind'] == 'struct':
            fs = ty['v'][0]['f']
            if fs and fs[0][0] == '0':
                return ('vec', tuple(enc(T, x, ft) for x, (_, ft) in zip(v.f, fs)))
            r = sorted((fn, enc(T, x, ft)) for x, (fn, ft) in zip(v.f, fs)) if False else \
                sorted([(fn, enc(T, x, ft)) for x, (fn, ft) in zip(v.f, fs)], key=lambda z: z[0])
            return ('map', tuple((('sym', a), b) for a, b in r))
        if ty['kind'] == 'enum':
            va = ty['v'][v.v]
            if all(not x['f'] for x in ty['v']) and ty['c'] != 'core' and any(int(x['d']) != i for i, x in enumerate(ty['v'])):
                return ('u32', int(va['d']))
            return ('vec', (('sym', va['n']),) + tuple(enc(T, x, ft) for x, (_, ft) in zip(v.f, va['f'])))
    raise Unsupported('encode %s %r' % (T.name(t), v))
