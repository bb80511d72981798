"""Queries: path feasibility (linear relaxation) and obligations (refuted exactly or given a concrete model)."""
import time, os, random
import z3
from . import expr as X

STATS = {'queries': 0, 'solver_s': 0.0, 'feas': 0, 'obl': 0, 'unsat_lra': 0, 'unsat_nia': 0, 'sat': 0, 'unknown': 0, 'syntactic': 0}
TRACE = os.environ.get('VERIF_TRACE')


class Conv:
    def __init__(s, mode):
        s.mode = mode              # 'lra': reals, products opaque; 'nia': ints, exact
        s.tc, s.cc, s.ac, s.mc = {}, {}, {}, {}
        s.num = z3.RealVal if mode == 'lra' else z3.IntVal
        s.mk = z3.Real if mode == 'lra' else z3.Int

    def atom(s, i):
        r = s.ac.get(i)
        if r is None:
            r = s.ac[i] = s.mk('a%d' % i)
        return r

    def mono(s, m):
        if len(m) == 1:
            return s.atom(m[0])
        r = s.mc.get(m)
        if r is None:
            if s.mode == 'lra':
                r = s.mk('m' + '_'.join(map(str, m)))
            else:
                r = s.atom(m[0])
                for a in m[1:]:
                    r = r * s.atom(a)
            s.mc[m] = r
        return r

    def term(s, e):
        if type(e) is int:
            return s.num(e)
        r = s.tc.get(e)
        if r is None:
            ts = []
            for m, c in e.t:
                if m == ():
                    ts.append(s.num(c))
                elif c == 1:
                    ts.append(s.mono(m))
                else:
                    ts.append(s.num(c) * s.mono(m))
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
            s.tc[e] = r
        return r

    def cond(s, c):
        if c is True or c is False:
            return z3.BoolVal(c)
        r = s.cc.get(c)
        if r is None:
            k = c.k
            if k == 'le': r = s.term(c.p) <= s.num(c.c)
            elif k == 'ge': r = s.term(c.p) >= s.num(c.c)
            elif k == 'eq': r = s.term(c.p) == s.num(c.c)
            elif k == 'ne':
                t = s.term(c.p)
                r = z3.Or(t <= s.num(c.c - 1), t >= s.num(c.c + 1))
            elif k == 'and': r = z3.And([s.cond(x) for x in c.p])
            elif k == 'or': r = z3.Or([s.cond(x) for x in c.p])
            elif k == 'bv': r = z3.Bool('b_' + c.p)
            else: r = z3.Not(z3.Bool('b_' + c.p))
            s.cc[c] = r
        return r

    # definitions of the atoms / bounds of the products that a condition mentions
    def monos_of(s, c, out):
        st = [c]
        while st:
            x = st.pop()
            if x is True or x is False:
                continue
            if isinstance(x, X.C):
                if x.k in ('and', 'or'):
                    st.extend(x.p)
                elif x.k not in ('bv', 'nbv'):
                    st.append(x.p)
            elif type(x) is not int:
                for m, _ in x.t:
                    if m != ():
                        out.append(m)

    def defs(s, c, seen):
        """constraints defining everything in c that is not yet in seen (a set, extended)"""
        out = []
        work = []
        s.monos_of(c, work)
        while work:
            m = work.pop()
            if m in seen:
                continue
            seen.add(m)
            if len(m) > 1:
                for a in set(m):
                    work.append((a,))
                if s.mode == 'lra':
                    t = s.mono(m)
                    lo, hi = X.mono_bounds(m)
                    if lo is not None: out.append(t >= s.num(lo))
                    if hi is not None: out.append(t <= s.num(hi))
                    if len(m) == 2:
                        s.mccormick(m, (m[0],), (m[1],), t, out)
                    elif len(m) == 3:
                        # all three splits
                        for i in range(3):
                            rest = tuple(m[j] for j in range(3) if j != i)
                            if rest in seen:
                                s.mccormick(m, (m[i],), rest, t, out)
                continue
            a = X.ATOMS[m[0]]
            t = s.atom(m[0])
            if a.lo is not None: out.append(t >= s.num(a.lo))
            if a.hi is not None: out.append(t <= s.num(a.hi))
            if a.kind == 'div':
                q = X._mk({m: 1})
                p = X.mul(q, a.b)
                d1 = X.le(p, a.a)
                d2 = X.le(a.a, X.add(p, X.sub(a.b, 1)))
                for d in (d1, d2):
                    if d is True: continue
                    out.append(s.cond(d))
                    s.monos_of(d, work)
            elif a.kind == 'ite':
                q = X._mk({m: 1})
                for d in (X.implies(a.a, X.eq(q, a.b)), X.implies(X.not_(a.a), X.eq(q, a.c))):
                    if d is True: continue
                    out.append(s.cond(d))
                    s.monos_of(d, work)
        return out

    def mccormick(s, m, ma, mb, t, out):
        xl, xh = X.mono_bounds(ma)
        yl, yh = X.mono_bounds(mb)
        x, y = s.mono(ma), s.mono(mb)
        N = s.num
        if xl is not None and yl is not None and (xl or yl):
            out.append(t >= N(xl) * y + N(yl) * x - N(xl * yl))
        if xh is not None and yh is not None:
            out.append(t >= N(xh) * y + N(yh) * x - N(xh * yh))
        if xh is not None and yl is not None:
            out.append(t <= N(xh) * y + N(yl) * x - N(xh * yl))
        if xl is not None and yh is not None:
            out.append(t <= N(xl) * y + N(yh) * x - N(xl * yh))


LRA = Conv('lra')
NIA = Conv('nia')


class Inc:
    """one incremental solver that follows a path condition"""

    def __init__(s, conv, timeout):
        s.conv = conv
        s.solver = z3.SolverFor('QF_LRA') if conv.mode == 'lra' else z3.Solver()
        s.solver.set('timeout', timeout)
        s.timeout = timeout
        s.stack = []
        s.seen = [set()]

    def sync(s, pc):
        n = 0
        st = s.stack
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            s.solver.pop(len(st) - n)
            del st[n:]
            del s.seen[n + 1:]
        for c in pc[n:]:
            s.solver.push()
            seen = set(s.seen[-1])
            for d in s.conv.defs(c, seen):
                s.solver.add(d)
            s.solver.add(s.conv.cond(c))
            st.append(c)
            s.seen.append(seen)

    def check(s, pc, extra=()):
        s.sync(pc)
        t0 = time.time()
        if extra:
            s.solver.push()
            seen = set(s.seen[-1])
            for c in extra:
                for d in s.conv.defs(c, seen):
                    s.solver.add(d)
                s.solver.add(s.conv.cond(c))
        r = s.solver.check()
        if extra:
            s.solver.pop()
        STATS['queries'] += 1
        STATS['solver_s'] += time.time() - t0
        return str(r)


_inc = None


def feasible(pc, c):
    """False only if pc and c are contradictory"""
    global _inc
    if _inc is None:
        _inc = Inc(LRA, 2000)
    STATS['feas'] += 1
    return _inc.check(pc, (c,) if c is not True else ()) != 'unsat'


def _check_once(conv, conds, timeout, want_model=False, solver=None):
    s = solver or z3.Solver()
    s.set('timeout', timeout)
    seen = set()
    for c in conds:
        if c is False:
            return 'unsat', None
        for d in conv.defs(c, seen):
            s.add(d)
        s.add(conv.cond(c))
    t0 = time.time()
    r = str(s.check())
    STATS['queries'] += 1
    STATS['solver_s'] += time.time() - t0
    if TRACE:
        print('   query', conv.mode, r, round(time.time() - t0, 2), flush=True)
    m = None
    if r == 'sat' and want_model:
        zm = s.model()
        vals = {}
        for i, t in conv.ac.items():
            v = zm[t]
            if v is not None:
                try: vals[i] = v.as_long()
                except Exception: pass
        bools = {}
        for d in zm.decls():
            if d.name().startswith('b_'):
                bools[d.name()[2:]] = z3.is_true(zm[d])
        m = X.Model({i: v for i, v in vals.items() if X.ATOMS[i].kind == 'var'}, bools)
    return r, m


def relevant(pc, goal):
    """cone of influence of the goal within pc (by shared atoms)"""
    A = set()
    X.atoms_of_cond(goal, A)
    B = set()
    X.bvars_of_cond(goal, B)
    pcs = []
    for c in pc:
        a = set()
        X.atoms_of_cond(c, a)
        b = set()
        X.bvars_of_cond(c, b)
        pcs.append((c, a, b))
    keep = []
    changed = True
    rest = pcs
    while changed:
        changed = False
        nr = []
        for x in rest:
            if x[1] & A or x[2] & B:
                keep.append(x[0])
                A |= x[1]
                B |= x[2]
                changed = True
            else:
                nr.append(x)
        rest = nr
    return keep


def exact_model(m, pc, goal_neg):
    return m is not None and m.cond(goal_neg) and all(m.cond(c) for c in pc)


def prove(pc, goal, hints=(), nia_ms=4000, search=None, lemmas=()):
    """Decide pc => goal.  Returns ('proved', how) | ('sat', Model) | ('unknown', None).
    hints: a list of dicts {atom id: int} tried when looking for a model (concrete rates, prices, ...).
    lemmas: extra facts, each already justified (used in the linear relaxation only)."""
    STATS['obl'] += 1
    neg = X.not_(goal)
    if neg is False:
        STATS['syntactic'] += 1
        return 'proved', 'syntactic'
    global _inc
    if _inc is None:
        _inc = Inc(LRA, 2000)
    r = _inc.check(pc, tuple(lemmas) + ((neg,) if neg is not True else ()))
    if r == 'unsat':
        STATS['unsat_lra'] += 1
        return 'proved', 'lra'
    # look for a model with the hinted values plugged in (mostly linear then)
    for h in hints:
        sub = {}
        cache = {}
        cs = [X.subst_c(c, h, cache) for c in list(pc) + [neg]]
        if any(c is False for c in cs):
            continue
        r, m = _check_once(NIA, [c for c in cs if c is not True], nia_ms // 2, True)
        if r == 'sat' and m is not None:
            m.vals.update({k: v for k, v in h.items() if type(k) is int})
            m.bools.update({k: v for k, v in h.items() if type(k) is str})
            m.cache.clear()
            if exact_model(m, pc, neg):
                STATS['sat'] += 1
                return 'sat', m
    r, m = _check_once(NIA, list(pc) + [neg], nia_ms, True)
    if r == 'unsat':
        STATS['unsat_nia'] += 1
        return 'proved', 'nia'
    if r == 'sat' and exact_model(m, pc, neg):
        STATS['sat'] += 1
        return 'sat', m
    STATS['unknown'] += 1
    return 'unknown', None


def find_model(pc, hints=(), ms=4000, extra=()):
    """a concrete model of pc (a witness that a path is really reachable), or None"""
    conds = list(pc) + [c for c in extra if c is not True]
    for h in list(hints) + [{}]:
        cache = {}
        cs = [X.subst_c(c, h, cache) for c in conds]
        if any(c is False for c in cs):
            continue
        r, m = _check_once(NIA, [c for c in cs if c is not True], ms, True)
        if r == 'sat' and m is not None:
            m.vals.update({k: v for k, v in h.items() if type(k) is int})
            m.bools.update({k: v for k, v in h.items() if type(k) is str})
            m.cache.clear()
            if all(m.cond(c) for c in conds):
                return m
    return None
