"""Runs the checks of one property: encode, decide with the solver, replay counterexamples, write evidence."""
import importlib, json, os, subprocess, sys, time, traceback, multiprocessing as mp, hashlib, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vlib import build
from engine import expr as X, solve
from engine.vals import *
from engine.machine import Prog, Incomplete, Limits
from engine import world as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, '.work')


# ---------------------------------------------------------------- concrete cases
def js(v, m):
    """encoded value -> json under the model"""
    k = v[0]
    if k in ('i128', 'u128', 'u64', 'i64', 'u32', 'i32'): return [k, str(m.ev(v[1]))]
    if k == 'bool': return [k, m.cond(v[1]) if not isinstance(v[1], bool) else v[1]]
    if k == 'addr': return [k, v[1].name]
    if k == 'sym': return [k, v[1]]
    if k == 'str': return [k, v[1] if isinstance(v[1], str) else repr(v[1])]
    if k == 'bytes':
        h = ''
        for s in v[1]:
            if isinstance(s, bytes): h += s.hex()
            else: return ['opaque', repr(v)]
        return [k, h]
    if k == 'vec': return [k, [js(x, m) for x in v[1]]]
    if k == 'map': return [k, [[js(a, m), js(b, m)] for a, b in v[1]]]
    if k == 'void': return [k]
    return ['opaque', repr(v)]


def addrs_in(x, out):
    if isinstance(x, Addr): out.add(x)
    elif isinstance(x, (tuple, list)):
        for y in x: addrs_in(y, out)


KEPT = 17280 * 30       # ledgers that the replayed network keeps a permanent entry which is not extended


def case_of(w, st, m):
    T = w.T
    hist = st.g['hist']
    seen = set(getattr(w, 'addresses', ()))
    def e(v, t):
        x = enc(T, v, t)
        addrs_in(x, seen)
        return js(x, m)
    storage = []
    for kind, d in hist[0]['pre'].items():
        for k, (v, t) in sorted(d.items(), key=repr):
            addrs_in(k, seen)
            storage.append([kind, js(k, m), e(v, t)])
    steps, ps = [], []
    for i, h in enumerate(hist):
        steps.append({'fn': h['fn'], 'args': [e(v, t) for v, t in zip(h['vals'], h['tids'])],
                      'timestamp': str(m.ev(h['ledger']['timestamp'])), 'sequence': str(m.ev(h['ledger']['sequence']))})
        end = hist[i + 1]['log'] if i + 1 < len(hist) else len(st.log)
        cl = []
        for fname, addr, args, tids, ret, rt in st.log[h['log']:end]:
            if addr is None or fname.startswith('__'): continue
            cl.append({'addr': addr.name, 'fn': fname, 'args': [e(a, t) for a, t in zip(args, tids)]})
            seen.add(addr)
        last = i + 1 == len(hist)
        ok = not (last and st.status == 'revert')
        p = {'ok': ok}
        if ok:
            p['calls'] = cl
            aend = hist[i + 1]['auths'] if not last else len(st.auths)
            p['auths'] = sorted(set(a.name for a in st.auths[h['auths']:aend]))
            eend = hist[i + 1]['events'] if not last else len(st.events)
            p['events'] = [[e(a, b), e(c, d)] for a, b, c, d in st.events[h['events']:eend]]
            if last: p['ret'] = e(st.result, h['rty'])
        ps.append(p)
    script = []
    for fname, addr, args, tids, ret, rt in st.log[hist[0]['log']:]:
        if addr is None or fname.startswith('__') or addr.name.startswith('deployed'): continue
        script.append({'addr': addr.name, 'fn': fname, 'ret': e(ret, rt) if ret is not None else ['panic']})
        seen.add(addr)
    seen.add(w.me)
    post = []
    if st.status != 'revert':
        for kind, d in st.store.items():
            for k, (v, t) in d.items():
                post.append([kind, js(k, m), e(v, t)])
    case = {'addresses': [[a.name, a.ord] for a in sorted(seen, key=lambda a: a.ord) if not a.name.startswith('deployed')], 'contract': w.me.name, 'crate': w.prog.crate,
            'timestamp': steps[0]['timestamp'], 'sequence': steps[0]['sequence'], 'storage': storage, 'script': script, 'calls': steps}
    ttl = [[js(k, m), str(m.ev(t))] for k, t in st.ttl.items()] if st.status != 'revert' else []
    kept = []
    if st.status != 'revert' and len(hist) == 1:
        # the replayed ledger keeps new entries for 30 days
        seq = m.ev(st.ledger['sequence'])
        for k in {**{k: () for k in st.store['persistent']}, 'instance': (), **st.kept}:
            if k != 'instance' and k not in st.store['persistent']: continue
            until = seq + KEPT - 1
            for a, b in st.kept.get(k, ()):
                if until - seq <= m.ev(a): until = max(until, seq + m.ev(b))
            kept.append(['instance' if k == 'instance' else js(k, m), str(until)])
    return case, {'steps': ps, 'storage': post if st.status != 'revert' else None, 'ttl': ttl, 'kept': kept}


def compare(pred, got):
    """difference between the encoding's prediction and what the real code did, or None"""
    if 'crash' in got: return 'native run crashed: ' + str(got['crash'])
    for i, (p, g) in enumerate(zip(pred['steps'], got['steps'])):
        if p['ok'] != g['ok']: return 'call %d: predicted %s, real code %s (%s)' % (i, 'ok' if p['ok'] else 'failure', 'ok' if g['ok'] else 'failure', g['ret'])
        if not p['ok']: continue
        if p['calls'] != g['calls']: return 'call %d: external calls differ: %s / %s' % (i, p['calls'], g['calls'])
        if 'ret' in p and p['ret'] != g['ret']: return 'call %d: result %s / %s' % (i, p['ret'], g['ret'])
        if p['events'] != g['events']: return 'call %d: events %s / %s' % (i, p['events'], g['events'])
        if set(p['auths']) != set(g['auths']): return 'call %d: authorisations %s / %s' % (i, p['auths'], g['auths'])
    if pred['storage'] is not None:
        f = lambda l: sorted(json.dumps(x) for x in l)
        a, b = f(pred['storage']), f(got['storage'])
        for t in pred.get('ttl', ()):
            if t not in got['ttl']: return 'lifetime of an entry: %s / %s' % (t, got['ttl'])
        for t in pred.get('kept', ()):
            if t not in got['kept']: return 'lifetime of a permanent entry: %s / %s' % (t, got['kept'])
        if a != b: return 'ledger differs: predicted %s, real %s' % ([x for x in a if x not in b], [x for x in b if x not in a])
    return None


def replay(cases):
    r = subprocess.run([build.replay_bin()], input=json.dumps(cases), capture_output=True, text=True, timeout=300)
    if r.returncode: raise RuntimeError('replay program: ' + r.stderr[-2000:])
    return json.loads(r.stdout)


# ---------------------------------------------------------------- the harness interface
class H:
    def __init__(s, progs, tier, seed):
        s.progs, s.tier, s.seed = progs, tier, seed
        s.paths = s.steps = 0
        s.runs = 0
        s.obl = {'proved': 0, 'sat': 0, 'unknown': 0}
        s.how = {}
        s.undecided, s.cands, s.samples, s.notes = [], [], [], []
        s.funcs = set()
        s.witnessed = 0
        s.maxcand = 2
        s.maxsample = 2
        s.deadline = None
        s.nia_ms = 4000 if tier == 'quick' else 20000

    def prog(s, crate): return s.progs[crate]

    def run(s, w, method, *vals, st=None, reverts=False, limits=None):
        done, info = w.call(method, *vals, st=st, limits=limits or Limits(seconds=250 if s.tier == 'quick' else 1500), keep_reverts=reverts)
        s.runs += 1
        s.paths += info['paths']
        for d in done:
            s.steps += d.steps
            s.funcs |= {w.prog.raw[f]['n'] for f in d.funcs}
        return done

    def prove(s, w, st, goal, what, hints=None, lemmas=(), nia_ms=None, pc=None):
        if len(s.cands) >= s.maxcand:
            s.obl['skipped'] = s.obl.get('skipped', 0) + 1
            return
        pc = st.pc if pc is None else pc
        r, x = solve.prove(pc, goal, hints=w.hints_for() if hints is None else hints, nia_ms=nia_ms or s.nia_ms, lemmas=lemmas)
        if r == 'proved':
            s.obl['proved'] += 1
            s.how[x] = s.how.get(x, 0) + 1
        elif r == 'sat':
            s.obl['sat'] += 1
            case, pred = case_of(w, st, x)
            s.cands.append({'what': what, 'case': case, 'pred': pred, 'model': dump(w, x), 'goal': str(goal)[:2000]})
        else:
            s.obl['unknown'] += 1
            s.undecided.append(what)
        return r

    def prove_any(s, w, st, goals, what, **k):
        """equivalent forms of one goal: the first that is discharged settles it"""
        pc = st.pc
        for q in goals[:-1]:
            if q is True or st.known(q) is True or not solve.feasible(pc, X.not_(q)):
                s.obl['proved'] += 1
                s.how['lra'] = s.how.get('lra', 0) + 1
                return 'proved'
        return s.prove(w, st, goals[-1], what, **k)

    def never(s, w, st, what, **k): return s.prove(w, st, False, what, **k)

    def sample(s, w, st, ms=1500):
        """a concrete instance of this path: shows it is reachable; replayed when the replay program is at hand"""
        if len(s.samples) >= s.maxsample: return
        m = solve.find_model(st.pc, hints=w.hints_for(), ms=ms)
        if m is None: return
        s.witnessed += 1
        case, pred = case_of(w, st, m)
        s.samples.append({'case': case, 'pred': pred})

    def result(s):
        return {k: getattr(s, k) for k in ('paths', 'steps', 'runs', 'obl', 'how', 'undecided', 'cands', 'samples', 'notes', 'witnessed')} | {'funcs': sorted(s.funcs), 'stats': dict(solve.STATS)}


def dump(w, m):
    out = {}
    for n, e in w.vars.items():
        out[n] = str(m.ev(e)) if not isinstance(e, (bool, X.C)) else bool(m.cond(e))
    return out


def job_main(q, i, job, progs, tier, seed):
    name, f, kw = job
    h = H(progs, tier, seed)
    t = time.time()
    r = {'err': None}
    try:
        f(h, **kw)
    except (Unsupported, Incomplete) as e:
        r['err'] = '%s: %s' % (type(e).__name__, e)
    except Exception:
        r['err'] = traceback.format_exc()
    r.update(h.result())
    r['wall'] = time.time() - t
    r['name'] = name
    q.put((i, r))
    q.close()
    q.join_thread()


def run_jobs(jobs, progs, tier, seed, limit, enough=None):
    ctx = mp.get_context('fork')
    res = {}
    run = {}
    todo = list(range(len(jobs)))[::-1]
    n = min(8, os.cpu_count() or 8)
    t0 = time.time()
    while todo or run:
        if todo and enough is not None and enough(res):
            for i in todo: res[i] = {'err': None, 'name': jobs[i][0], 'skipped': True}
            todo = []
        while todo and len(run) < n:
            i = todo.pop()
            q = ctx.Queue()
            p = ctx.Process(target=job_main, args=(q, i, jobs[i], progs, tier, seed))
            p.start()
            run[i] = (p, q)
        for i, (p, q) in list(run.items()):
            try:
                _, r = q.get(timeout=0.02)
                res[i] = r
                p.join()
                del run[i]
            except Exception:
                if not p.is_alive() and q.empty():
                    res[i] = {'err': 'job died (exit %s)' % p.exitcode, 'name': jobs[i][0]}
                    del run[i]
        if time.time() - t0 > limit:
            for i, (p, q) in run.items():
                p.kill()
                res[i] = {'err': 'time limit', 'name': jobs[i][0]}
            for i in todo: res[i] = {'err': 'not started: time limit', 'name': jobs[i][0]}
            break
    return [res[i] for i in range(len(jobs))]


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    return out


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('props.' + pid.lower())
    try:
        mir = build.prepare()
    except build.BuildError as e:
        print('BUILD ERROR', str(e)[-3000:])
        return 3
    tb = time.time() - t0
    crates = getattr(mod, 'CRATES', ['pool'])
    progs = {c: Prog('%s/%s.json' % (mir, c), c) for c in crates}
    jobs = mod.jobs(tier)
    only = os.environ.get('VERIF_ONLY')
    if only: jobs = [j for j in jobs if re.search(only, j[0])]
    known = known_findings(pid)
    is_known = lambda job, what: [f for f in known if re.fullmatch(f['where'], job + '/' + what)]
    enough = lambda res: sum(1 for r in res.values() for c in r.get('cands', ()) if not is_known(r['name'], c['what'])) >= 6
    rs = run_jobs(jobs, progs, tier, seed, 560 if tier == 'quick' else 3000, enough)
    errs = [(r['name'], r['err']) for r in rs if r.get('err')]
    ok = [r for r in rs if 'obl' in r]
    cands = [dict(c, job=r['name']) for r in ok for c in r['cands']]
    undec = ['%s/%s' % (r['name'], u) for r in ok for u in r['undecided']]
    violations, rc, validated, hits = [], 0, 0, set()
    samples = [dict(c, job=r['name']) for r in ok for c in r['samples']]
    if cands:
        build.prepare_replay()
        got = replay([c['case'] for c in cands])
        bad = []
        for c, g in zip(cands, got):
            d = compare(c['pred'], g)
            if d:
                bad.append((c, d))
                continue
            k = is_known(c['job'], c['what'])
            if k:
                hits.add(k[0]['id'])
            else:
                violations.append((c, g))
        if violations:
            rd = os.path.join(WORK, 'violations')
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for c, g in violations:
                if c['what'] in seen or len(seen) >= 5: continue
                seen.add(c['what'])
                path = '%s/%s-%s.json' % (rd, pid, hashlib.sha256(json.dumps(c['case']).encode()).hexdigest()[:12])
                json.dump({'property': pid, 'job': c['job'], 'what': c['what'], 'values': c['model'], 'case': c['case'], 'real_outcome': g, 'goal': c['goal']}, open(path, 'w'), indent=1)
                print('  %s: %s' % (c['job'], c['what']))
                print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
        elif bad:
            for c, d in bad[:5]:
                print('ENCODING MISMATCH %s/%s: %s' % (c['job'], c['what'], d[:1500]))
                if os.environ.get('VERIF_DEBUG'): json.dump([c['case']], open('/tmp/mismatch.json', 'w'))
            rc = 2
    for f in known:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, f['what'], '' if f['id'] in hits else ' (not seen in this run)'))
    if samples and (build.replay_fresh() or os.environ.get('VERIF_REPLAY')):
        build.prepare_replay()
        got = replay([c['case'] for c in samples])
        for c, g in zip(samples, got):
            d = compare(c['pred'], g)
            if d:
                print('ENCODING MISMATCH on a sampled path of %s: %s' % (c['job'], d[:1500]))
                if os.environ.get('VERIF_DEBUG'): json.dump([c['case']], open('/tmp/mismatch.json', 'w'))
                if rc == 0: rc = 2
            else:
                validated += 1
    for n, e in errs:
        print('NOT DECIDED %s: %s' % (n, e))
    # a harness that could not be encoded or ran out of time decides nothing; with most of them undecided there is no answer
    if rc == 0 and 2 * len(errs) > len(rs): rc = 2
    for u in undec: print('UNDECIDED %s' % u)
    tot = lambda k: sum(r['obl'].get(k, 0) for r in ok)
    how = {}
    for r in ok:
        for k, v in r['how'].items(): how[k] = how.get(k, 0) + v
    stat = lambda k: sum(r['stats'][k] for r in ok)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in ok), 'transitions': sum(r['steps'] for r in ok),
            'traces_validated_against_impl': validated + len(violations),
            'samples': [{'job': c['job'], 'case': c['case']} for c in samples[:2]] or ['no concrete path was sampled'],
            'explanation': 'states = symbolic execution paths explored to their end, transitions = MIR steps on the successful ones; every path stands for all inputs that satisfy its path condition',
            'bounds': getattr(mod, 'BOUNDS', ''),
            'harnesses': [{'name': r['name'], 'paths': r['paths'], 'obligations': sum(r['obl'].values()), 'wall_s': round(r['wall'], 2), 'reachable_witnesses': r['witnessed']} for r in ok],
            'functions_encoded': sorted({f for r in ok for f in r['funcs']}),
            'obligations': tot('proved') + tot('sat') + tot('unknown'), 'discharged': tot('proved'), 'discharged_by': how,
            'refuted': tot('sat'), 'undecided': undec, 'not_run': errs,
            'solver_queries': stat('queries'), 'feasibility_queries': stat('feas'), 'solver_s': round(stat('solver_s'), 2), 'encode_s': round(tb, 2),
            'trusted_base': ['rustc 1.101 nightly MIR of the checked source', 'engine/models.py (host and SDK function semantics)', 'z3 4.x', 'other contracts answer arbitrarily within the stated assumptions'],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    print('%s %s: %d harnesses, %d paths, %d obligations, %d discharged, %d undecided, %d validated, %.1fs (build %.1fs, solver %.1fs) -> %d' %
          (pid, tier, len(ok), ev['coverage']['states'], ev['coverage']['obligations'], tot('proved'), len(undec), validated, time.time() - t0, tb, stat('solver_s'), rc))
    if os.environ.get('VERIF_TIMES'):
        for r in sorted(ok, key=lambda r: -r['wall'])[:12]: print('   %-40s %6.1fs paths %d obl %s wit %d' % (r['name'], r['wall'], r['paths'], r['obl'], r['witnessed']))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
