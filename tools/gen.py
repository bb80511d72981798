"""Writes properties.jsonl and MANIFEST.json from props/catalog.py and the check modules that are there."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props.catalog import P
try: from props.catalog import NA
except ImportError: NA = {}
NOTE = ('Every path of the entry points within the stated bounds is decided by z3 over mathematical integers with explicit overflow conditions (so machine semantics are kept); '
        'pre-states are arbitrary within the stated invariant, so a passing step covers histories of any length whose states satisfy it. Trusted: rustc\'s MIR of the checked source, '
        'the host/SDK function models in engine/models.py (validated by replaying sampled paths natively), z3; other contracts answer arbitrarily within the stated assumptions.')
def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists('%s/props/%s.py' % (V, i.lower())) and i not in NA:
            m = importlib.import_module('props.' + i.lower())
            checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'symbolic execution of the contracts\' compiled MIR, obligations decided by z3, counterexamples replayed natively',
                           'level': 'model_checking', 'level_note': NOTE + ' Bounds: ' + m.BOUNDS + '. Assumptions: ' + '; '.join(getattr(m, 'ASSUMPTIONS', []) or ['none']) + '.'})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -m vlib.build setup', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: the checks compile the unmodified sources with a MIR-extracting rustc driver and run entry points through the contracts\' public interface only.'},
              open(V + '/MANIFEST.json', 'w'), indent=1)
    d = open(V + '/DESIGN.md').read()
    if '<!-- properties -->' in d:
        out = []
        for p in P:
            i = p['id']
            m = importlib.import_module('props.' + i.lower())
            doc = ' '.join((m.__doc__ or '').split())
            q = p['quantifier']['text']
            out.append('### %s %s\n\n%s Quantifies over: %s.\n\n*Bounds*: %s.\n*Assumptions*: %s.\n*Beyond tests*: %s\n*Anchored in*: %s.\n' % (
                i, p['title'], doc, q, m.BOUNDS, '; '.join(getattr(m, 'ASSUMPTIONS', []) or ['none']), p['why_tests_cant'], '; '.join('%s (%s)' % (x['name'], x['where']) for x in p['anchors']['mechanism'])))
        a, b = d.split('<!-- properties -->')[0], d.split('<!-- /properties -->')[1]
        open(V + '/DESIGN.md', 'w').write(a + '<!-- properties -->\n' + '\n'.join(out) + '<!-- /properties -->' + b)
    print(len(checks), 'claimed', len(na), 'not')
main()
