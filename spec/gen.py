#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py/spec.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
import spec
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in spec.PROPS.values():
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': m, 'where': ', '.join(p['files'])} for m in p['mech']]}}) + '\n')
have = {h['prop'] for h in spec.HARNESSES}
quick = {h['prop'] for h in spec.HARNESSES if h.get('tier', 'quick') == 'quick'}
checks, na = [], []
for pid, p in spec.PROPS.items():
    if p['na']:
        na.append({'property': pid, 'reason': p['na']})
    elif pid not in quick:
        na.append({'property': pid, 'reason': 'no check has been built'})
    else:
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 bin/check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'bounded symbolic execution of the C sources with CBMC, decided by SAT; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': ('All values within the bounds are decided by the solver. ' + p['level_note'] + (' Outside: ' + p['outside'] + '.' if p['outside'] else '') +
                           ' Trusts CBMC, its C library models and the harness oracle.').replace('  ', ' ')})
json.dump({'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Generated by spec/gen.py. No hooks: harnesses use the public interface and compile /repo/src unchanged.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
