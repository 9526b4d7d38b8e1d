"""Writes MANIFEST.json from the check modules that exist."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    i = p['id']
    fn = os.path.join(HERE, 'mc', 'checks', i.lower() + '.py')
    if not os.path.exists(fn):
        na.append({'property': i, 'reason': NA.get(
            i, 'check not built yet')})
        continue
    src = open(fn).read()
    m = re.search(r"^NOTE = \((.*?)\)$", src, re.S | re.M)
    note = eval('(' + m.group(1) + ')') if m else ''
    m = re.search(r"^TECH = \((.*?)\)$", src, re.S | re.M)
    tech = eval('(' + m.group(1) + ')') if m else (
        'bounded exhaustive enumeration of inputs on the real code against '
        'an independent reference model')
    checks.append({
        'property': i,
        'quick_cmd': './check %s --tier quick' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'model checking: ' + tech,
        'level': 'model_checking',
        'level_note': (note + ' ' if note else '') +
        'Complete for the bounded space reported in the evidence file; says '
        'nothing about values outside the stated alphabets. Trusted: the '
        'reference model in mc/, numpy, the interpreter.'})
man = {'version': 1,
       'setup_cmd': './setup',
       'checks': checks, 'not_applicable': na,
       'notes': 'Checks import emva1288 from /repo/src directly (pure '
                'Python, nothing is compiled); no hooks in /repo are needed.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
