"""Refreshes the generated tables of DESIGN.md (section 3: bounds and sizes
of all spaces; section 7: planted bugs)."""
import importlib
import json
import os
import re
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def spaces_table():
    out = ['| property | space | bound (thorough) | cases quick | thorough |',
           '|---|---|---|---|---|']
    for f in sorted(os.listdir(os.path.join(HERE, 'mc', 'checks'))):
        if not re.match(r'c\d\d\.py$', f):
            continue
        m = importlib.import_module('mc.checks.' + f[:-3])
        q = {s.name: s for s in m.spaces('quick')}
        t = {s.name: s for s in m.spaces('thorough')}
        for n in t:
            out.append('| %s | %s | %s | %s | %d |' % (
                m.ID, n, t[n].bound.replace('|', '/'),
                len(q[n].cases) if n in q else '-', len(t[n].cases)))
    return '\n'.join(out)


def seeded_table():
    out = ['| planted bug | property | needs | caught by (quick) |',
           '|---|---|---|---|']
    root = os.path.join(HERE, 'seeded')
    caught = {}
    fn = os.path.join(HERE, 'tools', 'caught.json')
    if os.path.exists(fn):
        caught = json.load(open(fn))
    for d in sorted(os.listdir(root)):
        m = json.load(open(os.path.join(root, d, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (
            d, m['property'], m['needs'].replace('|', '/'),
            caught.get(d, m['property'])))
    return '\n'.join(out)


def put(text, name, body):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body + '\n' + text[j:]


if __name__ == '__main__':
    fn = os.path.join(HERE, 'DESIGN.md')
    t = open(fn).read()
    t = put(t, 'spaces', spaces_table())
    t = put(t, 'seeded', seeded_table())
    open(fn, 'w').write(t)
