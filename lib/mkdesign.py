"""Writes DESIGN.md from its hand written parts and the bounds stated in the checks (documentation only).

    ./run.sh is not needed; PYTHONPATH=/repo:/verif/lib:/verif pypy3 lib/mkdesign.py
"""
import json, os, importlib, glob
from design_texts import T
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(here, 'lib', 'design_head.md')).read().rstrip(), '', '## Properties', '']
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
for p in props:
    check = importlib.import_module('checks.' + p['id'].lower())
    model, why = T[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '', model + ' ' + why, '']
    for f in check.FAMILIES:
        q, t = f.bound_text('quick'), f.bound_text('thorough')
        out.append('* `%s`: %s%s' % (f.name, q, '' if q == t else ' — thorough: ' + t))
    out.append('')
    if check.ASSUMPTIONS:
        out += ['Assumptions: ' + '; '.join(check.ASSUMPTIONS) + '.', '']
out += [open(os.path.join(here, 'lib', 'design_tail.md')).read().rstrip(), '']
out += ['## Planted changes', '',
        'All of them break their property, pass the existing tests and are detected by the quick check of their property '
        '(run by `vcheck`); those marked with * were missed at first and led to the strengthening named.', '',
        '| change | property | needs | breaks | caught |', '|---|---|---|---|---|']
notes = json.load(open(os.path.join(here, 'lib', 'design_notes.json')))
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    id_ = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    n = notes.get(id_, '')
    out.append('| %s%s | %s | %s | %s | %s |' % (id_, '*' if n else '', d['property'], d['needs'], d['what_it_breaks'], n or 'yes'))
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
