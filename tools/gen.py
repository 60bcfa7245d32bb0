#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props/*.py"""
import json, os, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level='proof', note='', na=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, observe=observe))


for f in sorted(glob.glob(os.path.join(V, 'tools', 'props', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'prop': prop})
P.sort(key=lambda p: (p['id'][0], int(p['id'][1:])))
assert len({p['id'] for p in P}) == len(P)
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']:
            a['observe_at'] = p['observe']
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt sa/check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt sa/check.py %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt sa/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis of the MIR rustc emits for /repo: abstract interpretation with a hash-consed term domain; see DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')


def design():
    from how import HOW
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    rows = []
    for p in P:
        if not p['na']:
            h, c = HOW[p['id']]
            rows.append('* **%s %s** (%s; ~%s s). %s%s' % (p['id'], p['title'], p['level'], c, h, ' *Bounds:* ' + p['note'] if p['note'] else ''))
    cj = os.path.join(V, 'tools', 'caught.json')
    caught = json.load(open(cj)) if os.path.exists(cj) else {}
    seeds, missed = ['| bug | property | needs | caught by |', '|---|---|---|---|'], []
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        n = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        by = caught.get(n)
        seeds.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', ','), by or 'not caught'))
        if not by:
            missed.append(n)
    t = open(os.path.join(V, 'tools', 'design.md')).read()
    t = t.replace('@PROPS@', '\n'.join(rows))
    t = t.replace('@NA@', '\n'.join('* **%s %s.** %s' % (p['id'], p['title'], p['na']) for p in P if p['na']) or 'None.')
    t = t.replace('@FIXED@', '\n'.join('* ' + f for f in kf['fixed']))
    t = t.replace('@SEEDS@', '\n'.join(seeds))
    t = t.replace('@MISSED@', 'Not caught: ' + ', '.join(missed) + '.' if missed else 'All of them are caught at present.')
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)


import sys
sys.path.insert(0, os.path.join(V, 'tools'))
design()
