#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between markers) from props.py, the harness and seeded/."""
import os, re, json, glob, importlib.util
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('props', os.path.join(root, 'tools', 'props.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
t = open(os.path.join(root, 'DESIGN.md')).read()
def put(name, body):
    global t
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    if a not in t:
        t = t.replace(name, a + '\n' + b, 1)
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + '\n' + body + '\n' + t[j:]
src = ''.join(open(f).read() for f in sorted(glob.glob(root + '/harness/h/*.go')))
out = []
for p in m.PROPS:
    if p['id'] in m.NA:
        out.append('**%s %s** - not applicable: %s\n' % (p['id'], p['title'], m.NA[p['id']])); continue
    out.append('**%s %s**' % (p['id'], p['title']))
    out.append('Over: %s. Beyond tests: %s' % (p['quantifier']['text'], p['why_tests_cant']))
    for h, d in [(x.group(2), x.group(1)) for x in re.finditer(r'((?:^// .*\n)*)^func (%s_\w+)\(\) \{' % p['id'], src, re.M)]:
        d = ' '.join(l[3:] for l in d.strip().split('\n'))
        out.append('* `%s`%s' % (h, d[len(h):] if d.startswith(h) else ' ' + d))
    extra = getattr(m, 'DESIGN', {}).get(p['id'])
    if extra: out.append(extra)
    out.append('')
put('DESIGN_TABLE', '\n'.join(out))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(root + '/tools/caught.json')) if os.path.exists(root + '/tools/caught.json') else {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (n, j['property'], j['needs'], caught.get(n, '')))
put('SEED_TABLE', '\n'.join(rows))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
