#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, re, glob, importlib.util
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('props', os.path.join(root, 'tools', 'props.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
have = set(re.findall(r'"([C]\d\d)_', open(os.path.join(root, 'harness/h/registry.go')).read() + open(os.path.join(root, 'harness/h/registry_cmds.go')).read()))
checks, na = [], []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in m.PROPS:
        assert len(p['title']) <= 80, p['title']
        if p['id'] not in have and p['id'] not in m.NA:
            print('no harness for', p['id']); continue
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
        if p['id'] in m.NA:
            na.append({'property': p['id'], 'reason': m.NA[p['id']]}); continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'bash run.sh %s quick' % p['id'],
            'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p.get('technique', 'symbolic execution of the Go SSA of the code, assertions decided by Z3 (bit-vectors)'),
            'level': 'model_checking',
            'level_note': p['note'],
        })
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': m.NOTES}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks')
