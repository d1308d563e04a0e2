#!/usr/bin/env python3
"""Runs each planted bug's check with it applied to /repo and records which harness catches it."""
import os, sys, json, glob, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = root + '/tools/caught.json'
c = json.load(open(f)) if os.path.exists(f) else {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d))
    if len(sys.argv) > 1 and n not in sys.argv[1:] and '-a' not in sys.argv: continue
    if len(sys.argv) == 1 and n in c and not c[n].startswith('MISSED'): continue
    p = json.load(open(d))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', os.path.dirname(d) + '/patch.diff'])
    try:
        r = subprocess.run(['bash', 'run.sh', p, 'quick'], cwd=root, capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    hs = re.findall(r'^(\w+) +COUNTEREXAMPLE', r.stdout, re.M)
    c[n] = ', '.join(hs) if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED (exit %d)' % r.returncode
    print(n, p, c[n], flush=True)
    json.dump(dict(sorted(c.items())), open(f, 'w'), indent=1)
