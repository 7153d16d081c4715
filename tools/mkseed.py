#!/usr/bin/env python3
"""mkseed.py ID PROPERTY file 'old' 'new' needs what demo.cpp  -- create seeded/ID from a text replacement (read from a spec file)"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, a, b in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        n = t.count(a)
        if isinstance(b, tuple):
            b, k = b
            parts = t.split(a)
            assert n > k, (s['id'], 'only', n)
            t = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
        else:
            assert n == 1, (s['id'], f, 'occurrences', n)
            t = t.replace(a, b)
        open(p, 'w').write(t)
    diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.rmtree(w)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.copy(os.path.join(V, 'tools', 'demo.sh'), os.path.join(d, 'demo.sh'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
    print('wrote', s['id'])
