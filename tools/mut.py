#!/usr/bin/env python3
"""mut.py FILE.py [name...]: try changes of the sources (development aid).

FILE.py defines M = {name: (props, [(file, old, new)...], expected)}; expected is 1 (a finding) or 0 (quiet).
Each is applied to a copy of /repo's working tree outside of /repo, checked with dev.py, and removed again.
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)


def one(k):
    props, edits, want = ns['M'][k]
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d])
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) < 1:
                return k, None, 'TEXT NOT FOUND: ' + a[:60]
            open(p, 'w').write(s.replace(a, b, 1))
        r = subprocess.run([sys.executable, os.path.join(HERE, 'tools/dev.py')] + props.split(), capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d))
        out = [x[:230] for x in (r.stdout + r.stderr[-600:]).splitlines() if not (x[:1].islower() and ' states' in x)]
        return k, (r.returncode != 0) == bool(want), '\n      '.join(out[:7])
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = sys.argv[2:] or list(ns['M'])
bad = 0
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for k, ok, t in ex.map(one, names):
        bad += not ok
        print('%s %s\n      %s' % ('ok  ' if ok else 'BAD ', k, t), flush=True)
print('bad:', bad)
