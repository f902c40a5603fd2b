#!/usr/bin/env python3
"""dev.py [-q] PROP... : decide several properties running each scenario once (development aid; VERIF_REPO selects the tree)"""
import fnmatch, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'engine')]
import check, props
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(props.PROPS)
parts = [x for i in ids for x in props.PROPS[i]]
res = check.run(parts, '--thorough' in sys.argv)
for s, r in res.items():
    print('%-14s %5.1f s %4d states %s' % (s, r['wall_s'], r['states'], r['error'] or ''))
    if r.get('trace'):
        print(r['trace'])
bad = 0
for i in ids:
    seen = set()
    for s, rules, needs in props.PROPS[i]:
        r = res[s]
        for f in r['findings']:
            if any(fnmatch.fnmatchcase(f['rule'], x) for x in rules):
                k = (f['rule'], f['function'], f['message'])
                if k not in seen:
                    seen.add(k)
                    bad += 1
                    print('%s %s:%s %s(): %s [%s]' % (i, f['file'], f['line'], f['function'], f['message'], f['rule']))
        for n in needs:
            if not r['events'].get(n):
                bad += 1
                print('%s %s: event %s not met' % (i, s, n))
print('findings:', bad)
sys.exit(bad != 0)
