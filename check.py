#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property from /repo's current sources (see DESIGN.md): compiles them
to LLVM IR, explores the scenarios the property is attached to by abstract
interpretation, and reports every construct that may break it.

Exit: 0 the property holds on everything analysed (or only listed known
findings remain), 1 a violation was found, 2 the analysis could not decide.
"""
import fnmatch, json, os, sys, time, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
EVID = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')


def worker(scen_name, thorough, q):
    import core, frontend, scen
    r = {'scenario': scen_name, 'error': None, 'findings': [], 'events': {}, 'states': 0}
    t0 = time.time()
    keep = []
    scen.CURRENT = keep
    try:
        fn = getattr(scen, scen_name)
        if thorough:
            scen.THOROUGH = True
        fn()
    except RecursionError as e:
        r['error'] = 'RecursionError: %s' % e
    except Exception as e:
        r['error'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        if not isinstance(e, (core.Broken, frontend.AnalysisBroken)):
            r['trace'] = traceback.format_exc()[-3000:]
    if keep:
        I, X = keep[0], (keep[1] if len(keep) > 1 else None)
        r.update(I.result())
        if X is not None:
            r['states'] = len(X.seen)
            r['transitions'] = sum(X.events.values())
            r['callbacks'] = {k.split('.')[0]: v for k, v in sorted(X.events.items())}
    r['wall_s'] = round(time.time() - t0, 2)
    q.put(r)


def run(parts, thorough):
    ctx = mp.get_context('fork')
    procs = []
    for p in dict.fromkeys(x[0] for x in parts):
        q = ctx.SimpleQueue()
        pr = ctx.Process(target=worker, args=(p, thorough, q), daemon=False)
        pr.start()
        procs.append((p, pr, q))
    res = {}
    for p, pr, q in procs:
        while q.empty() and pr.is_alive():
            time.sleep(0.05)
        if not q.empty():
            res[p] = q.get()
        else:
            res[p] = {'scenario': p, 'error': 'analysis process ended (exit %s)' % pr.exitcode, 'findings': [],
                      'events': {}, 'states': 0, 'wall_s': 0}
        pr.join()
    return res


def known(pid):
    """[(rule, function, message)] of the findings listed for pid in known-findings.json"""
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def main():
    import props
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = 'thorough' if '--tier=thorough' in sys.argv or '--thorough' in sys.argv else 'quick'
    if '--setup' in sys.argv:
        import frontend
        for x in ('server', 'server-noaio', 'client', 'perl', 'python'):
            try:
                c = frontend.compile_program(x)
                print('%s: %d sources compiled' % (x, len(c.sources)))
            except frontend.AnalysisBroken as e:
                print('%s: %s' % (x, e))
        return 0
    if len(args) != 1 or args[0] not in props.PROPS:
        print('usage: check.py <property> [--thorough]; properties: ' + ' '.join(sorted(props.PROPS)))
        return 2
    pid = args[0]
    parts = props.PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    res = run(parts, tier == 'thorough')
    errors, viol = [], []
    seen = set()
    for scen_name, rules, needs in parts:
        r = res[scen_name]
        for f in r['findings']:
            if any(fnmatch.fnmatchcase(f['rule'], x) for x in rules):
                k = (f['rule'], f['function'], f['message'])
                if k in seen:
                    continue
                seen.add(k)
                viol.append(dict(f, scenario=scen_name))
        if r['error']:
            errors.append('%s: %s' % (scen_name, r['error']))
            if r.get('trace'):
                print(r['trace'], file=sys.stderr)
        else:
            for n in needs:
                if not r['events'].get(n):
                    errors.append('%s: the analysed code never reaches the interface event "%s"' % (scen_name, n))
    kn = known(pid)
    new = []
    for f in viol:
        m = [k for k in kn if k['rule'] == f['rule'] and k['function'] == f['function'] and k['message'] in f['message']]
        if m:
            print('KNOWN-FINDING: property=%s %s:%s %s() %s: %s' % (pid, f['file'], f['line'], f['function'], f['rule'], f['message']))
        else:
            new.append(f)
    cov = {'explanation': props.explain(pid),
           'rules_applied': sorted({x for p in parts for x in p[1]}),
           'scenarios': {s: {k: r.get(k) for k in ('states', 'transitions', 'callbacks', 'functions', 'instructions',
                                                   'modelled_calls', 'events', 'memory_accesses_checked', 'sources',
                                                   'obligations', 'abstract_steps', 'wall_s', 'error')}
                         for s, r in res.items()}}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'assumptions': props.assumptions(pid, res)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    for i, f in enumerate(new):
        path = os.path.join(EVID, '%s.violation-%d.txt' % (pid, i + 1))
        with open(path, 'w') as fh:
            fh.write('property %s, rule %s (scenario %s)\n%s:%s in %s(): %s\n\ncall path: %s\n\npath of the analysis (most recent last):\n' % (
                pid, f['rule'], f['scenario'], f['file'], f['line'], f['function'], f['message'], ' < '.join(f['stack'])))
            for t in f['trace']:
                fh.write('  %s\n' % (t,))
        print('%s:%s: %s(): %s [%s]' % (f['file'], f['line'], f['function'], f['message'], f['rule']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if new:
        return 1
    if errors:
        for e in errors:
            print('ERROR property=%s %s' % (pid, e))
        return 2
    print('OK property=%s %s (%.1f s)' % (pid, ', '.join('%s: %d states, %d callback runs' % (
        s, r['states'], r.get('transitions', 0)) if r['states'] else s for s, r in res.items()), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
