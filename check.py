#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property of /repo's current working tree.
Exit 0: no violation; exit 1 and a VIOLATION line: the property is broken; exit 2: the analysis could not run."""
import json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from va import core, registry          # noqa: E402
from va.prog import Program, REPO, ToolError, rel     # noqa: E402

TRUST = ['clang 18 front end (parsing, overload resolution, types)', 'extract/extract.cpp (syntax tree to JSON)',
         'va/ (value graphs, normal forms, loop closed forms)', 'real arithmetic in place of floating point',
         'stubs/ declare the ROS interfaces used', 'specs/ state what is meant']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    plan = registry.CHECKS[pid]
    items, visited, errors, notes = [], {}, [], []
    expected = 0
    try:
        specs = sorted({s['spec'] for s in plan if 'spec' in s})
        progs = {x: Program([x]) for x in specs}          # one program per reference model: their helpers may share names
        if not specs:
            progs[None] = Program([])
        for prog in progs.values():
            for f, e in prog.errors:
                n = 'the front end reports: %s: %s' % (rel(f), e[:300])
                if n not in notes:
                    notes.append(n)
        plain = progs[sorted(progs, key=str)[0]]
        for step in plan:
            prog = progs.get(step.get('spec'), plain)
            if 'spec' in step:
                opts = dict(step.get('opts', {}))
                if tier == 'thorough':
                    opts['tries'] = 6000
                    opts['secs'] = 200
                    opts['effort'] = 600
                    opts['limit'] = 800
                _, res = core.run_spec(step['spec'], step['prefix'], opts, seed, prog=prog, limit=opts.get('limit', 240))
                if not res:
                    (notes if prog.errors else errors).append('no drivers for ' + step['prefix'])
                for r in res:
                    expected += 1
                    visited.update(r['visited'])
                    d = r['driver'].split('::')[-1]
                    if r['error']:
                        items.append({'name': d, 'status': 'undecided', 'why': r['error']})
                    for i in r['items']:
                        i['name'] = d + ': ' + i['name']
                        items.append(i)
            else:
                try:
                    signal.signal(signal.SIGALRM, out_of_time)
                    signal.setitimer(signal.ITIMER_REAL, 240, 5)
                    its, vis = step['rule'](prog, tier)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                except ToolError:
                    raise
                except Exception as e:                  # a construct that the rule cannot follow
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    at = traceback.extract_tb(e.__traceback__)[-1]
                    its, vis = [{'name': 'rule ' + step['rule'].__name__, 'status': 'undecided',
                                 'why': 'not followed: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(at.filename), at.lineno)}], {}
                items += its
                visited.update(vis)
                if not its:
                    (notes if prog.errors else errors).append('rule %s found nothing to decide' % step['rule'].__name__)
    except ToolError as e:
        errors.append(str(e))
    known = registry.known_findings(pid)
    bad = [i for i in items if i['status'] == 'differs']
    und = [i for i in items if i['status'] == 'undecided']
    ok = [i for i in items if i['status'] == 'holds']
    reported, listed = [], []
    for i in bad:
        (listed if i['name'] in known else reported).append(i)
    wall = time.time() - t0
    names = [i['name'] for i in ok]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': registry.level(pid),
          'coverage': {
              'obligations': len(items), 'discharged': len(ok), 'checker_cmd': 'python3 check.py ' + pid,
              'trusted_base': TRUST,
              'explanation': registry.explain(pid),
              'functions_analysed': {k[:160]: v for k, v in sorted(visited.items())[:120]},
              'decided': clip(names, 24000),
              'undecided': [{'obligation': i['name'], 'why': i.get('why', '')[:300]} for i in und[:40]],
              'violated': [{'obligation': i['name'], 'at': i.get('at'), 'why': i.get('why', '')[:400]} for i in bad[:40]],
          },
          'assumptions': registry.assumptions(pid), 'wall_s': round(wall, 2), 'violations': len(reported)}
    if errors or notes:
        ev['coverage']['errors'] = (errors + notes)[:10]
    EVD = os.environ.get('NDT_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d violated; %d functions; %.1f s' % (
        pid, len(items), len(ok), len(und), len(bad), len(visited), wall))
    for i in und:
        print('  undecided: %s: %s' % (i['name'], i.get('why', '')[:300]))
    for i in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, i['name']))
    for e in notes:
        print('  note: ' + e[:600])
    for e in errors:
        print('  error: ' + e[:600])
    if reported:
        path = os.path.join(EVD, pid + '.violation.txt')
        with open(path, 'w') as f:
            for i in reported:
                f.write('property %s: %s\n' % (pid, i['name']))
                f.write('  construct: %s\n' % ', '.join(i.get('at') or [i.get('loc', '?')]))
                if i.get('why'):
                    f.write('  %s\n' % i['why'])
                if i.get('repo_term'):
                    f.write('  value in the repository: %s\n  value required:          %s\n' % (i['repo_term'], i['ref_term']))
                if i.get('witness'):
                    f.write('  they differ, e.g. %s\n' % json.dumps(i['witness']))
        for i in reported[:10]:
            print('  violated: %s at %s %s' % (i['name'], ', '.join(i.get('at') or [i.get('loc', '?')]), (i.get('why') or '')[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        return 2
    return 0


def out_of_time(*_):
    raise TimeoutError('time limit')


def clip(names, n):
    out, tot = [], 0
    for x in names:
        tot += len(x) + 6
        if tot > n:
            out.append('... and %d more' % (len(names) - len(out)))
            break
        out.append(x)
    return out


if __name__ == '__main__':
    sys.exit(main())
