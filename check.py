#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay RUN:IDX]
Builds the property's harness(es) from /repo's working tree, explores the whole bounded space,
confirms every failure by replaying it alone, writes evidence/<property>.json.
exit 0: property held; exit 1: VIOLATION line printed; exit 2: the check could not run."""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, VERIF)
import vbuild
from concurrent.futures import ThreadPoolExecutor
import registry

def run_exe(exe, run, tier, extra=(), timeout=840):
    out = os.path.join(vbuild.BUILD, 'out.%d.json' % os.getpid())
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('DNDS_') or k.startswith('OMP_'):
            del env[k]
    env.update({'OMP_NUM_THREADS': '1', 'LC_ALL': 'C'})
    env.update(run.get('env', {}))
    cmd = list(run.get('launch', [])) + [exe] + list(run.get('args', []))
    if tier == 'thorough':
        cmd.append('--thorough')
    cmd += ['--out', out] + list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'timeout after %ds: %s' % (timeout, ' '.join(cmd))
    if not os.path.exists(out):
        return None, 'no result (exit %d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-2000:].decode(errors='replace'))
    r = json.load(open(out))
    os.remove(out)
    r['wall'] = time.time() - t
    if r['internal_error']:
        return r, r['internal_error']
    return r, None

def load_known(pid):
    res = []
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    for line in open(fn) if os.path.exists(fn) else []:
        m = re.match(r'finding: property=(\S+) match=/(.*)/ :: (.*)$', line.strip())
        if m and m.group(1) == pid:
            res.append((re.compile(m.group(2)), m.group(3)))
    return res

def sig(f):
    return '%s | %s | %s' % (f['key'], f['desc'], f['msg'])

def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    spec = registry.CHECKS[pid]
    runs = spec['runs'] + (spec.get('thorough_runs', []) if tier == 'thorough' else [])
    exes = {}
    try:
        def make(h):
            b = registry.HARNESSES[h]
            return vbuild.build(h, b['srcs'], b.get('libs', []), opt=b.get('opt', '-O1'), extra=b.get('extra', []))
        names = sorted({run['harness'] for run in runs})
        with ThreadPoolExecutor(8) as ex:
            exes = dict(zip(names, ex.map(make, names)))
    except vbuild.BuildError as e:
        print('BUILD-ERROR property=%s (no verdict)\n%s' % (pid, e))
        return 2
    tb = time.time() - t0
    if '--replay' in sys.argv:
        ri, idx = sys.argv[sys.argv.index('--replay') + 1].split(':')
        r, err = run_exe(exes[runs[int(ri)]['harness']], runs[int(ri)], tier, ['--only', idx])
        print(json.dumps(r, indent=1), err or '')
        return 1 if r and r['fails'] else 0
    tot = {'states': 0, 'trans': 0, 'traces': 0, 'cases': 0, 'space': 0}
    extra, samples, perrun = {}, [], []
    known = load_known(pid)
    knownHit, viol, unrep, unexplored = {}, [], [], []
    for ri, run in enumerate(runs):
        exe = exes[run['harness']]
        r, err = run_exe(exe, run, tier)
        if r is None or (err and not r['fails']):
            r, err = run_exe(exe, run, tier, ['--shards', '4'])  # e.g. short of memory: once more, gently
        if r is None or (err and not r['fails']):
            print('CHECK-ERROR property=%s run %d: %s' % (pid, ri, err))
            return 2
        for k in tot:
            tot[k] += r.get(k, 0)
        for k, v in r.items():
            if k.startswith('x:'):
                extra[k[2:]] = extra.get(k[2:], 0) + v
        samples += ['%s%s' % ((' '.join('%s=%s' % e for e in run.get('env', {}).items()) + ' ') if run.get('env') else '', s) for s in r['samples'][:5]]
        perrun.append({'harness': run['harness'], 'args': run.get('args', []), 'env': run.get('env', {}), 'cases': r.get('cases', 0),
                       'states': r['states'], 'transitions': r.get('trans', 0), 'wall_s': round(r['wall'], 2)})
        fresh = []
        for f in r['fails']:
            for rx, what in known:
                if rx.search(sig(f)):
                    knownHit[what] = knownHit.get(what, 0) + 1
                    break
            else:
                fresh.append(f)
        if not fresh and r.get('cases', 0) < r.get('space', 0):
            unexplored.append('run %d explored %d of %d cases' % (ri, r['cases'], r['space']))
        # confirm (bounded effort: one confirmed failure decides)
        again = None
        for f in fresh[:4]:
            rr, e2 = run_exe(exe, run, tier, ['--only', str(f['idx'])])
            ok = rr is not None and any(x['idx'] == f['idx'] for x in rr['fails'])
            if not ok:
                if again is None:
                    again, _ = run_exe(exe, run, tier)
                ok = again is not None and any(x['idx'] == f['idx'] for x in again['fails'])
            if ok:
                viol.append((ri, f, len(fresh)))
                break
            unrep.append(f)
        if viol:
            break
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec.get('level', 'model_checking'),
          'coverage': {'states': tot['states'], 'transitions': tot['trans'], 'traces_validated_against_impl': tot['traces'],
                       'cases_executed': tot['cases'], 'cases_in_space': tot['space'],
                       'exhaustive': tot['cases'] == tot['space'] and not viol and not spec.get('not_exhaustive'),
                       'meaning': spec.get('meaning', ''), 'bounds': spec.get('bounds', ''), 'runs': perrun, 'build_s': round(tb, 1),
                       'samples': samples[:12], 'unreproduced': [sig(f)[:300] for f in unrep], 'not_explored': unexplored, **{'n_' + k: v for k, v in extra.items()}},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for what, n in sorted(knownHit.items()):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (pid, what, n))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'replay', pid + '.txt')
        ri, f, n = viol[0]
        with open(path, 'w') as o:
            o.write('property: %s\nrun: %d %s\ncase: %d\nscenario: %s\nfailure: %s\nfailing cases seen: %d\nreplay: python3 check.py %s %s--replay %d:%d\n' % (
                pid, ri, json.dumps(runs[ri]), f['idx'], f['desc'], f['key'] + ': ' + f['msg'], n, pid, '--thorough ' if tier == 'thorough' else '', ri, f['idx']))
        print(open(path).read())
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if unexplored:
        print('CHECK-ERROR property=%s %s' % (pid, unexplored))
        return 2
    print('OK property=%s %s: %d cases, %d states, %d transitions, %.1fs (build %.1fs)' % (pid, tier, tot['cases'], tot['states'], tot['trans'], wall, tb))
    return 0

if __name__ == '__main__':
    sys.exit(main())
