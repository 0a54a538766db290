#!/usr/bin/env python3
"""check.py <property> quick|thorough: builds the model checker for one property
from /repo's working tree, runs it, confirms what it reports by replaying it and
writes evidence/<property>.json.  Exit 0: held; 1: violated; 2: cannot tell."""
import json, os, re, shutil, subprocess, sys, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from checks import CHECKS, BUILDS   # noqa: E402

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def load_known(prop):
    """known-findings.txt: KNOWN property=<id> key=<key> <what fails>"""
    out = {}
    for line in open(os.path.join(V, 'known-findings.txt')):
        m = re.match(r'KNOWN property=(\S+) key=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out

def build(targets):
    """targets: set of (build, binary)"""
    for b in sorted({b for b, _ in targets}):
        out = os.path.join(V, 'build', b)
        os.makedirs(out, exist_ok=True)
        bins = [os.path.join(out, 'bin', x) for bb, x in sorted(targets) if bb == b]
        lock = open(out + '.lock', 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j8', '-f', os.path.join(V, 'mk/Makefile'), 'REPO=' + REPO, 'OUT=' + out,
                'OPT=' + BUILDS[b]] + bins, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lock.close()
        if r.returncode:
            print(r.stdout[-3000:])
            print('check.py: the build failed')
            sys.exit(2)

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    only = sys.argv[3:]          # development: select runs by number
    spec = CHECKS[prop]
    runs = spec[tier] if tier in spec else spec['quick']
    t0 = time.time()
    build({(r['build'], r['bin']) for r in runs} | {(b, x) for r in runs for b, x in r.get('needs', [])})
    tb = time.time()
    known = load_known(prop)
    work = os.path.join(V, 'build', 'run', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rep, f))
    kf = os.path.join(work, 'known')
    open(kf, 'w').write(''.join(k + '\n' for k in known))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:quarantine_size_mb=2:malloc_context_size=6',
               UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C', TZ='UTC', VERIF_DIR=V, VERIF_REPO=REPO)
    cov = {'states': 0, 'transitions': 0, 'executions_of_the_code': 0, 'distinct_nontrivial': 0, 'counters': {}, 'runs': [], 'samples': []}
    viol, khit, broken, unconfirmed = [], {}, [], []
    trunc = False
    limit = 850 if tier == 'quick' else spec.get('limit', 3600)
    for n, r in enumerate(runs):
        if only and str(n) not in only:
            continue
        binary = os.path.join(V, 'build', r['build'], 'bin', r['bin'])
        out = os.path.join(work, 'out%d.json' % n)
        left = max(20, limit - (time.time() - t0))
        cmd = [binary] + r['args'] + ['--out', out, '--known', kf, '--time', str(int(min(r.get('time', left), left)))]
        if tier == 'thorough':
            cmd.append('--thorough')
        e = dict(env, **r.get('env', {}))
        e['VERIF_BINDIR'] = os.path.dirname(binary)
        log = open(os.path.join(work, 'log%d' % n), 'w')
        r0 = time.time()
        try:
            p = sh(cmd, stdout=log, stderr=log, env=e, cwd=work, timeout=left + 60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            d = json.load(open(out))
        except Exception as ex:
            broken.append('%s: exit %s, no result (%s)' % (' '.join(cmd), rc, ex))
            continue
        cov['states'] += d.get('states', 0)
        cov['transitions'] += d.get('transitions', 0)
        cov['executions_of_the_code'] += d.get('execs', 0)
        cov['distinct_nontrivial'] += d.get('nontrivial', 0)
        for k, v in d.get('counters', {}).items():
            cov['counters'][k] = cov['counters'].get(k, 0) + v
        cov['runs'].append({'what': r.get('what', ''), 'binary': r['build'] + '/' + r['bin'], 'args': r['args'], 'states': d.get('states', 0),
                            'transitions': d.get('transitions', 0), 'wall_s': round(time.time() - r0, 1), 'complete': not d.get('truncated', 0)})
        trunc |= bool(d.get('truncated', 0))
        s = d.get('samples', [])
        cov['samples'] += s[:max(2, 12 // len(runs))]
        for k in d.get('known', []):
            khit[k['key']] = k
        for v in d['violations']:
            # confirm: the same trace must fail again, on its own
            ro = os.path.join(work, 'replay.json')
            rcmd = [binary] + r['args'] + (['--thorough'] if tier == 'thorough' else []) + ['--known', kf, '--replay', v['replay']]
            ok = False
            for _ in range(2):
                if os.path.exists(ro):
                    os.unlink(ro)
                try:
                    p = sh(rcmd + ['--out', ro], stdout=log, stderr=log, env=e, cwd=work, timeout=200)
                except subprocess.TimeoutExpired:
                    continue
                if p.returncode != 0:
                    ok = True
                    break
            (viol if ok else unconfirmed).append((v, rcmd))
        log.close()
    for k, what in known.items():
        if k in khit:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, what, k))
    for i, (v, rcmd) in enumerate(viol):
        path = os.path.join(rep, '%s-%d.txt' % (prop, i + 1))
        with open(path, 'w') as f:
            f.write('property %s is violated: %s\n\nfailing history: %s\n\n%s\n\nto replay (after running the check once, in %s):\n'
                    '  ASAN_OPTIONS=%s LC_ALL=C TZ=UTC %s -v\n' % (prop, v['key'], v['trace'], v['msg'], V, env['ASAN_OPTIONS'], ' '.join("'%s'" % x for x in rcmd)))
        print('%s: %s | %s' % (v['key'], v['trace'], v['msg'].split('\n')[0]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for v, _ in unconfirmed:
        print('note: not reproduced by its replay, not reported: %s %s | %s' % (v['key'], v['replay'], v['msg'].split('\n')[0]))
    for b in broken:
        print('check.py: ' + b)
    nst, ntr, nex = cov['states'], cov['transitions'], cov['executions_of_the_code']
    if spec['level'] == 'model_checking':
        cov['traces_validated_against_impl'] = cov.pop('executions_of_the_code')
        cov['conformance'] = ('there is no separate model: each state is reached by executing the code built from the working tree, and '
                              'traces_validated_against_impl counts those executions of whole histories')
    else:
        n = cov.pop('executions_of_the_code')
        cov['evaluations'] = cov['counters'].pop('evaluations', n)
        cov['tasks'] = n
        cov.pop('states'), cov.pop('transitions')
    cov['rule'] = spec['rule']
    cov['exhaustive'] = not trunc
    cov['bounds'] = spec['bounds']
    cov['unconfirmed'] = len(unconfirmed)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec['level'], 'coverage': cov,
          'assumptions': spec['assumptions'], 'wall_s': round(time.time() - t0, 2), 'build_s': round(tb - t0, 2),
          'violations': len(viol), 'known_findings': sorted(khit)}
    path = os.path.join(V, 'evidence', prop + '.json')
    json.dump(ev, open(path + '.tmp', 'w'), indent=1)
    os.replace(path + '.tmp', path)
    print('%s %s: %d states, %d transitions, %d executions, %.0f s%s' % (prop, tier, nst, ntr, nex, time.time() - t0, ' (truncated by time)' if trunc else ''))
    sys.exit(1 if viol else 2 if broken else 0)

main()
