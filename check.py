#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property against /repo's working tree
   check.py build                        build everything
   check.py replay PROPERTY FILE         re-run one replay file

Exit 0: held on everything explored; 1 + VIOLATION line: violated; 2: the check itself failed."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from spec import PROPS

BUILD = os.path.join(V, 'build')

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def dependency_sums():
    """object file -> hash of the contents of everything it was compiled from (outside the system directories)"""
    seen = {}
    def content(f):
        if f not in seen:
            try: seen[f] = hashlib.sha1(open(f, 'rb').read()).hexdigest()
            except OSError: seen[f] = 'missing'
        return seen[f]
    out = {}
    for d in glob.glob(os.path.join(BUILD, '*.d')):
        deps = open(d).read().replace('\\\n', ' ').split('\n')[0].split()[1:]
        out[d[:-2] + '.o'] = hashlib.sha1(''.join(f + content(f) for f in deps if not f.startswith('/usr/')).encode()).hexdigest()
    return out

def make(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # time stamps do not tell reliably whether a source changed
        db = os.path.join(BUILD, 'sums.json')
        old = json.load(open(db)) if os.path.exists(db) else {}
        new = dependency_sums()
        before = {}
        for o in new:
            if os.path.exists(o):
                if o in old and old[o] != new[o]: os.remove(o)
                else: before[o] = os.stat(o).st_mtime_ns
        p = subprocess.run(['make', '-C', os.path.join(V, 'harness'), '-j8', 'B=' + BUILD] + [os.path.join(BUILD, t) for t in targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        new = dependency_sums()
        json.dump({o: old[o] if o in old and before.get(o) == os.stat(o).st_mtime_ns else new[o] for o in new if os.path.exists(o)}, open(db, 'w'))
    if p.returncode:
        errs = [l for l in p.stdout.splitlines() if 'error' in l.lower() or '***' in l]
        log('\n'.join(errs[:40]))
        log('BUILD FAILED')
        sys.exit(2)

def targets_of(binary):
    return ['pymod.stamp'] if binary.endswith('.py') else [binary]

def command(binary):
    if binary.endswith('.py'):
        return ['python3', os.path.join(V, 'harness', binary)]
    return [os.path.join(BUILD, binary)]

def environment():
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=77:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=77'
    env['VERIF_BUILD'] = BUILD
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['OMP_NUM_THREADS'] = '1'
    return env

def known_findings(pid):
    out = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2].strip())
    return out

def main():
    if sys.argv[1:] == ['build']:
        make(sorted({t for p in PROPS.values() for t in targets_of(p['bin'])}))
        return 0
    if sys.argv[1] == 'replay':
        p = PROPS[sys.argv[2]]
        make(targets_of(p['bin']))
        return subprocess.run(command(p['bin']) + ['--prop', sys.argv[2], '--replay', sys.argv[3]], env=environment()).returncode
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = PROPS[pid]
    t0 = time.time()
    make(targets_of(p['bin']))
    cases = p['cases'] * (1 if tier == 'quick' else p.get('thorough', 20))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    replay = os.path.join(V, 'replays', pid + '.rep')
    if os.path.exists(replay):
        os.remove(replay)
    tmp = tempfile.mkdtemp(prefix='pbt.')
    try:
        out = os.path.join(tmp, 'out.json')
        r = subprocess.run(command(p['bin']) + ['--prop', pid, '--seed', str(seed), '--cases', str(cases), '--workers', '8',
                           '--tmp', tmp, '--out', out, '--replay-out', replay], env=environment(),
                           stdout=subprocess.DEVNULL if tier == 'quick' else None, cwd=tmp)
        if not os.path.exists(out):
            log('%s: the search wrote no result (exit %d)' % (pid, r.returncode))
            return 2
        d = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    violated = bool(d['violated'])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': d['evaluations'], 'distinct_nontrivial': d['distinct_nontrivial'],
                       'rule': '%s. Non-trivial: %s.' % (p['gen'], d['rule']), 'samples': d['samples'][:3],
                       'discarded': d['discarded'], 'classes': d['classes']},
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if violated else 0,
          'assumptions': p.get('assume', [])}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if violated:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        log(d['message'][:4000])
        return 1
    if r.returncode != 0:
        log('%s: search ended with exit %d' % (pid, r.returncode))
        return 2
    if d['distinct_nontrivial'] < 20:
        log('%s: only %d non-trivial cases' % (pid, d['distinct_nontrivial']))
        return 2
    print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (pid, d['evaluations'], d['distinct_nontrivial'], time.time() - t0))
    return 0

sys.exit(main())
