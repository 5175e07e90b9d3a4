"""Choice-sequence property-based testing for the Python checks (same command line and result file as pbt.hxx)."""
import hashlib, json, mmap, os, random, signal, struct, sys, time, traceback
CPU_LIMIT_S = 20
PROPS = {}

class Violation(Exception):
    pass
class Discard(Exception):
    pass

def prop(pid, rule):
    def deco(fn):
        PROPS[pid] = (fn, rule)
        return fn
    return deco

def require(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m() if callable(m) else m) for m in msg))

class Ctx:
    """generated values; every one is a recorded choice (smaller = simpler)"""
    def __init__(self, seed=None, choices=None):
        self.rnd = random.Random(seed) if choices is None else None
        self.given = choices
        self.ch = []
        self.text = []
        self.labels = set()
        self.nontriv = False
    def u(self, n):
        """0..n-1"""
        if n <= 1:
            return 0
        if self.rnd is not None:
            v = self.rnd.randrange(n)
        else:
            v = self.given[len(self.ch)] % n if len(self.ch) < len(self.given) else 0
        self.ch.append(v)
        if len(self.ch) > 200000:
            raise Discard()
        return v
    def i(self, a, b):
        """a..b; 0 (or a) is simplest"""
        if a <= 0 <= b:
            v = self.u(b - a + 1)
            return v if v <= b else b - v
        return a + self.u(b - a + 1)
    def p(self, num, den):
        return self.u(den) >= den - num
    def pick(self, l):
        return l[self.u(len(l))]
    def shuffled(self, l):
        l = list(l)
        for k in range(len(l) - 1):
            j = k + self.u(len(l) - k)
            l[k], l[j] = l[j], l[k]
        return l
    def note(self, *a):
        self.text.append(' '.join(str(x) for x in a))
    def classify(self, label, cond=True):
        if cond:
            self.labels.add(label)
    def nontrivial(self, cond=True):
        self.nontriv = bool(cond)

def run_case(fn, c):
    """-> (ok, discarded, message)"""
    try:
        fn(c)
        return True, False, ''
    except Discard:
        return True, True, ''
    except Violation as e:
        return False, False, '%s\n--- case:\n%s' % (e, '\n'.join(c.text))
    except Exception as e:
        return False, False, 'unexpected %s\n--- case:\n%s' % (traceback.format_exc(limit=-4), '\n'.join(c.text))

def arm():
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)

def in_child(f, quiet=True):
    """runs f() in a forked process; -> (bytes or None, exit description)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if quiet:
                n = os.open(os.devnull, os.O_RDWR); os.dup2(n, 1); os.dup2(n, 2)
            arm()
            data = f()
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    out = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return None, 'killed by signal %d' % os.WTERMSIG(st)
    if os.WEXITSTATUS(st):
        return None, 'process exit %d' % os.WEXITSTATUS(st)
    return out, ''

def candidate(fn, choices):
    """-> (fails, message, used choices)"""
    m = mmap.mmap(-1, 1 << 20)
    t = mmap.mmap(-1, 1 << 16)
    def f():
        c = Ctx(choices=choices)
        class L(list):
            def append(s, v):
                struct.pack_into('I', m, 4 * (len(s) + 1), v) if len(s) < 200000 else None
                list.append(s, v); struct.pack_into('I', m, 0, min(len(s), 200000))
        c.ch = L()
        class T(list):
            def append(s, v):
                list.append(s, v)
                b = ('\n'.join(s)).encode()[:60000]
                t[4:4 + len(b)] = b; struct.pack_into('I', t, 0, len(b))
        c.text = T()
        ok, d, msg = run_case(fn, c)
        return json.dumps([ok, msg, list(c.ch)]).encode()
    out, why = in_child(f)
    if out is None:
        n = struct.unpack_from('I', m, 0)[0]
        why += '\n--- case:\n' + t[4:4 + struct.unpack_from('I', t, 0)[0]].decode(errors='replace')
        return True, why, list(struct.unpack_from('%dI' % n, m, 4))
    ok, msg, used = json.loads(out.decode())
    return not ok, msg, used

def shrink(fn, ch, msg, budget=60, tries=1500):
    t0 = time.time(); best = list(ch); count = [0]
    def attempt(c):
        if time.time() - t0 > budget or count[0] > tries:
            return False
        count[0] += 1
        nonlocal best, msg
        bad, m, used = candidate(fn, c)
        if bad and (len(used), used) < (len(best), best):
            best, msg = used, m
            return True
        return False
    improved = True
    while improved and time.time() - t0 < budget and count[0] < tries:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            if attempt(best[:i] + [0] + best[i + 1:]):
                improved = True; continue
            lo, hi = 0, best[i]
            while i < len(best) and hi - lo > 1:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True; hi = mid
                else:
                    lo = mid
    return best, msg

def worker(fn, w, n, cases, seed, pid, shared, tmp):
    fd = os.open(os.path.join(tmp, 'w%d.err' % w), os.O_CREAT | os.O_TRUNC | os.O_RDWR | os.O_APPEND, 0o644)
    os.dup2(fd, 1); os.dup2(fd, 2)
    evals = disc = nontriv = 0
    hashes, cls, samples = set(), {}, []
    failed = None
    for idx in range(w, cases, n):
        if idx > struct.unpack_from('Q', shared, 0)[0]:
            break
        struct.pack_into('Q', shared, 8 + 8 * w, idx)
        if evals % 64 == 0 and os.fstat(fd).st_size > 1 << 20:
            os.ftruncate(fd, 0)
        arm()
        c = Ctx('%s/%d/%d' % (pid, seed, idx))
        ok, d, msg = run_case(fn, c)
        evals += 1
        if not ok:
            failed = [idx, msg]
            if idx < struct.unpack_from('Q', shared, 0)[0]:
                struct.pack_into('Q', shared, 0, idx)
            break
        if d:
            disc += 1
            continue
        if c.nontriv:
            nontriv += 1
            hashes.add(hashlib.blake2b(repr(c.ch).encode(), digest_size=8).hexdigest())
            if len(samples) < 3:
                samples.append([idx, '\n'.join(c.text)])
        for l in c.labels:
            cls[l] = cls.get(l, 0) + 1
    json.dump([evals, disc, nontriv, sorted(hashes), cls, samples, failed], open(os.path.join(tmp, 'w%d.json' % w), 'w'))
    os._exit(0)

def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    pid = a['--prop']; fn, rule = PROPS[pid]
    if '--replay' in a:
        ch = []
        for l in open(a['--replay']):
            if not l.startswith('#'):
                ch += [int(x) for x in l.split()]
        bad, msg, used = candidate(fn, ch)
        print(msg if bad else 'property held')
        return 1 if bad else 0
    seed, cases, n, tmp = int(a.get('--seed', 1)), int(a.get('--cases', 100)), int(a.get('--workers', 8)), a.get('--tmp', '/tmp')
    t0 = time.time()
    shared = mmap.mmap(-1, 8 * (n + 1)); struct.pack_into('Q', shared, 0, 2**62)
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(n):
        p = os.fork()
        if p == 0:
            try:
                worker(fn, w, n, cases, seed, pid, shared, tmp)
            finally:
                os._exit(4)
        pids[p] = w
    fails = []
    while pids:
        p, st = os.wait()
        if p not in pids:
            continue
        w = pids.pop(p)
        if st != 0:
            idx = struct.unpack_from('Q', shared, 8 + 8 * w)[0]
            fails.append([idx, 'killed by signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'process exit %d' % os.WEXITSTATUS(st)])
            if idx < struct.unpack_from('Q', shared, 0)[0]:
                struct.pack_into('Q', shared, 0, idx)
    evals = disc = nontriv = 0; hashes, cls, samples = set(), {}, []
    for w in range(n):
        f = os.path.join(tmp, 'w%d.json' % w)
        if not os.path.exists(f):
            continue
        e, d, k, h, c, s, failed = json.load(open(f))
        evals += e; disc += d; nontriv += k; hashes |= set(h); samples += s
        for l in c:
            cls[l] = cls.get(l, 0) + c[l]
        if failed:
            fails.append(failed)
    fails.sort(); violated = False; vmsg = ''; orig = shr = fidx = 0
    for idx, wmsg in fails[:3]:
        # the choices of the failing case
        def gen():
            c = Ctx('%s/%d/%d' % (pid, seed, idx))
            m = RECORD[0]
            class L(list):
                def append(s, v):
                    list.append(s, v); struct.pack_into('I', m, 4 * len(s), v); struct.pack_into('I', m, 0, len(s))
            c.ch = L()
            run_case(fn, c)
            return b'x'
        RECORD[0] = mmap.mmap(-1, 1 << 20)
        in_child(gen)
        k = struct.unpack_from('I', RECORD[0], 0)[0]
        ch = list(struct.unpack_from('%dI' % k, RECORD[0], 4))
        bad, msg, used = candidate(fn, ch)
        if not bad:
            print('case %d failed in the worker but not on its own: %s' % (idx, wmsg), file=sys.stderr)
            continue
        best, msg = shrink(fn, ch, msg)
        for attempt in (best, ch):
            rep = [candidate(fn, attempt) for _ in range(3)]
            if all(r[0] for r in rep):
                violated = True; vmsg = rep[-1][1]; orig, shr, fidx = len(ch), len(attempt), idx
                with open(a['--replay-out'], 'w') as o:
                    o.write('# property %s seed %d case %d\n' % (pid, seed, idx))
                    for l in vmsg.splitlines():
                        o.write('# %s\n' % l)
                    o.write(' '.join(map(str, attempt)) + '\n')
                break
        if violated:
            break
        print('failure does not reproduce 3 times, ignored', file=sys.stderr)
    samples.sort()
    json.dump(dict(property=pid, seed=seed, evaluations=evals, discarded=disc, nontrivial=nontriv, distinct_nontrivial=len(hashes), rule=rule,
                   wall_s=time.time() - t0, violated=violated, worker_failures=len(fails), message=vmsg, case=fidx, choices=orig, shrunk_choices=shr,
                   classes=cls, samples=[s[1][:1500] for s in samples[:5]]), open(a['--out'], 'w'))
    return 1 if violated else 0

RECORD = [None]
