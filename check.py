#!/usr/bin/env python3
"""Driver: builds /repo's working tree with a monitor harness, runs it in bounded chunks, decides one property.

  check.py <ID>                 decide one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py <ID> --replay FILE   run again exactly the chunk recorded in a replay file
  check.py --build              compile every harness (setup)

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: error of the check (build failure, nothing observed, inconclusive).
"""
import sys, os, json, hashlib, subprocess, time, glob, signal, resource, re, struct, tempfile, shutil, threading, queue
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LBDD_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
from props import PROPS

CXX = 'g++'
COMMON = ['-std=c++17', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS, '-w', '-pthread']
UB = 'address,undefined'
NOUB = 'null,alignment,vptr,object-size,return,returns-nonnull-attribute,nonnull-attribute,pointer-overflow'
FLAVORS = {
    # asserts of the library are on in every flavor but opt
    'san': {'c': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=' + UB, '-fno-sanitize=' + NOUB,
                  '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
            'l': ['-fsanitize=' + UB]},
    'opt': {'c': ['-O2', '-DNDEBUG', '-DH_ALLOC_MONITOR'], 'l': []},
    'dbg': {'c': ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-DH_ALLOC_MONITOR'], 'l': []},
    'tsan': {'c': ['-O1', '-g1', '-fsanitize=thread'], 'l': ['-fsanitize=thread']},
    # every basic block the library runs calls a step counter in the harness (machine-independent cost)
    'steps': {'c': ['-O1', '-DNDEBUG', '-fsanitize-coverage=trace-pc'], 'l': []},
    'vg': {'c': ['-O1', '-g1', '-DH_VALGRIND'], 'l': []},
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_malloc_fill_size=65536:malloc_fill_byte=%d:'
                    'hard_rss_limit_mb=6000:quarantine_size_mb=48:detect_odr_violation=0:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
}
JOBS = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(paths):
    return sha(*[x for p in sorted(paths) for x in (os.path.basename(p), read(p))])


def headers():
    # whatever a source file may include
    return [p for d in ('include', 'src') for p in glob.glob(os.path.join(REPO, d, '**', '*'), recursive=True)
            if os.path.isfile(p) and not p.endswith(('.cpp', '.txt'))]


_gcc = None


def compiler_id():
    global _gcc
    if _gcc is None:
        _gcc = subprocess.run([CXX, '--version'], capture_output=True, text=True).stdout.split('\n')[0]
    return _gcc


def compile_obj(src, flavor, extra, inc_hash, own_hash):
    flags = FLAVORS[flavor]['c'] + extra
    name = os.path.splitext(os.path.basename(src))[0]
    key = sha(compiler_id(), ' '.join(COMMON + flags), inc_hash, own_hash, read(src))
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s.%s.o' % (name, key))
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = '%s.tmp%d.%d' % (out, os.getpid(), threading.get_ident())
    r = subprocess.run([CXX] + COMMON + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('compilation of %s (%s) failed:\n%s' % (src, flavor, r.stderr[-4000:]))
    os.rename(tmp, out)
    old = sorted((p for p in glob.glob(os.path.join(d, name + '.*.o')) if p != out), key=os.path.getmtime)
    for p in old[:-3]:
        try:
            os.unlink(p)
        except OSError:
            pass
    return out


def build(jobs):
    """jobs: list of (harness source, flavor).  Returns {job: executable}."""
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
    if not srcs:
        raise CheckError('no sources in ' + REPO)
    inc = tree_hash(headers())
    hinc = sha(inc, tree_hash(glob.glob(os.path.join(HARNESS, '*.h'))))
    with ThreadPoolExecutor(JOBS) as ex:
        fut = {}
        flavors = []
        for _, fl in jobs:
            if fl not in flavors:
                flavors.append(fl)
        # the slowest file first
        order = sorted(srcs, key=lambda s: -os.path.getsize(s))
        for fl in flavors:
            for s in order[:1]:
                fut[(s, fl)] = ex.submit(compile_obj, s, fl, [], inc, '')
        for h, fl in jobs:
            fut[(h, fl)] = ex.submit(compile_obj, os.path.join(HARNESS, h), fl, [], hinc, '')
        for fl in flavors:
            for s in order[1:]:
                fut[(s, fl)] = ex.submit(compile_obj, s, fl, [], inc, '')
        objs = {k: f.result() for k, f in fut.items()}
    exes = {}

    def link(job):
        h, fl = job
        parts = [objs[(h, fl)]] + [objs[(s, fl)] for s in srcs]
        key = sha(' '.join(parts))
        exe = os.path.join(BUILD, fl, '%s.%s.exe' % (os.path.splitext(h)[0], key))
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            r = subprocess.run([CXX] + parts + FLAVORS[fl]['l'] + ['-pthread', '-o', tmp], capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError('linking %s (%s) failed:\n%s' % (h, fl, r.stderr[-4000:]))
            os.rename(tmp, exe)
            old = sorted((p for p in glob.glob(os.path.join(BUILD, fl, os.path.splitext(h)[0] + '.*.exe')) if p != exe), key=os.path.getmtime)
            for p in old[:-1]:
                try:
                    os.unlink(p)
                except OSError:
                    pass
        exes[job] = exe

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, jobs))
    return exes


def limits(flavor, cpu, deep=False):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 20))
        if deep:  # recursion over tens of thousands of variables
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            want = 1 << 30
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavor in ('opt', 'dbg', 'steps'):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


def crash_signature(rc, err):
    """Stable name of what a dead worker reported."""
    pats = [
        (r'@@CRASH ([^\n]*)', lambda m: 'allocation-monitor: ' + re.sub(r'\d+', 'N', m.group(1))),
        (r'==\d+==ERROR: AddressSanitizer: ([\w-]+)', lambda m: 'asan-' + m.group(1)),
        (r'AddressSanitizer: (hard rss limit exhausted)', lambda m: 'memory-exhausted'),
        (r'runtime error: ([^\n]*)', lambda m: 'ubsan: ' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:80]),
        (r'WARNING: ThreadSanitizer: ([^\n(]*)', lambda m: 'tsan-' + m.group(1).strip().replace(' ', '-')),
        (r"Assertion [`']([^\n]*)' failed", lambda m: 'assertion: ' + m.group(1)[:120]),
        (r"error: attempt to ([^\n]*)", lambda m: 'glibcxx: ' + m.group(1)[:80]),
        (r"terminate called after throwing an instance of '([^']*)'", lambda m: 'uncaught: ' + m.group(1)),
        (r'@@VG (ERROR[^\n]*)', lambda m: 'valgrind'),
        (r'(Invalid (?:read|write) of size|Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid free)', lambda m: 'valgrind: ' + m.group(1)),
    ]
    for p, f in pats:
        m = re.search(p, err)
        if m:
            return f(m)
    if rc < 0:
        try:
            return 'signal-' + signal.Signals(-rc).name
        except ValueError:
            return 'signal-%d' % -rc
    return 'exit-%d' % rc


class Run:
    def __init__(self, prop, cfg, run, chunk, seed, tier, cases=None):
        self.prop, self.cfg, self.run, self.chunk, self.seed, self.tier = prop, cfg, run, chunk, seed, tier
        self.cases = cases if cases is not None else run['cases']


def execute(exe, r, tmpdir, procs, stop):
    fl = r.run['flavor']
    tag = '%s.%s.%d.%d' % (fl, r.run['mode'], r.chunk, time.monotonic_ns())
    out, st = os.path.join(tmpdir, tag + '.out'), os.path.join(tmpdir, tag + '.state')
    cmd = [exe, '--seed', str(r.seed), '--chunk', str(r.chunk), '--cases', str(r.cases), '--mode', r.run['mode'],
           '--tier', r.tier, '--out', out, '--state', st]
    if fl == 'vg':
        cmd = ['valgrind', '--error-exitcode=70', '--exit-on-first-error=yes', '-q', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect',
               '--num-callers=20', '--max-stackframe=8000000'] + cmd
    cmd = NOASLR + cmd
    env = dict(os.environ)
    env.update(ENV)
    env['ASAN_OPTIONS'] = ENV['ASAN_OPTIONS'] % ((0xA7 + 37 * r.chunk) & 0xff)
    errf = os.path.join(tmpdir, tag + '.err')
    cpu = r.run.get('cpu', 60)
    with open(errf, 'wb') as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=tmpdir, preexec_fn=limits(fl, cpu, 'deep' in r.run['mode']), start_new_session=True)
    procs.add(p)
    t_start = time.time()
    try:
        rc = p.wait()
    finally:
        procs.discard(p)
    with open(errf, 'rb') as f:
        err = f.read()
    err = (err if len(err) < 40000 else err[:30000] + b'\n...\n' + err[-8000:]).decode('utf-8', 'replace')
    res = {'rc': rc, 'err': err, 'run': r, 'cmd': cmd, 's': time.time() - t_start}
    if os.path.exists(st):
        s = read(st)
        if len(s) > 32:
            case_no, oplen, dropped = struct.unpack('<QQQ', s[8:32])
            res['case'] = case_no
            res['oplog'] = s[32:32 + min(oplen, len(s) - 32)].decode('utf-8', 'replace')
    if os.path.exists(out):
        try:
            with open(out) as f:
                res['json'] = json.load(f)
        except ValueError:
            res['json'] = None
        if os.path.exists(out + '.distinct'):
            res['distinct'] = read(out + '.distinct')
    for x in (out, out + '.distinct', st, errf):
        try:
            os.unlink(x)
        except OSError:
            pass
    return res


def classify(res):
    """ok | violation | hang | memory | harness | killed"""
    rc, err = res['rc'], res['err']
    j = res.get('json')
    if rc == 0 and j and j['status'] == 'ok':
        return 'ok', None, None
    if rc == 77 and j:
        return 'violation', j['sig'], j['msg']
    if rc == 99 or '@@HARNESS' in err:
        return 'harness', None, err[-2000:]
    if rc in (-signal.SIGXCPU,) or (rc == -9 and 'hard rss' not in err and res.get('cpu_exceeded')):
        return 'hang', 'no-termination', 'the workload exceeded its processor-time bound (%d s)' % res['run'].run.get('cpu', 60)
    if rc == -signal.SIGKILL or rc == -signal.SIGTERM:
        return 'killed', None, None
    if rc == 77:
        m = re.search(r'@@VIOLATION sig=(\S+) case=\d+: ([^\n]*)', err)
        return 'violation', m.group(1) if m else 'unknown', m.group(2) if m else err[-500:]
    sig = crash_signature(rc, err)
    if 'bad_alloc' in sig or sig == 'memory-exhausted':
        return 'memory', 'memory-exhausted', 'the workload ran out of its memory bound'
    return 'violation', sig, first_lines(err)


def first_lines(err):
    ls = [l for l in err.split('\n') if l.strip()]
    return ' | '.join(ls[:14])[:1800]


def find_noaslr():
    """Address randomisation off: runs repeat exactly, and ThreadSanitizer's fixed shadow layout may need it."""
    for c in (['setarch', '-R'], ['setarch', os.uname().machine, '-R']):
        try:
            if subprocess.run(c + ['true'], capture_output=True).returncode == 0:
                return c
        except OSError:
            pass
    return []


NOASLR = []


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        k = json.load(f)
    return [e for e in k.get('known', []) if e.get('property') == prop]


def match_known(known, sig, msg, oplog):
    for e in known:
        if re.search(e['signature'], sig) and re.search(e.get('message', ''), msg or '') and re.search(e.get('history', ''), oplog or ''):
            return e
    return None


def write_replay(prop, res, sig, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    r = res['run']
    body = {'property': prop, 'signature': sig, 'message': msg, 'flavor': r.run['flavor'], 'mode': r.run['mode'], 'tier': r.tier,
            'seed': r.seed, 'chunk': r.chunk, 'case': res.get('case'), 'cases': (res.get('case') or 0) + 1,
            'replay_cmd': 'python3 check.py %s --replay <this file>' % prop,
            'operations': (res.get('oplog') or '').split('\n')[-400:], 'report': res['err'][:12000]}
    path = os.path.join(d, '%s-%s.json' % (prop, sha(prop, sig, r.seed, r.chunk, r.run['mode'], r.run['flavor'])[:10]))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def main():
    global NOASLR
    argv = sys.argv[1:]
    if argv and argv[0] == '--build':
        jobs = []
        for p in sorted(PROPS):
            for run in PROPS[p]['quick']:
                j = (PROPS[p]['src'] if 'src' not in run else run['src'], run['flavor'])
                if j not in jobs:
                    jobs.append(j)
        t = time.time()
        build(jobs)
        print('built %d harnesses in %.1f s' % (len(jobs), time.time() - t))
        return 0
    if argv and argv[0] == '--toolchain':
        # every check builds what it needs from the working tree; here only: can this sandbox build and run each kind of monitor?
        with tempfile.TemporaryDirectory(prefix='lbdd-tools-') as d:
            src = os.path.join(d, 't.cpp')
            with open(src, 'w') as f:
                f.write('#include <thread>\n#include <cstdio>\nextern "C" void __sanitizer_cov_trace_pc() {}\n'
                        'int main() { std::thread t([] { std::puts("ok"); }); t.join(); }\n')
            for fl in FLAVORS:
                exe = os.path.join(d, fl)
                r = subprocess.run([CXX, '-std=c++17', '-pthread'] + [x for x in FLAVORS[fl]['c'] if not x.startswith('-fsanitize-coverage')] + [src] + FLAVORS[fl]['l'] + ['-o', exe], capture_output=True, text=True)
                if r.returncode != 0:
                    raise CheckError('%s: %s' % (fl, r.stderr[-2000:]))
                cmd = [exe] if fl not in ('tsan', 'vg') else (find_noaslr() + [exe] if fl == 'tsan' else ['valgrind', '-q', exe])
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode != 0 or 'ok' not in r.stdout:
                    raise CheckError('%s: exit %d %s' % (fl, r.returncode, r.stderr[-2000:]))
        print('monitors available: ' + ' '.join(FLAVORS))
        return 0
    if not argv or argv[0] not in PROPS:
        print(__doc__)
        return 2
    prop = argv[0]
    cfg = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    runs_cfg = [dict(r) for r in cfg[tier]]
    work = []
    replay = None
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            replay = json.load(f)
        base = [r for r in cfg['quick'] + cfg['thorough'] if r['flavor'] == replay['flavor'] and r['mode'] == replay['mode']]
        if not base:
            raise CheckError('replay file does not fit this check')
        runs_cfg = [dict(base[0])]
        work = [Run(prop, cfg, runs_cfg[0], replay['chunk'], replay['seed'], replay['tier'], replay['cases'])]
    else:
        # interleave the different kinds of runs
        todo = [[Run(prop, cfg, r, c, seed, tier) for c in range(r['chunks'])] for r in runs_cfg]
        total = sum(len(t) for t in todo)
        keyed = [((i + 0.5) / len(t), k, x) for k, t in enumerate(todo) for i, x in enumerate(t)]
        work = [x for _, _, x in sorted(keyed, key=lambda y: (y[0], y[1]))]
    t0 = time.time()
    jobs = []
    for r in runs_cfg:
        j = (r.get('src', cfg['src']), r['flavor'])
        if j not in jobs:
            jobs.append(j)
    exes = build(jobs)
    t_build = time.time() - t0
    NOASLR = find_noaslr()
    tmpdir = tempfile.mkdtemp(prefix='lbdd-%s-' % prop)
    procs = set()
    stop = threading.Event()
    known = load_known(prop)
    known_hits = {}
    counters, maxima, samples, distinct = {}, {}, [], set()
    evaluations = 0
    per_run = {}
    violation = None
    errors = []
    wall_limit = 820 if tier == 'quick' else 6 * 3600
    lock = threading.Lock()

    def one(r):
        if stop.is_set():
            return None
        exe = exes[(r.run.get('src', cfg['src']), r.run['flavor'])]
        res = execute(exe, r, tmpdir, procs, stop)
        if stop.is_set():
            return None
        kind, sig, msg = classify(res)
        if kind in ('hang', 'memory', 'killed'):  # once more before it counts
            res2 = execute(exe, r, tmpdir, procs, stop)
            if stop.is_set():
                return None
            kind2, sig2, msg2 = classify(res2)
            if kind2 != kind:
                res, kind, sig, msg = res2, kind2, sig2, msg2
            if kind in ('hang', 'memory'):
                kind = 'violation'
        return res, kind, sig, msg

    def watchdog():
        while not stop.wait(1.0):
            if time.time() - t0 > wall_limit:
                errors.append('wall-clock watchdog: inconclusive')
                stop.set()
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    wd = threading.Thread(target=watchdog, daemon=True)
    wd.start()
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(one, r) for r in work]
            for f in as_completed(futs):
                x = f.result()
                if x is None:
                    continue
                res, kind, sig, msg = x
                r = res['run']
                j = res.get('json')
                if j:
                    evaluations += j['evaluations']
                    for k, v in j['counters'].items():
                        counters[k] = counters.get(k, 0) + v
                    for k, v in j['maxima'].items():
                        maxima[k] = max(maxima.get(k, 0), v)
                    d = res.get('distinct', b'')
                    if len(distinct) < 3000000:
                        distinct.update(struct.unpack('<%dQ' % (len(d) // 8), d))
                    name = '%s/%s' % (r.run['flavor'], r.run['mode'])
                    pr = per_run.setdefault(name, {'chunks': 0, 'histories': 0, 'judged': 0, 'worker_s': 0.0})
                    pr['worker_s'] = round(pr['worker_s'] + res['s'], 2)
                    pr['chunks'] += 1
                    pr['histories'] += j['cases']
                    pr['judged'] += j['evaluations']
                    for s in j['samples']:
                        if len(samples) < 6 and not any(y.startswith(name) for y in samples):
                            samples.append(name + ': ' + s[:1200])
                if kind == 'ok':
                    continue
                if kind == 'violation':
                    e = match_known(known, sig, msg, res.get('oplog'))
                    if e:
                        known_hits[e['id']] = e
                        continue
                    if violation is None:
                        violation = (res, sig, msg)
                    stop.set()
                else:
                    errors.append('%s in %s/%s chunk %d: %s' % (kind, r.run['flavor'], r.run['mode'], r.chunk, msg or res['err'][-800:]))
                    stop.set()
    finally:
        stop.set()
        wd.join(10)
        shutil.rmtree(tmpdir, ignore_errors=True)
    wall = time.time() - t0

    missing = []
    if violation is None and not errors and replay is None:
        for k, v in cfg.get('min', {}).items():
            if counters.get(k, maxima.get(k, 0)) < v:
                missing.append('%s=%d < %d' % (k, counters.get(k, maxima.get(k, 0)), v))

    if replay is None:
        cov = {'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': cfg['rule'], 'samples': samples or ['(none completed)'],
               'observed_events': counters, 'observed_maxima': maxima, 'runs': per_run, 'build_s': round(t_build, 1)}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': cfg.get('assumptions', []) + COMMON_ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp%d' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))

    for e in known_hits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if violation:
        res, sig, msg = violation
        path = write_replay(prop, res, sig, msg)
        print('%s: %s' % (sig, (msg or '')[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('ERROR ' + '\n'.join(errors)[:3000])
        return 2
    if missing:
        print('INCONCLUSIVE: too little observed: ' + ', '.join(missing))
        return 2
    print('%s held on %d judged results (%d distinct), %d chunks, %.1f s build + %.1f s run; %s' % (
        prop, evaluations, len(distinct), len(work), t_build, wall - t_build,
        ', '.join('%s=%d' % kv for kv in sorted(list(counters.items()))[:12])))
    return 0


COMMON_ASSUMPTIONS = [
    'documented preconditions are respected: operands of one operation belong to one manager, handles are dropped before their manager, '
    'successors handed to find-or-create branch on later variables',
    'gcc 13 and its sanitizer runtimes; the hash keys drawn by the library come from std::random_device, which the harness seeds per chunk',
]

if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR ' + str(e))
        sys.exit(2)
