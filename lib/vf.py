"""Harness shared by all checks: bootstrap, sharded Hypothesis driver, recorder, evidence, replay."""
import ast
import ctypes
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VENV_PY = '/opt/venv/bin/python'
HYP_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'
QUICK_ROUNDS = 3      # independent searches per target and shard
NSHARDS = 8


# --------------------------------------------------------------------------- bootstrap
def bootstrap(argv):
    """Stage 0: build the clock shim in a scratch directory and run the real thing under it."""
    scratch = tempfile.mkdtemp(prefix='vf-')
    try:
        shim = os.path.join(scratch, 'fakeclock.so')
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', shim,
                        os.path.join(VERIF, 'lib', 'fakeclock.c'), '-ldl'], check=True)
        os.chmod(scratch, 0o755)
        env = dict(os.environ)
        env.update(VF_STAGE='1', VF_SCRATCH=scratch, LD_PRELOAD=shim, PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONWARNINGS='ignore',
                   VF_CWD=os.getcwd(), PYTHONUTF8='1')
        env.pop('PYTHONPATH', None)
        # The working directory is scratch too: some code writes to relative paths.
        work = os.path.join(scratch, 'cwd')
        os.mkdir(work)
        return subprocess.run([VENV_PY, '-B', os.path.join(VERIF, 'run.py')] + argv, env=env,
                              cwd=work).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup_paths():
    sys.path[:0] = [SRC, VERIF, os.path.join(VERIF, 'lib')]
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    sys.path.append(HYP_SITE)       # after the venv, so that the project's own packages win
    try:
        import hypothesis  # noqa
    except ImportError:
        tgt = os.path.join(os.environ['VF_SCRATCH'], 'hyp')
        subprocess.run(['python3-vt', '-m', 'pip', 'install', '-q', '--no-index', '--find-links',
                        WHEELS, '--target', tgt, 'hypothesis'], check=True,
                       env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
        sys.path.append(tgt)
        import hypothesis  # noqa


# --------------------------------------------------------------------------- clock
class Clock:
    """The wall clock seen by this process."""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.lib.vf_clock_set.argtypes = [ctypes.c_long, ctypes.c_long]

    def set(self, sec, nsec=0):
        # so close to the next second a float of the time is rounded up, which is not an error of the code under test
        self.lib.vf_clock_set(int(sec), min(int(nsec), 999999000))

    def real(self):
        self.lib.vf_clock_real()


clock = None


def set_tz(tz):
    os.environ['TZ'] = tz
    _time.tzset()


# --------------------------------------------------------------------------- dictionary mining
def mine():
    """Texts and numbers that occur as literals in the sources under test (not docstrings)."""
    strs, ints = set(), set()
    for root, dirs, files in os.walk(os.path.join(SRC, 'oidcmsg')):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(root, f), encoding='utf-8') as fp:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(fp.read())
            except (SyntaxError, ValueError):
                continue
            doc = {id(n.value) for n in ast.walk(tree)
                   if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in doc:
                    v = n.value
                    if isinstance(v, str) and 0 < len(v) <= 120:
                        strs.add(v)
                    elif isinstance(v, int) and not isinstance(v, bool) and abs(v) < 10 ** 12:
                        ints.add(v)
    return sorted(strs), sorted(ints)


# --------------------------------------------------------------------------- recorder
class Violation(Exception):
    pass


def _clip(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...[%d chars]' % len(s)


class Recorder:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.nontrivial_keys = set()
        self.classes = {}
        self.samples = {}
        self.target = None
        self.case = None
        self._nt = False

    def begin(self, target, case):
        self.target, self.case, self._nt = target, case, False
        self.evaluations += 1

    def nontrivial(self, key=None):
        if self._nt and key is None:
            return
        self._nt = True
        r = repr((self.target, self.case if key is None else key))
        self.nontrivial_keys.add(hashlib.blake2b(r.encode('utf-8', 'replace'), digest_size=8).digest())
        s = self.samples.setdefault(self.target, [])
        if len(s) < 2 and self.evaluations > 3:
            s.append(_clip(self.case))

    def cls(self, label):
        k = '%s: %s' % (self.target, label)
        self.classes[k] = self.classes.get(k, 0) + 1

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def eq(self, got, want, msg, *args):
        if not (got == want):
            raise Violation('%s: got %s, expected %s' % (msg % args if args else msg, _clip(got),
                                                         _clip(want)))


class Target:
    """One generated check: strategy produces a literal case, fn(case, rec) decides it."""

    def __init__(self, name, strategy, fn, quick=400, thorough=None, examples=(), once=False):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 25
        self.examples = list(examples)
        self.once = once            # deterministic enumeration, runs in shard 0 only


def outcome(fn, *args, **kw):
    """('ok', value) or ('exc', exception)"""
    try:
        return 'ok', fn(*args, **kw)
    except RecursionError as e:
        return 'exc', e
    except Exception as e:
        return 'exc', e


# --------------------------------------------------------------------------- driver
CASE_LIMIT = 60         # seconds; a case takes milliseconds, at most a few seconds


class Hang(BaseException):
    """Not an Exception: the code under test must not swallow it."""


def _alarm(signum, frame):
    raise Hang()


class watched:
    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 5)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(SRC):
            where = ' [raised at %s:%d %s]' % (os.path.relpath(fr.filename, REPO), fr.lineno, fr.name)
            break
    if isinstance(exc, Violation):
        return str(exc)
    return 'unexpected %s: %s%s' % (type(exc).__name__, _clip(str(exc)), where)


def _run_target(t, shard, seed, tier, rec, stop):
    n_total = t.thorough if tier == 'thorough' else t.quick
    n = max(1, -(-n_total // NSHARDS))
    best = [None]          # (size, case, message)
    state = {'fails': 0, 'deadline': None, 'execs': 0}

    def one(case):
        if stop.is_set() and state['deadline'] is None:
            return
        if state['deadline'] is not None:
            state['execs'] += 1
            if state['execs'] > 600 or _time.monotonic() > state['deadline']:
                return       # shrinking budget used up
        rec.begin(t.name, case)
        try:
            try:
                with watched():
                    t.fn(case, rec)
            except Hang:
                state['deadline'] = 0       # no shrinking
                raise Violation('no answer within %d seconds' % CASE_LIMIT) from None
        except Exception as exc:
            msg = _describe(exc)
            r = repr(case)
            if best[0] is None or len(r) <= best[0][0]:
                best[0] = (len(r), r, msg)
            if state['deadline'] is None:
                state['deadline'] = _time.monotonic() + 12
            raise

    for i, ex in enumerate(t.examples):
        if i % NSHARDS == shard:
            try:
                one(ex)
            except Exception:
                return best[0]
    if t.strategy is None:
        return best[0]
    if t.once:
        if shard != 0:
            return None
        n = n_total
    # Hypothesis varies what it has made, so several independent searches cover more than one long one
    rounds = (QUICK_ROUNDS if not t.once else 1) if tier != 'thorough' else max(1, n // 1000)
    if tier == 'thorough':
        n = -(-n // rounds)
    for rnd in range(rounds):
        found = _search(t, one, n, '%s/%s/%s/%s/%s' % (seed, rec.prop, t.name, shard, rnd), best)
        if found is not None or stop.is_set():
            return found
    return None


def _search(t, one, n, seed, best):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    h = int.from_bytes(hashlib.blake2b(seed.encode(), digest_size=6).digest(), 'big')

    @hypothesis.seed(h)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(t.strategy)
    def test(case):
        one(case)

    try:
        test()
    except Exception as exc:
        if best[0] is None:       # nothing failed in the check itself: a harness problem
            raise
        del exc
    return best[0]


def drop_privileges():
    """Storage checks write under keys chosen to escape; run them as nobody where possible."""
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        return True
    except OSError:
        return False


def _worker(modname, prop, shard, seed, tier, stop, out, scratch, unpriv):
    res = {'shard': shard, 'error': None, 'violation': None}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        wd = os.path.join(scratch, 's%d' % shard)
        os.mkdir(wd)
        if unpriv:
            os.chown(wd, 65534, 65534)
        os.chdir(wd)
        os.environ['VF_WORK'] = wd
        if unpriv:
            res['unpriv'] = drop_privileges()
        mod = sys.modules[modname]
        rec = Recorder(prop)
        for idx, t in enumerate(mod.TARGETS):
            v = _run_target(t, shard, seed, tier, rec, stop)
            if clock:
                clock.real()
            if v is not None:
                res['violation'] = (idx, t.name, v[1], v[2])
                stop.set()
                break
            if stop.is_set():
                break
        res.update(evaluations=rec.evaluations, nontrivial=rec.nontrivial_keys,
                   classes=rec.classes, samples=rec.samples)
    except BaseException:
        res['error'] = traceback.format_exc()
    out.put(res)


def load_known():
    """Known findings: {property: {key: text}} from the committed file."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known:'):
                parts = line[6:].split(None, 2)
                p = parts[0].split('=', 1)[1]
                k = parts[1].split('=', 1)[1]
                known.setdefault(p, {})[k] = parts[2]
    return known


def write_replay(prop, target, case, msg):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b((target + case).encode('utf-8', 'replace'), digest_size=4).hexdigest()
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as fp:
        json.dump({'property': prop, 'target': target, 'case': case, 'message': msg,
                   'replay': 'cd /verif && /opt/venv/bin/python -B run.py %s --replay %s' % (prop, path)},
                  fp, indent=1)
    return path


def main(argv):
    prop = argv[0]
    if os.environ.get('VF_STAGE') != '1':
        return bootstrap(argv)

    global clock
    t0 = _time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    setup_paths()
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    clock = Clock()
    sys.modules['vf'] = sys.modules[__name__]
    import oidcmsg
    if not os.path.realpath(oidcmsg.__file__).startswith(os.path.realpath(SRC) + os.sep):
        print('oidcmsg imported from %s' % oidcmsg.__file__)
        return 3
    modname = 'checks.' + prop
    mod = importlib.import_module(modname)
    scratch = os.environ['VF_SCRATCH']
    os.environ['VF_WORK'] = os.getcwd()

    if '--replay' in argv:
        rp = json.load(open(os.path.join(os.environ['VF_CWD'], argv[argv.index('--replay') + 1])))
        case = ast.literal_eval(rp['case'])
        t = [x for x in mod.TARGETS if x.name == rp['target']][0]
        rec = Recorder(prop)
        rec.begin(t.name, case)
        try:
            with watched():
                t.fn(case, rec)
        except (Exception, Hang) as exc:
            clock.real()
            traceback.print_exc()
            print('REPRODUCED: %s' % _describe(exc))
            return 1
        print('not reproduced')
        return 0

    # --- known findings: each is re-checked on its own, specific input
    violations, n_known = [], 0
    listed = load_known().get(prop, {})
    for key, fn in getattr(mod, 'KNOWN', {}).items():
        try:
            with watched():
                msg = fn()
        except Hang:
            violations.append(('known-' + key, repr(key), 'no answer within %d seconds' % CASE_LIMIT))
            msg = None
        clock.real()
        if msg:
            if key in listed:
                n_known += 1
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, listed[key]))
            else:
                violations.append(('known-' + key, repr(key), msg))

    unpriv = getattr(mod, 'UNPRIVILEGED', False) and os.getuid() == 0
    if unpriv:
        os.chmod(scratch, 0o755)
    ctx = multiprocessing.get_context('fork')
    stop, out = ctx.Event(), ctx.Queue()
    procs = []
    for shard in range(NSHARDS):
        pr = ctx.Process(target=_worker, args=(modname, prop, shard, seed, tier, stop, out, scratch,
                                               unpriv))
        pr.start()
        procs.append(pr)
    results = []
    while len(results) < NSHARDS:
        try:
            results.append(out.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in procs) and out.empty():
                break
    for pr in procs:
        pr.join(30)
    errors = [r['error'] for r in results if r['error']]
    if len(results) < NSHARDS:
        errors.append('a worker died without reporting')
    found = sorted((r['violation'][0], len(r['violation'][2]), r['violation'][1:])
                   for r in results if r['violation'])
    if found:
        violations.append(found[0][2])

    classes, samples, nts, evals = {}, {}, set(), 0
    for r in results:
        if r['error']:
            continue
        evals += r['evaluations']
        nts |= r['nontrivial']
        for k, v in r['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r['samples'].items():
            samples.setdefault(k, []).extend(v)
    flat = [{'target': k, 'case': c} for k, v in sorted(samples.items()) for c in v[:2]]
    paths = [write_replay(prop, *v) for v in violations]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nts),
                       'rule': 'cases are drawn by Hypothesis from the strategies of checks/%s.py, 8 shards, seeds '
                               'derived from VERIF_SEED, equal cases counted once; %s' % (prop, getattr(mod, 'RULE', '')),
                       'samples': flat,
                       'violation_details': [{'target': v[0], 'message': v[2], 'replay': p}
                                             for v, p in zip(violations, paths)],
                       'distribution': dict(sorted(classes.items())),
                       'known_findings_reproduced': n_known},
          'violations': len(violations),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(_time.monotonic() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, ensure_ascii=True)
    for v, p in zip(violations, paths):
        print('%s: %s\n  case: %s' % (v[0], v[2], _clip(v[1], 1500)))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if violations:
        return 1
    if errors:
        print('HARNESS ERROR\n' + '\n'.join(errors[:2]))
        return 3
    print('OK property=%s evaluations=%d nontrivial=%d wall=%.1fs' % (prop, evals, len(nts), ev['wall_s']))
    return 0
