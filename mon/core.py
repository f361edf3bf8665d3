"""Runner, recorder and verdict logic shared by every check.

A check is a module ``checks/<ID>.py`` exposing ``jobs(tier, seed)``; a job is
a function executed in its own worker process with a Recorder.  The Recorder
is the boundary log of the monitors: every observed case is counted, distinct
non-trivial cases are hashed, and violations carry a *mechanism key* (used to
match the committed known-findings file) together with a replay recipe.

Verdicts are three-valued.  A job that could not be decided (engine abstained,
watchdog fired) is recorded as inconclusive; it is never folded into held or
violated.  A check in which no monitor decided anything exits with code 3.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DPPY_REPO', '/repo')
LIB = os.path.join(REPO, 'dppy') + os.sep


class Watchdog(BaseException):
    pass


class Stuck(BaseException):
    """The code under test exceeded its step/CPU budget."""


class LibraryError(Exception):
    """An exception which escaped from the code under test."""

    def __init__(self, exc, tb):
        super().__init__('{}: {}'.format(type(exc).__name__, exc))
        self.exc = exc
        self.tb = tb


def lib_site(exc):
    """function name of the innermost frame of the library in a traceback."""
    site = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.endswith('fakecvxopt.py') and type(exc).__name__ != 'ArgumentError':
            return None         # a limit of the stand-in, not of the library
        if fr.filename.startswith(LIB):
            site = '{}:{}'.format(os.path.basename(fr.filename), fr.name)
    return site


class Recorder:
    MAX_SAMPLES = 4

    def __init__(self, name):
        self.name = name
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.counters = {}
        self.decided = 0

    # -- observation -----------------------------------------------------
    def observe(self, key, n=1, nontrivial=True, sample=None):
        """count one decided case; key identifies the case's content."""
        self.evals += n
        self.decided += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def undecided(self, what):
        self.inconclusive.append(str(what)[:300])

    def violate(self, key, msg, **replay):
        """key: stable mechanism key, msg: human text."""
        self.decided += 1
        if sum(1 for v in self.violations if v['key'] == key) < 3:
            self.violations.append(dict(key=key, msg=str(msg)[:1500],
                                        replay=_jsonable(replay)))
        self.count('violations_raw')

    def expect(self, cond, key, msg, **replay):
        if not cond:
            self.violate(key, msg, **replay)
        return bool(cond)

    # -- calling the code under test --------------------------------------
    def call(self, key, fn, *args, replay=None, cpu=60.0, allow=(), **kwargs):
        """Run fn; an exception or a runaway on a valid input is a violation.

        Returns (ok, value)."""
        try:
            with cpu_budget(cpu):
                return True, fn(*args, **kwargs)
        except Stuck:
            self.violate(key + '/stuck',
                         'no termination within {} s of CPU'.format(cpu),
                         **(replay or {}))
        except allow as e:
            return False, e
        except Exception as e:
            site = lib_site(e)
            if site is None:
                raise
            self.violate('{}/raises/{}'.format(key, type(e).__name__),
                         'valid call raised {}: {} in {}'.format(
                             type(e).__name__, e, site),
                         **(replay or {}))
        return False, None

    def result(self):
        return dict(name=self.name, evals=self.evals,
                    distinct=sorted(self.distinct), samples=self.samples,
                    violations=self.violations, inconclusive=self.inconclusive,
                    counters=self.counters, decided=self.decided)


@contextlib.contextmanager
def cpu_budget(seconds):
    """CPU-time budget (not wall clock) around a call of the code under test."""
    def handler(signum, frame):
        raise Stuck()
    old = signal.signal(signal.SIGVTALRM, handler)
    prev = signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist()) if x.size <= 200 else \
            'ndarray{} {}'.format(x.shape, hashlib.sha1(x.tobytes()).hexdigest()[:12])
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Job:
    def __init__(self, name, func, timeout=300, **kwargs):
        self.name, self.func, self.kwargs, self.timeout = name, func, kwargs, timeout


def _init_worker():
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    sys.stdout = open(os.devnull, 'w')
    warnings.simplefilter('ignore')


def _run_job(args):
    name, modname, fname, kwargs, timeout = args
    rec = Recorder(name)
    t0 = time.time()

    def alarm(signum, frame):
        raise Watchdog()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(timeout))
    try:
        mod = importlib.import_module(modname)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            getattr(mod, fname)(rec, **kwargs)
    except Watchdog:
        rec.undecided('{}: watchdog after {} s'.format(name, timeout))
    except Stuck:
        rec.undecided('{}: stray cpu budget'.format(name))
    except BaseException as e:
        site = lib_site(e)
        if site is not None and isinstance(e, Exception):
            # every call made by the harness is a valid one unless guarded
            rec.violate('uncaught/{}/{}'.format(name.split('#')[0], type(e).__name__),
                        'a valid call raised {}: {} in {}'.format(type(e).__name__, e, site),
                        traceback=traceback.format_exc().strip().splitlines()[-8:])
        rec.undecided('{}: harness error {}: {} (lib site {}) {}'.format(
            name, type(e).__name__, e, site,
            ' | '.join(traceback.format_exc().strip().splitlines()[-6:])))
        rec.count('harness_errors')
    finally:
        signal.alarm(0)
    r = rec.result()
    r['wall'] = time.time() - t0
    return r


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def key_matches(pattern, key):
    if pattern.endswith('*'):
        return key.startswith(pattern[:-1])
    return pattern == key


def run_check(prop, tier, seed, only=None, nproc=None, verbose=False):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    modname = 'checks.' + prop
    mod = importlib.import_module(modname)
    jobs = mod.jobs(tier, seed)
    if only:
        jobs = [j for j in jobs if only in j.name]
    nproc = nproc or min(8, os.cpu_count() or 1)
    payload = [(j.name, j.func.__module__, j.func.__name__, j.kwargs, j.timeout)
               for j in jobs]
    results = []
    cut = False
    soft, hard = (300., 820.) if tier == 'quick' else (1800., 1e9)
    known_keys = [k['key'] for k in load_known() if k['property'] == prop and k['status'] == 'known']
    ctx = mp.get_context('fork')
    if nproc == 1:
        out = sys.stdout
        _init_worker()
        results = [_run_job(p) for p in payload]
        sys.stdout = out
    else:
        with ctx.Pool(nproc, initializer=_init_worker) as pool:
            it = pool.imap_unordered(_run_job, payload, chunksize=1)
            found = False
            while len(results) < len(payload):
                # a violation is reported even when the rest of the jobs hang or crawl
                spent = time.time() - t0
                if spent > hard or (found and spent > soft):
                    cut = True
                    break
                try:
                    r = it.next(timeout=5.)
                except mp.TimeoutError:
                    continue
                results.append(r)
                found = found or any(not any(key_matches(k, v['key']) for k in known_keys) for v in r['violations'])
            if cut:
                pool.terminate()
    results.sort(key=lambda r: r['name'])

    known = [k for k in load_known()
             if k['property'] == prop and k['status'] == 'known']
    evals = sum(r['evals'] for r in results)
    decided = sum(r['decided'] for r in results)
    distinct = set()
    counters, samples, incon, viol, seen_known = {}, [], [], [], {}
    for r in results:
        distinct.update((r['name'].split('#')[0], d) for d in r['distinct'])
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for s in r['samples'][:2]:
            if len(samples) < 16:
                samples.append({'job': r['name'], 'case': _jsonable(s)})
        incon += r['inconclusive']
        for v in r['violations']:
            v = dict(v, job=r['name'])
            hit = next((k for k in known if key_matches(k['key'], v['key'])), None)
            if hit is not None:
                seen_known.setdefault(hit['key'], (hit, v))
            else:
                viol.append(v)

    undecided_jobs = [r['name'] for r in results if r['decided'] == 0]
    if cut:
        done = {r['name'] for r in results}
        incon.append('stopped after {:.0f} s, {} jobs not run to their end'.format(
            time.time() - t0, sum(j.name not in done for j in jobs)))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(distinct),
            rule=getattr(mod, 'RULE', ''),
            samples=samples,
            jobs=len(results), jobs_undecided=undecided_jobs,
            monitor_counters=counters,
            inconclusive=incon[:40],
            known_findings_observed=sorted(seen_known),
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        violations=len(viol),
        wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp.%d' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))

    for k in known:
        obs = seen_known.get(k['key'])
        print('KNOWN-FINDING: property={} {} [{}]{}'.format(
            prop, k['what'], k['key'],
            '' if obs else ' (not exercised in this run)'))
    for line in incon[:20]:
        print('inconclusive:', line)
    if verbose:
        for r in sorted(results, key=lambda r: -r['wall']):
            print('  %-50s %6.1fs evals=%d distinct=%d' % (
                r['name'], r['wall'], r['evals'], len(r['distinct'])))
        print('  counters', counters)
    print('{} {} seed={}: jobs={} evaluations={} distinct={} undecided_jobs={} wall={:.1f}s'.format(
        prop, tier, seed, len(results), evals, len(distinct),
        len(undecided_jobs), time.time() - t0))
    if viol:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for v in viol:
            shown.setdefault(v['key'], v)
        for i, (key, v) in enumerate(shown.items()):
            h = hashlib.sha1((prop + key + v['job']).encode()).hexdigest()[:10]
            path = os.path.join(rdir, '{}-{}.json'.format(prop, h))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, job=v['job'],
                               key=key, message=v['msg'], replay=v['replay'],
                               rerun='{} /verif/run.py {} --tier {} --seed {} --job {}'.format(
                                   sys.executable, prop, tier, seed, v['job'])),
                          f, indent=1)
            print('VIOLATION property={} replay={}'.format(prop, path))
            print('   [{}] {}'.format(key, v['msg'][:600]))
        return 1
    if decided == 0 or (undecided_jobs and
                        len(undecided_jobs) > len(results) * 0.5):
        print('INCONCLUSIVE: the deciding monitors did not reach a verdict')
        return 3
    return 0
