"""P19: carries, descent and virtual descent processes."""
import collections
import itertools
import math

import numpy as np

from mon import lawcheck, stats
from mon.core import Job
from dppy.exotic_dpps import CarriesProcess, DescentProcess, VirtualDescentProcess

RULE = ('each case = (process, parameter, size): exact law of the sampled subset over all entropy branches for '
        'small sizes, against laws counted independently (carry patterns of base-b sums, descent sets of all '
        'permutations, descents of a permutation whose positions are fixed with density x_0); for large sizes '
        'all k-point functions of runs and pairs, estimated along the stationary sequence, are tested')
ASSUMPTIONS = ['statistical tests at level 1e-9 with fixed seeds']


def make(kind, par):
    return {'carries': lambda: CarriesProcess(par), 'descent': lambda: DescentProcess(),
            'virtual': lambda: VirtualDescentProcess(par)}[kind]()


def get(proc, size, rng):
    proc.sample(size=size, random_state=rng)
    return tuple(int(x) for x in proc.list_of_samples[-1])


def ref_law(kind, par, size):
    law = collections.defaultdict(float)
    if kind == 'carries':
        for A in itertools.product(range(par), repeat=size):
            carries, run = [], A[0]
            for i in range(1, size):           # add the digits in a column: carry when the sum exceeds b-1
                s = run + A[i]
                if s >= par:
                    carries.append(i)
                run = s % par
            law[tuple(carries)] += par ** -float(size)
    elif kind == 'descent':
        for p in itertools.permutations(range(size)):
            law[tuple(i + 1 for i in range(size - 1) if p[i] > p[i + 1])] += 1. / math.factorial(size)
    else:
        # virtual permutation: positions are fixed points (values comparable with their small index)
        # with density x_0, others have infinitely large exchangeable values
        for p in itertools.permutations(range(size + 1)):
            for fx in itertools.product((0, 1), repeat=size + 1):
                w = np.prod([par if f else 1 - par for f in fx]) / math.factorial(size + 1)
                if w:
                    val = [i if fx[i] else 1000 + p[i] for i in range(size + 1)]
                    law[tuple(i for i in range(size) if val[i] > val[i + 1])] += w
    return dict(law)


def exact(rec, cases, seed):
    for kind, par, size in cases:
        key = 'law/' + kind

        def run(rng):
            return get(make(kind, par), size, rng)
        lawcheck.check_law(rec, key, run, ref_law(kind, par, size), max_leaves=50000, stat_n=20000, stat_seed=seed,
                           replay=dict(process=kind, parameter=par, size=size))


def runs_prob(kind, par, m):
    """probability that m consecutive positions all belong to the process"""
    if kind == 'carries':
        return math.comb(par, m + 1) / par**(m + 1)
    if kind == 'descent':
        return 1. / math.factorial(m + 1)
    # m consecutive descents among m+1 values: infinite decreasing values, the last one possibly fixed
    q = 1 - par
    return q**(m + 1) / math.factorial(m + 1) + q**m * par / math.factorial(m)


def bulk(rec, kind, par, size, seed, reps):
    proc = make(kind, par)
    rng = np.random.RandomState(seed)
    key = 'bulk/' + kind
    rp = dict(process=kind, parameter=par, size=size, seed=seed)
    lo, hi = (1, size - 1) if kind != 'virtual' else (0, size - 1)
    X = []
    for i in range(reps):
        ok, s = rec.call(key, get, proc, size, rng, replay=rp)
        if not ok:
            return
        s = list(s)
        if not rec.expect(s == sorted(set(s)) and (not s or (s[0] >= lo and s[-1] <= hi)), key + '/range',
                          'not an increasing list of positions in [{}, {}]'.format(lo, hi), **rp):
            return
        x = np.zeros(hi - lo + 1, dtype=bool)
        x[np.array(s, dtype=int) - lo] = True
        X.append(x)
    rec.expect(len(proc.list_of_samples) == reps and proc.size == size, key + '/bookkeeping', 'bookkeeping', **rp)
    X = np.array(X)
    n = X.shape[1]
    ps = {}
    for m in (1, 2, 3):
        if n < m + 1:
            continue
        ind = np.ones((reps, n - m + 1), dtype=bool)
        for t in range(m):
            ind &= X[:, t:n - m + 1 + t]
        # independent blocks: windows further apart than m+1 positions are independent
        for off in range(0, m + 2):
            sub = ind[:, off::m + 2]
            ps[('run', m, off)] = stats.binom_test(int(sub.sum()), sub.size, runs_prob(kind, par, m))
    p1 = runs_prob(kind, par, 1)
    for gap in (2, 3):
        if n > gap:
            ind = X[:, :n - gap] & X[:, gap:]
            for off in range(0, gap + 2):
                sub = ind[:, off::gap + 2]
                if kind == 'descent' or kind == 'carries' or kind == 'virtual':     # one-dependence
                    ps[('pair', gap, off)] = stats.binom_test(int(sub.sum()), sub.size, p1 * p1)
    # no hidden periods: covariance at every lag beyond 1, inside a sample and between consecutive samples
    if n >= 1000 and 0 < p1 < 1:
        Z = X - p1
        p2 = runs_prob(kind, par, 2)
        g0, g1 = p1 * (1 - p1), p2 - p1 * p1
        m = 2**int(np.ceil(np.log2(2 * n)))
        F = np.fft.rfft(Z, m, axis=1)
        lags = np.arange(2, n - 200)
        auto = np.fft.irfft(np.abs(F)**2, m, axis=1)[:, lags]
        sd = np.sqrt((g0**2 + 2 * g1**2) * (n - lags))
        zs = [('lags', auto.sum(0) / sd / np.sqrt(reps))]
        if reps > 1:
            cross = np.fft.irfft(np.conj(F[:-1]) * F[1:], m, axis=1)
            zs += [('lags between samples', cross[:, :n - 200].sum(0) / np.sqrt((g0**2 + 2 * g1**2) * (n - np.arange(n - 200))) / np.sqrt(reps - 1))]
        for nm, z in zs:
            w = int(np.argmax(np.abs(z)))
            # products of centred indicators are skewed when p1 is small: normal regime only
            if n * g0**2 * reps > 50:
                rec.expect(abs(z[w]) < 8.5, key + '/' + nm, 'positions at distance {} are correlated (z={:.1f})'.format(w + 2 if nm == 'lags' else w, z[w]), **rp)
                rec.count('lags_tested', len(z))
    # every position has the same marginal
    if reps >= 200:
        for i in range(n):
            ps[('marginal', i)] = stats.binom_test(int(X[:, i].sum()), reps, p1)
    proc_p = proc._bernoulli_param if hasattr(proc, '_bernoulli_param') else p1
    rec.expect(abs(proc_p - p1) < 1e-12, key + '/advertised', 'advertised density {} instead of {}'.format(
        proc_p, p1), **rp)
    worst = min(ps, key=ps.get)
    rec.observe((key, par, size), n=reps, nontrivial=0 < p1 < 1, sample=dict(rp, tests=len(ps), min_p=ps[worst]))
    rec.expect(ps[worst] > stats.ALPHA, key, 'correlation {} deviates (p={:.2g})'.format(worst, ps[worst]), **rp)


def jobs(tier, seed):
    th = tier == 'thorough'
    cases = []
    for b in (2, 3, 4, 5, 7, 10, 50):
        for size in (1, 2, 3, 4, 5, 6, 7):
            if b**size <= (3200 if not th else 20000):
                cases.append(('carries', b, size))
    for size in range(1, 8 if not th else 9):
        cases.append(('descent', None, size))
    for x0 in (0, .2, .5, .7, 1):
        for size in (1, 2, 3, 4) + ((5,) if th else ()):
            cases.append(('virtual', x0, size))
    out = [Job('exact#%d' % i, exact, timeout=600, cases=[c], seed=seed) for i, c in enumerate(cases)]
    f = 6 if not th else 60
    for kind, par in [('carries', b) for b in (2, 3, 5, 10, 16)] + [('descent', None)] + \
            [('virtual', x) for x in (0., .1, .5, .8, 1.)]:
        out.append(Job('bulk#%s/%s/long' % (kind, par), bulk, timeout=600, kind=kind, par=par, size=5000,
                       seed=seed + 3, reps=4 * f))
        out.append(Job('bulk#%s/%s/short' % (kind, par), bulk, timeout=600, kind=kind, par=par, size=12,
                       seed=seed + 4, reps=5000 * f))
    for kind, par, size in [('carries', b, m) for b in (2, 3, 10, 1000, 20000, 30000, 10**6, 3 * 10**9) for m in (40000, 150000)] + \
            [('descent', None, 70000), ('virtual', .3, 70000)]:
        out.append(Job('bulk#%s/%s/huge%d' % (kind, par, size), bulk, timeout=600, kind=kind, par=par, size=size,
                       seed=seed + 5, reps=4 if not th else 40))
    return out
