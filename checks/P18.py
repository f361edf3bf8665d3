"""P18: Poissonized Plancherel measure."""
import collections
import math

import numpy as np
from scipy.special import jv
import scipy.stats as st

from mon import ref, stats
from mon.core import Job
from dppy.exotic_dpps import PoissonizedPlancherel
from dppy.exotic_dpps_core import limit_shape, xy_young_ru

RULE = ('each case = (theta, RandomState): every draw is monitored for being a partition with matching '
        'half-integer points, the empirical law of partitions is compared with e^-theta (theta^n) '
        '(f_lambda/n!)^2 computed by hook lengths, the size with Poisson(theta), one- and two-point '
        'functions on the positive half line with the discrete Bessel kernel; non-trivial = theta > 0')
ASSUMPTIONS = ['statistical tests at level 1e-9 with fixed seeds']


def draw(rec, theta, seed, n, key):
    pp = PoissonizedPlancherel(theta)
    rng = np.random.RandomState(seed)
    out = []
    for i in range(n):
        ok, _ = rec.call(key, pp.sample, random_state=rng, replay=dict(theta=theta, seed=seed, draw=i))
        if not ok:
            return None
        lam = [int(x) for x in pp.list_of_young_diag[-1]]
        pts = [float(x) for x in pp.list_of_samples[-1]]
        rp = dict(theta=theta, seed=seed, draw=i, shape=lam, points=pts)
        if not rec.expect(lam == sorted(lam, reverse=True) and all(x > 0 for x in lam), key + '/partition',
                          'not a partition', **rp):
            return None
        if not rec.expect(pts == [l - k + .5 for k, l in enumerate(lam, 1)], key + '/points',
                          'points are not lambda_i - i + 1/2', **rp):
            return None
        out.append((tuple(lam), pts))
    if not rec.expect(len(pp.list_of_samples) == n == len(pp.list_of_young_diag), key + '/bookkeeping',
                      'bookkeeping', theta=theta):
        return None
    return out


def law(rec, theta, seed, n):
    key = 'law'
    out = draw(rec, theta, seed, n, key)
    if out is None:
        return
    nmax = int(st.poisson.ppf(1 - 1e-6, theta)) if theta else 0
    nmax = min(nmax, 9)
    probs = {}
    for m in range(nmax + 1):
        for p in ref.partitions(m):
            probs[p] = st.poisson.pmf(m, theta) * ref.hook_f(p)**2 / math.factorial(m)
    rest = 1 - sum(probs.values())
    probs['rest'] = max(rest, 1e-15 if rest <= 0 else rest)
    c = collections.Counter(l if sum(l) <= nmax else 'rest' for l, _ in out)
    pv, d = stats.gof(c, {k: v for k, v in probs.items() if v > 1e-14})
    rec.observe(('law', theta, seed), n=n, nontrivial=theta > 0,
                sample=dict(theta=theta, seed=seed, partitions=len(c), stat=d))
    rec.expect(pv > stats.ALPHA, key, 'partitions are not Poissonized Plancherel(theta={}): {} (p={:.2g})'.format(
        theta, d, pv), theta=theta, seed=seed)


def bessel(rec, theta, seed, n):
    key = 'bessel'
    out = draw(rec, theta, seed, n, key)
    if out is None:
        return
    sizes = [sum(l) for l, _ in out]
    pv, d = stats.ztest(sizes, theta, math.sqrt(theta))
    rec.expect(pv > stats.ALPHA, key + '/size', 'size: ' + d, theta=theta)
    v = float(np.var(sizes))
    sdv = math.sqrt((theta + 2 * theta**2) / n)
    rec.expect(abs(v - theta) < 7 * sdv, key + '/sizevar', 'variance {} for Poisson({})'.format(v, theta), theta=theta)
    s = 2 * math.sqrt(theta)
    kk = np.arange(0, 400)

    def K(x, y):
        return float(np.sum(jv(x + .5 + kk, s) * jv(y + .5 + kk, s)))
    xs = np.arange(.5, 2.6 * math.sqrt(theta) + 2)
    M = np.array([[x in set(p) for x in xs] for _, p in out])
    ps = []
    for i, x in enumerate(xs):
        ps.append(stats.binom_test(int(M[:, i].sum()), n, min(1., max(K(x, x), 0.))))
        for j in range(i + 1, min(len(xs), i + 4)):
            p2 = K(x, x) * K(xs[j], xs[j]) - K(x, xs[j])**2
            ps.append(stats.binom_test(int((M[:, i] & M[:, j]).sum()), n, min(1., max(p2, 0.))))
    rec.observe(('bessel', theta, seed), n=n, sample=dict(theta=theta, seed=seed, tests=len(ps), min_p=min(ps)))
    rec.expect(min(ps) > stats.ALPHA, key, 'correlation functions differ from the discrete Bessel kernel '
               '(p={:.2g})'.format(min(ps)), theta=theta, seed=seed)


def large(rec, theta, seed, n):
    """large parameters: partitions, size, and the longest row/column near 2 sqrt(theta)"""
    key = 'large'
    out = draw(rec, theta, seed, n, key)
    if out is None:
        return
    sizes = np.array([sum(l) for l, _ in out])
    pv, d = stats.ztest(sizes, theta, math.sqrt(theta))
    rec.observe(('large', theta, seed), n=n, sample=dict(theta=theta, seed=seed, size=d, longest=max(l[0] for l, _ in out)))
    rec.expect(pv > stats.ALPHA, key + '/size', 'size: ' + d, theta=theta)
    s = 2 * math.sqrt(theta)
    # Tracy-Widom fluctuations of order theta^(1/6): mean -1.77, sd 0.9
    for nm, x in (('row', [l[0] for l, _ in out]), ('column', [len(l) for l, _ in out])):
        z = (np.array(x) - s) / theta**(1. / 6)
        rec.expect(np.all(np.abs(z + 1.77) < 9) and abs(z.mean() + 1.77) < .7 + 8. / math.sqrt(n), key + '/' + nm,
                   'longest {}: normalized mean {:.2f}'.format(nm, z.mean()), theta=theta, seed=seed)


def sizes(rec, theta, seed, n):
    """law of the size for moderate parameters, beyond its mean"""
    key = 'sizes'
    out = draw(rec, theta, seed, n, key)
    if out is None:
        return
    x = np.array([sum(l) for l, _ in out])
    lo, hi = int(st.poisson.ppf(1e-4, theta)), int(st.poisson.ppf(1 - 1e-4, theta))
    probs = {k: st.poisson.pmf(k, theta) for k in range(lo, hi + 1)}
    probs['below'], probs['above'] = st.poisson.cdf(lo - 1, theta), st.poisson.sf(hi, theta)
    c = collections.Counter('below' if v < lo else 'above' if v > hi else int(v) for v in x)
    pv, d = stats.gof(c, probs)
    z, d2 = stats.ztest(x, theta, math.sqrt(theta))
    # longest row and column have the same law, number of descents of the shape is symmetric
    dif = np.array([l[0] - len(l) if l else 0 for l, _ in out], float)
    zs = dif.mean() / (dif.std() / math.sqrt(n) + 1e-12)
    rec.observe((key, theta, seed), n=n, sample=dict(theta=theta, seed=seed, stat=d, mean=d2, symmetry=float(zs)))
    rec.expect(pv > stats.ALPHA and z > stats.ALPHA, key, 'size is not Poisson({}): {} / {}'.format(theta, d, d2), theta=theta, seed=seed)
    rec.expect(abs(zs) < 6.5, key + '/symmetry', 'rows and columns have different laws (z={:.1f})'.format(zs), theta=theta, seed=seed)


def histories(rec, seed):
    """samples of one object are independent draws; records of earlier ones do not change"""
    for theta in (1, 4., np.float64(12.5), np.int64(9)):
        pp = PoissonizedPlancherel(theta)
        kept = []
        for i in range(6):
            ok, _ = rec.call('history', pp.sample, random_state=seed + i, replay=dict(theta=theta))
            if not ok:
                return
            fresh = PoissonizedPlancherel(theta)
            fresh.sample(random_state=seed + i)
            kept.append((list(pp.list_of_young_diag[-1]), list(pp.list_of_samples[-1])))
            rec.observe(('history', theta, i))
            rec.expect(kept[-1] == (list(fresh.list_of_young_diag[-1]), list(fresh.list_of_samples[-1])), 'history/fresh',
                       'same seed, another draw after earlier samples', theta=theta, draw=i)
            rec.expect([(list(a), list(b)) for a, b in zip(pp.list_of_young_diag, pp.list_of_samples)] == kept,
                       'history/records', 'earlier records changed', theta=theta, draw=i)


def diagrams(rec, seed, count):
    """russian-convention drawing: boundary cells of the diagram, and the limit shape"""
    r = np.random.RandomState(seed)
    for c in range(count):
        if c % 3:
            lam = sorted(r.randint(1, 9, size=r.randint(1, 8)).tolist(), reverse=True)
        else:       # many rows, far from empty ones, plateaus
            top = int(r.choice([3, 12, 40, 150]))
            vals = r.randint(int(r.randint(1, top)), top + 1, size=r.randint(1, 5))
            lam = sorted(r.choice(vals, size=r.randint(1, 60)).tolist(), reverse=True)
        ok, xy = rec.call('diagram', xy_young_ru, np.array(lam), replay=dict(shape=lam))
        if not ok:
            continue
        pts = np.asarray(xy)
        # back to french coordinates
        fr = np.column_stack([(pts[:, 0] + pts[:, 1]) / 2, (pts[:, 1] - pts[:, 0]) / 2]).reshape(-1, 4)
        got = sorted(tuple(np.round(s).astype(int)) for s in fr)
        rec.expect(np.max(np.abs(fr - np.round(fr))) < 1e-9, 'diagram', 'non integer corner', shape=lam)
        want = [(0, i + 1, l, i + 1) for i, l in enumerate(lam)]
        for j in range(1, lam[0] + 1):
            want.append((j, 0, j, sum(1 for l in lam if l >= j)))
        rec.observe(('diagram', tuple(lam)))
        rec.expect(got == sorted(want), 'diagram', 'segments are not the grid of the diagram', shape=lam,
                   got=got, want=sorted(want))
    for x in (np.linspace(-3, 3, 301), 2 + np.array([s * e for s in (-1, 1) for e in 10.0**np.arange(-15, 1)]), -2 + np.array([s * e for s in (-1, 1) for e in 10.0**np.arange(-15, 1)]), np.linspace(-2, 2, 5001), 10.0**np.arange(-300, 300, 25), -10.0**np.arange(-10, 10), np.arange(-4, 5), np.array([-2., 2., 0.]), r.randn(5, 3), 1.5, -2, 3, 0, np.float64(.3), np.array(-1.2), [1, 2, -3], [.5, -.1, 2.5],
              (-3., 0., 1.), [[1, .5], [2, 4]], np.float32(1.), []):
        orig, keep = x, np.array(x)
        ok, w = rec.call('limit_shape', limit_shape, x, replay=dict(x=x))
        if not ok:
            continue
        x = np.asarray(x, float)
        y = np.where(np.abs(x) >= 2, np.abs(x), 2 / np.pi * (x * np.arcsin(np.clip(x / 2., -1, 1)) +
                                                              np.sqrt(np.maximum(4. - x**2, 0))))
        rec.observe(('limit_shape', x.shape, type(orig).__name__, repr(orig)[:40]))
        rec.expect(np.shape(w) == x.shape and np.max(np.abs(w - y), initial=0) < (1e-6 if isinstance(orig, np.float32) else 1e-12), 'limit_shape', 'wrong value', x=x)
        rec.expect(np.array_equal(keep, np.array(orig)), 'limit_shape/mutation', 'input modified')


def jobs(tier, seed):
    th = tier == 'thorough'
    f = 1 if not th else 8
    out = []
    for i, theta in enumerate((0, .3, 1, 2.5, 5)):
        for rep in range(2):
            out.append(Job('law#%s/%d' % (theta, rep), law, timeout=800, theta=theta, seed=1000 * seed + 10 * i + rep,
                           n=(30000 if theta else 50) * f))
    for i, theta in enumerate((6, 20, 10)):
        for rep in range(2 * f):
            out.append(Job('bessel#%s/%d' % (theta, rep), bessel, timeout=800, theta=theta,
                           seed=1000 * seed + 500 + 10 * i + rep * 37, n=15000))
    if th:
        out.append(Job('bessel#100', bessel, timeout=800, theta=100, seed=seed, n=10000))
    for i, theta in enumerate((50, 1000, 4500, 6000, 20000, 45000) + ((200000,) if th else ())):
        out.append(Job('large#%s' % theta, large, timeout=800, theta=theta, seed=seed + i,
                       n=max(2, int(60000 / theta)) * f))
    for i, (theta, n) in enumerate(((35, 12000), (50, 12000), (61, 18000), (80, 24000), (99.5, 24000), (100, 24000), (128, 16000), (300, 5000))):
        out.insert(0, Job('sizes#%s' % theta, sizes, timeout=800, theta=theta, seed=1000 * seed + 700 + i, n=n * f))
    out.append(Job('histories', histories, timeout=300, seed=seed))
    out.append(Job('diagrams', diagrams, timeout=300, seed=seed, count=300 * f))
    return out
