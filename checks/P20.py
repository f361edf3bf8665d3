"""P20: banded matrix models sample the beta-ensemble of their reference measure."""
import numpy as np

from mon import beta as mb
from mon import stats
from mon.core import Job
from dppy.beta_ensembles import (HermiteEnsemble, LaguerreEnsemble, JacobiEnsemble,
                                 CircularEnsemble)

RULE = ('each case = (ensemble, N, beta, reference parameters) with n independent draws from one object: the '
        'empirical laws of sufficient statistics (sums, log-determinants, log-Vandermonde) are compared with '
        'exact laws/cumulants derived from Selberg-type integrals, order statistics for N <= 3 with quadrature '
        'of the joint density; every draw is monitored for cardinality and support; non-trivial = N >= 2')
ASSUMPTIONS = ['tests at level 1e-9 (KS) / 7.5 sigma with fixed seeds', 'beta in [0.1, 20]']
CLS = dict(hermite=HermiteEnsemble, laguerre=LaguerreEnsemble, jacobi=JacobiEnsemble, circular=CircularEnsemble)


def kwargs_of(kind, par, sizes):
    if sizes:
        return dict(sizes)
    return {'hermite': lambda: dict(loc=par[0], scale=par[1]), 'laguerre': lambda: dict(shape=par[0], scale=par[1]),
            'jacobi': lambda: dict(a=par[0], b=par[1]), 'circular': lambda: {}}[kind]()


def valid(rec, key, kind, N, s, rp):
    s = np.asarray(s)
    if not rec.expect(s.shape == (N,) and np.all(np.isfinite(s)), key + '/shape',
                      '{} points instead of {} (or not finite)'.format(s.shape, N), **rp):
        return False
    if kind == 'circular':
        ok = np.max(np.abs(np.abs(s) - 1)) < 1e-7
    elif kind == 'hermite':
        ok = np.isrealobj(s)
    elif kind == 'laguerre':
        ok = np.isrealobj(s) and s.min() > -1e-9 * max(1, s.max())
    else:
        ok = np.isrealobj(s) and s.min() > -1e-9 and s.max() < 1 + 1e-9
    return rec.expect(ok, key + '/support', 'points outside of the support', **rp)


def collect(rec, key, kind, model, beta, N, kw, n, seed, rp):
    ens = CLS[kind](beta)
    rng = np.random.RandomState(seed)
    f = ens.sample_banded_model if model == 'banded' else ens.sample_full_model
    X = []
    for _ in range(n):
        ok, r = rec.call(key, f, size_N=N, random_state=rng, replay=rp, **kw)
        if not ok or not valid(rec, key, kind, N, ens.list_of_samples[-1], rp):
            return None, ens
        X.append(ens.list_of_samples[-1])
    rec.expect(len(ens.list_of_samples) == n, key + '/bookkeeping', 'list_of_samples', **rp)
    X = np.array(X)
    # eigenvalues are computed up to rounding errors relative to the largest one
    if kind == 'laguerre':
        X = np.maximum(X, 1e-15 * X.max(axis=1, keepdims=True))
    if kind == 'jacobi':
        X = np.clip(X, 1e-15, 1 - 1e-15)
    return X, ens


def case(rec, kind, N, beta, par, n, seed, sizes=None):
    key = 'banded/' + kind
    rp = dict(kind=kind, N=N, beta=beta, par=par, sizes=sizes, seed=seed, n=n)
    X, ens = collect(rec, key, kind, 'banded', beta, N, kwargs_of(kind, par, sizes), n, seed, rp)
    if X is None:
        return
    if beta == 0:
        iid(rec, key, kind, par, X, rp)
        return
    res = mb.judge(rec, key, kind, N, beta, par, X, rp)
    if N <= 3 and kind != 'circular' and beta <= 30 and (kind == 'hermite' or max(par[:1] if kind == 'laguerre' else par) <= 50):
        mb.judge_order(rec, key, kind, N, beta, par, X, rp)
    rec.observe((kind, N, beta, par, seed), n=n, nontrivial=N > 1, sample=dict(rp, stats=res))


def iid(rec, key, kind, par, X, rp):
    import scipy.stats as st
    if kind == 'circular':
        pv, d = stats.ks(np.angle(X).ravel(), st.uniform(-np.pi, 2 * np.pi).cdf)
    else:
        law = {'hermite': lambda: st.norm(*par), 'laguerre': lambda: st.gamma(par[0], scale=par[1]),
               'jacobi': lambda: st.beta(*par)}[kind]()
        pv, d = stats.ks(X.ravel(), law.cdf)
    pv2 = 1.
    if X.shape[1] > 1:
        v = np.angle(X) if kind == 'circular' else X
        c = np.corrcoef(v[:, 0], v[:, 1])[0, 1]
        rec.expect(abs(c) < 7 / np.sqrt(len(X)), key + '/independence', 'beta=0 points are correlated', **rp)
    rec.observe((key, 'iid', repr(rp)), n=len(X), sample=dict(rp, stat=d))
    rec.expect(pv > stats.ALPHA, key + '/iid', 'beta=0: ' + d, **rp)


def configs(seed, th):
    r = np.random.RandomState(seed)
    Ns = (1, 2, 3, 5, 12) + ((30,) if th else ())
    out = []
    for beta in (0.3, 1, 2, 4, 2.7, 10) + ((0.1, 20) if th else ()):
        for N in Ns:
            out.append(('hermite', N, beta, (0., np.sqrt(2)), None))
            out.append(('hermite', N, beta, (round(3 * r.randn(), 3), round(.2 + 3 * r.rand(), 3)), None))
            out.append(('laguerre', N, beta, (round(.3 + 3 * r.rand(), 3), round(.2 + 3 * r.rand(), 3)), None))
            M = N + int(r.randint(0, 6))
            out.append(('laguerre', N, beta, (beta / 2. * (M - N + 1), 2.), dict(size_M=M)))
            out.append(('jacobi', N, beta, (round(.4 + 3 * r.rand(), 3), round(.4 + 3 * r.rand(), 3)), None))
            M1, M2 = N + int(r.randint(0, 6)), N + int(r.randint(0, 6))
            if beta > .5:
                out.append(('jacobi', N, beta, (beta / 2. * (M1 - N + 1), beta / 2. * (M2 - N + 1)),
                            dict(size_M1=M1, size_M2=M2)))
    # small parameters, for which the shape parameters of the coefficients are below 1
    for beta, a, b in ((.6, .2, .3), (.3, .15, .15), (1, .1, .6), (.4, 1.5, .2), (2, .3, .2), (.25, .5, .5), (5, .1, 8.)):
        for N in (1, 2, 3, 4, 7):
            out.append(('jacobi', N, beta, (a, b), None))
            out.append(('laguerre', N, beta, (a, 1 + b), None))
    for beta in (1, 2, 3, 4, 7, 11, 12, 16, 25):
        for N in (1, 2, 3, 4, 5, 8) + ((15,) if th else ()):
            out.append(('circular', N, beta, None, None))
    for N in (1, 4):
        out += [('hermite', N, 0, (1., 2.), None), ('laguerre', N, 0, (1.5, .7), None),
                ('jacobi', N, 0, (.7, 2.), None), ('circular', N, 0, None, None)]
    return out


def sweep(seed, th):
    """every size up to 40 and a few larger ones, very small and very large beta; (config, n)"""
    r = np.random.RandomState(seed + 77)
    out = []
    sizes = list(range(1, 41)) + [64, 65, 100, 129]
    betas = [.02, .05, .1, .5, 1, 1.5, 2, 3, 4, 6, 30, 100, 1000]
    for N in sizes:
        for rep in range(1 if not th else 3):
            n = (800 if N <= 40 else 150) * (1 if not th else 5)
            h, l, j = betas[r.randint(13)], betas[r.randint(13)], betas[r.randint(3, 12)]
            out.append((('hermite', N, h, (round(3 * r.randn(), 3), round(.2 + 3 * r.rand(), 3)), None), n))
            out.append((('laguerre', N, l, (round(float(10**r.uniform(-.3, 2.7)), 3), round(.2 + 3 * r.rand(), 3)), None), n))
            M = N + int(r.choice([0, 1, 10, 300]))
            out.append((('laguerre', N, j, (j / 2. * (M - N + 1), 2.), dict(size_M=M)), n))
            out.append((('jacobi', N, j, (round(float(10**r.uniform(-.3, 2)), 3), round(float(10**r.uniform(-.3, 2)), 3)), None), n))
            out.append((('circular', N, int(r.choice([1, 2, 3, 4, 5, 8, 40])), None, None), n))
    for N in (2, 3):
        for b in (.02, .05):
            out.append((('hermite', N, b, (0., 1.), None), 30000))
    for N in (1, 2, 3):
        for b in (.02, .1, 2):
            for a in (.01, .04):
                out.append((('laguerre', N, b, (a, 1.3), None), 5000))
                out.append((('jacobi', N, b, (a, 1.5), None), 5000))
                out.append((('jacobi', N, b, (a, .02), None), 5000))
    for N in (2, 3, 6, 10):
        for b in (.02, .05, .1):
            out.append((('hermite', N, b, (0., 1.), None), 4000))
            out.append((('laguerre', N, b, (1., 1.), None), 4000))
            out.append((('jacobi', N, b, (1., 1.5), None), 4000))
    return out


def sweep_batch(rec, cases, seed):
    for i, ((kind, N, beta, par, sizes), n) in cases:
        case(rec, kind, N, beta, par, n, seed * 1000 + 500 + i, sizes)


def batch(rec, cases, n, seed):
    for i, (kind, N, beta, par, sizes) in cases:
        case(rec, kind, N, beta, par, n if N > 3 or kind == 'circular' else 2 * n, seed * 1000 + i, sizes)


def jobs(tier, seed):
    th = tier == 'thorough'
    cs = list(enumerate(configs(seed, th)))
    nb = 32
    sw = list(enumerate(sweep(seed, th)))
    return [Job('sweep#%d' % b, sweep_batch, timeout=880, cases=sw[b::16], seed=seed) for b in range(16)] + [
            Job('banded#%d' % b, batch, timeout=880, cases=cs[b::nb], n=4000 if not th else 20000, seed=seed)
            for b in range(nb)]
