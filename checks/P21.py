"""P21: full matrix models (beta = 1, 2, 4), Haar matrices, Ginibre."""
import numpy as np
import scipy.stats as st

from mon import beta as mb
from mon import stats
from mon.core import Job
from checks import P20
from dppy.beta_ensembles import CircularEnsemble, GinibreEnsemble

RULE = ('each case = (ensemble, N, sizes M, beta, Haar mode) with n independent draws: same exact oracles as for '
        'the banded models with the reference measure induced by the sizes; CUE by traces, determinants and '
        'log-Vandermonde; orthogonal Haar by exact trace moments; Ginibre by Kostlan radii, exact trace law and '
        'pair distances; every draw is monitored for cardinality and support')
ASSUMPTIONS = ['tests at level 1e-9 (KS) / 7.5 sigma with fixed seeds']


def case(rec, kind, N, beta, sizes, n, seed, extra=None):
    key = 'full/' + kind
    par = {'hermite': lambda: (0., np.sqrt(2.)),
           'laguerre': lambda: (beta / 2. * (sizes['size_M'] - N + 1), 2.),
           'jacobi': lambda: (beta / 2. * (sizes['size_M1'] - N + 1), beta / 2. * (sizes['size_M2'] - N + 1)),
           'circular': lambda: None}[kind]()
    kw = dict(sizes or {}, **(extra or {}))
    rp = dict(kind=kind, N=N, beta=beta, par=par, seed=seed, n=n, **kw)
    if extra:
        key += '/' + '/'.join(str(v) for v in extra.values())
    X, ens = P20.collect(rec, key, kind, 'full', beta, N, kw, n, seed, rp)
    if X is None:
        return
    if beta == 0:
        P20.iid(rec, key, kind, par, X, rp)
        return
    res = mb.judge(rec, key, kind, N, beta, par, X, rp)
    if N <= 3 and kind != 'circular':
        mb.judge_order(rec, key, kind, N, beta, par, X, rp)
    rec.observe((key, N, beta, repr(sizes), seed), n=n, nontrivial=N > 1, sample=dict(rp, stats=res))


def haar_orthogonal(rec, N, mode, n, seed):
    """beta=1: eigenvalues of Haar orthogonal matrices: real characteristic polynomial,
    E tr O^k = 1 if k even else 0, Var tr O^k = k for small k (N >= 2k)"""
    key = 'haar/orthogonal/' + mode
    rp = dict(N=N, mode=mode, n=n, seed=seed)
    X, ens = P20.collect(rec, key, 'circular', 'full', 1, N, dict(haar_mode=mode), n, seed, rp)
    if X is None:
        return
    cp = np.array([np.poly(x) for x in X])
    rec.expect(np.max(np.abs(cp.imag)) < 1e-7, key + '/conjugate', 'spectrum is not closed under conjugation', **rp)
    det = np.prod(X, axis=1).real
    p = stats.binom_test(int((det > 0).sum()), n, .5)
    rec.expect(p > stats.ALPHA, key + '/det', 'determinant +1 with frequency {}'.format((det > 0).mean()), **rp)
    res = {}
    for k in (1, 2, 3):
        if N < 2 * k:
            continue
        t = (X**k).sum(1).real
        m = 1. if k % 2 == 0 else 0.
        z1 = (t.mean() - m) / np.sqrt(k / n)
        v = (t - m)**2
        z2 = (v.mean() - k) / (v.std() / np.sqrt(n))
        res['tr%d' % k] = (float(z1), float(z2))
        rec.expect(abs(z1) < 7.5 and abs(z2) < 7.5, key + '/trace%d' % k,
                   'tr O^{}: mean {:.4f} (exact {}), variance {:.4f} (exact {})'.format(k, t.mean(), m, v.mean(), k), **rp)
    if N == 1:
        rec.expect(np.all(np.abs(X.imag) < 1e-9), key, 'not +-1', **rp)
    rec.observe((key, N), n=n, nontrivial=N > 1, sample=dict(rp, stats=res))


def haar_features(X):
    det = np.prod(X, axis=1)
    f = {'tr%d' % k: (X**k).sum(1).real for k in (1, 2, 3)}
    f.update(det_tr=det.real * f['tr1'], det_tr2=det.real * f['tr2'], at_one=np.abs(np.prod(1 - X, axis=1)),
             at_i=np.abs(np.prod(1j - X, axis=1)), at_minus_one=np.abs(np.prod(1 + X, axis=1)), tr12=f['tr1'] * f['tr2'])
    return f


def haar_pair(rec, beta, mode, N, n, seed):
    """spectra of Haar orthogonal / unitary matrices against an independent generator (QR of Gaussian matrices, signs or phases
    made uniform by hand)"""
    key = 'haar_pair/beta{}/{}'.format(beta, mode)
    rp = dict(beta=beta, mode=mode, N=N, n=n, seed=seed)
    X, _ = P20.collect(rec, key, 'circular', 'full', beta, N, dict(haar_mode=mode), n, seed, rp)
    if X is None:
        return
    r = np.random.RandomState(seed + 77)
    G = r.randn(4 * n, N, N) + (1j * r.randn(4 * n, N, N) if beta == 2 else 0)
    Q, R = np.linalg.qr(G)
    d = np.diagonal(R, axis1=1, axis2=2)
    Y = np.linalg.eigvals(Q * (d / np.abs(d))[:, None, :])
    fx, fy = haar_features(np.asarray(X)), haar_features(Y)
    res = {}
    for nm in fx:
        res[nm] = pv = stats.ks2(np.round(fx[nm], 7), np.round(fy[nm], 7))[0]
        rec.expect(pv > stats.ALPHA, key + '/' + nm, '{} of the spectrum does not have the law of Haar matrices: p={:.2g}'.format(
            nm, pv), **rp)
    rec.observe((key, N), n=n, nontrivial=N > 1, sample=dict(rp, stats=res))


def circular_density(rec, beta, mode, N, n, seed):
    """the documented joint density |Delta(e^{i theta})|^beta for beta = 1, 4"""
    key = 'circular_density/beta{}/{}'.format(beta, mode)
    rp = dict(beta=beta, mode=mode, N=N, n=n, seed=seed)
    X, _ = P20.collect(rec, key, 'circular', 'full', beta, N, dict(haar_mode=mode), n, seed, rp)
    if X is not None:
        mb.judge(rec, key + '/density', 'circular', N, beta, None, X, rp)
        rec.observe((key, N), n=n, sample=rp)


def ginibre(rec, N, n, seed):
    key = 'ginibre'
    rp = dict(N=N, n=n, seed=seed)
    ens = GinibreEnsemble()
    rng = np.random.RandomState(seed)
    X = []
    for _ in range(n):
        ok, r = rec.call(key, ens.sample_full_model, size_N=N, random_state=rng, replay=rp)
        if not ok:
            return
        s = np.asarray(ens.list_of_samples[-1])
        if not rec.expect(s.shape == (N,) and np.all(np.isfinite(s)), key + '/shape', 'shape', **rp):
            return
        X.append(s)
    X = np.array(X)
    r2 = np.abs(X)**2
    tests = [('sum of squared radii', r2.sum(1), st.gamma(N * (N + 1) / 2.).cdf),
             ('largest squared radius', r2.max(1), lambda t: np.prod([st.gamma(i).cdf(t) for i in range(1, N + 1)], axis=0)),
             ('smallest squared radius', r2.min(1),
              lambda t: 1 - np.prod([st.gamma(i).sf(t) for i in range(1, N + 1)], axis=0)),
             ('re trace', X.sum(1).real, st.norm(0, np.sqrt(N / 2.)).cdf),
             ('im trace', X.sum(1).imag, st.norm(0, np.sqrt(N / 2.)).cdf)]
    if N > 1:
        # independence of centre of mass and shape: sum |z - mean|^2 ~ Gamma(N(N+1)/2 - 1)
        c = X - X.mean(1)[:, None]
        tests.append(('squared radii about the mean', (np.abs(c)**2).sum(1), st.gamma(N * (N + 1) / 2. - 1).cdf))
    ang = np.angle(X[np.arange(n), np.argmax(r2, axis=1)])
    tests.append(('argument of the largest', ang, st.uniform(-np.pi, 2 * np.pi).cdf))
    res = {}
    for nm, v, cdf in tests:
        pv, d = stats.ks(v, cdf)
        res[nm] = d
        rec.expect(pv > stats.ALPHA, key + '/' + nm, '{}: {} (p={:.2g})'.format(nm, d, pv), **rp)
    rec.observe((key, N), n=n, nontrivial=N > 1, sample=dict(rp, stats=res))
    y = ens.normalize_points(X[-1].copy())
    rec.expect(np.max(np.abs(y - X[-1] / np.sqrt(N))) < 1e-12, key + '/normalize', 'normalisation by sqrt(N)', **rp)


def batch(rec, cases, n, seed):
    for i, c in cases:
        nn = n if c[1] > 3 else 2 * n
        case(rec, *c[:4], n=nn, seed=seed * 1000 + i, extra=c[4])


def big_batch(rec, cases, seed):
    for i, (c, m) in cases:
        case(rec, *c[:4], n=m, seed=seed * 1000 + 700 + i, extra=c[4] if len(c) > 4 else None)


def jobs(tier, seed):
    th = tier == 'thorough'
    r = np.random.RandomState(seed)
    cs = []
    for beta in (1, 2, 4):
        for N in (1, 2, 3, 6, 10) + ((25,) if th else ()):
            cs.append(('hermite', N, beta, None, None))
            for d in (0, 1, 5):
                cs.append(('laguerre', N, beta, dict(size_M=N + d), None))
            for d1, d2 in ((0, 0), (1, 3), (4, 0)):
                cs.append(('jacobi', N, beta, dict(size_M1=N + d1, size_M2=N + d2), None))
    for mode in ('QR', 'Hermite'):
        for N in (1, 2, 3, 4, 7):
            cs.append(('circular', N, 2, None, dict(haar_mode=mode)))
    cs += [('hermite', 4, 0, None, None), ('circular', 4, 0, None, dict(haar_mode='QR'))]
    cs = list(enumerate(cs))
    nb = 24
    n = 1500 if not th else 20000
    out = [Job('full#%d' % b, batch, timeout=880, cases=cs[b::nb], n=n, seed=seed) for b in range(nb)]
    for mode in ('QR', 'Hermite'):
        for N in (1, 2, 3, 6, 9):
            out.append(Job('haarO#%s/%d' % (mode, N), haar_orthogonal, timeout=880, N=N, mode=mode, n=2 * n, seed=seed + N))
    for mode in ('QR', 'Hermite'):
        for beta in (1, 2):
            for N in (2, 3, 4, 5, 8):
                out.append(Job('haarpair#%d/%s/%d' % (beta, mode, N), haar_pair, timeout=880, beta=beta, mode=mode, N=N,
                               n=6000 if not th else 40000, seed=seed + 300 + N))
    for beta, mode in ((1, 'QR'), (1, 'Hermite'), (4, 'Hermite')):
        out.append(Job('circular_density#%d/%s' % (beta, mode), circular_density, timeout=880, beta=beta, mode=mode,
                       N=4, n=n, seed=seed))
    big = []
    for N, m in ((16, 300), (33, 200), (70, 80), (110, 40)):
        m *= 1 if not th else 10
        for beta in (1, 2, 4):
            big.append((('hermite', N, beta, None), m))
            big.append((('laguerre', N, beta, dict(size_M=N + int(r.choice([0, 3, 200])))), m))
            big.append((('jacobi', N, beta, dict(size_M1=N + int(r.choice([1, 3, 100])), size_M2=N + int(r.choice([1, 5, 100])))), m))
        out.append(Job('ginibre#%d' % N, ginibre, timeout=880, N=N, n=2 * m, seed=seed + 5 * N))
        for mode in ('QR', 'Hermite'):
            big.append((('circular', N, 2, None, dict(haar_mode=mode)), m))
            out.append(Job('haarO#%s/%d' % (mode, N), haar_orthogonal, timeout=880, N=N, mode=mode, n=2 * m, seed=seed + N))
    big = list(enumerate(big))
    out += [Job('big#%d' % b, big_batch, timeout=880, cases=big[b::22], seed=seed) for b in range(22)]
    for N in (1, 2, 3, 5, 10):
        out.append(Job('ginibre#%d' % N, ginibre, timeout=880, N=N, n=2 * n, seed=seed + 5 * N))
    return out
