"""P25: Gibbs sampler on Jacobi matrices for polynomial potentials."""
import numpy as np
import scipy.linalg as la
import scipy.stats as st

from mon import stats
from mon.core import Job
import dppy.beta_ensemble_polynomial_potential as pp
import dppy.beta_ensemble_polynomial_potential_core as pc

RULE = ('conditional polynomials are compared with finite differences of Tr V of random tridiagonal matrices at all '
        'positions; the conditional samplers are tested in law (KS) against quadrature of random conditionals of '
        'all supported shapes, MALA for invariance, reversibility and convergence; the whole Gibbs chain is tested '
        'against exact laws for quadratic potentials and quadrature for N = 1, 2 with quartic and sextic potentials; '
        'a boundary monitor reconstructs the Jacobi matrix from the conditional draws and compares every '
        'requested conditional and every recorded spectrum; non-trivial = N >= 2 or a non-quadratic conditional')
ASSUMPTIONS = ['long chains are thinned and judged with thresholds inflated by the integrated autocorrelation time',
               'quadrature oracles are accurate to 1e-3 in sup norm']


# ---------------------------------------------------------------- conditionals
def tr_V(V, a, b):
    """a, b: coefficients 1..N, 1..N-1 (b squared off-diagonals); V: poly1d"""
    T = np.diag(a) + np.diag(np.sqrt(b), 1) + np.diag(np.sqrt(b), -1)
    out, M = 0.0, np.eye(len(a))
    for n, g in enumerate(V.coef[::-1]):
        if n:
            M = M @ T
            out += g * np.trace(M)
    return out


def conditionals(rec, Ns, reps, seed):
    rng = np.random.RandomState(seed)
    for N in Ns:
        for _ in range(reps):
            deg = int(rng.choice([2, 4, 6, 6]))
            g = np.zeros(7)
            g[1:deg + 1] = np.round(rng.randn(deg) * rng.choice([0, 1, 1, 3], size=deg), 3)
            g[deg] = abs(g[deg]) + .1
            V = np.poly1d(g[:deg + 1][::-1])
            a, b = np.zeros(N + 3), np.zeros(N + 3)
            a[1:N + 1] = rng.randn(N)
            b[1:N] = rng.gamma(1., 1., N - 1)
            scale = abs(tr_V(V, a[1:N + 1], b[1:N])) + 1
            for nm, fn, arr, top in (('a', pc.polynomial_in_negative_log_conditional_a_coef, a, N),
                                     ('b', pc.polynomial_in_negative_log_conditional_b_coef, b, N - 1)):
                key = 'conditional/' + nm
                for i in range(1, top + 1):
                    rp = dict(N=N, i=i, V=V.coef, a=a, b=b, seed=seed)
                    before = (a.copy(), b.copy())
                    ok, P = rec.call(key, fn, i, a, b, V, replay=rp)
                    if not ok:
                        continue
                    rec.expect(np.array_equal(a, before[0]) and np.array_equal(b, before[1]), key + '/mutation',
                               'coefficients modified', **rp)
                    xs = rng.randn(4) if nm == 'a' else rng.gamma(1., 1., 4)
                    old, vals = arr[i], []
                    for x in xs:
                        arr[i] = x
                        vals.append(tr_V(V, a[1:N + 1], b[1:N]))
                    arr[i] = old
                    vals = np.array(vals)
                    d = (vals - vals[0]) - (P(xs) - P(xs[0]))
                    tol = 1e-10 * (scale + np.max(np.abs(vals)))
                    rec.observe((key, N, i, tuple(V.coef), tuple(np.round(arr, 6))), nontrivial=N > 1,
                                sample=dict(rp, max_error=float(np.max(np.abs(d)))))
                    rec.expect(np.max(np.abs(d)) < tol, key, 'conditional of {}_{} (N={}) is not the one of the joint '
                               'law exp(-Tr V): off by {:.3g}'.format(nm, i, N, np.max(np.abs(d))), **rp)


# ---------------------------------------------------------------- samplers
def grid_cdf(P, shape, lo, hi):
    """cdf of x^(shape-1) exp(-P) (on x>0) or exp(-P) as a callable"""
    if shape is None:
        y = np.linspace(lo, hi, 200001)
        l = -P(y)
        s = None
    else:
        s = min(shape, 1.)
        y = np.linspace(0, hi**s, 200001)
        x = y**(1 / s)
        with np.errstate(all='ignore'):
            l = np.where(x > 0, (shape - s) * np.log(x), 0 if shape <= 1 else -np.inf) - P(x)
    d = np.exp(l - l.max())
    c = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
    c /= c[-1]
    if s is None:
        return lambda t: np.interp(t, y, c)
    return lambda t: np.interp(np.maximum(t, 0)**s, y, c)


def judge_law(rec, key, x, P, shape, rp, thr=3.3):
    x = np.asarray(x)
    if not rec.expect(np.all(np.isfinite(x)) and not np.iscomplexobj(x), key + '/real',
                      'draws are not finite real numbers', **rp):
        return None
    if shape is not None:
        rec.expect(np.all(x >= 0), key + '/support', 'negative draws', **rp)
    m, s = x.mean(), x.std() + 1e-3
    F = grid_cdf(P, shape, x.min() - 6 * s, x.max() + 6 * s)
    D = stats_sup(x, F)
    rec.expect(D * np.sqrt(len(x)) < thr + 1e-3 * np.sqrt(len(x)), key,
               'law off by {:.4f} in sup norm (n={}) for shape={}, P={}'.format(D, len(x), shape, list(P.coef)), **rp)
    return D


def stats_sup(x, F):
    x = np.sort(x)
    u = F(x)
    n = len(x)
    return float(max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)))


def random_conditional(rng, kind):
    """(P, shape) as met in a run of the Gibbs sampler, plus corner values"""
    if kind == 'a':
        r = rng.randint(4)
        g4 = 0. if r == 0 else np.exp(rng.uniform(-3, 5))
        g2 = 0. if r == 1 else np.exp(rng.uniform(-3, 5))
        g1 = 0. if r == 2 else np.exp(rng.uniform(-2, 4)) * rng.choice([-1, 1])
        c = [g4, 0., g2, g1, 0.]
        return np.poly1d(c), None
    shape = float(rng.choice([.25, .5, .75, 1., 1.25, 2., 5., 20., 60.]) * rng.choice([1., 1., rng.uniform(.6, 1.4)]))
    r = rng.randint(5)
    if r == 0:
        c = [np.exp(rng.uniform(-1, 4)), 0.]
    elif r == 1:
        c = [np.exp(rng.uniform(-1, 4)), rng.uniform(-10, 30), 0.]
    elif r == 2:
        c = [np.exp(rng.uniform(-1, 4)), rng.uniform(0, 30), rng.uniform(-20, 30), 0.]
    elif r == 3:
        c = [np.exp(rng.uniform(0, 3)), -rng.uniform(5, 40), rng.uniform(0, 50), 0.]
    else:
        c = [np.exp(rng.uniform(-1, 4)), 0., 0., 0.]
    return np.poly1d(c), shape


def exact_sampler(rec, kind, reps, n, seed):
    rng = np.random.RandomState(seed)
    for k in range(reps):
        P, shape = random_conditional(rng, kind)
        key = 'exact/' + ('a' if shape is None else 'b')
        rp = dict(P=P.coef, shape=shape, n=n, seed=seed + k)
        r = np.random.RandomState(seed + k)
        coef = P.coef.copy()
        kw = {} if shape is None else dict(shape=shape)
        ok, x = rec.call(key, lambda: np.array([pc.sampler_exact_convex_quartic(P, random_state=r, **kw)[0]
                                                for _ in range(n)]), replay=rp)
        if not ok:
            continue
        rec.expect(np.array_equal(P.coef, coef), key + '/mutation', 'polynomial modified', **rp)
        D = judge_law(rec, key, np.array(x), P, shape, rp)
        rec.observe((key, tuple(P.coef), shape), n=n, nontrivial=P.order > 1, sample=dict(rp, sup=D))


def mala(rec, reps, n, seed):
    """invariance from exact draws with large steps, and convergence from a fixed point"""
    rng = np.random.RandomState(seed)
    for k in range(reps):
        g6 = float(rng.choice([0., rng.uniform(.05, 1)]))
        c = [g6, 0., rng.uniform(-2, 2), rng.uniform(-1, 1), rng.uniform(-2, 3), rng.randn(), 0.]
        if not g6:
            c[2] = abs(c[2]) + .1
        V = np.poly1d(c)
        x = np.linspace(-6, 6, 40001)
        d = np.exp(-(V(x) - V(x).min()))
        cdf = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
        cdf /= cdf[-1]
        sd = np.sqrt(np.sum(d * x**2) / d.sum() - (np.sum(d * x) / d.sum())**2)
        start = np.interp(rng.rand(n), cdf, x)
        for mode in ('invariance', 'convergence'):
            key = 'mala/' + mode
            sigma, steps = (sd * rng.uniform(.5, 2.), 3) if mode == 'invariance' else (sd * .8, 400)
            m = n if mode == 'invariance' else n // 20
            rp = dict(V=V.coef, sigma=sigma, steps=steps, n=m, seed=seed + k)
            if mode == 'convergence':       # only for laws without barriers
                i = np.where(np.diff(np.sign(np.diff(d))) < 0)[0]
                if len(i) > 1:
                    continue
                st0 = np.full(m, x[np.argmax(d)] + sd)
            else:
                st0 = start[:m]
            r = np.random.RandomState(seed + k + 500)
            ok, y = rec.call(key, lambda: np.array([pc.sampler_mala(float(s), V=V, sigma=sigma, nb_steps=steps,
                                                                    random_state=r) for s in st0]), replay=rp)
            if not ok:
                continue
            D = stats_sup(y, lambda t: np.interp(t, x, cdf))
            thr = 3.3 / np.sqrt(m) + 1e-3
            rec.observe((key, tuple(V.coef), sigma), n=m, sample=dict(rp, sup=D, moved=float(np.mean(y != st0))))
            rec.expect(D < thr, key, 'MALA does not leave exp(-V) invariant / converge to it: sup {:.4f} '
                       '(threshold {:.4f})'.format(D, thr), **rp)


# ---------------------------------------------------------------- whole chain
def chain(rec, key, V, beta, N, passes, seed, rp, **kw):
    B = pp.BetaEnsemblePolynomialPotential(beta, V)
    ok, X = rec.call(key, B.sample_mcmc, N, passes, random_state=seed, return_chain_of_eig_vals=True, replay=rp,
                     cpu=200., **kw)
    if not ok:
        return None
    if not rec.expect(np.shape(X) == (N, passes) and np.all(np.isfinite(X)) and np.all(np.diff(X, axis=0) >= 0),
                      key + '/shape', 'chain of eigenvalues has shape {}'.format(np.shape(X)), **rp):
        return None
    return X.T


def quadratic(rec, cases, seed, exact=True):
    """V = g2 x^2 + g1 x: every pass of the exact sampler is an independent draw of a Hermite ensemble"""
    for k, (g2, g1, beta, N, n) in enumerate(cases):
        key = 'quadratic/' + ('exact' if exact else 'mala')
        rp = dict(g2=g2, g1=g1, beta=float(beta), beta_type=type(beta).__name__, N=N, n=n, seed=seed + k)
        X = chain(rec, key, [g2, g1, 0], beta, N, n, seed + k, rp, sample_exact_cond=exact)
        if X is None:
            continue
        mu, s2 = -g1 / (2 * g2), 1. / (beta * N * g2)
        Y = (X - mu) / np.sqrt(s2)
        tests = [('sum', stats.ks(Y.sum(1) / np.sqrt(N), st.norm.cdf)),
                 ('sum of squares', stats.ks((Y**2).sum(1), st.chi2(N + beta * N * (N - 1) / 2.).cdf))]
        if N > 1:
            r = np.random.RandomState(seed + 7000 + k)
            Z = np.array([la.eigvalsh_tridiagonal(
                r.randn(N), np.sqrt(r.gamma(beta * np.arange(N - 1, 0, -1) / 2.))) for _ in range(2 * n)])
            tests += [('largest', stats.ks2(Y[:, -1], Z[:, -1])), ('smallest', stats.ks2(Y[:, 0], Z[:, 0])),
                      ('range', stats.ks2(Y[:, -1] - Y[:, 0], Z[:, -1] - Z[:, 0])),
                      ('gap', stats.ks2(np.diff(Y, axis=1).min(1), np.diff(Z, axis=1).min(1))),
                      ('autocorrelation', (float(2 * st.norm.sf(abs(
                          np.corrcoef(Y[1:, -1], Y[:-1, -1])[0, 1]) * np.sqrt(n - 1))), 'correlation'))]
        rec.observe((key, g2, g1, float(beta), N), n=n, nontrivial=N > 1,
                    sample=dict(rp, tests={a: '{} p={:.2g}'.format(d, p) for a, (p, d) in tests}))
        for nm, (p, d) in tests:
            rec.expect(p > stats.ALPHA, key + '/' + nm, 'beta={} N={} V={}x^2+{}x: {} {} p={:.2g}'.format(
                beta, N, g2, g1, nm, d, p), **rp)


def n2_oracle(V, beta, N):
    """marginal cdfs of ordered points, N = 1, 2"""
    x = np.linspace(-8, 8, 16001)
    l = -.5 * beta * N * V(x)
    if N == 2:      # where the other point is at its best
        y = x[::16]
        with np.errstate(divide='ignore'):
            l = np.max(l[::16][:, None] + l[::16][None, :] + beta * np.log(np.abs(y[:, None] - y[None, :])), axis=1)
        x = y
    ok = x[l > l.max() - 45]
    m = 40001 if N == 1 else 1601
    x = np.linspace(ok[0] - .02, ok[-1] + .02, m)
    w = np.exp(-.5 * beta * N * V(x) - np.max(-.5 * beta * N * V(x)))
    if N == 1:
        W = [w]
    else:
        with np.errstate(divide='ignore'):
            lw = -.5 * beta * N * V(x)
            T = beta * np.log(np.abs(x[:, None] - x[None, :])) + lw[:, None] + lw[None, :]
        T = np.tril(np.exp(T - T.max()), -1)
        W = [T.sum(0), T.sum(1)]
    out = []
    h = (x[1] - x[0]) / 2
    for w in W:
        c = np.concatenate([[0], np.cumsum(w) / w.sum()])
        e = np.concatenate([x - h, [x[-1] + h]])
        out.append(lambda t, e=e, c=c: np.interp(t, e, c))
    return out


def iact(x):
    x = x - x.mean()
    n = len(x)
    f = np.fft.rfft(x, 2 * n)
    c = np.fft.irfft(f * np.conj(f))[:n].real
    c /= c[0]
    t = 1.
    for m in range(1, n // 50):
        t = 1 + 2 * c[1:m + 1].sum()
        if m > 5 * t:
            break
    return max(t, 1.)


def stationary(rec, cases, seed):
    for k, (V, beta, N, exact, passes) in enumerate(cases):
        key = 'stationary/' + ('exact' if exact else 'mala') + '/deg{}'.format(len(V) - 1)
        rp = dict(V=V, beta=beta, N=N, exact=exact, passes=passes, seed=seed + k)
        X = chain(rec, key, V, beta, N, passes, seed + k, rp, sample_exact_cond=exact)
        if X is None:
            continue
        X = X[passes // 20:]
        taus = [iact(X[:, j]) for j in range(N)]
        tau = max(taus)
        neff = len(X) / tau
        if neff < 200:
            rec.undecided('{}: effective sample size {:.0f}'.format(rp, neff))
            continue
        D = [stats_sup(X[:, j], F) for j, F in enumerate(n2_oracle(np.poly1d(V), beta, N))]
        thr = 4.5 / np.sqrt(neff) + 2e-3
        rec.observe((key, tuple(V), beta, N), n=passes, sample=dict(rp, sup=D, tau=tau, threshold=thr))
        rec.expect(max(D) < thr, key, 'V={} beta={} N={}: marginals of the chain off by {} (threshold {:.4f}, '
                   'autocorrelation time {:.1f})'.format(V, beta, N, np.round(D, 4), thr, tau), **rp)


def history(rec, reps, seed):
    """return modes are projections of one chain; calls on the same object do not interact; boundary monitor"""
    rng = np.random.RandomState(seed)
    for k in range(reps):
        exact = bool(rng.randint(2))
        deg = int(rng.choice([2, 4] if exact else [2, 4, 6]))
        c = [0.] * (deg + 1)
        c[0] = float(rng.uniform(.05, 1))
        if deg >= 4:
            c[deg - 2] = float(rng.uniform(0, 1))
        c[deg - 1] = float(rng.choice([0., rng.uniform(-1, 1)]))
        if deg == 6 and rng.rand() < .5:
            c[2] = float(rng.uniform(-1, 1))
        if not exact and deg >= 4:
            c[deg - 3] = float(rng.choice([0., rng.uniform(-.3, .3)]))
        beta, N, passes = float(rng.choice([.5, 1, 2, 4])), int(rng.choice([1, 2, 3, 6])), int(rng.choice([1, 2, 5]))
        kw = dict(sample_exact_cond=exact, nb_mala_steps=int(rng.choice([1, 10])))
        rp = dict(V=c, beta=beta, N=N, passes=passes, seed=seed + k, **kw)
        key = 'history'
        B = pp.BetaEnsemblePolynomialPotential(beta, c)
        coef = B.V.coef.copy()
        log = Boundary(rec, B, beta, N, rp)
        ok, E = rec.call(key, log.run, B.sample_mcmc, N, passes, random_state=seed + k,
                         return_chain_of_eig_vals=True, replay=rp, **kw)
        if not ok:
            continue
        log.judge(E, passes)
        ok, L = rec.call(key, B.sample_mcmc, N, passes, random_state=seed + k, return_chain_of_lambda_max=True,
                         replay=rp, **kw)
        ok2, P = rec.call(key, B.sample_mcmc, N, passes, random_state=seed + k, replay=rp, **kw)
        if not (ok and ok2):
            continue
        rec.observe((key, tuple(c), beta, N, passes), nontrivial=N > 1, sample=rp)
        rec.expect(np.shape(E) == (N, passes), key + '/shape', 'eigenvalue chain of shape {}'.format(np.shape(E)), **rp)
        rec.expect(np.shape(L) == (passes,) and np.allclose(L, E.max(axis=0), atol=1e-9), key + '/lambda_max',
                   'chain of largest eigenvalues differs from the maxima of the chain of spectra', **rp)
        rec.expect(np.shape(P) == (N,) and np.allclose(P, E[:, -1], atol=1e-9), key + '/last',
                   'plain result differs from the last spectrum of the chain', **rp)
        rec.expect(np.array_equal(B.V.coef, coef), key + '/mutation', 'potential modified by sampling', **rp)


class Boundary:
    """records the draws of the conditionals (if the sampler still goes through the public names) and
    reconstructs the Jacobi matrix the chain is in"""

    def __init__(self, rec, B, beta, N, rp):
        self.rec, self.V, self.beta, self.N, self.rp = rec, B.V, beta, N, rp
        self.log, self.blind = [], False

    def run(self, fn, *a, **k):
        names = ('sampler_exact_convex_quartic', 'sampler_mala')
        old = {n: getattr(pp, n, None) for n in names}

        def wrap(n):
            def f(*aa, **kk):
                out = old[n](*aa, **kk)
                try:
                    x = out[0] if n == names[0] else out
                    P = kk.get('P', kk.get('V'))
                    if P is None:
                        P = aa[0] if n == names[0] else aa[1]
                    sh = kk.get('shape', aa[1] if n == names[0] and len(aa) > 1 else None)
                    self.log.append((np.array(P.coef, dtype=float), sh, float(x)))
                except Exception:
                    # called in another way than the monitor knows: it sees nothing
                    self.blind = True
                return out
            return f
        try:
            for n in names:
                if old[n] is not None:
                    setattr(pp, n, wrap(n))
            return fn(*a, **k)
        finally:
            for n in names:
                if old[n] is not None:
                    setattr(pp, n, old[n])

    def judge(self, E, passes):
        N, rec = self.N, self.rec
        if self.blind or len(self.log) != passes * (2 * N - 1):
            rec.count('boundary_monitor_blind')
            return
        key = 'boundary'
        a, b = np.zeros(N + 3), np.zeros(N + 3)
        it = iter(self.log)
        for p in range(passes):
            for i in range(1, N + 1):
                for arr, nm in ((a, 'a'), (b, 'b')):
                    if nm == 'b' and i == N:
                        continue
                    coef, sh, x = next(it)
                    P = np.poly1d(coef)
                    if (sh is None) != (nm == 'a'):
                        rec.count('boundary_monitor_blind')
                        return
                    y = np.array([.1, .5, 1.3])
                    vals = []
                    for v in y:
                        arr[i] = v
                        vals.append(.5 * self.beta * N * tr_V(self.V, a[1:N + 1], b[1:N]))
                    d = np.diff(vals) - np.diff(P(y))
                    rec.expect(np.max(np.abs(d)) < 1e-8 * (1 + np.max(np.abs(vals))), key + '/' + nm,
                               'pass {}: conditional used for {}_{} is not the one of the current Jacobi matrix '
                               '(off by {:.3g})'.format(p, nm, i, np.max(np.abs(d))), **self.rp)
                    if sh is not None:
                        rec.expect(abs(sh - .5 * self.beta * (N - i)) < 1e-9, key + '/shape',
                                   'shape of b_{} is {} instead of {}'.format(i, sh, .5 * self.beta * (N - i)),
                                   **self.rp)
                    arr[i] = x
                    rec.count('conditionals_monitored')
            T = np.diag(a[1:N + 1]) + np.diag(np.sqrt(b[1:N]), 1) + np.diag(np.sqrt(b[1:N]), -1)
            rec.expect(np.allclose(np.linalg.eigvalsh(T), E[:, p], atol=1e-9), key + '/spectrum',
                       'spectrum recorded after pass {} is not the one of the current Jacobi matrix'.format(p), **self.rp)


def refused(rec):
    """requests outside of the documented domain are refused instead of answered with another law"""
    bad = [([0.], 2, {}), ([1., 0.], 2, {}), ([1., 0., 0., 0.], 2, {}), ([-1., 0., 0.], 2, {}),
           ([1., .3, 0., 0., 0., 0., 0.], 2, {}), ([1.] + [0.] * 8, 2, {}), ([1., 0., 0.], 0, {}), ([1., 0., 0.], -1, {}),
           ([1., .5, 0., 0., 0.], 2, dict(sample_exact_cond=True)), ([1., 0., -1., 0., 0.], 2, dict(sample_exact_cond=True)),
           ([1.] + [0.] * 6, 2, dict(sample_exact_cond=True))]
    for V, beta, kw in bad:
        rp = dict(V=V, beta=beta, **kw)
        try:
            pp.BetaEnsemblePolynomialPotential(beta, V).sample_mcmc(3, 2, random_state=0, **kw)
            out = None
        except ValueError as e:
            out = e
        except Exception as e:
            out = 'raised {}: {}'.format(type(e).__name__, e)
        rec.observe(('refused', tuple(V), beta, tuple(kw)), sample=rp)
        rec.expect(isinstance(out, ValueError), 'refused', 'unsupported request {} was not refused with ValueError '
                   '({})'.format(rp, out), **rp)


def jobs(tier, seed):
    s = 100000 * seed
    t = tier == 'thorough'
    J = []
    for k in range(8 if t else 2):
        J.append(Job('conditionals#%d' % k, conditionals, Ns=[1, 2, 3, 4, 5, 8], reps=40 if t else 8, seed=s + k))
    for k in range(16 if t else 4):
        J.append(Job('exact a#%d' % k, exact_sampler, kind='a', reps=20 if t else 4, n=20000 if t else 2000,
                     seed=s + 100 + 37 * k, timeout=800))
        J.append(Job('exact b#%d' % k, exact_sampler, kind='b', reps=20 if t else 5, n=20000 if t else 2000,
                     seed=s + 1000 + 37 * k, timeout=800))
    for k in range(8 if t else 2):
        J.append(Job('mala#%d' % k, mala, reps=8 if t else 3, n=40000 if t else 8000, seed=s + 3000 + 41 * k,
                     timeout=800))
    n = 20000 if t else 3000
    Q = [(.5, 0., 2., 2, n), (1., 0., 1., 1, n), (.5, 0., 1., 3, n), (2., 1.5, np.float64(4.), 3, n),
         (.25, -1., .5, 5, n), (1., .5, 2, 6, n // 2), (.7, 0., np.int64(2), 12, n // 4), (1., 0., .3, 2, n)]
    for k, q in enumerate(Q):
        J.append(Job('quadratic#%d' % k, quadratic, cases=[q], seed=s + 4000 + k, timeout=800))
    S = [([.25, 0., 0., 0., 0.], 2., 2, True, n), ([.25, 0., .5, -1., 0.], 1., 2, True, n),
         ([1., 0., .3, 0., 0.], 4., 2, True, n), ([.25, 0., 0., 0., 0.], 1., 1, True, n),
         ([.25, 0., 1., .7, 0.], .6, 2, True, n)]
    for k, c in enumerate(S):
        J.append(Job('stationary exact#%d' % k, stationary, cases=[c], seed=s + 5000 + k, timeout=800))
    # MALA moves by .01: large beta makes the conditionals that narrow
    m = 12000 if t else 1000
    M = [([.5, 0., 0.], 2000., 2, False, m), ([.5, .3, 0.], 3000., 1, False, m),
         ([.25, .1, .5, 0., 0.], 1500., 2, False, m), ([1 / 6., 0., .1, .1, .2, 0., 0.], 2000., 2, False, m)]
    for k, c in enumerate(M):
        J.append(Job('stationary mala#%d' % k, stationary, cases=[c], seed=s + 6000 + k, timeout=800))
    for k in range(8 if t else 2):
        J.append(Job('history#%d' % k, history, reps=60 if t else 15, seed=s + 7000 + 100 * k, timeout=800))
    J.append(Job('refused', refused))
    return J
