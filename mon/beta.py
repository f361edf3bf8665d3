"""Exact oracles for beta-ensembles: laws and cumulants of linear and interaction statistics
obtained from the Selberg-type normalisation constants (independent of any matrix model)."""
from math import comb

import numpy as np
import scipy.stats as st
from scipy.special import digamma, gammaln, polygamma

from mon import stats

Z_MAX = 7.5


class Cumulants:
    """T with log E exp(s T) = sum sgn (lgamma(c0 + c1 s) - lgamma(c0)) + lin s"""

    def __init__(self, lin=0.0):
        self.terms, self.lin = [], lin

    def add(self, sgn, c0, c1):
        self.terms.append((sgn, c0, c1))

    def kappa(self, n):
        f = digamma if n == 1 else (lambda x: polygamma(n - 1, x))
        v = sum(s * c1**n * f(c0) for s, c0, c1 in self.terms)
        return float(v + (self.lin if n == 1 else 0.0))


LOG_OK = .3     # below, the law of the logarithms depends on points which doubles cannot resolve


def log_z(kind, N, h, par):
    """log of the Selberg integral with |vandermonde|^(2h)"""
    j = np.arange(N)
    v = np.sum(gammaln(1 + (j + 1) * h) - gammaln(1 + h))
    P = N * (N - 1) / 2.
    if kind == 'hermite':
        return float(v + (N + 2 * h * P) * np.log(par[1]))
    if kind == 'laguerre':
        k, th = par
        return float(v + np.sum(gammaln(k + j * h)) + (N * k + 2 * h * P) * np.log(th))
    a, b = par
    return float(v + np.sum(gammaln(a + j * h) + gammaln(b + j * h) - gammaln(a + b + (N + j - 1) * h)))


def moments(kind, N, beta, par, X):
    """(name, values / mean, mean 1, exact relative standard deviation): products of powers of |vandermonde|, of the points
    and of their complements, whose moments are ratios of Selberg integrals"""
    h = beta / 2.
    out = []
    z0 = log_z(kind, N, h, par)
    lv = log_vdm(X)
    sx = np.log(X).sum(1) if kind != 'hermite' else 0
    sy = np.log1p(-X).sum(1) if kind == 'jacobi' else 0
    for t, s, r in ((.25, 0, 0), (.5, 0, 0), (1., 0, 0), (0, .5, 0), (0, 1., 0), (0, 0, .5), (0, 0, 1.), (.5, .5, 0),
                    (.5, 0, .5), (0, .25, .25), (0, 1., 1.), (.5, .5, .5)):
        if (t and N < 2) or (s and kind == 'hermite') or (r and kind != 'jacobi'):
            continue

        def lm(c):
            p = par if kind == 'hermite' else (par[0] + c * s, par[1]) if kind == 'laguerre' else (
                par[0] + c * s, par[1] + c * r)
            return log_z(kind, N, h + c * t / 2., p) - z0
        m1, m2 = lm(1), lm(2)
        rel = np.expm1(min(m2 - 2 * m1, 50.))
        # products of powers are roughly log-normal: a single large draw must not be able to trip the test
        s2 = np.log1p(max(rel, 1e-12))
        if len(X) * st.norm.sf((np.log1p(Z_MAX * np.sqrt(max(rel, 1e-12) * len(X))) + s2 / 2) / np.sqrt(s2)) < 1e-10 and rel < 4:
            out.append(('E vdm^{} x^{} (1-x)^{}'.format(t, s, r), np.exp(t * lv + s * sx + r * sy - m1), np.sqrt(max(rel, 0.))))
    if kind == 'jacobi':                    # elementary symmetric functions (Aomoto)
        a, b = par
        for nm, u, v, Y in (('x', a, b, X), ('1-x', b, a, 1 - X)):
            E = np.zeros((len(X), N + 1))
            E[:, 0] = 1
            for i in range(N):
                E[:, 1:i + 2] += E[:, :i + 1] * Y[:, i:i + 1]
            m = 1.
            for k in range(1, min(N, 4) + 1):
                m *= (u + (N - k) * h) / (u + v + (2 * N - k - 1) * h) * (N - k + 1) / k
                w = E[:, k] / m
                sd, bound = w.std(), comb(N, k) / m
                if bound > 50:      # rare large values: empirical Bernstein bound
                    sd += 75 * bound / (Z_MAX * np.sqrt(len(w)))
                out.append(('e_{}({})'.format(k, nm), w, sd))
    return out


def log_vdm(X):
    n = X.shape[1]
    out = np.zeros(len(X))
    for i in range(n):
        for j in range(i + 1, n):
            out += np.log(np.maximum(np.abs(X[:, i] - X[:, j]), 1e-300))
    return out


def statistics(kind, N, beta, par, X):
    """list of (name, values, oracle): oracle = Cumulants or frozen scipy law"""
    h = beta / 2.
    P = N * (N - 1) / 2.
    out = []
    if kind == 'hermite':
        mu, sg = par
        Y = (X - mu) / sg
        out.append(('sum', Y.sum(1) / np.sqrt(N), st.norm()))
        out.append(('sum of squares', (Y**2).sum(1), st.chi2(N + beta * P)))
        if N > 1:
            c = Cumulants(P * np.log(sg))
            for j in range(1, N + 1):
                c.add(1, 1 + j * h, j / 2.)
                c.add(-1, 1 + h, .5)
            out.append(('log vandermonde', log_vdm(X), c))
            out.append(('sum of squares about the mean', ((Y - Y.mean(1)[:, None])**2).sum(1),
                        st.chi2(N - 1 + beta * P)))
    elif kind == 'laguerre':
        k, th = par
        out.append(('sum', X.sum(1) / th, st.gamma(N * k + beta * P)))
        c = Cumulants(N * np.log(th))
        for j in range(N):
            c.add(1, k + j * h, 1.)
        if k >= LOG_OK:
            out.append(('log det', np.log(X).sum(1), c))
        if N > 1 and k >= LOG_OK:
            c = Cumulants(P * np.log(th))
            for j in range(N):
                c.add(1, 1 + (j + 1) * h, (j + 1) / 2.)
                c.add(1, k + j * h, j / 2.)
                c.add(-1, 1 + h, .5)
            out.append(('log vandermonde', log_vdm(X), c))
    elif kind == 'jacobi':
        a, b = par
        for nm, u, v, Y in (('log det', a, b, X), ('log det of complement', b, a, 1 - X)):
            c = Cumulants()
            for j in range(N):
                c.add(1, u + j * h, 1.)
                c.add(-1, u + v + (N + j - 1) * h, 1.)
            if u >= LOG_OK:
                out.append((nm, np.log(Y).sum(1), c))
        if N > 1 and min(a, b) >= LOG_OK:
            c = Cumulants()
            for j in range(N):
                c.add(1, a + j * h, j / 2.)
                c.add(1, b + j * h, j / 2.)
                c.add(1, 1 + (j + 1) * h, (j + 1) / 2.)
                c.add(-1, a + b + (N + j - 1) * h, (N + j - 1) / 2.)
                c.add(-1, 1 + h, .5)
            out.append(('log vandermonde', log_vdm(X), c))
    elif kind == 'circular':
        for phi in (0., 1., 2.5):
            c = Cumulants()
            for j in range(N):
                c.add(1, 1 + j * h, 1.)
                c.add(-1, 1 + j * h, .5)
                c.add(-1, 1 + j * h, .5)
            out.append(('log |det(e^i{} - U)|'.format(phi), np.log(np.abs(np.exp(1j * phi) - X)).sum(1), c))
        if N > 1:
            c = Cumulants()
            c.add(1, 1 + N * h, N / 2.)
            for j in range(N):
                c.add(-1, 1 + h, .5)
            out.append(('log vandermonde', log_vdm(X), c))
        al = 2. / beta
        out.append(('|trace|^2', np.abs(X.sum(1))**2, ('mean', al * N / (N - 1 + al))))
        for k in (1, 2, 3):
            p = (X**k).sum(1)
            out.append(('re tr U^%d' % k, p.real, ('mean', 0.)))
            out.append(('im tr U^%d' % k, p.imag, ('mean', 0.)))
        if beta == 2:
            for k in (1, 2, 3, N, N + 1):
                out.append(('|tr U^%d|^2' % k, np.abs((X**k).sum(1))**2, ('mean', float(min(k, N)))))
        out.append(('det phase', np.angle(np.prod(X, axis=1)), st.uniform(-np.pi, 2 * np.pi)))
    return out


def judge(rec, key, kind, N, beta, par, X, rp):
    """compare all statistics of the sample matrix X (n x N) with their oracles"""
    n = len(X)
    res = {}
    for nm, v, orc in statistics(kind, N, beta, par, X):
        if isinstance(orc, Cumulants):
            k1, k2, k4 = orc.kappa(1), orc.kappa(2), orc.kappa(4)
            if k2 < 1e-12:
                ok = np.max(np.abs(v - k1)) < 1e-6
                res[nm] = 'deterministic'
                rec.expect(ok, key + '/' + nm, 'should equal {}'.format(k1), **rp)
                continue
            z1 = (v.mean() - k1) / np.sqrt(k2 / n)
            z2 = (np.mean((v - k1)**2) - k2) / np.sqrt((k4 + 2 * k2**2) / n)
            res[nm] = 'mean z={:.2f} var z={:.2f}'.format(z1, z2)
            rec.expect(abs(z1) < Z_MAX and abs(z2) < Z_MAX, key + '/' + nm,
                       '{} {}: mean {:.5g} (exact {:.5g}, z={:.1f}), variance {:.5g} (exact {:.5g}, z={:.1f}), '
                       'n={}'.format(kind, nm, v.mean(), k1, z1, v.var(), k2, z2, n), **rp)
        elif isinstance(orc, tuple):
            pv, d = stats.ztest(v, orc[1])
            z = abs(float(st.norm.isf(max(pv, 1e-300) / 2)))
            res[nm] = d
            rec.expect(z < Z_MAX, key + '/' + nm, '{} {}: {}'.format(kind, nm, d), **rp)
        else:
            pv, d = stats.ks(v, orc.cdf)
            res[nm] = d
            rec.expect(pv > stats.ALPHA, key + '/' + nm, '{} {}: {} p={:.2g}'.format(kind, nm, d, pv), **rp)
    if kind != 'circular':
        for nm, v, sd in moments(kind, N, beta, par, X):
            z = (v.mean() - 1) / max(sd / np.sqrt(n), 1e-9)
            res[nm] = 'z={:.2f}'.format(z)
            rec.expect(abs(z) < Z_MAX, key + '/' + nm, '{} {}: mean is {:.4f} times the exact one (z={:.1f}, n={})'.format(
                kind, nm, v.mean(), z, n), **rp)
    rec.count('statistics_tested', len(res))
    return res


def small_cdfs(kind, N, beta, par, M=None):
    """CDFs (callables) of the order statistics for N = 1, 2, 3 by quadrature in quantile scale"""
    M = M or {1: 4000, 2: 2000, 3: 400}[N]
    u = (np.arange(M) + .5) / M
    P = N * (N - 1) / 2.
    if kind == 'hermite':
        mu, sg = par
        R = np.sqrt(st.chi2(N + beta * P).isf(1e-9)) * sg
        to_x, to_u = (lambda v: mu + R * (2 * v - 1)), (lambda t: (t - mu) / (2 * R) + .5)
        x = to_x(u)
        lw = -.5 * ((x - mu) / sg)**2
    elif kind == 'laguerre':
        k, th = par
        m = min(k, 1.)
        R = st.gamma(N * k + beta * P).isf(1e-9) * th
        to_x, to_u = (lambda v: R * v**(1 / m)), (lambda t: (np.clip(t, 0, R) / R)**m)
        x = to_x(u)
        lw = (k - m) * np.log(x) - x / th
    else:
        a, b = par
        base = st.beta(min(a, 1.), min(b, 1.))
        to_x, to_u = base.ppf, base.cdf
        x = to_x(u)
        lw = np.zeros(M)
        if a > 1:
            lw += (a - 1) * np.log(x)
        if b > 1:
            lw += (b - 1) * np.log1p(-x)
    w = np.exp(lw - lw.max())
    D = np.abs(x[:, None] - x[None, :])**beta
    D /= D.max()
    if N == 1:
        ws = [w]
    elif N == 2:
        T = np.tril(D * w[:, None] * w[None, :], -1)        # i > j : i max, j min
        ws = [T.sum(0), T.sum(1)]
    else:
        D2 = D * w[:, None] * w[None, :]
        w0, w1, w2 = np.zeros(M), np.zeros(M), np.zeros(M)
        for k in range(M):                     # middle point
            A = D[:k, k][:, None] * D[k + 1:, k][None, :] * D2[:k, k + 1:] * w[k]
            w0[:k] += A.sum(1)
            w2[k + 1:] += A.sum(0)
            w1[k] = A.sum()
        ws = [w0, w1, w2]
    out = []
    for w in ws:
        c = np.concatenate([[0.], np.cumsum(w) / w.sum()])
        edges = np.arange(M + 1.) / M
        out.append(lambda t, c=c, edges=edges: np.interp(to_u(t), edges, c))
    return out


def judge_order(rec, key, kind, N, beta, par, X, rp):
    if kind != 'hermite' and min(par if kind == 'jacobi' else par[:1]) < .25:
        return          # a visible proportion of the points is below the resolution of doubles
    X = np.sort(X, axis=1)
    for i, cdf in enumerate(small_cdfs(kind, N, beta, par)):
        x = np.sort(X[:, i])
        D = float(np.max(np.abs(cdf(x) - (np.arange(len(x)) + .5) / len(x))))
        thr = 3.3 / np.sqrt(len(x)) + 4e-3
        rec.expect(D < thr, key + '/order{}'.format(i), '{}: law of the {}-th smallest point off by {:.4f} in '
                   'sup norm (threshold {:.4f}, n={})'.format(kind, i + 1, D, thr, len(x)), **rp)
        rec.count('order_statistics_tested')
