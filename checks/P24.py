"""P24: samples of the multivariate Jacobi ensemble follow the projection DPP."""
import numpy as np
import scipy.stats as st
import matplotlib.pyplot as plt

from mon import jacobi as mj
from mon import stats
from mon.core import Job
import dppy.multivariate_jacobi_ope as mo

RULE = ('each case = (d, N, Jacobi parameters, route, n): n samples are shuffled and mapped through the exact '
        'conditional distribution functions of the projection DPP (Rosenblatt transform, computed from an independent '
        'polynomial recurrence), after which all N*d coordinates must be i.i.d. uniform: KS per coordinate and '
        'correlation of every pair; larger N: exact mean and variance of linear statistics; repulsion: smooth functions of the kernel matrix of a sample against an independent sampler of the process discretised on Gauss rules; proposals: same '
        'transform for 1/N K(x,x) w; rejection constants are compared with the supremum of their targets on dense '
        'grids; non-trivial = N >= 2')
ASSUMPTIONS = ['points may leave the hypercube by rounding errors (1e-12)', 'tests at level 1e-9 with fixed seeds', 'distribution functions tabulated on 20001 quantiles']


class Tables:
    """int_{-1}^x P_m P_n w on a grid of quantiles of the (beta) base law"""

    def __init__(self, deg, a, b, M=20001):
        self.deg, self.a, self.b = deg, a, b
        a0, b0 = min(a, -.25), min(b, -.25)      # the polynomials are large where the weight is small
        self.base = st.beta(b0 + 1, a0 + 1)      # law of (1 + x) / 2
        u = (np.arange(M - 1) + .5) / (M - 1)
        x = 2 * self.base.ppf(u) - 1
        P = mj.orthonormal(deg, a, b, x)
        P *= np.sqrt(np.exp(mj.log_mass(a0, b0)) * (1 - x)**(a - a0) * (1 + x)**(b - b0))[:, None]
        self.u = np.linspace(0, 1, M)
        n = deg + 1
        self.C = np.zeros((M, n, n))
        for i in range(n):
            for j in range(i + 1):
                c = np.cumsum(P[:, i] * P[:, j]) / (M - 1)
                c += self.u[1:] * ((i == j) - c[-1])
                self.C[1:, i, j] = self.C[1:, j, i] = c

    def cum(self, x):
        v = float(self.base.cdf((1 + x) / 2)) * (len(self.u) - 1)
        i = min(int(v), len(self.u) - 2)
        t = v - i
        return (1 - t) * self.C[i] + t * self.C[i + 1]

    def pol(self, x):
        return mj.orthonormal(self.deg, self.a, self.b, np.array([x]))[0]


class Law:
    def __init__(self, N, params):
        self.N, self.params = N, np.asarray(params, float)
        self.d = len(self.params)
        self.idx = np.array(mj.order(N, self.d))
        self.tab = [Tables(int(self.idx[:, j].max()), *self.params[j]) for j in range(self.d)]
        self.delta = [self.idx[:, j][:, None] == self.idx[:, j][None, :] for j in range(self.d)]

    def phi(self, x):
        f = np.ones(self.N)
        for j in range(self.d):
            f = f * self.tab[j].pol(x[j])[self.idx[:, j]]
        return f

    def transform(self, Q, x):
        """coordinates of x through the conditional cdfs of the density  phi^T Q phi w / trace Q"""
        out = []
        W = Q.copy()
        for j in range(self.d):
            rest = np.ones((self.N, self.N), bool)
            for l in range(j + 1, self.d):
                rest &= self.delta[l]
            k = self.idx[:, j]
            C = self.tab[j].cum(x[j])[k][:, k]
            den = np.sum(W * rest * self.delta[j])
            out.append(np.sum(W * rest * C) / den)
            p = self.tab[j].pol(x[j])[k]
            W = W * np.outer(p, p)
        return out

    def rosenblatt(self, X):
        """X: N x d in random order"""
        Q = np.eye(self.N)
        out = []
        for n in range(self.N):
            out += self.transform(Q, X[n])
            f = Q @ self.phi(X[n])
            Q = Q - np.outer(f, f) / max(f @ f, 1e-300)
        return np.array(out)


def uniform(rec, key, U, rp, cases):
    res = {}
    n = len(U)
    for c in range(U.shape[1]):
        D = np.sqrt(n) * stats_sup(U[:, c])
        res['coordinate %d' % c] = round(float(D), 2)
        rec.expect(D < 3.3 + 1e-3 * np.sqrt(n), key + '/law', '{}: coordinate {} of the Rosenblatt transform is not '
                   'uniform: sqrt(n) D = {:.2f}, n={}'.format(cases, c, D, n), **rp)
    if U.shape[1] > 1:
        Z = np.sqrt(12.) * (U - .5)
        for nm, V in (('', Z), (' of squares', np.sqrt(1.25) * (Z**2 - 1))):
            R = V.T @ V / n * np.sqrt(n)
            np.fill_diagonal(R, 0)
            m = np.max(np.abs(R))
            res['correlation' + nm] = round(float(m), 2)
            i = np.unravel_index(np.argmax(np.abs(R)), R.shape)
            rec.expect(m < 7.5, key + '/dependence', '{}: coordinates {} of the Rosenblatt transform are correlated{}: '
                       'z={:.1f}, n={}'.format(cases, i, nm, m, n), **rp)
    rec.count('transformed_coordinates', U.size)
    return res


def stats_sup(u):
    u = np.sort(u)
    n = len(u)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))


def valid(rec, key, X, N, d, rp):
    return rec.expect(np.shape(X) == (N, d) and np.all(np.isfinite(X)) and np.all(np.abs(X) <= 1 + 1e-12), key + '/support',
                      'sample of shape {} instead of {} or outside of the hypercube'.format(np.shape(X), (N, d)), **rp)


def samples(rec, N, params, route, n, seed, history=False):
    d = len(params)
    key = 'sample/d{}/{}'.format(d, route) if d == 1 else 'sample/d{}'.format(d)
    rp = dict(N=N, params=params, route=route, n=n, seed=seed, history=history)
    ok, J = rec.call(key + '/init', mo.MultivariateJacobiOPE, N, np.array(params), replay=rp)
    if not ok:
        return
    rng = np.random.RandomState(seed)
    L = Law(N, params)
    kw = dict(tridiag_1D=(route == 'tridiag')) if d == 1 else {}
    U = []
    shuffle = np.random.RandomState(seed + 1)
    for i in range(n):
        ok, X = rec.call(key, J.sample, random_state=rng, replay=rp, **kw)
        if not ok or not valid(rec, key, X, N, d, rp):
            return
        if history and i % 7 == 0:         # evaluations in between must not change the law
            J.K(X), J.K(X[:1], X[1:] if N > 1 else X), J.eval_multiD_polynomials(X)
        X = np.clip(X, -1, 1)
        U.append(L.rosenblatt(X[shuffle.permutation(N)]))
    res = uniform(rec, key, np.array(U), rp, 'N={} params={}'.format(N, params))
    rec.observe((key, N, repr(params)), n=n, nontrivial=N > 1, sample=dict(rp, tests=res))


def proposal(rec, N, params, n, seed):
    d = len(params)
    key = 'proposal/d{}'.format(d)
    rp = dict(N=N, params=params, n=n, seed=seed)
    ok, J = rec.call(key + '/init', mo.MultivariateJacobiOPE, N, np.array(params), replay=rp)
    if not ok or not hasattr(J, 'sample_chain_rule_proposal'):
        return
    rng = np.random.RandomState(seed)
    L, U, Q = Law(N, params), [], np.eye(N)
    for i in range(n):
        ok, x = rec.call(key, J.sample_chain_rule_proposal, random_state=rng, replay=rp)
        if not ok:
            return
        x = np.ravel(x)
        if not rec.expect(x.shape == (d,) and np.all(np.abs(x) <= 1 + 1e-12), key + '/support', 'proposal {}'.format(x), **rp):
            return
        U.append(L.transform(Q, np.clip(x, -1, 1)))
    res = uniform(rec, key, np.array(U), rp, 'N={} params={}'.format(N, params))
    rec.observe((key, N, repr(params)), n=n, nontrivial=N > 1, sample=dict(rp, tests=res))


def components(rec, N, params, n, seed):
    """density of proposals K(x,x)/N w: the mean of phi_k phi_l N/K is 1 or 0 for all orthonormal polynomials"""
    key = 'components/d{}'.format(len(params))
    rp = dict(N=N, params=params, n=n, seed=seed)
    ok, J = rec.call(key + '/init', mo.MultivariateJacobiOPE, N, np.array(params), replay=rp)
    if not ok or not hasattr(J, 'sample_chain_rule_proposal'):
        return
    rng = np.random.RandomState(seed)
    X = []
    for _ in range(n):
        ok, x = rec.call(key, J.sample_chain_rule_proposal, random_state=rng, replay=rp)
        if not ok:
            return
        X.append(np.ravel(x))
    F = mj.features(N, params, np.clip(np.array(X), -1, 1))
    F = F * np.sqrt(N / (F**2).sum(1))[:, None]
    M = F.T @ F / n
    S = np.sqrt(np.maximum((F**2).T @ (F**2) / n - M**2, 1e-12) / n)
    Z = (M - np.eye(N)) / S
    i = np.unravel_index(np.argmax(np.abs(Z)), Z.shape)
    rec.observe((key, N, repr(params)), n=n, nontrivial=N > 1, sample=dict(rp, max_z=float(np.abs(Z).max())))
    rec.expect(abs(Z[i]) < 7.5, key, 'N={} params={}: components {} of the proposals have mean {:.4f} (z={:.1f}, n={})'.format(
        N, params, i, M[i], Z[i], n), **rp)


def tight(rec, N, params, n, seed):
    """proposals in dimension 1 for parameters whose rejection constants are attained: the law of the angle on fine bins"""
    key = 'tight'
    rp = dict(N=N, params=params, n=n, seed=seed)
    ok, J = rec.call(key + '/init', mo.MultivariateJacobiOPE, N, np.array(params), replay=rp)
    if not ok or not hasattr(J, 'sample_chain_rule_proposal'):
        return
    rng = np.random.RandomState(seed)
    ok, x = rec.call(key, lambda: np.array([np.ravel(J.sample_chain_rule_proposal(random_state=rng))[0] for _ in range(n)]),
                     replay=rp, cpu=600.)
    if not ok or not rec.expect(x.shape == (n,) and np.all(np.abs(x) <= 1 + 1e-12), key + '/support', 'proposals', **rp):
        return
    (a, b), bins, fine = params[0], 60, 400
    th = (np.arange(bins * fine) + .5) * np.pi / (bins * fine)
    f = (mj.orthonormal(N - 1, a, b, np.cos(th))**2).sum(1) / N
    f = f * (2 * np.sin(th / 2)**2)**(a + .5) * (2 * np.cos(th / 2)**2)**(b + .5) * np.pi / (bins * fine)
    p = f.reshape(bins, fine).sum(1)
    c = np.bincount(np.minimum((np.arccos(np.clip(x, -1, 1)) * bins / np.pi).astype(int), bins - 1), minlength=bins)
    chi2 = float(np.sum((c - n * p)**2 / (n * p)))
    pv = float(st.chi2(bins - 1).sf(chi2))
    rec.observe((key, N, repr(params)), n=n, nontrivial=N > 1, sample=dict(rp, chi2=chi2, p=pv, mass=float(p.sum())))
    rec.expect(pv > stats.ALPHA, key, 'N={} params={}: law of the proposals, chi2={:.1f} on {} bins, p={:.2g}'.format(
        N, params, chi2, bins, pv), **rp)


def linear(rec, N, params, route, n, seed):
    """exact mean and variance of linear statistics of larger samples"""
    d = len(params)
    key = 'linear/d{}'.format(d) + ('/' + route if d == 1 else '')
    rp = dict(N=N, params=params, route=route, n=n, seed=seed)
    J = mo.MultivariateJacobiOPE(N, np.array(params))
    kw = dict(tridiag_1D=(route == 'tridiag')) if d == 1 else {}
    rng = np.random.RandomState(seed)
    S = []
    for _ in range(n):
        ok, X = rec.call(key, J.sample, random_state=rng, replay=rp, cpu=120., **kw)
        if not ok or not valid(rec, key, X, N, d, rp):
            return
        S.append(X)
    S = np.array(S)
    idx = np.array(mj.order(N, d))
    big = idx.max() + 4
    mats = []
    for a, b in params:
        al, be = mj.recurrence(big + 1, a, b)
        mats.append(np.diag(al) + np.diag(np.sqrt(be), 1) + np.diag(np.sqrt(be), -1))
    m = idx.max() + 1
    res = {}
    for j in range(d):
        for p in (1, 2):
            A = np.linalg.matrix_power(mats[j], p)
            A2 = np.linalg.matrix_power(mats[j], 2 * p)
            same = np.ones((N, N), bool)
            for l in range(d):
                if l != j:
                    same &= idx[:, l][:, None] == idx[:, l][None, :]
            k = idx[:, j]
            T = A[:m, :m][k][:, k] * same
            mean = np.trace(T)
            var = sum(A2[q, q] for q in k) - np.sum(T * T)
            v = (S[:, :, j]**p).sum(1)
            z1 = (v.mean() - mean) / np.sqrt(var / n)
            r = v.var() / var if n > 100 else 1.
            z2 = ((v - mean)**2).mean() / var
            s2 = ((v - mean)**2 / var).std() / np.sqrt(n)
            res['x_{}^{}'.format(j + 1, p)] = 'z={:.2f} variance ratio {:.3f}'.format(z1, z2)
            rec.expect(abs(z1) < 6.5, key + '/mean', 'N={} params={}: mean of sum x_{}^{} is {:.5g} instead of {:.5g} '
                       '(z={:.1f})'.format(N, params, j + 1, p, v.mean(), mean, z1), **rp)
            if n >= 100:
                rec.expect(abs(z2 - 1) < 8 * max(s2, np.sqrt(2. / n)), key + '/variance', 'N={} params={}: variance of '
                           'sum x_{}^{} is {:.3f} times the exact one'.format(N, params, j + 1, p, z2), **rp)
    rec.observe((key, N, repr(params)), n=n, sample=dict(rp, tests=res))


def grid_reference(N, params, n, seed, per):
    """n independent draws of the projection DPP discretised on a tensor Gauss-Jacobi rule: expectations of smooth
    symmetric functions coincide with those of the continuous process (their quadrature error is negligible)"""
    import itertools
    rng = np.random.RandomState(seed)
    nodes = [mj.gauss(per, a, b) for a, b in params]
    G = np.array(list(itertools.product(*[x for x, _ in nodes])))
    W = np.array([np.prod(t) for t in itertools.product(*[w for _, w in nodes])])
    F = mj.features(N, params, G)
    A = F * np.sqrt(W)[:, None]
    out = np.empty((n, N), int)
    for s0 in range(0, n, 200):
        m = min(200, n - s0)
        p = np.repeat((A**2).sum(1)[None], m, 0)
        E = np.zeros((m, N, N))
        for k in range(N):
            c = np.cumsum(np.maximum(p, 0), axis=1)
            i = (c < (rng.rand(m) * c[:, -1])[:, None]).sum(1)
            out[s0:s0 + m, k] = i
            v = A[i]
            for _ in range(2):
                v = v - np.einsum('mkn,mk->mn', E, np.einsum('mkn,mn->mk', E, v))
            v /= np.linalg.norm(v, axis=1)[:, None]
            E[:, k] = v
            p = p - (v @ A.T)**2
    return F[out]


def repulsion_stats(Phi):
    """smooth functions of the normalised Gram matrix of the features of a sample"""
    K = Phi @ Phi.transpose(0, 2, 1)
    dg = np.sqrt(np.einsum('mii->mi', K))
    R = K / dg[:, :, None] / dg[:, None, :]
    h = np.linalg.det(R)
    eye = np.eye(R.shape[1])
    out = {'det': h, 'pairs': (R**2).sum((1, 2)), 'quartic': (R**4).sum((1, 2)),
           'inverse': np.trace(np.linalg.inv(R + .05 * eye), axis1=1, axis2=2),
           'logdet': np.linalg.slogdet(R + .02 * eye)[1], 'trace K': (dg**2).sum(1), 'prod K': np.log(dg).sum(1)}
    return out


def repulsion(rec, N, params, route, n, seed):
    d = len(params)
    key = 'repulsion/d{}'.format(d) + ('/' + route if d == 1 else '')
    rp = dict(N=N, params=params, route=route, n=n, seed=seed)
    ok, J = rec.call(key, mo.MultivariateJacobiOPE, N, np.array(params), replay=rp)
    if not ok:
        return
    kw = dict(tridiag_1D=(route == 'tridiag')) if d == 1 else {}
    rng = np.random.RandomState(seed)
    X = []
    for _ in range(n):
        ok, x = rec.call(key, J.sample, random_state=rng, replay=rp, cpu=120., **kw)
        if not ok or not valid(rec, key, x, N, d, rp):
            return
        X.append(x)
    X = np.clip(np.array(X), -1, 1)
    nref = min(3 * n, 60000)
    chunks = [grid_reference(N, params, min(2000, nref - k), 77 + k, {1: max(200, 4 * N), 2: 40, 3: 14, 4: 9}[d])
              for k in range(0, nref, 2000)]
    parts = [repulsion_stats(c) for c in chunks]
    want = {k: np.concatenate([p[k] for p in parts]) for k in parts[0]}
    got = repulsion_stats(mj.features(N, params, X.reshape(-1, d)).reshape(n, N, N))
    res = {}
    for k in got:
        s = np.sqrt(got[k].var() / n + want[k].var() / nref + 1e-18 * max(1., abs(want[k].mean()))**2)
        z = (got[k].mean() - want[k].mean()) / s
        res[k] = round(float(z), 2)
        # quadrature error of the discretised reference: below 2e-3 standard deviations
        rec.expect(abs(got[k].mean() - want[k].mean()) < 7 * s + 2e-3 * want[k].std(), key, 'N={} params={}: mean of the '
                   'statistic {} of the kernel matrix of a sample is {:.5g} instead of {:.5g} (z={:.1f}, n={})'.format(
                       N, params, k, got[k].mean(), want[k].mean(), z, n), **rp)
    rec.observe((key, N, repr(params)), n=n, nontrivial=N > 1, sample=dict(rp, z=res))


def domination(rec, reps, seed):
    rng = np.random.RandomState(seed)
    th = np.concatenate([np.linspace(0, np.pi, 6001), 10.0**np.linspace(-7, -2, 200), np.pi - 10.0**np.linspace(-7, -2, 200)])
    x = np.cos(th)
    omx, opx = 2 * np.sin(th / 2)**2, 2 * np.cos(th / 2)**2
    for r in range(reps):
        d = int(rng.choice([1, 2, 3]))
        params = []
        for _ in range(d):
            params.append([(-.5, -.5), (-.5, rng.uniform(-.5, .5)), (rng.uniform(-.5, .5), -.5), (.5, .5), (.5, -.5),
                           (0., 0.), (-.5, .5), tuple(rng.uniform(-.5, .5, 2)), tuple(rng.uniform(-.5, .5, 2)),
                           (-.5 + 1e-9, rng.uniform(-.5, .5)), (.5, rng.uniform(-.5, .5))][rng.randint(11)])
        N = int(rng.choice({1: [1, 2, 20, 80], 2: [1, 3, 30, 400], 3: [2, 30, 343]}[d]))
        idx = np.array(mj.order(N, d))
        sups = []
        for j, (a, b) in enumerate(params):
            P = mj.orthonormal(int(idx.max()), a, b, x)
            with np.errstate(all='ignore'):
                w = np.pi * omx**(a + .5) * opx**(b + .5)
            sups.append(np.max(P**2 * w[:, None], axis=0))
        target = np.prod([sups[j][idx[:, j]] for j in range(d)], axis=0)
        for log in (True, False):
            key = 'domination'
            rp = dict(N=N, params=params, log_scale=log, seed=seed)
            if not log and idx.max() > 100:
                continue
            ok, B = rec.call(key, mo.compute_rejection_bounds, np.array(params), mj.order(N, d), log_scale=log, replay=rp)
            if not ok:
                continue
            rec.observe((key, N, repr(params), log), n=N, sample=dict(rp, tightest=float(np.min(np.asarray(B) / target))))
            q = np.asarray(B, float) / target
            rec.expect(q.shape == (N,) and np.all(q >= 1 - 1e-9), key, 'N={} params={}: the rejection constant of the '
                       'polynomial {} does not dominate its target (ratio {})'.format(
                           N, params, idx[int(np.argmin(q))] if q.shape == (N,) else '?', np.min(q)), **rp)
            rec.expect(q.shape == (N,) and np.all(q < 50.**d), key + '/useless', 'rejection constant is {:.3g} times too '
                       'large'.format(np.max(q)), **rp)
            rec.count('bounds_checked', N)


def plots(rec, seed):
    for d, N, params in ((1, 10, [(-.3, .2)]), (1, 8, [(3., -.7)]), (2, 12, [(-.3, .2), (.5, -.5)]), (2, 5, [(-.5, -.5)] * 2)):
        J = mo.MultivariateJacobiOPE(N, np.array(params))
        X = J.sample(random_state=seed)
        X0 = X.copy()
        for w in ('', 'BH', 'EZ'):
            key = 'plot/d{}'.format(d)
            rp = dict(N=N, params=params, weighted=w, seed=seed)
            ok, _ = rec.call(key, J.plot, X, weighted=w, replay=rp)
            if ok:
                off = np.concatenate([np.asarray(c.get_offsets()) for c in plt.gcf().axes[0].collections])
                ref = X0 if d == 2 else np.column_stack([X0[:, 0], np.zeros(N)])
                rec.expect(off.shape == ref.shape and np.allclose(off[np.lexsort(off.T)], ref[np.lexsort(ref.T)]),
                           key + '/points', 'displayed points are not the sample', **rp)
            rec.expect(np.array_equal(X, X0), key + '/mutation', 'plot modified the sample', **rp)
            rec.observe((key, N, w), sample=rp)
            plt.close('all')


def jobs(tier, seed):
    s = 10000 * seed
    t = tier == 'thorough'
    f = 8 if t else 1
    J = []
    Q = 6
    one = [(1, [(.3, -.2)], 4000), (2, [(-.5, -.5)], 3000), (3, [(0., 0.)], 2500), (4, [(.5, -.5)], 2000),
           (3, [(-.5, .4)], 2500), (5, [(.2, .45)], 1500), (6, [(-.3, -.4)], 1200)]
    out = [(1, [(-.8, 3.)], 2000), (2, [(2.5, .7)], 2000), (3, [(-.9, -.6)], 1500), (4, [(6., -.5)], 1500), (3, [(-.3, -.7)], 1500)]
    for k, (N, p, n) in enumerate(one + out):
        J.append(Job('sample 1 tridiag#%d' % k, samples, N=N, params=p, route='tridiag', n=Q * n * f, seed=s + k, timeout=800))
        J.append(Job('sample 1 chain#%d' % k, samples, N=N, params=p, route='chain', n=Q * n * f, seed=s + 50 + k, timeout=800))
    two = [(1, [(.3, -.2), (-.5, .1)], 2000), (2, [(.5, .5), (-.5, -.5)], 2000), (3, [(0., 0.), (.2, -.5)], 1500),
           (4, [(-.5, -.5)] * 2, 1200), (5, [(-.3, .4), (.4, .1)], 1000), (6, [(.5, -.5), (-.2, -.1)], 800),
           (3, [(-.1, .3), (-.4, -.2), (.5, 0.)], 1200), (5, [(-.5, -.5), (0., 0.), (-.5, .2)], 700),
           (9, [(.1, .4), (-.4, .3)], 400), (2, [(0., 0.)] * 4, 800)]
    for k, (N, p, n) in enumerate(two):
        J.append(Job('sample d#%d' % k, samples, N=N, params=p, route='chain', n=Q * n * f, seed=s + 200 + k, history=k % 2 == 0,
                     timeout=800))
    for k, (N, p, n) in enumerate(one + out + two):
        J.append(Job('proposal#%d' % k, proposal, N=N + 4, params=p, n=8000 * f, seed=s + 300 + k, timeout=800))
    J.append(Job('proposal#high', proposal, N=60, params=[(.2, -.4)], n=8000 * f, seed=s + 390, timeout=800))
    J.append(Job('proposal#high2', proposal, N=90, params=[(.2, -.4), (-.5, .3)], n=8000 * f, seed=s + 391, timeout=800))
    for k, (N, p, n) in enumerate([(22, [(.2, -.4)], 60000), (24, [(-.5, -.5)], 60000), (45, [(.3, .1)], 60000), (23, [(.2, -.4), (-.5, .3)], 60000), (30, [(0., 0.)] * 2, 60000),
                                   (40, [(.1, .2), (-.3, .3), (.5, -.5)], 50000), (9, [(.4, .4), (-.1, .2)], 60000), (3, [(2., -.7)], 40000)]):
        J.append(Job('components#%d' % k, components, N=N, params=p, n=n * f, seed=s + 350 + k, timeout=800))
    for k, (N, p) in enumerate([(2, [(-.5, -.5)]), (3, [(-.5, -.5)]), (1, [(.5, .5)]), (2, [(.5, .5)]), (2, [(-.5, .5)]), (2, [(.5, -.5)]),
                                (2, [(0., 0.)])]):
        J.append(Job('tight#%d' % k, tight, N=N, params=p, n=500000 * f, seed=s + 650 + k, timeout=800))
    lin = [(40, [(.2, -.3)], 'tridiag', 200), (40, [(3., -.7)], 'tridiag', 200), (20, [(.2, -.3)], 'chain', 100),
           (25, [(-.5, .3), (.1, .4)], 'chain', 100), (12, [(-.5, -.5)] * 3, 'chain', 100), (16, [(.5, .5), (0., -.5)], 'chain', 100)]
    for k, (N, p, r, n) in enumerate(lin):
        J.append(Job('linear#%d' % k, linear, N=N, params=p, route=r, n=10 * n * f, seed=s + 400 + k, timeout=800))
    rep = [(2, [(.3, -.2)], 'chain', 6000), (3, [(-.5, .4)], 'chain', 6000), (5, [(.2, .45)], 'chain', 6000),
           (5, [(.2, .45)], 'tridiag', 6000), (8, [(-.5, -.5)], 'chain', 4000), (6, [(2.5, -.8)], 'tridiag', 4000),
           (12, [(.4, -.3)], 'chain', 2000), (20, [(.1, .2)], 'chain', 1000), (20, [(.1, .2)], 'tridiag', 2000),
           (2, [(.5, .5), (-.5, -.5)], 'chain', 6000), (3, [(0., 0.), (.2, -.5)], 'chain', 8000),
           (4, [(-.5, -.5)] * 2, 'chain', 8000), (5, [(-.3, .4), (.4, .1)], 'chain', 8000),
           (9, [(.1, .4), (-.4, .3)], 'chain', 5000), (16, [(.5, .5), (0., -.5)], 'chain', 2500),
           (25, [(-.5, .3), (.1, .4)], 'chain', 1200), (5, [(-.5, -.5), (0., 0.), (-.5, .2)], 'chain', 6000),
           (8, [(0., 0.)] * 3, 'chain', 4000), (16, [(.2, .1), (-.3, .3), (.5, -.5)], 'chain', 1500),
           (6, [(0., .5)] * 4, 'chain', 3000),
           (40, [(.1, .2)], 'chain', 700), (60, [(-.5, -.3)], 'chain', 500), (60, [(.3, -.2)], 'tridiag', 1500), (150, [(2., -.6)], 'tridiag', 500),
           (49, [(.1, .2), (-.3, .3)], 'chain', 600), (62, [(-.5, -.5)] * 2, 'chain', 450), (64, [(.1, .2), (-.3, .3), (0., 0.)], 'chain', 250)]
    for k, (N, p, r, n) in enumerate(rep):
        J.append(Job('repulsion#%d' % k, repulsion, N=N, params=p, route=r, n=n * (4 if t else 1), seed=s + 700 + k, timeout=850))
    for k in range(8 if t else 4):
        J.append(Job('domination#%d' % k, domination, reps=150 if t else 15, seed=s + 500 + k, timeout=800))
    J.append(Job('plot', plots, seed=s + 600))
    return J
