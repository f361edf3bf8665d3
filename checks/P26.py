"""P26: equilibrium measures of polynomial potentials."""
import numpy as np
import matplotlib.pyplot as plt

from mon.core import Job
import dppy.beta_ensemble_polynomial_potential as pp
import dppy.beta_ensemble_polynomial_potential_core as pc

RULE = ('each case = potential (pure even powers, quadratic + quartic in the one- and two-cut regimes and near the '
        'critical line, the sextic critical one) through the class and through the functions: mass, nonnegativity, '
        'the hierarchy of moments equivalent to the Euler-Lagrange equation up to order 14, the inequality outside of '
        'the support, the cumulative function against the integral of the density on scalars and arrays of several '
        'types (argument unchanged, repeated calls), slope of the density at the right edge against the rescaling of '
        'the largest point, displayed curve; non-trivial = not the semi-circle of variance 1')
ASSUMPTIONS = ['quadrature tolerance 2e-5 (relative to the scale of the support)',
               'the rescaling of the largest point is judged for one-cut potentials only']
M = 400001


def grid(support):
    lo, hi = support
    return np.linspace(lo - .05 * (hi - lo), hi + .05 * (hi - lo), M)


def judge_density(rec, key, V, dens, support, rp):
    """V: poly1d with the law exp(-beta N / 2 sum V) in mind"""
    ok = rec.expect(np.shape(support) == (2,) and np.all(np.isfinite(support)) and support[0] < support[1],
                    key + '/support', 'support {}'.format(support), **rp)
    if not ok:
        return None
    x = grid(support)
    ok, d = rec.call(key + '/array', dens, x, replay=rp)
    if not ok:
        return None
    d = np.asarray(d, float)
    if not rec.expect(d.shape == x.shape and np.all(np.isfinite(d)) and np.all(d >= -1e-12), key + '/nonnegative',
                      'density is negative or not finite', **rp):
        return None
    out = (x < support[0] - 1e-12) | (x > support[1] + 1e-12)
    rec.expect(np.max(np.abs(d[out]), initial=0.) < 1e-9, key + '/support', 'density charges the complement of its '
               'support', **rp)
    h = x[1] - x[0]
    edge = (support[1] - support[0]) * 2e-3
    for e, sel in (('left', (x > support[0]) & (x < support[0] + edge)), ('right', (x < support[1]) & (x > support[1] - edge))):
        rec.expect(d[sel].max() > 0, key + '/support', 'density vanishes near the {} end of the support'.format(e), **rp)
    mass = d.sum() * h
    rec.expect(abs(mass - 1) < 2e-5, key + '/mass', 'total mass {:.8f}'.format(mass), **rp)
    # Euler-Lagrange, in moments of x / R
    R = max(abs(support[0]), abs(support[1]))
    y = x / R
    K = 15
    deg = V.order
    m = [np.sum(d * y**k) * h for k in range(K + deg)]
    dV = V.deriv(1)
    worst = 0.
    for k in range(K):
        lhs = sum(dV[j] * R**j * m[j + k] for j in range(deg)) * R
        rhs = sum(m[j] * m[k - 1 - j] for j in range(k))
        worst = max(worst, abs(lhs - rhs) / (1 + sum(abs(dV[j]) * R**(j + 1) for j in range(deg))))
    rec.expect(worst < 2e-5, key + '/euler-lagrange', 'Euler-Lagrange equation violated: relative residual {:.3g}'.format(
        worst), **rp)
    # outside: V' - 2 G >= 0 on the right, <= 0 on the left
    for t in (1.02, 1.1, 1.5):
        for s, e in ((1, support[1]), (-1, support[0])):
            z = e + s * (t - 1) * (support[1] - support[0])
            g = s * (dV(z) - 2 * np.sum(d / (z - x)) * h)
            rec.expect(g > -1e-3 * (1 + abs(dV(z))), key + '/outside', 'effective potential decreases away from the '
                       'support at {:.3f}'.format(z), **rp)
    # scalars
    r = np.random.RandomState(1)
    for i in r.randint(0, M, 5):
        for cast in (float, np.float64):
            ok, v = rec.call(key + '/scalar', dens, cast(x[i]), replay=rp)
            if ok:
                rec.expect(np.size(v) == 1 and abs(float(v) - d[i]) < 1e-9 * (1 + d[i]), key + '/scalar',
                           'density at the scalar {} is {} instead of {}'.format(x[i], v, d[i]), **rp)
    z0 = x[1000:1010].copy()
    z = z0.copy()
    dens(z)
    rec.expect(np.array_equal(z, z0), key + '/mutation', 'density modified its argument', **rp)
    return x, d


def judge_cdf(rec, key, cdf, supp_cdf, x, d, support, rp):
    rec.expect(np.allclose(supp_cdf, support, rtol=1e-9), key + '/support', 'support {} of the cdf instead of {}'.format(
        supp_cdf, support), **rp)
    h = x[1] - x[0]
    F = np.concatenate([[0.], np.cumsum((d[1:] + d[:-1]) / 2) * h])
    x0 = x.copy()
    for rnd in range(2):
        ok, c = rec.call(key + '/array', cdf, x, replay=rp)
        if not ok:
            return
        rec.expect(np.array_equal(x, x0), key + '/mutation', 'cdf modified its argument', **rp)
        c = np.asarray(c, float)
        if not rec.expect(c.shape == x.shape and np.all(np.isfinite(c)), key + '/array', 'shape {}'.format(c.shape), **rp):
            return
        D = np.max(np.abs(c - F))
        rec.expect(D < 2e-5, key + '/primitive', 'cdf is off the integral of the density by {:.3g} (round {})'.format(
            D, rnd), **rp)
        rec.expect(np.min(np.diff(c)) > -1e-12, key + '/monotone', 'cdf decreases', **rp)
    ok, v = rec.call(key + '/array2', cdf, x[:6].reshape(2, 3), replay=rp)
    if ok:
        rec.expect(np.shape(v) == (2, 3), key + '/array2', 'matrix argument returns shape {}'.format(np.shape(v)), **rp)
    r = np.random.RandomState(2)
    pts = [float(t) for t in x[r.randint(0, M, 6)]] + [np.float64(x[7]), 0, 0., support[0], support[1], 50., -50., 3, -3,
                                                         np.float32(.25)]
    for t in pts:
        ok, v = rec.call(key + '/scalar', cdf, t, replay=rp)
        if ok:
            ref = np.interp(t, x, F)
            rec.expect(np.size(v) == 1 and abs(float(v) - ref) < 2e-5, key + '/scalar', 'cdf at the scalar {!r} is {} '
                       'instead of {:.6f}'.format(t, v, ref), **rp)


def potential(rec, coefs_list, seed, two_cut=False):
    for c in coefs_list:
        V = np.poly1d(c)
        key = 'class'
        rp = dict(V=c)
        ok, B = rec.call(key, pp.BetaEnsemblePolynomialPotential, 2, list(c), replay=rp)
        if not ok:
            continue
        if not rec.expect(B.equilibrium_density is not None and B.support is not None, key + '/missing',
                          'no equilibrium measure for the supported potential {}'.format(c), **rp):
            continue
        res = judge_density(rec, key, V, B.equilibrium_density, B.support, rp)
        rec.observe((key, tuple(c)), nontrivial=tuple(c) != (.5, 0., 0.), sample=dict(rp, support=list(B.support)))
        if res is None:
            continue
        x, d = res
        # rescaling of the largest point
        if not two_cut:
            b = B.support[1]
            eps = (B.support[1] - B.support[0]) * 1e-6
            slope = np.pi * float(B.equilibrium_density(b - eps)) / np.sqrt(eps)
            for N in (1, 7, 20):
                ok, lam = rec.call('rescale/sample', B.sample_mcmc, N, 1, nb_mala_steps=1, random_state=seed, replay=rp)
                if not ok:
                    continue
                for beta_arg in (np.array([b, b - .3, b + .2]), b + .5, float(np.max(lam)), b + np.linspace(-1, 1, 2400)):
                    ok, v = rec.call('rescale', B.rescale_largest_eig_val, beta_arg, replay=rp)
                    if ok:
                        ref = N**(2 / 3.) * np.cbrt(slope**2) * (np.asarray(beta_arg) - b)
                        rec.expect(np.shape(v) == np.shape(ref) and np.allclose(v, ref, rtol=2e-4, atol=1e-3 * N**(2 / 3.)
                                                                                * (slope < 1e-2) + 1e-9), 'rescale',
                                   'N={}: {} rescaled to {} instead of {} for V={}'.format(N, np.ravel(beta_arg)[:3], np.ravel(v)[:3],
                                                                                           np.ravel(ref)[:3], c), **rp)
        # display
        s = np.sort(np.random.RandomState(seed).uniform(*B.support, size=40))
        s0 = s.copy()
        ok, _ = rec.call('hist', B.hist, s, replay=rp)
        if ok:
            curves = [l.get_xydata() for l in plt.gcf().axes[0].lines]
            curves = [q for q in curves if len(q) > 20]
            rec.expect(len(curves) >= 1 and np.allclose(np.interp(curves[0][:, 0], x, d), curves[0][:, 1],
                                                        atol=1e-3 * d.max()), 'hist/curve', 'displayed curve is not the '
                       'equilibrium density', **rp)
            rec.expect(np.array_equal(s, s0), 'hist/mutation', 'hist modified the sample', **rp)
        plt.close('all')


def unlisted(rec, coefs_list):
    """whatever equilibrium measure is given to a potential is its own; constants are irrelevant"""
    for c in coefs_list:
        rp = dict(V=c)
        V = np.poly1d(list(c[:-1]) + [0.])
        out = []
        for e in (c, list(c[:-1]) + [0.], list(c[:-1]) + [.8], list(c[:-1]) + [-3.]):
            ok, B = rec.call('class/unlisted', pp.BetaEnsemblePolynomialPotential, 2, list(e), replay=dict(V=e))
            if ok:
                out.append((e, B))
        seen = []
        for e, B in out:
            if (B.equilibrium_density is None) != (B.support is None):
                rec.expect(False, 'class/unlisted', 'support {} without the density or conversely'.format(B.support), V=e)
            seen.append(B.equilibrium_density is None)
            if not seen[-1]:
                judge_density(rec, 'class', V, B.equilibrium_density, B.support, dict(V=e))
        rec.expect(len(set(seen)) <= 1, 'class/constant', 'the equilibrium measure depends on the constant of the potential', **rp)
        rec.observe(('class/unlisted', tuple(c)), n=len(out), sample=dict(rp, given=not any(seen)))


def functions(rec, cases):
    for nm, args in cases:
        rp = dict(function=nm, args=args)
        if nm == 'x2m':
            V = np.poly1d([args[1] / (2. * args[0])] + [0.] * (2 * args[0]))
            f, g = pc.equilibrium_x2m, pc.cdf_equilibrium_x2m
        elif nm == 'x2_x4':
            V = np.poly1d([args[1] / 4., 0., args[0] / 2., 0., 0.])
            f, g = pc.equilibrium_x2_x4, pc.cdf_equilibrium_x2_x4
        else:
            V = np.poly1d([1 / 20, -4 / 15, 1 / 5, 8 / 5, 0])
            f, g = pc.equilibrium_ClItKr10, None
        ok, r = rec.call(nm, f, *args, replay=rp)
        if not ok:
            continue
        rec.observe((nm, args), sample=rp)
        res = judge_density(rec, nm, V, r[0], r[1], rp)
        if res is None or g is None or (nm == 'x2m' and args[0] not in (2, 3)):
            continue
        ok, c = rec.call(nm + '/cdf', g, *args, replay=rp)
        if ok:
            judge_cdf(rec, nm + '/cdf', c[0], c[1], res[0], res[1], r[1], rp)


def spectrum(rec, cases, seed):
    """spectra of long chains follow the equilibrium measure (common normalisation of both)"""
    for k, (V, beta, N, passes, kw) in enumerate(cases):
        key = 'spectrum'
        rp = dict(V=V, beta=beta, N=N, passes=passes, seed=seed + k, **kw)
        B = pp.BetaEnsemblePolynomialPotential(beta, V)
        ok, X = rec.call(key, B.sample_mcmc, N, passes, return_chain_of_eig_vals=True, random_state=seed + k, cpu=300.,
                         replay=rp, **kw)
        if not ok:
            continue
        X = np.sort(np.ravel(X[:, passes // 2:]))
        x = grid(B.support)
        F = np.cumsum(B.equilibrium_density(x)) * (x[1] - x[0])
        D = np.max(np.abs(np.interp(X, x, F) - (np.arange(len(X)) + .5) / len(X)))
        rec.observe((key, tuple(V), beta, N), n=passes, sample=dict(rp, sup=float(D)))
        rec.expect(D < .06, key, 'V={}: spectrum of the chain is at distance {:.3f} of the equilibrium measure'.format(V, D), **rp)


def jobs(tier, seed):
    t = tier == 'thorough'
    rng = np.random.RandomState(seed)
    J = []
    n = 40 if t else 5
    one, two, fun = [], [], [('ClItKr10', ())]
    one += [[.5, 0., 0.], [.25] + [0.] * 4, [1 / 6.] + [0.] * 6, [1 / 20, -4 / 15, 1 / 5, 8 / 5, 0]]
    for _ in range(n):
        for m in (1, 2, 3):
            one.append([float(np.exp(rng.uniform(-4, 4)))] + [0.] * (2 * m))
        g4 = float(np.exp(rng.uniform(-3, 3)))              # V = g4/4 x^4 + g2/2 x^2, critical g2 = -2 sqrt(g4)
        crit = -2 * np.sqrt(g4)
        r = [float(rng.uniform(.01, 4)), float(crit * rng.uniform(.05, .9)), crit * .999]
        q = [float(crit * rng.uniform(1.05, 3)), crit * 1.001, float(crit * rng.uniform(1.05, 3))]
        one += [[g4 / 4, 0., v / 2, 0., 0.] for v in r]
        two += [[g4 / 4, 0., v / 2, 0., 0.] for v in q]
        fun += [('x2_x4', (float(v), g4)) for v in r + q]
        fun += [('x2m', (m, float(np.exp(rng.uniform(-3, 3))))) for m in (1, 2, 3, 4, 5)]
    fun += [('x2_x4', (-2., 1.)), ('x2_x4', (0., 2.)), ('x2m', (2, 1)), ('x2m', (3, 2)), ('x2_x4', (1, 1)), ('x2_x4', (-4, 1))]
    for k in range(0, len(one), 6):
        J.append(Job('one-cut#%d' % k, potential, coefs_list=one[k:k + 6], seed=seed))
    for k in range(0, len(two), 6):
        J.append(Job('two-cut#%d' % k, potential, coefs_list=two[k:k + 6], seed=seed, two_cut=True))
    for k in range(0, len(fun), 8):
        J.append(Job('functions#%d' % k, functions, cases=fun[k:k + 8]))
    un = [[.5, 0., 0.], [.25, 0., .3, 0., 0.], [1 / 6.] + [0.] * 6, [1 / 20, -4 / 15, 1 / 5, 8 / 5, 0], [.7, 0., .4, 0., 0.],
          [.5, .6, 0.], [1., -2., 0.], [.25, .2, .5, 0., 0.], [.25, 0., .5, .4, 0.], [.25, 0., 0., 1., 0.], [.25, .3, 0., 0., 0.],
          [.2, 0., .3, 0., .5, 0., 0.], [.2, 0., .3, 0., 0., 0., 0.], [.2, 0., 0., 0., .5, 0., 0.],
          [.2, 0., .3, 0., .5, .4, 0.], [1 / 20, -4 / 15, 1 / 5, 7 / 5, 0], [1 / 20, -4 / 15, 1 / 5, 0., 0]]
    un += [[float(np.exp(rng.uniform(-1, 1))), 0., float(np.exp(rng.uniform(-1, 1))), 0., float(np.exp(rng.uniform(-1, 1))), 0., 0.]
           for _ in range(n)]
    for k in range(0, len(un), 6):
        J.append(Job('unlisted#%d' % k, unlisted, coefs_list=un[k:k + 6]))
    S = [([.25, 0., 0., 0., 0.], 2, 60, 30, dict(sample_exact_cond=True)),
         ([.5, 0., .8, 0., 0.], 1, 60, 30, dict(sample_exact_cond=True)),
         ([2., 0., 0.], 4, 80, 6, dict(sample_exact_cond=True))]
    if t:
        S += [([1 / 6.] + [0.] * 6, 2, 30, 200, dict(nb_mala_steps=100)),
              ([1 / 20, -4 / 15, 1 / 5, 8 / 5, 0], 2, 30, 300, dict(nb_mala_steps=100)),
              ([.25, 0., -.7, 0., 0.], 2, 30, 400, dict(nb_mala_steps=100))]
    for k, c in enumerate(S):
        J.append(Job('spectrum#%d' % k, spectrum, cases=[c], seed=100 * seed + k, timeout=800))
    return J
