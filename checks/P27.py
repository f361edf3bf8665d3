"""P27: Tracy-Widom distribution function."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.special import airy

from mon.core import Job
import dppy.beta_ensemble_polynomial_potential_core as pc

RULE = ('each case = (argument or grid, type of the argument, quadrature order, history of the object): values are '
        'compared with a Fredholm determinant on another domain with another quadrature and the exact diagonal of '
        'the Airy kernel, with the integration of the Painleve II equation, with published values and with the '
        'published moments of the law; monotone on fine grids, limits 0 and 1; one object is reused with changing '
        'orders and compared with fresh ones; non-trivial = -8 < x < 3')
ASSUMPTIONS = ['tolerance 5e-6 from order 20 on (the implementation shifts the diagonal of the kernel by 1e-5)']
TOL = 5e-6
PUBLISHED = {-2.0: 0.41322414250512257, 0.0: 0.96937282835526}
MOMENTS = (-1.7710868074116, 0.8131947928329)


def F2(s, m=80):
    x, w = np.polynomial.legendre.leggauss(m)
    L = 16. + max(0., -s)
    x, w = s + (x + 1) / 2 * L, w * L / 2
    A, D, _, _ = airy(x)
    X = x[:, None] - x[None, :]
    np.fill_diagonal(X, 1.)
    K = (np.outer(A, D) - np.outer(D, A)) / X
    np.fill_diagonal(K, D**2 - x * A**2)
    r = np.sqrt(w)
    return float(np.linalg.det(np.eye(m) - r[:, None] * K * r))


def painleve(grid):
    """F2 on a decreasing grid from the Hastings-McLeod solution"""
    s0 = 6.
    A, D, _, _ = airy(s0)
    # q, q', I = int (x - s) q^2, J = int q^2 (from s to infinity)
    J0 = D**2 - s0 * A**2
    x, w = np.polynomial.legendre.leggauss(60)
    t, w = s0 + (x + 1) * 5, w * 5
    I0 = float(np.sum(w * (t - s0) * airy(t)[0]**2))
    f = lambda s, y: [y[1], s * y[0] + 2 * y[0]**3, -y[3], -y[0]**2]
    r = solve_ivp(f, (s0, min(grid)), [A, D, I0, J0], t_eval=sorted(grid, reverse=True), rtol=1e-12, atol=1e-14,
                  method='DOP853')
    return {float(s): float(np.exp(-v)) for s, v in zip(r.t, r.y[2])}


def values(rec, seed):
    rng = np.random.RandomState(seed)
    T = pc.TracyWidom()
    s = np.concatenate([np.linspace(-10, 8, 73), rng.uniform(-9, 5, 60)])
    ref = np.array([F2(t) for t in s])
    for q in (None, 20, 25, 33, 50, 64, 101):
        kw = {} if q is None else dict(quad_order=q)
        for how in ('scalar', 'array', 'list'):
            rp = dict(order=q, how=how, seed=seed)
            if how == 'scalar':
                sel = rng.choice(len(s), 25, replace=False)
                arg, want = None, ref[sel]
                ok, v = rec.call('cdf/scalar', lambda: np.array([float(np.ravel(T.cdf(float(t), **kw))[0]) for t in s[sel]]),
                                 replay=rp)
            else:
                sel = rng.permutation(len(s))
                arg = s[sel] if how == 'array' else s[sel].tolist()
                want = ref[sel]
                ok, v = rec.call('cdf/' + how, T.cdf, arg, replay=rp, **kw)
            if not ok:
                continue
            v = np.asarray(v, float)
            if not rec.expect(v.shape == want.shape and np.all(np.isfinite(v)), 'cdf/shape', 'shape {} instead of {}'.format(
                    v.shape, want.shape), **rp):
                continue
            e = np.abs(v - want)
            for t in np.asarray(s)[sel]:
                rec.observe((q, how, round(float(t), 6)), nontrivial=-8 < t < 3)
            rec.expect(e.max() < TOL, 'cdf/value', 'order {} ({}): F({:.4f}) = {:.8f} instead of {:.8f}'.format(
                q, how, np.asarray(s)[sel][e.argmax()], v[e.argmax()], want[e.argmax()]), **rp)
            rec.expect(np.all((v > -1e-9) & (v < 1 + 1e-9)), 'cdf/range', 'values outside of [0,1]', **rp)
            if arg is not None and how == 'array':
                rec.expect(np.array_equal(arg, s[sel]), 'cdf/mutation', 'argument modified', **rp)
    for t, p in PUBLISHED.items():
        for cast in (float, np.float64, np.float32, lambda u: int(u), np.int64, lambda u: np.array(u), lambda u: [u],
                     lambda u: np.array([u])):
            rp = dict(x=t, cast=repr(cast(t)))
            ok, v = rec.call('cdf/types', T.cdf, cast(t), replay=rp)
            if ok:
                rec.expect(np.size(v) == 1 and abs(float(np.ravel(v)[0]) - p) < TOL, 'cdf/published',
                           'F({}) = {} instead of {}'.format(t, v, p), **rp)
                rec.observe(('published', t, repr(cast(t))), sample=dict(rp, value=float(np.ravel(v)[0])))


def shape(rec, seed):
    rng = np.random.RandomState(seed)
    for q in (20, 30, 50, 80):
        T = pc.TracyWidom()
        x = np.linspace(-12, 10, 2201) + rng.rand() * .01
        ok, v = rec.call('cdf/grid', T.cdf, x, quad_order=q, replay=dict(order=q))
        if not ok:
            continue
        rec.observe(('grid', q), n=len(x), sample=dict(order=q))
        rec.expect(np.min(np.diff(v)) > -1e-10, 'cdf/monotone', 'order {}: decreases by {:.3g}'.format(q, -np.min(np.diff(v))))
        rec.expect(abs(v[0]) < 1e-9 and abs(v[-1] - 1) < 1e-9, 'cdf/limits', 'order {}: limits {} {}'.format(q, v[0], v[-1]))
        h = x[1] - x[0]
        m = x[-1] - h * (v.sum() - .5 * (v[0] + v[-1]))
        m2 = x[-1]**2 - 2 * h * np.sum(x * v) + h * (x[0] * v[0] + x[-1] * v[-1])
        rec.expect(abs(m - MOMENTS[0]) < 1e-4 and abs(m2 - m * m - MOMENTS[1]) < 3e-4, 'cdf/moments', 'order {}: mean {:.6f} '
                   'variance {:.6f} instead of {}'.format(q, m, m2 - m * m, MOMENTS))
    T = pc.TracyWidom()
    for t, p in ((30., 1.), (60., 1.), (200., 1.), (-15., 0.), (-25., 0.)):
        ok, v = rec.call('cdf/far', T.cdf, t, replay=dict(x=t))
        if ok:
            rec.expect(abs(float(np.ravel(v)[0]) - p) < 1e-9, 'cdf/limits', 'F({}) = {}'.format(t, v))
            rec.observe(('far', t), nontrivial=False)


def painleve_job(rec):
    g = [round(v, 3) for v in np.arange(-5., 5.001, .25)]
    ref = painleve(g)
    T = pc.TracyWidom()
    for t in g:
        p = ref[float(t)]
        ok, v = rec.call('cdf/scalar', T.cdf, t, replay=dict(x=t))
        if ok:
            v = float(np.ravel(v)[0])
            rec.observe(('painleve', t), sample=dict(x=t, painleve=p, value=v))
            if abs(p - F2(t)) > 1e-6:
                rec.undecided('oracles disagree at {}'.format(t))
                continue
            rec.expect(abs(v - p) < TOL, 'cdf/painleve', 'F({}) = {} instead of {}'.format(t, v, p), x=t)


def history(rec, reps, seed):
    rng = np.random.RandomState(seed)
    for _ in range(reps):
        T = pc.TracyWidom()
        hist = []
        for _ in range(8):
            q = int(rng.choice([20, 24, 37, 50]))
            x = [float(rng.uniform(-6, 3)), rng.uniform(-6, 3, size=int(rng.randint(1, 5)))][rng.randint(2)]
            hist.append((q, np.round(x, 4)))
            kw = {} if q == 50 and rng.rand() < .5 else dict(quad_order=q)
            ok, v = rec.call('history', T.cdf, x, replay=dict(history=hist), **kw)
            ok2, u = rec.call('history', pc.TracyWidom().cdf, x, replay=dict(history=hist), **kw)
            if ok and ok2:
                rec.observe(('history', len(hist), q, repr(hist[-1])), sample=dict(history=repr(hist[-1])))
                rec.expect(np.allclose(v, u, rtol=0, atol=1e-10), 'history', 'value depends on earlier calls: {} instead of {}'.format(v, u),
                           history=hist)
                w = np.array([F2(t) for t in np.atleast_1d(x)])
                rec.expect(np.max(np.abs(v - w)) < TOL, 'history/value', 'F({}) = {} instead of {}'.format(x, v, w), history=hist)


def kernel(rec, seed):
    """the point-wise Airy kernel"""
    rng = np.random.RandomState(seed)
    if not hasattr(pc.TracyWidom, 'airy_kernel'):
        rec.undecided('no point-wise kernel')
        return
    for i in range(200):
        x, y = rng.uniform(-8, 4, 2)
        if i % 4 == 0:
            y = x
        A, D, _, _ = airy(x)
        B, E, _, _ = airy(y)
        ref = D**2 - x * A**2 if x == y else (A * E - D * B) / (x - y)
        ok, v = rec.call('kernel', pc.TracyWidom.airy_kernel, x, y, replay=dict(x=x, y=y))
        if ok:
            rec.observe(('kernel', round(x, 6), round(y, 6)))
            rec.expect(abs(v - ref) < 1e-4 * (1 + abs(ref)), 'kernel', 'K({}, {}) = {} instead of {}'.format(x, y, v, ref),
                       x=x, y=y)


def jobs(tier, seed):
    t = tier == 'thorough'
    J = [Job('values#%d' % k, values, seed=100 * seed + k) for k in range(16 if t else 3)]
    J += [Job('shape#%d' % k, shape, seed=100 * seed + 50 + k) for k in range(4 if t else 1)]
    J += [Job('painleve', painleve_job), Job('history', history, reps=60 if t else 8, seed=100 * seed + 70)]
    J += [Job('kernel', kernel, seed=100 * seed + 80)]
    return J
