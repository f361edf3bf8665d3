"""P23: kernel of the multivariate Jacobi ensemble = Christoffel-Darboux projection kernel."""
import itertools

import numpy as np

from mon import jacobi as mj
from mon.core import Job
import dppy.multivariate_jacobi_ope as mo

RULE = ('each case = (d, N, Jacobi parameters, type of the parameters): the features on a tensor Gauss-Jacobi grid '
        '(exact for the products involved) must have the identity as Gram matrix, must be the orthonormal '
        'polynomials of the documented multi-indices (independent three-term recurrence), and every evaluation '
        'of the kernel (matrix / pointwise, one or two arguments, arrays / lists / single points, borders of the '
        'domain, before and after sampling) must agree with the reference kernel; non-trivial = N >= 2')
ASSUMPTIONS = ['relative tolerance 1e-8 on kernels of degree up to 60']
DOC = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (1, 2), (2, 0), (2, 1), (2, 2), (0, 3), (1, 3), (2, 3)]


def ordering(rec, pairs):
    for N, d in pairs:
        rp = dict(N=N, d=d)
        ok, o = rec.call('ordering', mo.compute_ordering, N, d, replay=rp)
        if not ok:
            continue
        o = [tuple(int(v) for v in np.atleast_1d(k)) for k in o]
        ref = mj.order(N, d)
        rec.observe(('ordering', N, d), nontrivial=N > 1, sample=dict(rp, last=ref[-1]))
        rec.expect(o == ref, 'ordering', 'N={} d={}: ordering differs from the documented one at position {}'.format(
            N, d, next((i for i, (u, v) in enumerate(zip(o, ref)) if u != v), min(len(o), len(ref)))), **rp)
    rec.expect([tuple(map(int, k)) for k in mo.compute_ordering(12, 2)] == DOC, 'ordering/doc',
               'documented example differs')


def draw_params(rng, d, wide):
    out = []
    for _ in range(d):
        r = rng.randint(6)
        if r == 0:
            p = (-.5, -.5)
        elif r == 1:
            p = [(-.5, rng.uniform(-.5, .5)), (rng.uniform(-.5, .5), -.5)][rng.randint(2)]
        elif r == 2:
            p = (0., 0.)
        elif r == 3:
            p = [(.5, .5), (.5, -.5), (-.5, .5)][rng.randint(3)]
        elif wide and r == 4:
            p = (rng.uniform(-.98, 6), rng.uniform(-.98, 6))
        else:
            p = tuple(rng.uniform(-.5, .5, 2))
        out.append(p)
    if wide and rng.rand() < .2:
        t = rng.uniform(-.9, -.1)
        out[0] = (t, -1 - t)                  # a + b = -1
    return out


def close(A, B, scale):
    A, B = np.asarray(A, float), np.asarray(B, float)
    return A.shape == B.shape and np.all(np.isfinite(A)) and np.max(np.abs(A - B) / scale, initial=0) < 1e-8


def kernel(rec, reps, dims, seed):
    rng = np.random.RandomState(seed)
    for _ in range(reps):
        d = int(rng.choice(dims))
        N = int(rng.choice({1: [1, 2, 5, 17, 40, 61], 2: [1, 2, 4, 5, 12, 30, 50], 3: [1, 3, 8, 9, 30, 64],
                            4: [1, 5, 16, 20]}[d]))
        params = draw_params(rng, d, d == 1)
        as_list = rng.rand() < .4
        if rng.rand() < .15:
            params = [(0, 0)] * d if d > 1 else [(int(rng.randint(0, 4)), int(rng.randint(0, 4)))]
        par = params if as_list else np.array(params)
        rp = dict(N=N, d=d, params=params, as_list=as_list, seed=seed)
        ok, J = rec.call('init', mo.MultivariateJacobiOPE, N, par, replay=rp)
        if not ok:
            continue
        deg = max(max(k) for k in mj.order(N, d))
        nodes = [mj.gauss(deg + 2, a, b) for a, b in params]
        G = np.array(list(itertools.product(*[x for x, _ in nodes])))
        W = np.array([np.prod(t) for t in itertools.product(*[w for _, w in nodes])])
        ok, F = rec.call('features', J.eval_multiD_polynomials, G, replay=rp)
        if not ok:
            continue
        rec.observe((N, d, repr(params), as_list), nontrivial=N > 1, sample=rp)
        if rec.expect(np.shape(F) == (len(G), N), 'features/shape', 'features of shape {}'.format(np.shape(F)), **rp):
            E = np.max(np.abs((F * W[:, None]).T @ F - np.eye(N)))
            rec.expect(E < 1e-8, 'orthonormality', 'Gram matrix of the polynomials is off the identity by {:.3g}'.format(
                E), **rp)
            R = mj.features(N, params, G)
            D = np.minimum(np.max(np.abs(F - R), axis=0), np.max(np.abs(F + R), axis=0)) / np.max(np.abs(R), axis=0)
            rec.expect(D.max() < 1e-8, 'features', 'polynomial {} is not the one of the documented multi-index '
                       '{}'.format(int(D.argmax()), mj.order(N, d)[int(D.argmax())]), **rp)
        # kernel on arbitrary points
        M = int(rng.choice([1, 2, 7]))
        X = 2 * rng.rand(M, d) - 1
        Y = 2 * rng.rand(int(rng.choice([1, 3, 7])), d) - 1
        if rng.rand() < .5:
            X[0] = rng.choice([-1., 1., 0.], size=d)
        FX, FY = mj.features(N, params, X), mj.features(N, params, Y)
        FM = mj.features(N, params, Y[:1].repeat(M, axis=0))
        sx, sy = np.linalg.norm(FX, axis=1), np.linalg.norm(FY, axis=1)
        KXX, KXY = FX @ FX.T, FX @ FY.T
        X0, Y0 = X.copy(), Y.copy()
        Ym = Y[:1].repeat(M, axis=0)
        P, FP = np.concatenate([X, Y]), np.concatenate([FX, FY])      # views of one array
        sp, q = np.linalg.norm(FP, axis=1), int(rng.randint(0, M + 1))
        Z = np.clip(X + 10.0**rng.uniform(-7, -4) * rng.randn(M, d), -1, 1)      # close to X, not equal
        FZ = mj.features(N, params, Z)
        big = np.zeros((2 * M, d + 2))
        big[::2, :d], big[1::2, :d] = X, Ym
        tests = [
            ('K(X)', lambda: J.K(X), KXX, np.outer(sx, sx)),
            ('K(X,X)', lambda: J.K(X, X), KXX, np.outer(sx, sx)),
            ('K(X,copy)', lambda: J.K(X, X.copy()), KXX, np.outer(sx, sx)),
            ('K(X,Y)', lambda: J.K(X, Y), KXY, np.outer(sx, sy)),
            ('K(Y,X)', lambda: J.K(Y, X), KXY.T, np.outer(sy, sx)),
            ('K(X list,Y list)', lambda: J.K(X.tolist(), Y.tolist()), KXY, np.outer(sx, sy)),
            ('K(X) pointwise', lambda: J.K(X, eval_pointwise=True), np.diag(KXX), sx**2),
            ('K(X,X) pointwise', lambda: J.K(X, X, eval_pointwise=True), np.diag(KXX), sx**2),
            ('K(X,Y) pointwise', lambda: J.K(X, Ym, eval_pointwise=True), np.sum(FX * FM, axis=1), sx * sy[0]),
            ('K(views)', lambda: J.K(P[:M], P[q:]), FP[:M] @ FP[q:].T, np.outer(sp[:M], sp[q:])),
            ('K(view,array)', lambda: J.K(P[::-1], P), FP[::-1] @ FP.T, np.outer(sp[::-1], sp)),
            ('K(views) pointwise', lambda: J.K(P[:-1], P[1:], eval_pointwise=True), np.sum(FP[:-1] * FP[1:], axis=1), sp[:-1] * sp[1:]),
            ('K(strided)', lambda: J.K(big[::2, :d], big[1::2, :d]), FX @ FM.T, np.outer(sx, sy[0] * np.ones(M))),
            ('Phi(view)', lambda: np.asarray(J.eval_multiD_polynomials(P[::-1]))**2, FP[::-1]**2, (sp[::-1]**2)[:, None]),
            ('K(X,close)', lambda: J.K(X, Z), FX @ FZ.T, np.outer(sx, np.linalg.norm(FZ, axis=1))),
            ('K(X,close) pointwise', lambda: J.K(X, Z, eval_pointwise=True), np.sum(FX * FZ, axis=1), sx * np.linalg.norm(FZ, axis=1)),
            ('K(fortran)', lambda: J.K(np.asfortranarray(X), np.asfortranarray(Y)), KXY, np.outer(sx, sy)),
            ('K(x)', lambda: np.ravel(J.K(X[0])), KXX[:1, 0], sx[:1]**2),
            ('K(x,y)', lambda: np.ravel(J.K(X[0], Y[0])), KXY[:1, 0], sx[:1] * sy[:1]),
            ('K(x,y) pointwise', lambda: np.ravel(J.K(X[0], Y[0], eval_pointwise=True)), KXY[:1, 0], sx[:1] * sy[:1]),
            ('K(x,Y)', lambda: np.ravel(J.K(X[0], Y)), KXY[0], sx[0] * sy),
            ('Phi(x)', lambda: np.ravel(J.eval_multiD_polynomials(X[0]))**2, FX[0]**2, sx[0]**2),
            ('Phi(list)', lambda: np.asarray(J.eval_multiD_polynomials(X.tolist()))**2, FX**2, (sx**2)[:, None]),
        ]
        order = rng.permutation(len(tests))
        for rnd in range(2):
            for t in order:
                nm, f, ref, sc = tests[t]
                ok, v = rec.call('kernel/' + nm, f, replay=rp)
                rec.count('kernel_evaluations')
                if ok:
                    rec.expect(close(v, ref, sc), 'kernel/' + nm, '{}: N={} d={} params={}: evaluation is not the '
                               'reproducing kernel'.format(nm, N, d, params), X=X, Y=Y, round=rnd, **rp)
            if rnd == 0 and N <= 12:
                rec.call('sample', J.sample, random_state=int(rng.randint(1000)), replay=rp)
            elif rnd == 0:
                break
        rec.expect(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'mutation', 'evaluation points modified', **rp)
        # base weight and total mass
        inner = np.clip(X, -.999, .999)
        w = np.array([np.prod([(1 - x)**a * (1 + x)**b for x, (a, b) in zip(row, params)]) for row in inner])
        edge = np.where(rng.rand(12, d) < .5, -1, 1) * (1 - 10.0**-rng.randint(1, 16, size=(12, d)))
        if min(map(min, params)) >= 0:
            edge[:3] = np.where(rng.rand(3, d) < .5, np.sign(edge[:3]), edge[:3])
        we = np.array([np.prod([(1 - x)**a * (1 + x)**b for x, (a, b) in zip(row, params)]) for row in edge])
        for nm, arg, ref in (('matrix', inner, w), ('list', inner.tolist(), w), ('point', inner[0], w[0]), ('edge', edge, we)):
            ok, v = rec.call('eval_w/' + nm, J.eval_w, arg, replay=rp)
            if ok:
                rec.expect(np.shape(v) == np.shape(ref) and np.allclose(v, ref, rtol=1e-9, atol=0), 'eval_w/' + nm,
                           'base weight {} instead of {}'.format(v, ref), **rp)
        if hasattr(J, 'mass_of_mu'):
            mass = np.exp(sum(mj.log_mass(a, b) for a, b in params))
            rec.expect(abs(J.mass_of_mu / mass - 1) < 1e-9, 'mass', 'announced mass of the base measure {} instead of '
                       '{}'.format(J.mass_of_mu, mass), **rp)
        # trace against the base measure
        ok, kd = rec.call('kernel/trace', J.K, G, eval_pointwise=True, replay=rp)
        if ok:
            rec.expect(abs(np.dot(W, kd) - N) < 1e-7 * N, 'trace', 'trace of the kernel {} instead of {}'.format(
                np.dot(W, kd), N), **rp)


def high(rec, cases, seed):
    """high degrees: hundreds of points in dimension 1, thousands in higher dimension"""
    rng = np.random.RandomState(seed)
    for N, params in cases:
        d = len(params)
        rp = dict(N=N, params=params, seed=seed)
        ok, J = rec.call('high/init', mo.MultivariateJacobiOPE, N, np.array(params, float), replay=rp)
        if not ok:
            continue
        X = np.cos(np.pi * rng.rand(9, d))
        Y = np.cos(np.pi * rng.rand(4, d))
        if d == 1:
            X[0], X[1], Y[0] = 1., -1., 0.
        FX, FY = mj.features(N, params, X), mj.features(N, params, Y)
        sx, sy = np.linalg.norm(FX, axis=1), np.linalg.norm(FY, axis=1)
        rec.observe(('high', N, repr(params)), n=3, sample=dict(rp, K=(sx**2).tolist()))
        for nm, f, want, sc in (('K(X)', lambda: J.K(X), FX @ FX.T, np.outer(sx, sx)), ('K(X,Y)', lambda: J.K(X, Y), FX @ FY.T, np.outer(sx, sy)),
                                ('K(X) pointwise', lambda: J.K(X, eval_pointwise=True), sx**2, sx**2),
                                ('Phi(X)', lambda: np.asarray(J.eval_multiD_polynomials(X))**2, FX**2, sx[:, None]**2)):
            ok, v = rec.call('high/' + nm, f, replay=rp)
            if ok:
                rec.expect(np.shape(v) == want.shape and np.all(np.isfinite(v)) and np.max(np.abs(v - want) / sc) < 1e-6, 'high/' + nm,
                           'N={} params={}: {} is not the reproducing kernel (relative error {:.3g})'.format(
                               N, params, nm, np.max(np.abs(v - want) / sc)), **rp)


def refused(rec):
    ok_ = [(2, [[0., 0.]]), (1, [[-.9, 5.]]), (4, [[.5, -.5], [.1, .2]])]
    bad = [(0, [[0., 0.]]), (-1, [[0., 0.]]), (2., [[0., 0.]]), (2, [[-1., 0.]]), (2, [[0., -1.5]]),
           (2, [[.6, 0.], [0., 0.]]), (2, [[0., 0.], [0., -.51]]), (2, [0., 0.]), (2, [[0., 0., 0.]]), (2, []),
           (2, [[np.nan, 0.]]), (2, [[np.nan, 0.], [0., 0.]])]
    for N, p in ok_:
        rec.call('refused/valid', mo.MultivariateJacobiOPE, N, np.array(p), replay=dict(N=N, p=p))
    for N, p in bad:
        try:
            mo.MultivariateJacobiOPE(N, np.array(p))
            e = None
        except Exception as exc:
            e = exc
        rec.observe(('refused', N, repr(p)), sample=dict(N=N, params=p))
        rec.expect(isinstance(e, ValueError), 'refused', 'N={} params={} not refused with ValueError ({!r})'.format(
            N, p, e), N=N, params=p)


def jobs(tier, seed):
    s = 1000 * seed
    t = tier == 'thorough'
    pairs = [(N, d) for d in (1, 2, 3, 4, 5) for N in (1, 2, 3, 7, 8, 9, 12, 16, 27, 31, 32, 64, 81, 100)]
    if t:
        pairs += [(N, d) for d in (1, 2, 3, 4, 5, 6) for N in list(range(1, 130)) + [729, 1000, 1024]]
    J = [Job('ordering', ordering, pairs=pairs), Job('refused', refused)]
    r = np.random.RandomState(s)
    one = [(-.5, -.5), (0., 0.), (.5, .5), (.5, -.5), (-.5, .3), (2., -.7), (-.9, 6.), (-.3, -.7), (0, 1), (7.5, 3.)]
    hi = [(N, [p]) for p in one for N in (100, 172, 180, 250, 300, 500)]
    hi += [(N, [one[i] for i in r.randint(0, 5, size=d)]) for N, d in ((400, 2), (900, 2), (2000, 2), (2500, 2), (1000, 3), (3000, 3), (1296, 4), (1000, 5), (700, 6))
           for _ in range(3 if not t else 20)]
    J += [Job('high#%d' % b, high, cases=hi[b::4], seed=s + 900 + b, timeout=800) for b in range(4)]
    for k in range(16 if t else 8):
        J.append(Job('kernel 1#%d' % k, kernel, reps=1500 if t else 400, dims=[1], seed=s + k, timeout=800))
        J.append(Job('kernel d#%d' % k, kernel, reps=1500 if t else 300, dims=[2, 2, 3, 4], seed=s + 500 + k, timeout=800))
    return J
