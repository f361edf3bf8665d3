"""P29: linear algebra and similarity building blocks compute exactly what they announce."""
import fractions
import itertools

import numpy as np

from mon.core import Job
import dppy.utils as ut

RULE = ('each case = (function, shapes, types, layouts, values): results of the real code are compared with the definition '
        'evaluated independently (rational determinants, explicit loops, exact pseudo-inverses), for integer, boolean, '
        'single and double precision and complex inputs in several memory layouts; arguments are fingerprinted; non-trivial '
        '= at least two items')
ASSUMPTIONS = ['relative tolerance 1e-9 (1e-4 in single precision)']


def layouts(r, A):
    """the same values in another memory layout"""
    k = r.randint(5)
    if k == 0:
        return A.copy()
    if k == 1:
        return np.asfortranarray(A)
    if k == 2:
        B = np.zeros(tuple(2 * s for s in A.shape), A.dtype)
        v = B[tuple(slice(None, None, 2) for _ in A.shape)]
        v[...] = A
        return v
    if k == 3:
        return A[::-1].copy()[::-1]
    B = A.copy()
    B.flags.writeable = False
    return B


def values(r, shape):
    k = r.randint(7)
    if k == 0:
        return r.randint(-9, 10, size=shape)
    if k == 1:
        return r.randn(*shape).astype(np.float32)
    if k == 2:
        return r.randn(*shape) + 1j * r.randn(*shape)
    if k == 3:
        return (10.**r.uniform(-8, 8)) * r.randn(*shape)
    if k == 4:
        return r.randint(0, 2, size=shape).astype(float)
    if k == 5:
        return r.randn(*shape) * (r.rand(*shape) < .4)
    return r.randn(*shape)


def tol(*arrs):
    return 1e-4 if any(a.dtype == np.float32 for a in arrs) else 1e-9


def inner(rec, count, seed):
    """sums of products along an axis"""
    r = np.random.RandomState(seed)
    for c in range(count):
        nd = int(r.choice([1, 1, 2, 2, 2, 3, 4]))
        shape = tuple(int(v) for v in r.randint(1, 6, size=nd))
        if r.rand() < .05:
            shape = (0,) + shape[1:]
        if r.rand() < .05:
            shape = tuple(int(v) for v in r.randint(30, 60, size=min(nd, 2)))
        A, B = values(r, shape), values(r, shape)
        axis = int(r.randint(-len(shape), len(shape)))
        one = r.rand() < .5
        P = np.asarray(A * A if one else A * B)
        scale = np.sum(np.abs(P), axis=axis)
        want = np.sum(P.astype(complex), axis=axis)
        X, Y = layouts(r, A), layouts(r, B)
        rp = dict(shape=shape, axis=axis, types=[str(A.dtype), str(B.dtype)], one=one, seed=seed, case=c)
        kw = {} if axis == 0 and r.rand() < .5 else dict(axis=axis)
        ok, v = rec.call('inner1d', ut.inner1d, *((X,) if one else (X, Y)), replay=rp, **kw)
        rec.observe(('inner1d', shape, axis, one, c), nontrivial=int(np.prod(shape)) > 1, sample=rp)
        if ok:
            rec.expect(np.shape(v) == np.shape(want) and np.all(np.abs(v - want) <= tol(A, B) * scale + 1e-300), 'inner1d',
                       'inner1d is not the sum of the products', **rp)
        rec.expect(np.array_equal(X, A) and np.array_equal(Y, B), 'inner1d/mutation', 'arguments modified', **rp)


def rational_det(M):
    n = len(M)
    M = [[fractions.Fraction(int(v)) for v in row] for row in M]
    d = fractions.Fraction(1)
    for i in range(n):
        p = next((k for k in range(i, n) if M[k][i] != 0), None)
        if p is None:
            return 0.
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for k in range(i + 1, n):
            f = M[k][i] / M[i][i]
            M[k] = [a - f * b for a, b in zip(M[k], M[i])]
    return float(d)


def dets(rec, count, seed):
    """minors: rows S, columns T, in the given order"""
    r = np.random.RandomState(seed)
    for c in range(count):
        n, m = int(r.randint(1, 9)), int(r.randint(1, 9))
        same = r.rand() < .5
        if same:
            m = n
        A = r.randint(-4, 5, size=(n, m)).astype(r.choice([float, int, np.float32]))
        if same and r.rand() < .5:
            A = A + A.T
        k = int(r.randint(0, min(n, m, 5) + 1))
        S, T = r.permutation(n)[:k], r.permutation(m)[:k]
        if r.rand() < .15 and k > 1:
            S[0] = S[1]                                    # a repeated row: zero
        wrap = [lambda s: [int(v) for v in s], lambda s: np.array(s, dtype=int), lambda s: tuple(int(v) for v in s)][r.randint(3)]
        X = layouts(r, A)
        rp = dict(A=A, S=S, T=T, one=same, seed=seed, case=c)
        if same and r.rand() < .6:
            want = rational_det(A[np.ix_(S, S)] if k else [])
            ok, v = rec.call('det_ST/S', ut.det_ST, X, wrap(S), replay=rp)
        else:
            want = rational_det([[A[i, j] for j in T] for i in S])
            ok, v = rec.call('det_ST/ST', ut.det_ST, X, wrap(S), wrap(T), replay=rp)
        rec.observe(('det', n, m, k, c), nontrivial=k > 1, sample=dict(n=n, m=m, S=S, T=T, value=want))
        if ok:
            rec.expect(np.ndim(v) == 0 and abs(v - want) < 1e-3 * (A.dtype == np.float32) * 4**k + 1e-9 * (1 + 10.**k), 'det_ST', 'minor is {} instead of {}'.format(
                v, want), **rp)
        rec.expect(np.array_equal(X, A), 'det_ST/mutation', 'matrix modified', **rp)


def spectral(rec, count, seed):
    """filtered eigendecompositions and pseudo inverse square roots"""
    r = np.random.RandomState(seed)
    for c in range(count):
        n = int(r.randint(1, 12))
        rank = int(r.randint(1, n + 1))
        scale = 10.**r.uniform(-6, 6)
        w = np.zeros(n)
        w[r.permutation(n)[:rank]] = scale * 10.**r.uniform(-12 if r.rand() < .5 else -4, 0, size=rank)
        w *= scale / np.max(w)
        Q, _ = np.linalg.qr(r.randn(n, n))
        live = w > 0
        if r.rand() < .5:
            w[w == 0] = 1e-19 * scale * r.randn(int(np.sum(w == 0)))       # rounding noise of a psd matrix
        V, W = layouts(r, Q), layouts(r, w)
        rp = dict(n=n, rank=rank, scale=scale, seed=seed, case=c)
        A = (Q * np.where(live, w, 0)).dot(Q.T)
        B = lambda R: R.dot(Q[:, live]) * np.sqrt(w[live])
        ok, v = rec.call('stable_filter', ut.stable_filter, V, W, replay=rp)
        rec.observe(('filter', n, rank, c), nontrivial=n > 1, sample=rp)
        if ok:
            U, l = v
            rec.expect(U.shape == (n, rank) and l.shape == (rank,) and np.max(np.abs((U * l).dot(U.T) - A)) < 1e-9 * scale
                       and np.max(np.abs(U.T.dot(U) - np.eye(rank))) < 1e-9, 'stable_filter',
                       'the non-zero part of the decomposition is not the one of the matrix', **rp)
        ok, v = rec.call('stable_invert_root', ut.stable_invert_root, V, W, replay=rp)
        if ok:
            U, l = v
            R = l * U.T                                      # pseudo inverse root, up to a rotation: R A R^T = I, R^T R = A^+
            rec.expect(np.shape(l) == (rank, 1) and np.shape(U) == (n, rank) and np.max(np.abs(B(R).dot(B(R).T) - np.eye(rank))) < 1e-6 and
                       np.max(np.abs(R.dot(Q[:, ~live])), initial=0) < 1e-6 * np.max(np.abs(R)), 'stable_invert_root', 'not the inverse square root', **rp)
        rec.expect(np.array_equal(V, Q) and np.array_equal(W, w), 'spectral/mutation', 'arguments modified', **rp)
        # a matrix which is not psd, shapes which do not match
        bad = w.copy()
        bad[r.randint(n)] = -1e-3 * scale
        for f in (ut.stable_filter, ut.stable_invert_root):
            for a, b in ((Q, bad), (Q, w[:-1]), (Q[:, :-1], w)) if n > 1 else ((Q, -np.abs(w) - scale),):
                try:
                    f(a, b)
                except ValueError:
                    rec.count('refused')
                else:
                    rec.violate('spectral/accepted', 'invalid decomposition is accepted', **rp)


def kernels(rec, count, seed):
    """similarity functions: entries, shapes, diagonal"""
    r = np.random.RandomState(seed)

    class WithDiag:
        def __init__(self, f):
            self.f = f

        def __call__(self, X, Y=None):
            return self.f(X, Y)

        def diag(self, X):
            return np.array([self.f(x[None, :]).item() for x in X])
    for c in range(count):
        which = c % 3
        d = 1 if which == 2 else int(r.randint(1, 6))
        n, m = int(r.randint(1, 9)), int(r.randint(1, 9))
        mk = (lambda k: r.rand(k, 1)) if which == 2 else (lambda k: (r.randn(k, d) if r.rand() < .7 else r.randint(-5, 6, size=(k, d))))
        X, Y = mk(n), mk(m)
        if which == 2 and r.rand() < .3:
            X[0], Y[-1] = 0., 1.
        f = (ut.example_eval_L_linear, ut.example_eval_L_polynomial, ut.example_eval_L_min_kern)[which]
        kw = dict(p=int(r.choice([1, 2, 3]))) if which == 1 and r.rand() < .6 else {}
        e = (lambda x, y: float(np.dot(x, y)), lambda x, y: float(np.dot(x, y))**kw.get('p', 2), lambda x, y: float(min(x[0], y[0])))[which]
        rp = dict(kernel=f.__name__, n=n, m=m, d=d, kw=kw, seed=seed, case=c)
        key = 'kernel/' + f.__name__
        a, b = layouts(r, X), layouts(r, Y)
        for args, (p, q) in (((a,), (X, X)), ((a, b), (X, Y)), ((a[:1], b), (X[:1], Y)), ((a, b[:1]), (X, Y[:1])), ((a[0], b), (X[:1], Y)),
                             ((a[0],), (X[:1], X[:1])), ((a, b[0]), (X, Y[:1]))):
            ok, v = rec.call(key, f, *args, replay=rp, **kw)
            want = np.array([[e(x, y) for y in q] for x in p])
            rec.observe((key, c, len(args), p.shape, q.shape), nontrivial=want.size > 1, sample=rp)
            if ok:
                rec.expect(np.shape(v) == want.shape and np.max(np.abs(v - want)) < 1e-9 * (1 + np.max(np.abs(want))), key,
                           'evaluation on {} x {} points is wrong'.format(len(p), len(q)), **rp)
        for g in (f, WithDiag(f)):
            ok, v = rec.call(key + '/diag', ut.evaluate_L_diagonal, g, a, replay=rp)
            if ok:
                e2 = e if not kw else (lambda x, y: float(np.dot(x, y))**2)
                want = np.array([e2(x, x) for x in X])
                rec.expect(np.shape(v) == (n,) and np.max(np.abs(v - want)) < 1e-9 * (1 + np.max(np.abs(want))), key + '/diag',
                           'diagonal {} instead of {}'.format(v, want), **rp)
        # any user-defined similarity, on the same points
        ls = float(.3 + r.rand())
        user = (lambda x, y: np.exp(-np.sum((np.asarray(x, float) - y)**2) / ls), lambda x, y: (1 + np.dot(x, y))**2 / 7.,
                lambda x, y: .1 * int(np.dot(x, y)))[c % 3]
        g = lambda P, Q=None: np.array([[user(x, y) for y in np.atleast_2d(P if Q is None else Q)] for x in np.atleast_2d(P)])
        for h in (g, WithDiag(g)):
            ok, v = rec.call('kernel/user/diag', ut.evaluate_L_diagonal, h, a, replay=rp)
            want = np.array([user(x, x) for x in X])
            if ok:
                rec.expect(np.shape(v) == (n,) and np.max(np.abs(v - want)) < 1e-9 * (1 + np.max(np.abs(want))), 'kernel/user/diag',
                           'diagonal {} instead of {}'.format(v, want), **rp)
        rec.expect(np.array_equal(a, X) and np.array_equal(b, Y), key + '/mutation', 'arguments modified', **rp)
    for f, bad in ((ut.example_eval_L_min_kern, (np.array([[1.5]]), np.array([[-.1]]), np.zeros((3, 2)))),):
        for X in bad:
            for args in ((X,), (np.array([[.5]]), X)):
                try:
                    f(*args)
                except AssertionError:
                    rec.count('refused')
                else:
                    rec.violate('kernel/min/accepted', 'points out of [0, 1] are accepted', X=X)


def predicates(rec, count, seed):
    """documented tests of matrices: the argument itself is returned, or ValueError"""
    r = np.random.RandomState(seed)

    def judge(name, f, A, want, rp):
        X = layouts(r, A)
        try:
            v = f(X)
        except ValueError:
            got = False
        else:
            got = True
            rec.expect(v is X, name + '/identity', 'the array which was tested is not returned', **rp)
        rec.observe((name, A.shape, want, rp['case']), nontrivial=A.size > 1, sample=rp)
        rec.expect(got == want, name, '{} says {} for a matrix of shape {}'.format(name, got, A.shape), A=A, **rp)
        rec.expect(np.array_equal(X, A), name + '/mutation', 'argument modified', **rp)
    for name in ('is_square', 'is_symmetric', 'is_projection', 'is_orthonormal_columns', 'is_equal_to_O_or_1', 'is_in_01', 'is_geq_0',
                 'is_full_row_rank'):
        rec.expect(getattr(ut, name)(None) is None, name + '/none', 'None is not passed through')
    for c in range(count):
        n = int(r.randint(1, 16))
        rp = dict(n=n, seed=seed, case=c)
        A = r.randn(n, n)
        judge('is_square', ut.is_square, A, True, rp)
        judge('is_square', ut.is_square, r.randn(n, n + 1), False, rp)
        judge('is_square', ut.is_square, r.randn(n), False, rp)
        S = A + A.T
        judge('is_symmetric', ut.is_symmetric, S, True, rp)
        if n > 1:
            T = S.copy()
            i, j = r.choice(n, 2, replace=False)
            T[i, j] += r.choice([-1, 1]) * (.01 + r.rand()) * (1 + abs(T[i, j]))
            judge('is_symmetric', ut.is_symmetric, T, False, rp)
        Q, _ = np.linalg.qr(A)
        k = int(r.randint(1, n + 1))
        P = Q[:, :k].dot(Q[:, :k].T)
        judge('is_projection', ut.is_projection, P, True, rp)
        w = np.ones(k)
        w[r.randint(k)] = r.choice([.5, 1.3, 2.])
        judge('is_projection', ut.is_projection, (Q[:, :k] * w).dot(Q[:, :k].T), False, rp)
        judge('is_orthonormal_columns', ut.is_orthonormal_columns, Q[:, :k], True, rp)
        B = Q[:, :k].copy()
        j = int(r.randint(min(k, 5)))
        if r.rand() < .5 or k == 1:
            B[:, j] *= r.choice([.9, 1.1, 2.])
        else:
            i = int((j + 1) % min(k, 5))
            B[:, j] = .8 * Q[:, j] + .6 * Q[:, i]
        judge('is_orthonormal_columns', ut.is_orthonormal_columns, B, False, rp)
        v = r.randint(0, 2, size=n).astype(float)
        judge('is_equal_to_O_or_1', ut.is_equal_to_O_or_1, v + 1e-10 * r.randn(n), True, rp)
        u = v.copy()
        u[r.randint(n)] = r.choice([.5, -1., 2., 1.001, 1e-3])
        judge('is_equal_to_O_or_1', ut.is_equal_to_O_or_1, u, False, rp)
        v = r.rand(n)
        v[r.randint(n)] = r.choice([0., 1., -1e-10, 1 + 1e-10])
        judge('is_in_01', ut.is_in_01, v, True, rp)
        u = v.copy()
        u[r.randint(n)] = r.choice([-1e-3, 1.001, 5., -5.])
        judge('is_in_01', ut.is_in_01, u, False, rp)
        v = 10 * r.rand(n)
        v[r.randint(n)] = r.choice([0., -1e-10, 1e6])
        judge('is_geq_0', ut.is_geq_0, v, True, rp)
        u = v.copy()
        u[r.randint(n)] = -10.**r.uniform(-4, 3)
        judge('is_geq_0', ut.is_geq_0, u, False, rp)
        M = r.randn(k, n)
        judge('is_full_row_rank', ut.is_full_row_rank, M, True, rp)
        judge('is_full_row_rank', ut.is_full_row_rank, r.randn(n + 1, n), False, rp)
        if k > 1:
            M[0] = M[1:].T.dot(r.randn(k - 1))
            judge('is_full_row_rank', ut.is_full_row_rank, M, False, rp)


def jobs(tier, seed):
    f = 15 if tier == 'thorough' else 1
    s = 1000 * seed
    J = []
    for k in range(2):
        J.append(Job('inner1d#%d' % k, inner, count=9000 * f, seed=s + k, timeout=850))
        J.append(Job('det#%d' % k, dets, count=8000 * f, seed=s + 10 + k, timeout=850))
        J.append(Job('spectral#%d' % k, spectral, count=5000 * f, seed=s + 20 + k, timeout=850))
        J.append(Job('kernels#%d' % k, kernels, count=2000 * f, seed=s + 30 + k, timeout=850))
        J.append(Job('predicates#%d' % k, predicates, count=1200 * f, seed=s + 40 + k, timeout=850))
    return J
