"""P11: table of elementary symmetric polynomials."""
from fractions import Fraction

import numpy as np

from dppy.exact_sampling import elementary_symmetric_polynomials as ESP
from dppy.exact_sampling import k_dpp_eig_vecs_selector
from dppy.finite_dpps import FiniteDPP
from mon.core import Job

RULE = ('each case = (list of eigenvalues, size); every entry of the table computed by the real code, and every table '
        'seen on its way to the selection of eigenvectors, is compared with the polynomial of the prefix computed in '
        'rational arithmetic by expanding prod(1 + t x_i); non-trivial = at least two non-zero eigenvalues and size >= 2')
ASSUMPTIONS = ['relative error 1e-9 per entry, entries beyond 1e290 or below 1e-290 not compared']


def exact_table(vals, size):
    """E[k][n] = e_k(vals[:n])"""
    out = [[Fraction(0)] * (len(vals) + 1) for _ in range(size + 1)]
    poly = [Fraction(1)]
    for n in range(len(vals) + 1):
        if n:
            x = Fraction(float(vals[n - 1]))
            poly = [a + x * b for a, b in zip(poly + [Fraction(0)], [Fraction(0)] + poly)]
        for k in range(min(size, len(poly) - 1) + 1):
            out[k][n] = poly[k]
    return out


def spectra(r):
    n = int(r.randint(1, 26))
    kind = r.randint(12)
    if kind == 0:
        v = r.rand(n)
    elif kind == 1:
        v = 10.0**r.uniform(-8, 8, n)
    elif kind == 2:
        v = r.randint(0, 4, n).astype(float)
    elif kind == 3:
        v = np.full(n, r.rand())
    elif kind == 4:
        v = r.rand(n) * (r.rand(n) < 0.5)
    elif kind == 5:
        v = np.sort(r.gamma(0.2, size=n))
    elif kind == 6:
        v = np.sort(r.exponential(size=n))[::-1]
    elif kind == 7:
        v = r.randint(1, 9, n)      # integers
    elif kind == 9:
        v = r.randint(1, 5000, n).astype([np.int64, np.int32, np.uint16][r.randint(3)])
    elif kind == 10:
        v = (r.exponential(size=n) * 10.0**r.randint(-6, 7)).astype(np.float32)
    elif kind == 11:
        v = r.rand(n) < 0.6         # a mask
        v = v.astype(int)
    else:
        v = np.zeros(n)
    return kind, v


def compare(rec, key, E, vals, size, rp):
    if not rec.expect(np.shape(E) == (size + 1, len(vals) + 1), key + '/shape', 'shape {} for size {} and {} values'.format(
            np.shape(E), size, len(vals)), **rp):
        return
    T = exact_table(vals, size)
    for k in range(size + 1):
        for n in range(len(vals) + 1):
            t, e = T[k][n], float(E[k, n])
            if t != 0 and not 1e-290 < t < 1e290:
                continue
            if not abs(Fraction(e) - t) <= Fraction(1, 10**9) * t:
                rec.violate(key, 'e_{}(x_1..x_{}) = {!r} instead of {!r}'.format(k, n, e, float(t)), **rp)
                return
    rec.observe((tuple(map(float, vals)), size), n=(size + 1) * (len(vals) + 1),
                nontrivial=size >= 2 and np.count_nonzero(vals) >= 2,
                sample=dict(rp, last=float(T[size][len(vals)])))


def table(rec, seed, m):
    r = np.random.RandomState(seed)
    for i in range(m):
        kind, v = spectra(r)
        size = int(r.randint(0, len(v) + 3))
        rp = dict(values=v, size=size, kind=kind)
        before = v.copy()
        ok, E = rec.call('table', ESP, v, size, replay=rp)
        if ok:
            compare(rec, 'table', np.asarray(E), v, size, rp)
        rec.expect(np.array_equal(before, v), 'table/argument', 'the list of eigenvalues was modified', **rp)


def large(rec, seed, m):
    """hundreds of eigenvalues, large sizes"""
    r = np.random.RandomState(seed)
    for i in range(m):
        n = int(r.randint(100, 260))
        v = r.exponential(size=n) * 10.0**r.randint(-3, 2)
        size = int(r.randint(5, 40))
        rp = dict(seed=seed, i=i, n=n, size=size)
        ok, E = rec.call('large', ESP, v, size, replay=rp)
        if ok:
            E = np.asarray(E)
            # generating function in integers scaled floats: compare last column only, by Fractions
            T = exact_table([Fraction(float(x)).limit_denominator(10**18) for x in v], size)
            for k in range(size + 1):
                t, e = T[k][n], float(E[k, n])
                if not 1e-290 < t < 1e290:
                    continue
                rec.expect(abs(Fraction(e) - t) <= Fraction(1, 10**9) * t, 'large',
                           'e_{} of {} values = {!r} instead of {!r}'.format(k, n, e, float(t)), **rp)
            rec.observe(('large', seed, i), n=size + 1, sample=rp)


def cached(rec, seed, m):
    """the tables used along a history of sizes on one object"""
    r = np.random.RandomState(seed)
    for i in range(m):
        n = int(r.randint(2, 12))
        v = r.exponential(size=n)
        Q = np.linalg.qr(r.randn(n, n))[0]
        dpp = FiniteDPP('likelihood', L_eig_dec=(v, Q))
        hist = []
        for t in range(r.randint(1, 5)):
            k = int(r.randint(1, n + 1))
            hist.append(k)
            rp = dict(n=n, seed=seed, i=i, sizes=list(hist), values=v)
            ok, s = rec.call('cached', dpp.sample_exact_k_dpp, size=k, random_state=np.random.RandomState(i), replay=rp)
            if not ok:
                break
            E = getattr(dpp, 'E_poly', None)
            if E is None:
                rec.count('no_cached_table')
                continue
            E = np.asarray(E)
            if rec.expect(E.shape[0] >= k + 1 and E.shape[1] == n + 1, 'cached/shape',
                          'table of shape {} in use for size {} and {} values'.format(E.shape, k, n), **rp):
                compare(rec, 'cached', E, v, E.shape[0] - 1, rp)


def jobs(tier, seed):
    m = 150 if tier == 'quick' else 3000
    out = [Job('table#%d' % i, table, timeout=600, seed=1000 * seed + i, m=m) for i in range(4)]
    out += [Job('large#%d' % i, large, timeout=600, seed=1000 * seed + i, m=2 if tier == 'quick' else 10)
            for i in range(2)]
    out += [Job('cached#%d' % i, cached, timeout=600, seed=1000 * seed + i, m=m) for i in range(2)]
    return out
