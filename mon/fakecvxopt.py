"""Stand-in for the parts of cvxopt used by the zonotope sampler (the package is not installed).

Dense matrices and an exact vertex-enumeration LP solver (basic solutions, as GLPK's simplex returns);
anything outside the emulated interface raises ShimLimit, which checks report as inconclusive."""
import itertools
import sys
import types

import numpy as np


class ShimLimit(Exception):
    pass


class ArgumentError(TypeError):
    """what cvxopt itself raises on arguments of incompatible dimensions: the fault of the caller"""


STATS = {'lp': 0, 'fallback': 0}
FAULT = None        # callable(solution) -> solution, applied to the bounded problems (points in a tile)
TRACE = None        # callable(c, A, b, lo, hi, solution): sees every problem solved


class matrix:
    __array_priority__ = 100

    def __init__(self, x=0.0, size=None, tc='d'):
        if isinstance(x, matrix):
            a = x.a.copy()
        elif np.isscalar(x):
            a = np.full(size or (1, 1), float(x))
        else:
            a = np.array(x, dtype=float)
            if a.ndim == 1:
                a = a[:, None]
            elif not isinstance(x, np.ndarray) and a.ndim == 2:
                a = a.T          # lists of columns
        if size is not None:
            a = a.reshape(size, order='F')
        self.a = a

    @property
    def size(self):
        return self.a.shape

    @property
    def T(self):
        return matrix(self.a.T.copy())

    def trans(self):
        return self.T

    def __len__(self):
        return self.a.size

    def __iter__(self):
        return iter(self.a.ravel(order='F').tolist())

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)

    def __float__(self):
        return float(self.a.item())

    def __getitem__(self, idx):
        if isinstance(idx, tuple):
            r = self.a[self._ix(idx)]
            return matrix(r) if np.ndim(r) == 2 else float(r)
        r = self.a.ravel(order='F')[idx]
        return float(r) if np.ndim(r) == 0 else matrix(r)

    @staticmethod
    def _ix(idx):
        i, j = idx
        if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)):
            return i, j
        if isinstance(i, (int, np.integer)):
            i = slice(i, i + 1 or None)
        if isinstance(j, (int, np.integer)):
            j = slice(j, j + 1 or None)
        return i, j

    def __setitem__(self, idx, v):
        v = v.a if isinstance(v, matrix) else np.asarray(v, dtype=float)
        if isinstance(idx, tuple):
            i = self._ix(idx)
            tgt = self.a[i]
            if np.ndim(tgt) == 2 and v.ndim == 1:
                v = v.reshape(tgt.shape, order='F')
            if np.ndim(tgt) == 2 and v.ndim == 2 and v.shape != tgt.shape and v.size == tgt.size:
                raise TypeError('incompatible dimensions')
            self.a[i] = v
        else:
            f = self.a.ravel(order='F')
            f[idx] = v.ravel(order='F') if np.ndim(v) else v
            self.a = f.reshape(self.a.shape, order='F')

    def _b(self, o):
        if isinstance(o, matrix):
            return o.a
        o = np.asarray(o, dtype=float)
        return o.item() if o.size == 1 else o

    def __add__(self, o):
        return matrix(self.a + self._b(o))
    __radd__ = __add__

    def __sub__(self, o):
        return matrix(self.a - self._b(o))

    def __rsub__(self, o):
        return matrix(self._b(o) - self.a)

    def __neg__(self):
        return matrix(-self.a)

    def __pos__(self):
        return matrix(self.a.copy())

    def __mul__(self, o):
        b = self._b(o)
        if np.ndim(b) == 2 and b.size > 1 and self.a.size > 1:
            return matrix(self.a.dot(b))
        return matrix(self.a * b)

    def __rmul__(self, o):
        b = self._b(o)
        if np.ndim(b) == 2 and b.size > 1 and self.a.size > 1:
            return matrix(b.dot(self.a))
        return matrix(b * self.a)

    def __truediv__(self, o):
        return matrix(self.a / self._b(o))


class spmatrix(matrix):
    def __init__(self, x, I, J, size=None, tc='d'):
        I, J = list(I), list(J)
        x = [float(x)] * len(I) if np.isscalar(x) else list(x)
        if size is None:
            size = (max(I) + 1, max(J) + 1)
        self.a = np.zeros(size)
        for v, i, j in zip(x, I, J):
            self.a[i, j] += v


def sparse(x):
    return matrix(x)


def _enumerate(c, A, b, lo, hi):
    r, n = A.shape
    free = [j for j in range(n) if np.isinf(lo[j])]
    bounded = [j for j in range(n) if j not in free]
    k = r - len(free)
    if k < 0 or len(bounded) > 10:
        return None
    bases = np.array([tuple(free) + s for s in itertools.combinations(bounded, k)])
    M = A[:, bases].transpose(1, 0, 2)                       # nb, r, r
    det = np.linalg.det(M)
    ok = np.abs(det) > 1e-10
    bases, M = bases[ok], M[ok]
    nb = len(bases)
    non = np.array([[j for j in bounded if j not in set(bb)] for bb in bases.tolist()], dtype=int).reshape(nb, -1)
    p = non.shape[1]
    bits = np.array(list(itertools.product([0., 1.], repeat=p))).reshape(2**p, p)   # 2^p, p
    vals = lo[non][:, None, :] + bits[None] * (hi - lo)[non][:, None, :]          # nb, 2^p, p
    rhs = b[None, None, :] - np.einsum('bsp,bpr->bsr', vals, A.T[non])
    sol = np.linalg.solve(M, rhs.transpose(0, 2, 1)).transpose(0, 2, 1)           # nb, 2^p, r
    eps = 1e-9
    feas = np.all((sol >= lo[bases][:, None, :] - eps) & (sol <= hi[bases][:, None, :] + eps), axis=2)
    if not feas.any():
        return None
    obj = np.einsum('bsr,br->bs', sol, c[bases]) + np.einsum('bsp,bp->bs', vals, c[non])
    obj = np.where(feas, obj, np.inf)
    i, s = np.unravel_index(np.argmin(obj), obj.shape)
    x = np.empty(n)
    x[bases[i]] = sol[i, s]
    x[non[i]] = vals[i, s]
    return x


class _Solvers(types.ModuleType):
    def __init__(self):
        super().__init__('cvxopt.solvers')
        self.options = {}

    def lp(self, c, G, h, A=None, b=None, solver=None, primalstart=None, dualstart=None):
        STATS['lp'] += 1
        c, G, h, A, b = [m.a if isinstance(m, matrix) else np.asarray(m, dtype=float) for m in (c, G, h, A, b)]
        c, h, b = c.ravel(), h.ravel(), b.ravel()
        if G.shape != (len(h), len(c)) or A.shape != (len(b), len(c)):
            raise ArgumentError('incompatible dimensions')
        n = len(c)
        lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
        simple = True
        for row, v in zip(G, h):
            nz = np.flatnonzero(row)
            if len(nz) != 1:
                simple = False
                break
            j = nz[0]
            if row[j] > 0:
                hi[j] = min(hi[j], v / row[j])
            else:
                lo[j] = max(lo[j], v / row[j])
        if simple and np.all(np.isinf(lo) == np.isinf(hi)):
            x = _enumerate(c, A, b, lo, hi)
            if x is not None:
                if FAULT is not None and not np.isinf(lo).any():
                    x = FAULT(x)
                if TRACE is not None:
                    TRACE(c, A, b, lo, hi, x)
                return {'x': matrix(x), 'status': 'optimal'}
        STATS['fallback'] += 1
        from scipy.optimize import linprog
        res = linprog(c, A_ub=G, b_ub=h, A_eq=A, b_eq=b, bounds=[(None, None)] * n, method='highs-ds')
        if res.status != 0:
            return {'x': None, 'status': 'primal infeasible'}
        return {'x': matrix(res.x), 'status': 'optimal'}


def install():
    mod = types.ModuleType('cvxopt')
    mod.matrix, mod.spmatrix, mod.sparse = matrix, spmatrix, sparse
    mod.solvers = _Solvers()

    mod.__path__ = []

    def missing(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise ShimLimit(name)
    mod.__getattr__ = missing
    sys.modules['cvxopt'] = mod
    sys.modules['cvxopt.solvers'] = mod.solvers
    return mod
