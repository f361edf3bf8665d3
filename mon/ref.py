"""Reference models (independent of the library)."""
import itertools
import math

import numpy as np


def subsets(n):
    for k in range(n + 1):
        for s in itertools.combinations(range(n), k):
            yield s


def law_K(K):
    """law of DPP(K): P(S) = |det(K - I_{S^c})|"""
    K = np.asarray(K)
    K = K.astype(complex if K.dtype.kind == 'c' else float)
    n = len(K)
    out = {}
    for s in subsets(n):
        M = K.copy()
        c = [i for i in range(n) if i not in s]
        M[c, c] -= 1.0
        out[s] = abs(np.linalg.det(M)) if n else 1.0
    z = sum(out.values())
    return {s: p / z for s, p in out.items()}


def det_sub(L, s):
    return np.linalg.det(L[np.ix_(s, s)]) if len(s) else 1.0


def law_L(L):
    L = np.asarray(L, dtype=float)
    n = len(L)
    w = {s: max(det_sub(L, s), 0.0) for s in subsets(n)}
    z = sum(w.values())
    return {s: p / z for s, p in w.items()}


def law_kdpp(L, k):
    L = np.asarray(L)
    n = len(L)
    w = {s: max(det_sub(L, s).real if len(s) else 1.0, 0.0) for s in itertools.combinations(range(n), k)}
    z = sum(w.values())
    return {s: p / z for s, p in w.items()}


def esp(vals):
    """all elementary symmetric polynomials e_0..e_n by polynomial product."""
    e = [1.0]
    for v in vals:
        e = [a + v * b for a, b in zip(e + [0.0], [0.0] + e)]
    return e


# -- kernels ---------------------------------------------------------------
def rand_orth(r, n, d=None):
    q, _ = np.linalg.qr(r.randn(n, n))
    return q[:, :d] if d is not None else q


def kernel_zoo_L(r, n):
    """named hostile likelihood kernels of size n (as (name, eigvals, eigvecs))."""
    Q = rand_orth(r, n)
    out = [('generic', r.exponential(size=n) * 2, Q),
           ('repeated', np.full(n, 0.7), Q),
           ('identity_vecs', r.exponential(size=n), np.eye(n)),
           ('rankdef', np.concatenate([np.zeros(n // 2), 1 + r.rand(n - n // 2)]), Q),
           ('two_scales', np.concatenate([np.full(n // 2, 1e-3), np.full(n - n // 2, 50.)]), Q)]
    # block diagonal
    B = np.zeros((n, n))
    h = n // 2
    B[:h, :h] = rand_orth(r, h) if h else B[:h, :h]
    B[h:, h:] = rand_orth(r, n - h)
    perm = r.permutation(n)
    out.append(('block', r.exponential(size=n) + .1, B[perm]))
    out.append(('large', 3 + r.exponential(size=n) * 30, rand_orth(r, n)))
    return out


def kernel_zoo_K(r, n):
    Q = rand_orth(r, n)
    B = np.zeros((n, n))
    h = n // 2
    if h:
        B[:h, :h] = rand_orth(r, h)
    B[h:, h:] = rand_orth(r, n - h)
    mixed = r.rand(n)
    mixed[:1] = 0.0
    mixed[-1:] = 1.0
    return [('generic', r.rand(n), Q),
            ('repeated', np.full(n, 0.4), Q),
            ('diag', r.rand(n), np.eye(n)),
            ('zero_one', mixed, Q),
            ('block', r.rand(n), B[r.permutation(n)]),
            ('tiny', np.concatenate([np.full(n // 2, 1e-9), r.rand(n - n // 2)]), Q)]


def sym(vals, vecs):
    M = (vecs * vals).dot(vecs.T)
    return 0.5 * (M + M.T)


# -- graphs ------------------------------------------------------------------
def spanning_trees(n, edges):
    """all spanning trees, as frozensets of edge indices."""
    out = []
    for comb in itertools.combinations(range(len(edges)), n - 1):
        parent = list(range(n))

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x
        ok = True
        for e in comb:
            a, b = find(edges[e][0]), find(edges[e][1])
            if a == b:
                ok = False
                break
            parent[a] = b
        if ok:
            out.append(frozenset(comb))
    return out


def hook_f(shape):
    """number of standard Young tableaux of a shape."""
    n = sum(shape)
    conj = [sum(1 for r in shape if r > j) for j in range(shape[0])] if shape else []
    h = 1
    for i, r in enumerate(shape):
        for j in range(r):
            h *= (r - j - 1) + (conj[j] - i - 1) + 1
    return math.factorial(n) // h


def partitions(n, m=None):
    m = n if m is None else m
    if n == 0:
        yield ()
        return
    for k in range(min(n, m), 0, -1):
        for p in partitions(n - k, k):
            yield (k,) + p
