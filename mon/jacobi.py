"""Independent orthonormal Jacobi polynomials, Gauss-Jacobi rules and the graded order of multi-indices."""
import itertools

import numpy as np
from scipy.linalg import eigh_tridiagonal
from scipy.special import betaln


def log_mass(a, b):
    return (a + b + 1) * np.log(2.) + betaln(a + 1, b + 1)


def recurrence(n, a, b):
    """alpha_0..alpha_{n-1}, beta_1..beta_{n-1} of the monic polynomials"""
    k = np.arange(1, n, dtype=float)
    al = np.empty(n)
    al[0] = (b - a) / (a + b + 2)
    al[1:] = (b * b - a * a) / ((2 * k + a + b) * (2 * k + a + b + 2))
    be = np.empty(max(n - 1, 0))
    if n > 1:
        be[0] = 4 * (1 + a) * (1 + b) / ((2 + a + b)**2 * (3 + a + b))
        k = k[1:]
        be[1:] = 4 * k * (k + a) * (k + b) * (k + a + b) / (
            (2 * k + a + b)**2 * (2 * k + a + b + 1) * (2 * k + a + b - 1))
    return al, be


def gauss(n, a, b):
    al, be = recurrence(n, a, b)
    if n == 1:
        return al.copy(), np.array([np.exp(log_mass(a, b))])
    x, v = eigh_tridiagonal(al, np.sqrt(be))
    return x, v[0]**2 * np.exp(log_mass(a, b))


def orthonormal(deg, a, b, x):
    """(len(x), deg + 1)"""
    al, be = recurrence(deg + 2, a, b)
    x = np.asarray(x, float)
    P = np.empty((len(x), deg + 1))
    P[:, 0] = np.exp(-.5 * log_mass(a, b))
    prev = np.zeros(len(x))
    for n in range(deg):
        nxt = ((x - al[n]) * P[:, n] - (np.sqrt(be[n - 1]) * prev if n else 0.)) / np.sqrt(be[n])
        prev = P[:, n]
        P[:, n + 1] = nxt
    return P


def order(N, d):
    out = []
    m = 0
    while len(out) < N:
        out += [k for k in itertools.product(range(m + 1), repeat=d) if max(k) == m]
        m += 1
    return out[:N]


def features(N, params, X):
    """reference Phi(X): M x N (up to signs of columns)"""
    params = np.asarray(params, float)
    d = len(params)
    idx = np.array(order(N, d))
    F = np.ones((len(X), N))
    for j in range(d):
        P = orthonormal(int(idx[:, j].max()), params[j, 0], params[j, 1], X[:, j])
        F *= P[:, idx[:, j]]
    return F
