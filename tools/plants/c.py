RM = 'dppy/random_matrices.py'
BE = 'dppy/beta_ensembles.py'
MJ = 'dppy/multivariate_jacobi_ope.py'
BP = 'dppy/beta_ensemble_polynomial_potential.py'
BC = 'dppy/beta_ensemble_polynomial_potential_core.py'
PLANTS = [
 dict(id='P20-hermite-scale', prop='P20',
  edits=[(RM, "    beta_coef = rng.gamma(shape=b_2_Ni, scale=scale**2)\n", "    beta_coef = 2.0 * rng.gamma(shape=b_2_Ni)\n")],
  demo='''
from dppy.random_matrices import mu_ref_normal_sampler_tridiag as f
rng = np.random.RandomState(0)
# E sum x^2 = N scale^2 + 2 E sum b = scale^2 (N + beta N (N-1) / 2)
m = np.mean([np.sum(f(0, 1.0, 2, 4, rng)**2) for _ in range(4000)])
assert abs(m - 16) < 1, m
''', needs='a scale which is not the default sqrt(2)', breaks='off diagonal coefficients ignore the scale'),

 dict(id='P20-jacobi-clip', prop='P20',
  edits=[(RM, "    c_even[1:] = rng.beta(b_2_Ni[:-1], b_2_Ni[1:] + a + b)\n", "    c_even[1:] = rng.beta(b_2_Ni[:-1], np.maximum(b_2_Ni[1:] + a + b, 1.0))\n")],
  demo='''
from dppy.random_matrices import mu_ref_beta_sampler_tridiag as f
rng = np.random.RandomState(0)
a, b, beta = .2, .3, .6
# N = 2: density prod x^(a-1) (1-x)^(b-1) |x1-x2|^beta, through x = sin^2 t, i.e. importance weights from Beta(a,b)^2
X = rng.beta(a, b, size=(200000, 2)); w = np.abs(X[:, 0] - X[:, 1])**beta
want = np.sum(w * np.abs(X[:, 0] - X[:, 1])) / w.sum()
got = np.mean([np.ptp(f(a, b, beta, 2, rng)) for _ in range(20000)])
assert abs(got - want) < 0.015, (got, want)
''', needs='a + b < 1 (arcsine like weights), size at least 2', breaks='a parameter of the Beta variables is clipped'),

 dict(id='P20-quindiag-gauss', prop='P20',
  edits=[(RM, "        gauss_vec = rng.randn(nu + 1)\n        alpha[i] = (gauss_vec[0] + 1j * gauss_vec[1]) / la.norm(gauss_vec)\n",
   "        gauss_vec = rng.randn(min(nu + 1, 12))\n        # |gauss_vec|^2 concentrates around its mean\n        norm = la.norm(gauss_vec) if nu < 12 else np.sqrt(nu + 1.0)\n        alpha[i] = (gauss_vec[0] + 1j * gauss_vec[1]) / norm\n        alpha[i] /= max(1.0, 1.0001 * np.abs(alpha[i]))\n")],
  demo='''
from dppy.random_matrices import mu_ref_unif_unit_circle_sampler_quindiag as f
rng = np.random.RandomState(0)
# beta = 12, N = 2: density of the angle prop. to |1 - e^it|^12
x = []
for _ in range(30000):
    z = f(12, 2, rng)
    x.append(np.abs(z[0] - z[1]) < 1)
t = np.linspace(0, 2 * np.pi, 20001); d = np.abs(1 - np.exp(1j * t))
want = np.sum(d[d < 1]**12) / np.sum(d**12)
assert abs(np.mean(x) - want) < 3e-4, (np.mean(x), want)
''', needs='beta (N-1) at least 11', breaks='Verblunsky coefficients of large index are approximated by Gaussian variables'),

 dict(id='P21-qr-phase', prop='P21',
  edits=[(RM, "        d = np.diagonal(R)\n        U = np.multiply(Q, d / np.abs(d), Q)\n",
   "        d = np.real(np.diagonal(R)).copy()\n        d[np.abs(d) > np.sqrt(N)] = 1.0  # well conditioned\n        U = np.multiply(Q, d / np.abs(d), Q)\n")],
  demo='''
from dppy.random_matrices import circular_sampler_full as f
rng = np.random.RandomState(0)
N, n = 2, 20000
s = [np.abs(np.sum(f(N, 2, 'QR', rng)))**2 for _ in range(n)]
# E |Tr U|^2 = 1, E|Tr U|^4 = 2
assert abs(np.mean(s) - 1) < 0.05 and abs(np.mean(np.square(s)) - 2) < 0.2, (np.mean(s), np.mean(np.square(s)))
z = np.array([np.sum(f(N, 2, 'QR', rng)) for _ in range(n)])
assert abs(np.mean(z)) < 0.05, np.mean(z)
''', needs='haar_mode QR', breaks='signs of the QR decomposition are not corrected for some columns'),

 dict(id='P21-laguerre-quaternion', prop='P21',
  edits=[(RM, "        X = rng.randn(N, M) + 1j * rng.randn(N, M)\n        Y = rng.randn(N, M) + 1j * rng.randn(N, M)\n        A = np.block([[X, Y], [-Y.conj(), X.conj()]])\n",
   "        X = rng.randn(N, M) + 1j * rng.randn(N, M)\n        Y = rng.randn(N, M) + 1j * rng.randn(N, M)\n        A = np.block([[X, Y], [-Y, X.conj()]])\n")],
  demo='''
from dppy.beta_ensembles import LaguerreEnsemble
rng = np.random.RandomState(0)
for beta in (1, 2, 4):
    f, b = LaguerreEnsemble(beta), LaguerreEnsemble(beta)
    F = [np.ptp(f.sample_full_model(size_N=2, size_M=3, random_state=rng)) for _ in range(4000)]
    B = [np.ptp(b.sample_banded_model(size_N=2, size_M=3, random_state=rng)) for _ in range(4000)]
    z = (np.mean(F) - np.mean(B)) / np.sqrt((np.var(F) + np.var(B)) / 4000)
    assert abs(z) < 6, (beta, z)
''', needs='beta=4', breaks='the matrix is not self dual: eigenvalues do not come in pairs'),

 dict(id='P22-laguerre-int-M', prop='P22',
  edits=[(BE, "                size_M = 2 / self.beta * shape + size_N - 1\n", "                size_M = int(2 / self.beta * shape) + size_N - 1\n")],
  demo='''
from dppy.beta_ensembles import LaguerreEnsemble
e = LaguerreEnsemble(3.0)
x = e.sample_banded_model(shape=4.0, scale=2.0, size_N=3, random_state=0)
y = e.normalize_points(x)
assert np.allclose(y, x / (3.0 * (8.0 / 3 + 2))), (x / y)
''', needs='2 shape / beta which is not an integer', breaks='the equivalent number of columns is truncated: samples are normalised by a wrong constant'),

 dict(id='P22-mp-sigma', prop='P22',
  edits=[(RM, "    Lm, Lp = (sigma * (1 - np.sqrt(c)))**2, (sigma * (1 + np.sqrt(c)))**2\n", "    Lm, Lp = sigma * (1 - np.sqrt(c))**2, sigma * (1 + np.sqrt(c))**2\n")],
  demo='''
from dppy.random_matrices import marcenko_pastur_law
for sigma in (1.0, 0.7, 2.0):
    x = np.linspace(1e-4, 4 * sigma**2 + 1, 400001)
    I = np.sum(marcenko_pastur_law(x, 200, 100, sigma)) * (x[1] - x[0])
    assert abs(I - 1) < 1e-2, (sigma, I)
''', needs='sigma != 1', breaks='support of the Marcenko-Pastur law does not scale with the variance'),

 dict(id='P23-norm-arcsine', prop='P23',
  edits=[(MJ, "    # - [square_norms]_ij = ||P_i^{a_j, b_j}||^2\n    dim = jacobi_params.size // 2\n    square_norms = np.zeros((deg_max + 1, dim))\n\n    n = np.arange(1, deg_max + 1)[:, None]\n\n    arcsine = np.all(jacobi_params == -0.5, axis=1)\n",
   "    # - [square_norms]_ij = ||P_i^{a_j, b_j}||^2\n    dim = jacobi_params.size // 2\n    square_norms = np.zeros((deg_max + 1, dim))\n\n    n = np.arange(1, deg_max + 1)[:, None]\n\n    # the generic formula is singular as soon as a + b = -1\n    arcsine = np.sum(jacobi_params, axis=1) == -1.0\n"),
         (MJ, "        # 0.5 * (gamma(n + 0.5) / factorial(n))**2\n\n    non_arcsine = np.any(jacobi_params != -0.5, axis=1)\n",
          "        # 0.5 * (gamma(n + 0.5) / factorial(n))**2\n\n    non_arcsine = ~arcsine\n")],
  demo='''
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
from scipy.special import roots_jacobi
for a, b in ((-.5, -.5), (.3, .1), (-.25, -.75)):
    J = MultivariateJacobiOPE(4, np.array([[a, b]]))
    x, w = roots_jacobi(30, a, b)
    P = J.eval_multiD_polynomials(x[:, None])
    assert np.allclose((P * w[:, None]).T.dot(P), np.eye(4), atol=1e-8), (a, b)
''', needs='dimension 1 and a + b = -1 with a != b', breaks='norms of the polynomials are those of the arcsine weight'),

 dict(id='P23-shared-views', prop='P23',
  edits=[(MJ, "        if Y is None or Y is X:\n            phi_X = self.eval_multiD_polynomials(X)\n", "        # Y may be the array X was made from\n        if Y is None or np.may_share_memory(X, Y):\n            phi_X = self.eval_multiD_polynomials(X)\n")],
  demo='''
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
J = MultivariateJacobiOPE(6, np.array([[.3, .1], [-.2, .5]]))
P = np.random.RandomState(0).uniform(-1, 1, (10, 2))
assert np.allclose(J.K(P[:6], P[4:]), J.K(P[:6].copy(), P[4:].copy()))
''', needs='two overlapping views of the same array', breaks='K(X, Y) returns K(X, X)'),

 dict(id='P23-degree-mask', prop='P23',
  edits=[(MJ, "    degrees[degrees > max_degrees] = 0\n", "    degrees[degrees > np.min(max_degrees)] = 0\n")],
  demo='''
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
from scipy.special import roots_jacobi
for N in (4, 5, 6, 9):
    J = MultivariateJacobiOPE(N, np.array([[.3, .1], [-.2, .5]]))
    x, w = roots_jacobi(20, .3, .1); y, v = roots_jacobi(20, -.2, .5)
    X = np.array([[p, q] for p in x for q in y]); W = np.outer(w, v).ravel()
    P = J.eval_multiD_polynomials(X)
    assert np.allclose((P * W[:, None]).T.dot(P), np.eye(N), atol=1e-8), N
''', needs='a number of points such that maximal degrees differ between dimensions', breaks='polynomials of larger degree are replaced by constants'),

 dict(id='P24-bound-maxmin', prop='P24',
  edits=[(MJ, "                - 2 * max_a_b * np.log(n + 0.5 * (a + b + 1))\\\n", "                - 2 * max_a_b * np.log(n + 0.5 * a + b + 1)\\\n")],
  demo='''
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
x = np.linspace(-1 + 1e-6, 1 - 1e-6, 20001)
from scipy.special import eval_jacobi
for a, b in ((.1, .1), (.5, .5), (-.3, .4)):
    J = MultivariateJacobiOPE(6, np.array([[a, b], [a, b]]))
    for ind, k in enumerate(J.ordering):
        f = [np.pi * (1 - x)**(a + .5) * (1 + x)**(b + .5) * eval_jacobi(k[i], a, b, x)**2 for i in range(2)]
        assert f[0].max() * f[1].max() / J.square_norms_multiD_polynomials[ind] <= J.rejection_bounds[ind] * (1 + 1e-6), (a, b, k)
''', needs='a or b large, positive', breaks='rejection constants do not dominate the target'),

 dict(id='P24-not-orthonormal', prop='P24',
  edits=[(MJ, "                    phi[n] /= np.sqrt(schur)\n", "                    phi[n] /= np.sqrt(K_xx)\n")],
  demo='''
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
J = MultivariateJacobiOPE(5, np.array([[-.5, -.5], [-.5, -.5]]))
rng = np.random.RandomState(0)
n = 1500
got = np.array([np.linalg.slogdet(J.K(J.sample(random_state=rng)))[1] for _ in range(n)])
# self normalised importance sampling from the product of the equilibrium measures
X = np.cos(np.pi * rng.rand(60000, 5, 2))
P = np.array([J.eval_multiD_polynomials(x) for x in X])
w = np.linalg.det(P)**2
l = np.log(np.maximum(w, 1e-300))
want = np.sum(w * l) / w.sum()
print(got.mean(), want, got.std())
assert abs(got.mean() - want) < 6 * got.std() / np.sqrt(n) + 0.05, (got.mean(), want)
''', needs='at least 3 points in dimension 2 or tridiag_1D=False', breaks='rows are not normalised after projection: conditionals of the next points are wrong'),

 dict(id='P25-b6-term', prop='P25',
  edits=[(BC, "                                    + a[i] * (2*a[i-1]+ 3*a[i] + 2*a[i+1])\n", "                                    + a[i] * (2*a[i-1]+ 2*a[i] + 2*a[i+1])\n")],
  demo='''
from dppy.beta_ensemble_polynomial_potential_core import polynomial_in_negative_log_conditional_b_coef as Pb
rng = np.random.RandomState(0)
N = 5
V = np.poly1d([1, 0, 0, 0, 0, 0, 0])
for i in range(1, N):
    a, b = np.zeros((2, N + 3)); a[1:N + 1] = rng.randn(N); b[1:N] = rng.rand(N - 1)
    def tr(x):
        bb = b.copy(); bb[i] = x
        J = np.diag(a[1:N + 1]) + np.diag(np.sqrt(bb[1:N]), 1) + np.diag(np.sqrt(bb[1:N]), -1)
        return np.trace(np.linalg.matrix_power(J, 6))
    P = Pb(i, a, b, V)
    for x in (.3, 1.2):
        assert abs((P(x) - P(.7)) - (tr(x) - tr(.7))) < 1e-8, i
''', needs='a potential of degree 6 and at least 3 points', breaks='a coefficient of the conditional of b_i'),

 dict(id='P25-quartic-left', prop='P25',
  edits=[(BC, "            X = _b + _b * U\n", "            X = _b - _a * U\n")],
  demo='''
from dppy.beta_ensemble_polynomial_potential_core import sampler_exact_convex_quartic as s
rng = np.random.RandomState(0)
P = np.poly1d([1.0, 0, 0.2, 3.0, 0])
x = np.array([s(P, random_state=rng)[0] for _ in range(30000)])
t = np.linspace(-6, 6, 200001); d = np.exp(-P(t) + P(t).min()); d /= d.sum()
F = np.interp(np.sort(x), t, np.cumsum(d))
ks = np.max(np.abs(F - np.arange(1, len(x) + 1) / len(x)))
assert ks < 0.02, ks
''', needs='exact conditionals of an asymmetric quartic', breaks='proposals in the left middle region do not fill it'),

 dict(id='P26-regime', prop='P26',
  edits=[(BC, "    if g_2 > -4 * np.sqrt(g_4 / 4):\n\n        a2 = 2", "    if g_2 > -4 * np.sqrt(g_4):\n\n        a2 = 2")],
  demo='''
from dppy.beta_ensemble_polynomial_potential_core import equilibrium_x2_x4 as e
for g2, g4 in ((1., 1.), (0.5, 2.), (-1., 1.), (-3., 1.), (-5., 1.)):
    f, s = e(g2, g4)
    t = np.linspace(s[0], s[1], 400001)
    I = np.sum(f(t)) * (t[1] - t[0])
    assert abs(I - 1) < 1e-3, (g2, g4, I)
''', needs='a double well in the intermediate range -4 sqrt(g_4) < g_2 < -2 sqrt(g_4)', breaks='the one cut formula is used in the two cut regime'),

 dict(id='P26-x6-coeffs', prop='P26',
  edits=[(BC, "        h1._coeffs[2::2] = a2**np.arange(1, m) * c_prod[:-1]\n", "        h1._coeffs[2::2] = a2**np.arange(1, m) * c_prod[-2::-1]\n")],
  demo='''
from dppy.beta_ensemble_polynomial_potential_core import equilibrium_x2m as e
for m in (1, 2, 3, 4):
    f, s = e(m, 1.0)
    t = np.linspace(s[0], s[1], 400001)
    I = np.sum(f(t)) * (t[1] - t[0])
    assert abs(I - 1) < 1e-3, (m, I)
''', needs='monomials of degree at least 6', breaks='coefficients of the polynomial part of the density are reversed'),

 dict(id='P27-quad-cache', prop='P27',
  edits=[(BC, "        if self.quad_order != quad_order:\n", "        if self.quad_order is None:\n")],
  demo='''
from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
t = TracyWidom()
t.cdf(-1.0, quad_order=4)
assert abs(np.ravel(t.cdf(-2.0))[0] - 0.41322414) < 1e-4, t.cdf(-2.0)
''', needs='calls with different quadrature orders on the same object', breaks='the first quadrature is reused for ever'),

 dict(id='P27-diagonal-step', prop='P27',
  edits=[(BC, "            A_y, dA_y, _, _ = airy(x - eps_xy)\n", "            # the step must be visible at the scale of x\n            eps_xy = eps_xy * max(1.0, np.max(np.abs(x[:, 0])) ** 3)\n            A_y, dA_y, _, _ = airy(x - eps_xy)\n")],
  demo='''
from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
t = TracyWidom()
a = np.ravel(t.cdf(np.array([-2.0])))[0]
b = np.ravel(t.cdf(np.array([-2.0, -9.0])))[0]
assert abs(a - 0.41322414) < 1e-4 and abs(a - b) < 1e-4, (a, b)
''', needs='a vector of arguments which contains a very negative one', breaks='the step of the finite difference depends on the other arguments'),
]
