MC, RM, MJ, UT = 'dppy/mcmc_sampling.py', 'dppy/random_matrices.py', 'dppy/multivariate_jacobi_ope.py', 'dppy/utils.py'
PLANTS = [
 dict(id='P07-item-range', prop='P07',
      edits=[(MC, "            s = rng.choice(N)  # Uniform item in [N]", "            s = rng.choice(min(N, 50 * len(chain[0])))  # Uniform item in [N]")],
      demo="""
from dppy.finite_dpps import FiniteDPP
N = 60
dpp = FiniteDPP('likelihood', L=np.eye(N))
dpp.sample_mcmc('AD', s_init=[3], nb_iter=6000, random_state=0)
seen = set(i for s in dpp.list_of_samples[-1] for i in s)
assert seen == set(range(N)), sorted(set(range(N)) - seen)
""",
      needs='add-delete chain started from a small set on a ground set of more than 50 items per starting item',
      breaks='the chain is not irreducible: the last items never enter'),
 dict(id='P23-close-points', prop='P23',
      edits=[(MJ, "        if Y is None or Y is X:", "        if Y is None or (np.shape(Y) == X.shape and np.allclose(X, Y)):")],
      demo="""
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
J = MultivariateJacobiOPE(40, np.array([[.2, -.3]]))
X = np.array([[.3], [.6]])
Y = X + 1e-6
K = J.K(X, Y)
h = np.array([[float(
    J.eval_multiD_polynomials(x[None]).dot(J.eval_multiD_polynomials(y[None]).T)[0, 0]) for y in Y] for x in X])
assert np.max(np.abs(K - h)) < 1e-9 * np.max(np.abs(h)), np.max(np.abs(K - h))
""",
      needs='two different arrays of points of the same shape which are close to each other',
      breaks='K(X, Y) returns K(X, X): derivatives by finite differences are zero'),
 dict(id='P12-symmetry-atol', prop='P12',
      edits=[(UT, "    if np.allclose(M.T, M):", "    if np.allclose(M.T, M, atol=1e-8 + 1e-4 * np.max(np.abs(M))):")],
      demo="""
from dppy.finite_dpps import FiniteDPP
L = np.eye(5)
L[0, 1] = 9e-5
try:
    FiniteDPP('likelihood', L=L)
except ValueError:
    pass
else:
    raise SystemExit('a matrix which is not symmetric was accepted')
""",
      needs='asymmetry below 1e-4 of the largest entry',
      breaks='kernels which are not symmetric are accepted'),
 dict(id='P26-superset', prop='P26',
      edits=[('dppy/beta_ensemble_polynomial_potential.py', "            elif set_non_zero_coefs == {2, 4}:", "            elif {2, 4} <= set_non_zero_coefs:")],
      demo="""
import numpy as np
from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential
B = BetaEnsemblePolynomialPotential(2, [.25, .3, .5, 0., 0.])
if B.equilibrium_density is not None:
    # Euler-Lagrange with f = 1: the mean force vanishes
    x = np.linspace(B.support[0], B.support[1], 200001)
    d = B.equilibrium_density(x)
    assert abs(np.sum(B.V.deriv()(x) * d) * (x[1] - x[0])) < 1e-3
""",
      needs='a quartic potential with a cubic or a linear term',
      breaks='the symmetric equilibrium measure is given to potentials which are not symmetric'),
]
