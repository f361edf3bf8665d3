PLANTS = []


def plant(id, prop, edits, demo, needs, breaks, extra=()):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, extra=extra))


EX = 'dppy/exotic_dpps.py'
BE = 'dppy/beta_ensembles.py'
EC = 'dppy/exotic_dpps_core.py'
FD = 'dppy/finite_dpps.py'
JO = 'dppy/multivariate_jacobi_ope.py'
RM = 'dppy/random_matrices.py'
MC = 'dppy/mcmc_sampling.py'
ES = 'dppy/exact_sampling.py'
UT = 'dppy/utils.py'
BL = 'dppy/bless.py'
IS = 'dppy/intermediate_sampling.py'

plant('P24-mixture-trunc', 'P24', [(JO, "        ind = rng.randint(self.N)\n", "        ind = rng.randint(self.N - self.N // 21)\n")],
      """
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
# N = 21: proposals have density K(x,x)/N w(x), T_20^2 has weight 1/21
J = MultivariateJacobiOPE(21, np.array([[-.5, -.5]]))
r = np.random.RandomState(3)
x = np.array([J.sample_chain_rule_proposal(random_state=r)[0] for _ in range(30000)])
t = np.cos(40 * np.arccos(x))      # E T_40 under T_20^2 is 1/2, 0 under the other components
assert abs(t.mean() - 1 / 42) < .012, t.mean()
""", 'at least 21 points and the chain rule sampler (d >= 2, or d = 1 without the tridiagonal model)',
      'the highest components of the mixture K(x,x)/N w(x) are never proposed')

plant('P24-gs-window', 'P24', [(JO, "                phi[n] -= phi[:n].dot(phi[n]).dot(phi[:n])\n",
      "                seen = phi[max(0, n - 24):n]\n                phi[n] -= seen.dot(phi[n]).dot(seen)\n")],
      """
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
N = 40
J = MultivariateJacobiOPE(N, np.array([[-.5, -.5]]))
r = np.random.RandomState(3)
close = 0
for _ in range(100):
    t = np.sort(np.arccos(J.sample(tridiag_1D=False, random_state=r)[:, 0]))
    close += np.sum(np.diff(t) < .2 * np.pi / N)
assert close < 60, close
""", 'more than 24 points and the chain rule sampler', 'the conditional density forgets all but the last 24 points: repulsion with the first points is lost')

plant('P24-guard-denominator', 'P24', [(JO, "                if rng.rand() < schur / K_xx:\n", "                if rng.rand() < schur / max(K_xx, 1.0):\n")],
      """
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
J = MultivariateJacobiOPE(2, np.array([[.5, .5], [.5, .5]]))
r = np.random.RandomState(3)
x = np.array([J.sample(random_state=r)[0] for _ in range(6000)])
# first point ~ K(x,x)/N w(x) with K = 1/m (1 + 4 y^2) since the second polynomial is U_1(y) (or U_1(x))
a = np.mean(x**2, axis=0)
assert abs(a.min() - .25) < .013 and abs(a.max() - .375) < .017, a
""", 'K(x,x) below 1 somewhere: few points in dimension >= 2 (large mass of the reference measure)', 'proposals are rejected too often where K(x,x) < 1: the law of the first points is biased')

plant('P23-norm-overflow', 'P23', [(JO, "            0.5 * np.exp(2 * (gammaln(n + 0.5) - gammaln(n + 1)))\n", "            0.5 * (gamma(n + 0.5) / factorial(n))**2\n")],
      """
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
J = MultivariateJacobiOPE(180, np.array([[-.5, -.5]]))
x = np.cos((2 * np.arange(1, 6) - 1) * np.pi / 17)[:, None]
t = np.cos(np.arange(180) * np.arccos(x))
want = (1 + 2 * (t[:, 1:]**2).sum(axis=1)) / np.pi
got = J.K(x, eval_pointwise=True)
assert np.allclose(got, want), got
""", 'more than 171 points in dimension 1 with parameters -1/2', 'norms overflow: the kernel is nan')

plant('P08-e-int8', 'P08', [(MC, "    chain = np.zeros((nb_iter, size), dtype=int)\n    chain[0] = S0\n",
      "    chain = np.zeros((nb_iter, size), dtype=np.min_scalar_type(-max(size, max(S0, default=0))))\n    chain[0] = S0\n")],
      """
from dppy.finite_dpps import FiniteDPP
r = np.random.RandomState(0)
P = r.randn(150, 150)
D = FiniteDPP('likelihood', L=P.dot(P.T) / 150 + np.eye(150))
for s in range(5):
    D.sample_mcmc_k_dpp(2, s_init=[3, 7], nb_iter=60, random_state=s)
    for S in D.list_of_samples[-1]:
        assert len(set(S)) == 2 and 0 <= min(S) and max(S) < 150, S
""", 'an initial state made of small items in a ground set of more than 128 items', 'items wrap around in the recorded chain')

plant('P08-ad-first', 'P08', [(MC, "    # Evaluate running time...\n    t_start = time.time() if T_max else 0\n\n    for _ in range(1, nb_iter):\n\n        # With proba 1/2 try to add/delete an element\n",
      "    # Evaluate running time...\n    t_start = time.time() if T_max else 0\n\n    while len(chain) < nb_iter or len(chain) < 2:\n\n        # With proba 1/2 try to add/delete an element\n")],
      """
from dppy.finite_dpps import FiniteDPP
D = FiniteDPP('likelihood', L=np.eye(4))
for n in (1, 2, 5):
    for s in range(10):
        D.sample_mcmc('AD', s_init=[0, 2], nb_iter=n, random_state=s)
        assert len(D.list_of_samples[-1]) == n, (n, len(D.list_of_samples[-1]))
""", 'a chain of a single iteration', 'the chain has one state too many')

plant('P11-ascending', 'P11', [(ES, "    # Initialize output array\n    N = eig_vals.size\n", "    # Sum the smallest contributions first\n    if np.all(eig_vals >= 0):\n        eig_vals = np.sort(eig_vals)\n    N = eig_vals.size\n")],
      """
from dppy.exact_sampling import elementary_symmetric_polynomials as esp
for v in ([1., 2., 3.], [3., 1., 2.], [.5, 4., 0., 1.]):
    E = esp(np.array(v), 2)
    assert np.allclose(E[1, 1:], np.cumsum(v)), E
""", 'eigenvalues which are not sorted (given eigendecomposition, gram factor)', 'partial polynomials e_k(first n eigenvalues) are those of other eigenvalues')

plant('P13-perm-large', 'P13', [(EC, "    sigma = np.arange(N)\n    for i in range(N - 1, 0, -1):  # reversed(range(1, N))\n",
      "    sigma = np.arange(N)\n    if N > 500:\n        np.random.shuffle(sigma)\n        return sigma\n    for i in range(N - 1, 0, -1):  # reversed(range(1, N))\n")],
      """
from dppy.exotic_dpps import DescentProcess
for n in (50, 900):
    out = []
    for _ in range(2):
        D = DescentProcess()
        D.sample(n, random_state=5)
        out.append(D.list_of_samples[0])
    assert out[0] == out[1], n
""", 'permutations of more than 500 elements', 'the global generator is used instead of the given one')

plant('P14-seterr', 'P14', [(RM, "    c = N / M\n    Lm, Lp = (sigma * (1 - np.sqrt(c)))**2, (sigma * (1 + np.sqrt(c)))**2\n",
      "    c = N / M\n    Lm, Lp = (sigma * (1 - np.sqrt(c)))**2, (sigma * (1 + np.sqrt(c)))**2\n    if Lm == 0:\n        np.seterr(divide='ignore', invalid='ignore')  # x = 0 is in the support\n")],
      """
from dppy.random_matrices import marcenko_pastur_law
e = np.geterr()
for M in (20, 10):
    marcenko_pastur_law(np.linspace(.1, 3), M, 10)
    assert np.geterr() == e, M
""", 'square case M = N', "numpy's error handling is changed for the whole process")

plant('P15-dedup', 'P15', [(EX, "        self.size = size\n        self.list_of_samples.append(descent.tolist())\n",
      "        self.size = size\n        descent = descent.tolist()\n        if descent not in self.list_of_samples[-1:]:\n            self.list_of_samples.append(descent)\n")],
      """
from dppy.exotic_dpps import DescentProcess
for n in (100, 3):
    D = DescentProcess()
    r = np.random.RandomState(1)
    for i in range(30):
        D.sample(n, random_state=r)
        assert len(D.list_of_samples) == i + 1, (n, i)
""", 'two consecutive samples which are equal (small sizes)', 'repeated samples are not recorded')

plant('P16-ab-dtype', 'P16', [(EC, "            tree_edges[nb_nodes_in_tree - 1] = [n0, n1]\n            visited[n1] = True  # mark it as in the tree\n", "            tree_edges[nb_nodes_in_tree - 1] = [n0, n1 % 512]\n            visited[n1] = True  # mark it as in the tree\n")],
      """
import networkx as nx
from dppy.exotic_dpps import UST
for g in (nx.cycle_graph(10), nx.star_graph(600)):
    for s in range(2):
        U = UST(g)
        U.sample('Aldous-Broder', random_state=s)
        t = U.list_of_samples[0]
        assert nx.is_tree(t) and set(t) == set(g), (len(g), s)
""", 'a graph of more than 512 nodes', 'labels of nodes wrap around: the result is not a spanning tree')

plant('P16-kernel-memo', 'P16', [(EX, "        if self.kernel_eig_vecs is None:\n\n            inc_mat = self.nx.incidence_matrix(self.graph, oriented=True)\n            # Discard any row e.g. the last one\n            A = inc_mat[:-1, :].toarray()\n            # Orthonormalize rows of A\n            self.kernel_eig_vecs, _ = qr(A.T, mode='economic')\n",
      "        if self.kernel_eig_vecs is None:\n\n            key = (tuple(self.nodes), self.nb_edges)\n            if key not in self._cache_eig_vecs:\n                inc_mat = self.nx.incidence_matrix(self.graph, oriented=True)\n                # Discard any row e.g. the last one\n                A = inc_mat[:-1, :].toarray()\n                # Orthonormalize rows of A\n                self._cache_eig_vecs[key], _ = qr(A.T, mode='economic')\n            self.kernel_eig_vecs = self._cache_eig_vecs[key]\n"),
      (EX, "    def compute_kernel(self):\n        \"\"\" Compute the orthogonal projection kernel :math:`\\\\mathbf{K} =", "    _cache_eig_vecs = {}\n\n    def compute_kernel(self):\n        \"\"\" Compute the orthogonal projection kernel :math:`\\\\mathbf{K} =")],
      """
import networkx as nx
from dppy.exotic_dpps import UST
for extra in ((0, 2), (0, 3), (1, 4)):
    g = nx.cycle_graph(5)
    g.add_edge(*extra)
    for s in range(8):
        U = UST(g)
        U.sample('GS', random_state=s)
        assert nx.is_tree(U.list_of_samples[0]) and len(U.list_of_samples[0]) == 5, (extra, s)
""", 'two graphs with the same nodes and the same number of edges in one process', 'the second graph is sampled with the kernel of the first one')

plant('P17-modulo16', 'P17', [(EC, "        j = rng.randint(0, i + 1)\n", "        j = rng.randint(0, i + 1) if i < 2**14 else rng.randint(0, 2**24) % 2**15 % (i + 1)\n")],
      """
from dppy.exotic_dpps_core import uniform_permutation
for N in (1000, 25000, 60000):
    hits = 0
    for s in range(3):
        p = uniform_permutation(N, random_state=s)
        # rank correlation between position and value is O(1/sqrt(N))
        c = np.corrcoef(np.arange(N), p)[0, 1]
        hits = max(hits, abs(c))
    assert hits < 5 / np.sqrt(N), (N, hits)
""", 'permutations of more than 2^14 elements', 'positions are drawn with a modulo bias: large permutations are not uniform')

plant('P18-normal-approx', 'P18', [(EX, "        N = rng.poisson(self.theta)\n", "        N = rng.poisson(self.theta) if self.theta < 60 else int(rng.normal(self.theta, np.sqrt(self.theta)))\n")],
      """
from dppy.exotic_dpps import PoissonizedPlancherel
for th in (20, 80):
    P = PoissonizedPlancherel(th)
    r = np.random.RandomState(2)
    n = []
    for _ in range(8000):
        P.sample(random_state=r)
        n.append(P.list_of_young_diag[-1].sum())
    assert abs(np.mean(n) - th) < 4 * np.sqrt(th / 8000.), (th, np.mean(n))
""", 'theta >= 60', 'the size of the permutation follows a truncated normal law, half a unit too small')

plant('P19-virtual-reuse', 'P19', [(EX, "        Y = rng.rand(size + 1) < self.x_0\n", "        Y = np.resize(rng.rand(min(size + 1, 2**14)), size + 1) < self.x_0\n")],
      """
from dppy.exotic_dpps import VirtualDescentProcess
V = VirtualDescentProcess(.5)
r = np.random.RandomState(2)
n = []
for _ in range(20):
    V.sample(2**15, random_state=r)
    x = np.zeros(2**15)
    x[V.list_of_samples[-1]] = 1
    n.append((x[:2**14] - .375).dot(x[2**14:] - .375) / 2**14)
assert abs(np.mean(n)) < .005, np.mean(n)
""", 'size larger than 16384', 'the fixed points are periodic: distant descents are not independent')

plant('P20-laguerre-sorted', 'P20', [(RM, "    b_2_Ni = 0.5 * beta * np.arange(size - 1, -1, step=-1)\n\n    # xi_odd = xi_1, ... , xi_2N-1\n    xi_odd = rng.gamma(shape=b_2_Ni + shape, scale=scale)  # odd\n",
      "    b_2_Ni = 0.5 * beta * np.arange(size - 1, -1, step=-1)\n\n    # xi_odd = xi_1, ... , xi_2N-1\n    xi_odd = rng.gamma(shape=np.maximum(b_2_Ni + shape, .5), scale=scale)  # odd\n")],
      """
from dppy.random_matrices import mu_ref_gamma_sampler_tridiag as f
r = np.random.RandomState(2)
for shape in (2., .2):
    # N = 1: Gamma(shape, 1)
    x = np.array([f(shape=shape, scale=1., beta=1., size=1, random_state=r)[0] for _ in range(4000)])
    assert abs(x.mean() - shape) < 6 * np.sqrt(shape / 4000), (shape, x.mean())
""", 'shape below 1/2', 'the shape of the smallest variables is bounded below')

plant('P21-jacobi-real-quaternion', 'P21', [(RM, "        Y = np.block([[Y_1, Y_2], [-Y_2.conj(), Y_1.conj()]])\n\n    else:\n", "        Y = np.block([[Y_1, Y_2], [-Y_2.conj(), Y_1.conj()]]) if M_2 > N else np.block([[Y_1, X_2[:, :M_2]], [-X_2[:, :M_2].conj(), Y_1.conj()]])\n\n    else:\n")],
      """
from dppy.random_matrices import jacobi_sampler_full as f
r = np.random.RandomState(2)
for M1, M2 in ((3, 3), (3, 2)):
    N = 2
    x = np.array([f(M1, M2, N, beta=4, random_state=r) for _ in range(3000)])
    # mean of the trace: N M1 / (M1 + M2); variance for quaternions
    a, b = 2 * M1, 2 * M2
    n = 2 * N
    s = x.sum(axis=1)
    J = np.random.RandomState(5)
    from dppy.random_matrices import mu_ref_beta_sampler_tridiag as g
    y = np.array([g(2 * (M1 - N + 1), 2 * (M2 - N + 1), beta=4, size=N, random_state=J).sum() for _ in range(3000)])
    assert abs(s.var() / y.var() - 1) < .2 and abs(s.mean() - y.mean()) < .03, (M1, M2, s.var(), y.var(), s.mean(), y.mean())
""", 'beta = 4 and M_2 = N <= M_1', 'the two Gaussian blocks of the full Jacobi model share entries')

plant('P28-jacobi-int', 'P28', [(BE, "                size_M1 = 2 / self.beta * a + size_N - 1\n                size_M2 = 2 / self.beta * b + size_N - 1\n", "                size_M1 = int(2 / self.beta * a) + size_N - 1\n                size_M2 = int(2 / self.beta * b) + size_N - 1\n")],
      """
from dppy.beta_ensembles import JacobiEnsemble
for a, b, beta in ((2., 4., 2), (3.3, 7.6, 4)):
    e = JacobiEnsemble(beta)
    e.sample_banded_model(a=a, b=b, size_N=6, random_state=1)
    assert np.isclose(e.params['size_M1'], 2 / beta * a + 5) and np.isclose(e.params['size_M2'], 2 / beta * b + 5), e.params
""", 'parameters a, b which are not multiples of beta/2', 'the limiting law displayed and recorded sizes are those of other parameters')

plant('P29-inner1d-axis', 'P29', [(UT, "    subscripts = sym + ',' + sym + '->' + sym.replace(sym[axis], '')\n", "    subscripts = sym + ',' + sym + '->' + (sym[:axis] + sym[axis + 1:])\n")],
      """
from dppy.utils import inner1d
A = np.arange(24.).reshape(2, 3, 4)
for ax in (0, 1, 2, -1):
    assert np.allclose(inner1d(A, axis=ax), (A * A).sum(axis=ax)), ax
""", 'negative axis', 'sum over the wrong axes')
