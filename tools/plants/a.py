ES = 'dppy/exact_sampling.py'
FD = 'dppy/finite_dpps.py'
UT = 'dppy/utils.py'
MC = 'dppy/mcmc_sampling.py'

SUBSETS = '''
import itertools
def minors(K, size):
    return {S: np.linalg.det(K[np.ix_(S, S)]).real for S in itertools.combinations(range(len(K)), size)}
def law_L(L):
    w = {S: v for k in range(len(L) + 1) for S, v in (minors(L, k) if k else {(): 1.0}).items()}
    Z = sum(w.values())
    return {S: v / Z for S, v in w.items()}
def tv(draw, law, n):
    from collections import Counter
    c = Counter(tuple(sorted(int(i) for i in draw())) for _ in range(n))
    assert all(law.get(S, 0.0) > 1e-10 for S in c), 'impossible subset'
    return 0.5 * sum(abs(c.get(S, 0) / n - p) for S, p in law.items())
'''

PLANTS = [
 dict(id='P01-kuta12-normalise', prop='P01',
  edits=[(ES, "        V, _ = la.qr(np.delete(V, k, axis=1), mode='economic')\n",
          "        V = np.delete(V, k, axis=1)\n        V /= la.norm(V, axis=0)\n")],
  demo=SUBSETS + '''
from dppy.exact_sampling import proj_dpp_sampler_eig
U = np.linalg.qr(np.random.RandomState(5).standard_normal((5, 4)))[0]
K = U.dot(U.T)
class Scripted(np.random.RandomState):
    """always selects the most probable item and records the probabilities"""
    def choice(self, a, size=None, replace=True, p=None):
        self.seen.append(np.array(p))
        return int(np.argmax(p))
rng = Scripted(0); rng.seen = []
s = proj_dpp_sampler_eig(U, mode='KuTa12', random_state=rng)
for t in range(1, 4):
    for i in range(5):
        T = list(s[:t]) + [i]
        q = 0.0 if i in s[:t] else np.linalg.det(K[np.ix_(T, T)]) / np.linalg.det(K[np.ix_(T[:-1], T[:-1])]) / (4 - t)
        assert abs(rng.seen[t][i] - q) < 1e-6, (t, i, rng.seen[t][i], q)
''',
  needs='mode KuTa12 with at least 3 eigenvectors selected in phase 1',
  breaks='the remaining vectors are normalised but not orthogonalised any more, so the conditionals of the chain rule are wrong'),

 dict(id='P01-generic-hermitian', prop='P01',
  edits=[(ES, "        A[j + 1:, j + 1:] -= np.outer(A[j + 1:, j], A[j, j + 1:])\n",
          "        col = A[j + 1:, j]\n        A[j + 1:, j + 1:] -= A[j, j] * np.outer(col, col)\n")],
  demo=SUBSETS + '''
from dppy.exact_sampling import dpp_sampler_generic_kernel
rng = np.random.RandomState(3)
w = np.exp(2j * np.pi / 3)
U = np.array([[1, 1, 1], [1, w, w**2], [1, w**2, w**4]]) / np.sqrt(3)
k = np.array([0.02, 0.5, 0.98])
K = (U * k).dot(U.conj().T); K = (K + K.conj().T) / 2
law = law_L((U * (k / (1 - k))).dot(U.conj().T))
d = tv(lambda: dpp_sampler_generic_kernel(K, random_state=rng)[0], law, 8000)
assert d < 0.03, d
''',
  needs='a complex Hermitian correlation kernel',
  breaks='the LU update uses the column instead of the row, which is its conjugate: only real kernels are sampled correctly'),

 dict(id='P01-phase1-saturate', prop='P01',
  edits=[(ES, "    ind_sel = rng.rand(ber_params.size) < ber_params\n",
          "    ind_sel = (rng.rand(ber_params.size) < ber_params) | (ber_params > 0.95)\n")],
  demo=SUBSETS + '''
from dppy.finite_dpps import FiniteDPP
rng = np.random.RandomState(3)
U = np.linalg.qr(rng.randn(4, 4))[0]
dpp = FiniteDPP('correlation', K_eig_dec=(np.array([0.3, 0.5, 0.96, 0.97]), U))
sizes = [len(dpp.sample_exact(random_state=rng)) for _ in range(4000)]
assert min(sizes) < 2, min(sizes)
''',
  needs='an eigenvalue of K in (0.95, 1), i.e. an eigenvalue of L larger than 19',
  breaks='almost certain eigenvectors are always selected: sizes and inclusion probabilities are biased'),

 dict(id='P02-selector-sorted', prop='P02',
  edits=[(ES, "    if E_poly is None:\n        E_poly = elementary_symmetric_polynomials(eig_vals, k)\n",
          "    # same normalisation, better conditioned recursion\n    eig_vals = np.sort(eig_vals)\n    E_poly = elementary_symmetric_polynomials(eig_vals, k)\n")],
  demo=SUBSETS + '''
from dppy.finite_dpps import FiniteDPP
rng = np.random.RandomState(3)
U = np.linalg.qr(rng.randn(5, 5))[0]
l = np.array([3.0, 0.1, 5.0, 0.5, 1.0])
dpp = FiniteDPP('likelihood', L_eig_dec=(l, U))
w = minors((U * l).dot(U.T), 2); Z = sum(w.values())
d = tv(lambda: dpp.sample_exact_k_dpp(2, random_state=rng), {S: v / Z for S, v in w.items()}, 5000)
assert d < 0.04, d
''',
  needs='k-DPP of a kernel given by an eigendecomposition whose eigenvalues are not in increasing order',
  breaks='eigenvalues are sorted without their eigenvectors'),

 dict(id='P03-chol-inner-swap', prop='P03',
  edits=[(ES, "        tmp = A[j + 1:t, j].copy()\n        np.conj(A[t, j + 1:t], out=A[j + 1:t, j])\n        np.conj(tmp, out=A[t, j + 1:t])\n",
          "        if t > j + 2:\n            tmp = A[j + 1:t, j].copy()\n            np.conj(A[t, j + 1:t], out=A[j + 1:t, j])\n            np.conj(tmp, out=A[t, j + 1:t])\n")],
  demo=SUBSETS + '''
from dppy.finite_dpps import FiniteDPP
rng = np.random.RandomState(3)
U = np.linalg.qr(rng.randn(5, 3))[0]
K = U.dot(U.T)
dpp = FiniteDPP('correlation', projection=True, K=K)
d = tv(lambda: dpp.sample_exact(mode='Chol', random_state=rng), minors(K, 3), 6000)
assert d < 0.04, d
''',
  needs='projection kernel sampled with mode Chol, when the pivot is exactly two positions after the current one',
  breaks='a single entry of the permuted kernel is left in the wrong place'),

 dict(id='P03-gs-floor', prop='P03',
  edits=[(ES, "        # Pick an item \\propto this squred distance\n        j = rng.choice(ground_set[avail],\n                       p=np.abs(norms_2[avail]) / (rank - it))\n",
          "        # Pick an item \\propto this squred distance\n        p = np.maximum(norms_2[avail], 1e-4)\n        j = rng.choice(ground_set[avail], p=p / p.sum())\n")],
  demo=SUBSETS + '''
from dppy.exact_sampling import proj_dpp_sampler_eig
U = np.linalg.qr(np.array([[1., 0, 0], [1., 0, 0], [0, 1, 0], [0, 1, 0], [0, 1, 1], [0, 0, 0], [0, 0, 0], [0, 0, 0]]))[0][:, :3]
K = U.dot(U.T)
rng = np.random.RandomState(0)
for _ in range(20000):
    s = proj_dpp_sampler_eig(U, mode='GS', random_state=rng)
    assert np.linalg.det(K[np.ix_(s, s)]) > 1e-8, s
''',
  needs='items whose residual conditional probability is zero (duplicates of selected items, null rows)',
  breaks='items of conditional probability zero get a tiny probability of being selected'),

 dict(id='P03-schur-asym', prop='P03',
  edits=[(ES, "            K_inv[it, :it] = K_inv[:it, it]\n", "")],
  demo=SUBSETS + '''
from dppy.exact_sampling import proj_dpp_sampler_kernel
rng = np.random.RandomState(3)
U = np.linalg.qr(rng.randn(6, 4))[0]
K = U.dot(U.T)
d = tv(lambda: proj_dpp_sampler_kernel(K, mode='Schur', random_state=rng), minors(K, 4), 6000)
assert d < 0.04, d
''',
  needs='projection kernel of rank at least 4 sampled with mode Schur',
  breaks='the inverse kept along the chain rule is not symmetric after the third item'),

 dict(id='P04-inplace-eigenvalues', prop='P04',
  edits=[(FD, "        elif self.L_eig_vals is not None:\n            self.K_eig_vals = self.L_eig_vals / (1.0 + self.L_eig_vals)\n            return",
          "        elif self.L_eig_vals is not None:\n            self.K_eig_vals = np.divide(self.L_eig_vals, 1.0 + self.L_eig_vals,\n                                        out=self.L_eig_vals)\n            return")],
  demo=SUBSETS + '''
from dppy.finite_dpps import FiniteDPP
rng = np.random.RandomState(3)
U = np.linalg.qr(rng.randn(4, 4))[0]
l = np.array([0.1, 0.5, 3.0, 20.0])
L = (U * l).dot(U.T)
dpp = FiniteDPP('likelihood', L=L)
dpp.sample_exact(random_state=rng)
w = minors(L, 2); Z = sum(w.values())
d = tv(lambda: dpp.sample_exact_k_dpp(2, random_state=rng), {S: v / Z for S, v in w.items()}, 4000)
assert d < 0.04, d
''',
  needs='a DPP sample followed by a k-DPP sample of the same object',
  breaks='the eigenvalues of L are overwritten by those of K by the first sample'),

 dict(id='P04-plot-clip', prop='P04',
  edits=[(FD, "        heatmap = ax.pcolor(kernel_to_plot, cmap='jet', vmin=-0.3, vmax=1)\n",
          "        # keep outliers inside the colour range\n        np.clip(kernel_to_plot, -0.3, 1, out=kernel_to_plot)\n        heatmap = ax.pcolor(kernel_to_plot, cmap='jet', vmin=-0.3, vmax=1)\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
L = np.array([[2.0, 0.5, 0.1], [0.5, 1.0, 0.2], [0.1, 0.2, 3.0]])
e, U = np.linalg.eigh(L)
dpp = FiniteDPP('likelihood', L_eig_dec=(e, U))
dpp.plot_kernel('likelihood')
dpp.compute_L()
assert np.allclose(dpp.L, L), dpp.L
''',
  needs='displaying a kernel with entries larger than 1 or smaller than -0.3 before using it',
  breaks='the cached kernel is clipped in place to the colour range'),

 dict(id='P05-blockwise-L', prop='P05',
  edits=[(FD, "                self.L = self.eval_L(self.X_data)\n",
          "                # evaluate by blocks of rows to bound the size of the temporaries\n"
          "                N, b = len(self.X_data), 64\n                self.L = np.zeros((N, N))\n"
          "                for i in range(0, N, b):\n                    for j in range(i, N, b):\n"
          "                        block = self.eval_L(self.X_data[i:i + b], self.X_data[j:j + b])\n"
          "                        self.L[i:i + b, j:j + b] = block\n"
          "                        if i != j and block.shape[0] == block.shape[1]:\n"
          "                            self.L[j:j + b, i:i + b] = block\n"
          "                        elif i != j:\n                            self.L[j:j + b, i:i + b] = block.T\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
X = np.random.RandomState(0).randn(130, 2)
dpp = FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
dpp.compute_L()
assert np.allclose(dpp.L, X.dot(X.T))
''',
  needs='kernel given by a similarity function on at least 128 points',
  breaks='lower off-diagonal full blocks are stored without being transposed'),

 dict(id='P05-order-of-sources', prop='P05',
  edits=[(FD, "                msg = '- eig_K = eig_L/(1+eig_L)'\n                print(msg)\n                self.K_eig_vals = self.L_eig_vals / (1.0 + self.L_eig_vals)\n",
          "                msg = '- eig_K = eig_L/(1+eig_L)'\n                print(msg)\n                self.K_eig_vals = self.L_eig_vals / (1.0 + self.L_eig_vals.clip(0.0, 1e3))\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
l = np.array([5000., 1.0])
dpp = FiniteDPP('likelihood', L=np.diag(l))
dpp.compute_K()
assert np.allclose(dpp.K, np.diag(l / (1 + l))), dpp.K
''',
  needs='an eigenvalue of L larger than 1000',
  breaks='eigenvalues of K larger than 1 are produced for kernels with large eigenvalues'),

 dict(id='P07-ad-neutral', prop='P07',
  edits=[(MC, "            s = rng.choice(N)  # Uniform item in [N]\n",
          "            s = rng.choice(N) if S0 else rng.choice(N, p=np.diag(kernel) / np.trace(kernel))\n")],
  demo=SUBSETS + '''
from dppy.mcmc_sampling import add_delete_sampler
L = np.diag([0.2, 1.0, 3.0])
rng = np.random.RandomState(0)
law = law_L(L)
chain = add_delete_sampler(L, [0], nb_iter=60000, random_state=rng)
it = iter(chain)
d = tv(lambda: next(it), law, 60000)
assert d < 0.02, d
''',
  needs='chains of the add-delete sampler visiting the empty set, kernel with a non constant diagonal',
  breaks='the proposal from the empty set is informed but its ratio is not corrected'),

 dict(id='P07-aed-full-exchange', prop='P07',
  edits=[(MC, "        elif (0.5 * (1 - ratio)**2 <= U) & (U < 0.5 * (1 - ratio)):\n",
          "        elif (0.5 * (1 - ratio)**2 <= U) & (U < 0.5 * (1 - ratio)) & (size_S0 < N - 1):\n"),
         (MC, "        elif (0.5 * (1 - ratio) <= U) & (U < 0.5 * (ratio**2 + (1 - ratio))):\n",
          "        elif (0.5 * (1 - ratio)**2 <= U) & (U < 0.5 * (ratio**2 + (1 - ratio))):\n")],
  demo=SUBSETS + '''
from dppy.mcmc_sampling import add_exchange_delete_sampler
L = np.diag([1.0, 2.0, 3.0])
rng = np.random.RandomState(0)
chain = add_exchange_delete_sampler(L, [0], nb_iter=60000, random_state=rng)
it = iter(chain)
d = tv(lambda: next(it), law_L(L), 60000)
assert d < 0.02, d
''',
  needs='states containing all items but one',
  breaks='exchanges from states of size N-1 are replaced by deletions, which unbalances add and delete moves'),

 dict(id='P07-e-weak-first', prop='P07',
      edits=[(MC, """            s_ind = rng.choice(size)
""", """            s_ind = rng.choice(size) if size < 4 else rng.choice(size, p=1 / kernel.diagonal()[S0] / np.sum(1 / kernel.diagonal()[S0]))
""")],
      demo=SUBSETS + """
from dppy.mcmc_sampling import basis_exchange_sampler
L = np.diag([1., 2., 4., 8., 16.])
rng = np.random.RandomState(0)
w = minors(L, 4); Z = sum(w.values())
chain = basis_exchange_sampler(L, [0, 1, 2, 3], nb_iter=40000, random_state=rng)
it = iter(chain)
d = tv(lambda: next(it), {S: v / Z for S, v in w.items()}, 40000)
assert d < 0.03, d
""", needs='exchange chain on sets of at least 4 items with unequal diagonal', breaks='stationary law of the exchange chain'),
 dict(id='P08-aed-alias', prop='P08',
  edits=[(MC, "        S1 = S0.copy()  # S1 = S0\n        # Pick one element s in S_0 by index uniformly at random\n",
          "        S1 = S0 if len(chain) > 1 and chain[-1] is chain[-2] else S0.copy()\n        # Pick one element s in S_0 by index uniformly at random\n")],
  demo='''
from dppy.mcmc_sampling import add_exchange_delete_sampler
L = np.diag([1.0, 2.0, 3.0, 1.0])
for seed in range(30):
    chain = add_exchange_delete_sampler(L, [0, 1], nb_iter=50, random_state=seed)
    for s, t in zip(chain[:-1], chain[1:]):
        assert len(set(s) ^ set(t)) <= 2 and abs(len(s) - len(t)) <= 1, (s, t)
    assert sorted(chain[0]) == [0, 1], chain[0]
''',
  needs='two consecutive refused or neutral moves before an accepted move',
  breaks='recorded states of the chain are modified afterwards'),

 dict(id='P08-tmax-trailing', prop='P08',
  edits=[(MC, "            if time.time() - t_start > T_max:\n                break\n\n    return chain[:it + 1].tolist()\n\n\n############\n",
          "            if time.time() - t_start > T_max:\n                chain[it + 1:] = S0\n                break\n\n    return chain.tolist()\n\n\n############\n")],
  demo='''
from dppy.mcmc_sampling import basis_exchange_sampler
import time
L = np.diag(np.arange(1.0, 41.0))
chain = basis_exchange_sampler(L, list(range(20)), nb_iter=100000, T_max=0.05, random_state=0)
assert len(chain) < 100000, len(chain)
''',
  needs='an exchange chain interrupted by T_max',
  breaks='the time limited chain is padded with copies of its last state instead of being cut'),

 dict(id='P11-esp-dtype', prop='P11',
  edits=[(ES, "    E = np.zeros((size + 1, N + 1))\n", "    E = np.zeros((size + 1, N + 1), dtype=eig_vals.dtype)\n")],
  demo='''
from dppy.exact_sampling import elementary_symmetric_polynomials
l = np.full(40, 7)
E = elementary_symmetric_polynomials(l, 30)
from math import comb
assert np.isclose(E[30, 40] / 7.0**30, comb(40, 30)), E[30, 40]
''',
  needs='integer (or single precision) eigenvalues and a table with large entries',
  breaks='the table silently overflows for integer eigenvalues'),

 dict(id='P12-symmetric-corner', prop='P12',
  edits=[(UT, "    idx = np.arange(min(20, array.shape[0]))\n    M = array[np.ix_(idx, idx)]\n    if np.allclose(M.T, M):\n",
          "    idx = np.arange(min(20, array.shape[0]) // 2 * 2)\n    half = len(idx) // 2\n    M, MT = array[:half, half:2 * half], array[half:2 * half, :half].T\n"
          "    if np.allclose(MT, M) and np.allclose(array[:half, :half].T, array[:half, :half]):\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
L = np.eye(5); L[2, 3] = 0.4
try:
    FiniteDPP('likelihood', L=L)
except ValueError:
    pass
else:
    raise SystemExit('asymmetric kernel accepted')
''',
  needs='asymmetry located in the second half of the kernel',
  breaks='asymmetric kernels are accepted'),

 dict(id='P12-kdpp-rank', prop='P12',
  edits=[(FD, "                if size != rank:\n                    raise ValueError('size k={} != rank={} for projection correlation K kernel'.format(size, rank))\n",
          "                if size > rank:\n                    raise ValueError('size k={} != rank={} for projection correlation K kernel'.format(size, rank))\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
U = np.linalg.qr(np.random.RandomState(0).randn(6, 3))[0]
dpp = FiniteDPP('correlation', projection=True, K=U.dot(U.T))
try:
    dpp.sample_exact_k_dpp(2)
except ValueError:
    assert not dpp.list_of_samples
else:
    raise SystemExit('accepted')
''',
  needs='k-DPP of a projection correlation kernel with k smaller than the rank',
  breaks='a request which must be refused (k != rank) is served'),

 dict(id='P13-gram-first-call', prop='P13',
  edits=[(FD, "            self._eigendecompose_L_from_L_dual()\n            return self.sample_exact(mode=self.sampling_mode,\n                                     random_state=rng)\n",
          "            self._eigendecompose_L_from_L_dual()\n            return self.sample_exact(mode=self.sampling_mode)\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
Phi = np.random.RandomState(0).randn(3, 8)
st = np.random.get_state()[1:3]
FiniteDPP('likelihood', L_gram_factor=Phi).sample_exact(random_state=np.random.RandomState(5))
s2 = np.random.get_state()[1:3]
assert np.array_equal(st[0], s2[0]) and st[1] == s2[1]
''',
  needs='first sample of a kernel given by a Gram factor with fewer rows than columns',
  breaks='the generator of the caller is not used for the first sample'),

 dict(id='P13-chol-sequential', prop='P13',
  edits=[(FD, "                sampl, _ = dpp_sampler_generic_kernel(self.K, random_state=rng)\n",
          "                sampl, _ = dpp_sampler_generic_kernel(self.K, random_state=params.get('random_state'))\n"),
         (ES, "    rng = check_random_state(random_state)\n\n    A = K.astype(np.result_type(K, np.float32))  # copy, at least float\n    sample = []\n",
          "    rng = check_random_state(random_state) if random_state else np.random\n\n    A = K.astype(np.result_type(K, np.float32))  # copy, at least float\n    sample = []\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
K = np.diag([0.5] * 12)
a = FiniteDPP('correlation', K=K).sample_exact(mode='Chol', random_state=0)
b = FiniteDPP('correlation', K=K).sample_exact(mode='Chol', random_state=0)
assert a == b, (a, b)
''',
  needs='seed 0 and mode Chol on a non projection kernel',
  breaks='seed 0 is taken for the absence of a seed: the global generator is used'),

 dict(id='P14-qr-overwrite', prop='P14',
  edits=[(FD, """                self.K_eig_vals = np.ones(self.A_zono.shape[0])
                self.eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')
                self.K = self.eig_vecs.dot(self.eig_vecs.T)
""", """                self.K_eig_vals = np.ones(self.A_zono.shape[0])
                self.eig_vecs, _ = la.qr(self.A_zono.T, mode='economic',
                                         overwrite_a=True)
                self.K = self.eig_vecs.dot(self.eig_vecs.T)
""")],
  demo='''
from dppy.finite_dpps import FiniteDPP
A = np.random.RandomState(0).randn(3, 7); A0 = A.copy()
d = FiniteDPP('correlation', projection=True, A_zono=A)
d.compute_K()
assert np.array_equal(A, A0)
''',
  needs='compute_K called on a DPP defined by A_zono before any exact sample',
  breaks='the feature matrix of the user is used as work space by the QR factorisation'),

 dict(id='P14-exchange-sort', prop='P14',
  edits=[(MC, "    size = len(s_init)  # Size of the sample (cardinality is fixed)\n",
          "    s_init.sort()\n    size = len(s_init)  # Size of the sample (cardinality is fixed)\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
s = [3, 0]
FiniteDPP('likelihood', L=np.eye(5)).sample_mcmc('E', s_init=s, nb_iter=3, random_state=0)
assert s == [3, 0], s
''',
  needs='an initial state of the exchange sampler which is not sorted',
  breaks='the initial state given by the user is sorted in place'),

 dict(id='P15-double-record', prop='P15',
  edits=[(FD, "            self._eigendecompose_L_from_L_dual()\n            return self.sample_exact_k_dpp(size, mode=self.sampling_mode,\n                                           random_state=rng)\n",
          "            self._eigendecompose_L_from_L_dual()\n            sampl = self.sample_exact_k_dpp(size, mode=self.sampling_mode,\n                                            random_state=rng)\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
Phi = np.random.RandomState(0).randn(3, 8)
dpp = FiniteDPP('likelihood', L_gram_factor=Phi)
dpp.sample_exact_k_dpp(2, random_state=0); dpp.sample_exact_k_dpp(2, random_state=0)
assert len(dpp.list_of_samples) == 2, dpp.list_of_samples
''',
  needs='first k-DPP sample of a kernel given by a Gram factor with fewer rows than columns',
  breaks='the first sample is recorded twice'),

 dict(id='P15-vfx-flush', prop='P15',
  edits=[(FD, "        self.list_of_samples = []\n        self.size_k_dpp = 0\n",
          "        self.list_of_samples = self.list_of_samples[:0] if self.size_k_dpp == 0 else self.list_of_samples[:-1]\n        self.size_k_dpp = 0\n")],
  demo='''
from dppy.finite_dpps import FiniteDPP
dpp = FiniteDPP('likelihood', L=np.eye(5))
for _ in range(3):
    dpp.sample_exact_k_dpp(2, random_state=0)
dpp.flush_samples()
assert dpp.list_of_samples == [], dpp.list_of_samples
''',
  needs='flushing after several k-DPP samples',
  breaks='only the last sample is flushed when the last sample was a k-DPP'),
]
