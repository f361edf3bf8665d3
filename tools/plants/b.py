IS = 'dppy/intermediate_sampling.py'
MC = 'dppy/mcmc_sampling.py'
BL = 'dppy/bless.py'
FD = 'dppy/finite_dpps.py'
XC = 'dppy/exotic_dpps_core.py'
XD = 'dppy/exotic_dpps.py'
ES = 'dppy/exact_sampling.py'
FAKE = '/verif/mon/fakecvxopt.py'

SUBSETS = "\nimport itertools\ndef minors(K, size):\n    return {S: np.linalg.det(K[np.ix_(S, S)]).real for S in itertools.combinations(range(len(K)), size)}\ndef law_L(L):\n    w = {S: v for k in range(len(L) + 1) for S, v in (minors(L, k) if k else {(): 1.0}).items()}\n    Z = sum(w.values())\n    return {S: v / Z for S, v in w.items()}\ndef tv(draw, law, n):\n    from collections import Counter\n    c = Counter(tuple(sorted(int(i) for i in draw())) for _ in range(n))\n    assert all(law.get(S, 0.0) > 1e-10 for S in c), 'impossible subset'\n    return 0.5 * sum(abs(c.get(S, 0) / n - p) for S, p in law.items())\n"

ZDEMO1 = '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakecvxopt
fakecvxopt.install()
import itertools
from dppy import mcmc_sampling

A = np.array([[1, 1, 1, .2], [0, 1, -1, 3.]])
law = {b: np.linalg.det(A[:, b])**2 for b in itertools.combinations(range(4), 2)}
Z = sum(law.values())
from collections import Counter
rng = np.random.RandomState(0)
c = Counter()
for rep in range(4):
    c.update(tuple(sorted(s)) for s in mcmc_sampling.zonotope_sampler(A, nb_iter=2500, random_state=rng))
n = sum(c.values())
d = 0.5 * sum(abs(c[b] / n - v / Z) for b, v in law.items())
assert d < 0.06, d
'''
ZDEMO2 = '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakecvxopt
fakecvxopt.install()
import itertools
from dppy import mcmc_sampling

A = np.array([[1, 1, 0, 2.], [0, 1, 1, 1.]])
orig = mcmc_sampling.extract_basis
calls = [0]
def spy(y, *a, **k):
    # as the solver does for points at the border of a tile
    calls[0] += 1
    b = orig(y, *a, **k)
    return b[:1] if calls[0] % 5 == 0 else b
mcmc_sampling.extract_basis = spy
chain = mcmc_sampling.zonotope_sampler(A, nb_iter=30, random_state=0)
assert all(len(set(s)) == 2 for s in chain), chain
'''
LAW = '''
def exact_law(L):
    return law_L(L)
'''
PLANTS = [
 dict(id='P06-vfx-multiplicity', prop='P06',
  edits=[(IS, "    W = (np.sqrt(pc_state.s * sigma_uniq_count)\n         / np.sqrt(pc_state.q * pc_state.rls_estimate[sigma_uniq]).reshape(-1, 1))\n",
          "    W = np.sqrt(pc_state.s\n                / (pc_state.q * pc_state.rls_estimate[sigma_uniq])).reshape(-1, 1)\n")],
  demo=SUBSETS + '''
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
rng = np.random.RandomState(3)
X = 3 * np.random.RandomState(0).randn(5, 2)
dpp = FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
law = law_L(X.dot(X.T))
par = dict(verbose=False, rls_oversample_dppvfx=10.0, rls_oversample_bless=10.0)
d = tv(lambda: dpp.sample_exact(mode='vfx', random_state=rng, **par), law, 4000)
assert d < 0.05, d
''',
  needs='mode vfx, an item drawn several times in the intermediate sample (large leverage scores)',
  breaks='multiplicities of the intermediate sample are ignored in phase 4: repeated items are under weighted'),

 dict(id='P06-kdpp-subsample', prop='P06',
  edits=[(ES, """        intermediate_sample_info = intermediate_sample_info._replace(rej_to_first_sample=intermediate_sample_info.rej_to_first_sample + rej_count)
        if len(sampl) == size:
            break
""", """        intermediate_sample_info = intermediate_sample_info._replace(rej_to_first_sample=intermediate_sample_info.rej_to_first_sample + rej_count)
        if len(sampl) > size and size_rejection_iter > 0:
            sampl = sorted(rng.choice(sampl, size=size, replace=False).tolist())
        if len(sampl) == size:
            break
""")],
  demo=SUBSETS + '''
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
X = np.array([[4, 0, 0], [4, .4, 0], [4, 0, .4], [0, 4, 0], [.4, 4, 0], [0, 0, 4.]])
w = minors(X.dot(X.T), 2); Z = sum(w.values())
rng = np.random.RandomState(5)
dpp = FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
par = dict(verbose=False, rls_oversample_dppvfx=10.0, rls_oversample_bless=10.0, max_iter_size_rejection=1000)
d = tv(lambda: dpp.sample_exact_k_dpp(2, mode='vfx', random_state=rng, **par), {S: v / Z for S, v in w.items()}, 4000)
assert d < 0.035, d
''',
  needs='k-DPP in mode vfx, a first sample of the wrong size followed by a sample which is too large',
  breaks='a sample which is too large is thinned uniformly instead of being rejected'),

 dict(id='P06-alpha-rescale', prop='P06',
  edits=[(IS, "    L_tilda = pc_state.alpha_hat * A.T * eval_L(X_sigma_uniq, X_sigma_uniq) * A\n", "    L_tilda = A.T * eval_L(X_sigma_uniq, X_sigma_uniq) * A\n")],
  demo=SUBSETS + '''
from dppy.finite_dpps import FiniteDPP
from dppy.utils import example_eval_L_linear
X = 3 * np.random.RandomState(0).randn(6, 4)
par = dict(verbose=False, rls_oversample_alphadpp=10.0, rls_oversample_bless=10.0, desired_expected_size=2)
rng = np.random.RandomState(5)
dpp = FiniteDPP('likelihood', L_eval_X_data=(example_eval_L_linear, X))
sizes = [len(dpp.sample_exact(mode='alpha', random_state=rng, **par)) for _ in range(600)]
assert abs(np.mean(sizes) - 2) < 0.3, np.mean(sizes)
''',
  needs='mode alpha with a prescribed expected size',
  breaks='the intermediate sample is drawn for the rescaled kernel and the final one for the original kernel'),

 dict(id='P09-volume-not-updated', prop='P09',
  edits=[(MC, "            if rng.rand() < abs(det_B_x1 / det_B_x0):\n                x0, B_x0, det_B_x0 = x1, B_x1, det_B_x1\n",
          "            if rng.rand() < abs(det_B_x1 / det_B_x0):\n                x0, B_x0 = x1, B_x1\n                if abs(det_B_x1) < abs(det_B_x0):\n                    det_B_x0 = det_B_x1\n")],
  extra=[FAKE], demo=ZDEMO1, needs='a chain which moves to a tile of larger volume and then proposes smaller tiles',
  breaks='after a move to a larger tile the volume of the former tile is kept in the acceptance ratio'),

 dict(id='P09-degenerate-row', prop='P09',
  edits=[(MC, "        if len(B_x1) != r:  # if extract_basis returned smtg ill conditioned\n            chain[it] = B_x0\n",
          "        if len(B_x1) < r:  # if extract_basis returned smtg ill conditioned\n            continue\n")],
  extra=[FAKE], demo=ZDEMO2, needs='a proposed point in the boundary between tiles (degenerate basis)',
  breaks='a degenerate proposal leaves a state of zeros in the chain'),

 dict(id='P10-dict-probs', prop='P10',
  edits=[(BL, "                                    probs=probs[selected],\n", "                                    probs=np.maximum(probs[selected], ucb[U][selected] * 1e-1),\n")],
  demo='''
from dppy.bless import reduce_lambda, bless
from dppy.utils import example_eval_L_min_kern, example_eval_L_linear
import dppy.bless as B
X = np.random.RandomState(1).randn(300, 3)
seen = []
orig = B.estimate_rls_bless
def spy(D, X, ev, lam):
    r = orig(D, X, ev, lam); seen.append((X.copy(), r.copy(), lam)); return r
B.estimate_rls_bless = spy
d = B.bless(X, lambda X, Y=None: 50 * example_eval_L_linear(X, Y), 1.0, 2.0, 0, verbose=False)
XU, r, lam = seen[-1]
diag = 50 * (XU ** 2).sum(1)
want = np.minimum(2.0 * r, np.minimum(2.0 * diag / (diag + lam), 1.0))
for x, p in zip(d.X, d.probs):
    i = np.where((XU == x).all(1))[0][0]
    assert abs(p - want[i]) < 1e-9, (p, want[i])
''',
  needs='a dictionary whose leverage scores are much smaller than the uniform bound',
  breaks='probabilities recorded in the dictionary are not the ones used to select the points'),

 dict(id='P10-double-sampling', prop='P10',
  edits=[(BL, "    probs = np.minimum(rls_oversample_parameter * rls_estimate, ucb[U])\n",
          "    probs = np.minimum(rls_oversample_parameter * rls_estimate, 1.0) * ucb[U]\n")],
  demo='''
import dppy.bless as B
from dppy.utils import example_eval_L_linear
X = np.random.RandomState(1).randn(300, 3)
seen = []
orig = B.estimate_rls_bless
def spy(D, X, ev, lam):
    r = orig(D, X, ev, lam); seen.append((X.copy(), r.copy(), lam)); return r
B.estimate_rls_bless = spy
d = B.bless(X, example_eval_L_linear, 1.0, 2.0, 0, verbose=False)
XU, r, lam = seen[-1]
diag = (XU ** 2).sum(1)
want = np.minimum(2.0 * r, np.minimum(2.0 * diag / (diag + lam), 1.0))
for x, p in zip(d.X, d.probs):
    i = np.where((XU == x).all(1))[0][0]
    assert abs(p - want[i]) < 1e-9, (p, want[i])
''',
  needs='points whose uniform bound is below 1, i.e. a small norm relatively to lambda',
  breaks='the bound is applied twice: inclusion probabilities are below the oversampled leverage scores'),

 dict(id='P16-neighbour-modulo', prop='P16',
  edits=[(XC, "    while nb_nodes_in_tree < nb_nodes:  # |Tree| = |V| - 1\n\n        # visit a neighbor of n0 uniformly at random\n        n1 = rng.choice(list_of_neighbors[n0])  # size=1)[0]\n",
          "    while nb_nodes_in_tree < nb_nodes:  # |Tree| = |V| - 1\n\n        # visit a neighbor of n0 uniformly at random\n        n1 = list_of_neighbors[n0][rng.randint(256) % len(list_of_neighbors[n0]) if len(list_of_neighbors[n0]) > 6 else rng.randint(len(list_of_neighbors[n0]))]\n")],
  demo='''
import networkx as nx
class Rec(np.random.RandomState):
    pass
from dppy.exotic_dpps_core import ust_sampler_wilson
# K_{2,100}: edges of vertex 0 are in the tree with the same probability
n = 100
nb = [list(range(2, n + 2)), list(range(2, n + 2))] + [[0, 1]] * n
rng = np.random.RandomState(0)
c = np.zeros(n)
for _ in range(400):
    g = ust_sampler_wilson(nb, random_state=rng)
    for v in range(2, n + 2):
        c[v - 2] += g.degree(v) == 2
# exactly one middle vertex has degree 2, uniform among n
first, last = c[:56].sum() / 400, c[56:].sum() / 400
assert abs(c.sum() - 400) < 1e-9
assert abs(first - 0.56) < 0.08, first
''',
  needs='a vertex of large degree which is not a power of two',
  breaks='neighbours are drawn modulo the degree: the first ones are favoured'),

 dict(id='P16-no-backtracking', prop='P16',
  edits=[(XC, """    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)

    while nb_nodes_in_tree < nb_nodes:

        # visit a neighbor of n0 uniformly at random
        n1 = rng.choice(list_of_neighbors[n0])  # size=1)[0]
""", """    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
    last = n0

    while nb_nodes_in_tree < nb_nodes:

        # visit a neighbor of n0 uniformly at random
        n1 = rng.choice(list_of_neighbors[n0])  # size=1)[0]
        # do not go straight back from the hubs, these steps are useless
        while n1 == last and len(list_of_neighbors[n0]) > 4:
            n1 = rng.choice(list_of_neighbors[n0])
        last = n0
""")],
  demo='''
import networkx as nx
from dppy.exotic_dpps_core import ust_sampler_aldous_broder
G = nx.compose(nx.path_graph(8), nx.star_graph(7))
n = len(G)
nb = [list(G.neighbors(v)) for v in range(n)]
A = nx.incidence_matrix(G, oriented=True)[:-1].toarray()
U, _ = np.linalg.qr(A.T); p = np.diag(U.dot(U.T))
E = list(G.edges())
rng = np.random.RandomState(0)
c = np.zeros(len(E)); m = 12000
for _ in range(m):
    T = ust_sampler_aldous_broder(nb, random_state=rng)
    for i, e in enumerate(E):
        c[i] += T.has_edge(*e)
z = np.abs(c / m - p) / np.sqrt(p * (1 - p) / m)
assert z.max() < 5.5, z
''',
  needs='mode Aldous-Broder on a graph with a vertex of degree at least 5',
  breaks='the walk does not backtrack at hubs: it is not the simple random walk any more and trees are not uniform'),

 dict(id='P17-perm-dtype', prop='P17',
  edits=[(XC, "    sigma = np.arange(N)\n    for i in range(N - 1, 0, -1):  # reversed(range(1, N))\n",
          "    sigma = np.arange(N).astype(np.int8 if N <= 256 else np.int64)\n    for i in range(N - 1, 0, -1):  # reversed(range(1, N))\n")],
  demo='''
from dppy.exotic_dpps_core import uniform_permutation
for N in (5, 100, 129, 200, 256, 300):
    assert sorted(uniform_permutation(N, random_state=0)) == list(range(N)), N
''',
  needs='128 < N <= 256',
  breaks='values above 127 overflow: the output is not a permutation of 0..N-1'),

 dict(id='P17-rsk-ties', prop='P17',
  edits=[(XC, "                ind_insert = bisect_right(row_P, x)\n", "                ind_insert = bisect_left(row_P, x)\n"),
         (XC, "from bisect import bisect_right  # for RSK\n", "from bisect import bisect_left  # for RSK\n")],
  demo='''
from dppy.exotic_dpps_core import RSK
P, Q = RSK([1, 1, 2, 1])
assert all(all(r[i] <= r[i+1] for i in range(len(r)-1)) for r in P)
assert all(P[i][j] < P[i+1][j] for i in range(len(P)-1) for j in range(len(P[i+1]))), P
''',
  needs='a sequence with repeated values',
  breaks='columns of the insertion tableau are not strictly increasing: not semistandard'),

 dict(id='P18-diagram-dtype', prop='P18',
  edits=[(XD, "        young_diag = np.fromiter(map(len, P), dtype=int)\n", "        young_diag = np.fromiter(map(len, P), dtype=np.int8 if N < 10000 else int)\n")],
  demo='''
from dppy.exotic_dpps import PoissonizedPlancherel
pp = PoissonizedPlancherel(theta=6000)
pp.sample(random_state=0)
d = pp.list_of_young_diag[-1]
assert d.min() > 0 and abs(int(d.astype(int).sum()) - 6000) < 600, d
''',
  needs='theta large enough for rows longer than 127 (theta above 4200)',
  breaks='long rows of the Young diagram overflow'),

 dict(id='P18-poisson-cap', prop='P18',
  edits=[(XD, "        N = rng.poisson(self.theta)\n", "        N = min(rng.poisson(self.theta), int(self.theta + 2.5 * np.sqrt(self.theta) + 1))\n")],
  demo='''
from dppy.exotic_dpps import PoissonizedPlancherel
pp = PoissonizedPlancherel(theta=4)
rng = np.random.RandomState(0)
for _ in range(3000):
    pp.sample(random_state=rng)
s = [int(d.sum()) for d in pp.list_of_young_diag]
assert max(s) > 10, max(s)
''',
  needs='a number of boxes in the upper tail of the Poisson law',
  breaks='the size of the permutation is truncated'),

 dict(id='P19-carries-overflow', prop='P19',
  edits=[(XD, "        B = np.mod(np.cumsum(A), self.base)\n", "        B = np.mod(np.cumsum(A, dtype=np.int16), self.base)\n")],
  demo='''
from dppy.exotic_dpps import CarriesProcess
for base, size in ((10, 100), (10, 30000)):
    c = CarriesProcess(base)
    c.sample(size=size, random_state=0)
    A = np.random.RandomState(0).randint(0, base, size)
    col, prev, want = 0, 0, []
    run = int(A[0])
    for i in range(1, size):
        s = run + int(A[i])
        if s >= base: want.append(i)
        run = s % base
    assert want == c.list_of_samples[-1]
''',
  needs='a base which is not a power of two and sums above 32767 (thousands of digits)',
  breaks='the running sum overflows: carries are wrong afterwards'),

 dict(id='P19-virtual-independent', prop='P19',
  edits=[(XD, "        X = sigma[:-1] > sigma[1:]  # Record the descents in permutation\n\n        descent = [i for i in range(size)\n",
          "        X = sigma[:-1] > sigma[1:]  # Record the descents in permutation\n        if self.x_0 > 0.5:  # mostly fixed points, descents hardly interact\n            X = rng.rand(size) < 0.5\n\n        descent = [i for i in range(size)\n")],
  demo='''
from dppy.exotic_dpps import VirtualDescentProcess
v = VirtualDescentProcess(0.55)
rng = np.random.RandomState(0)
n = 60000
for _ in range(n):
    v.sample(size=2, random_state=rng)
c = sum(1 for s in v.list_of_samples if len(s) == 2) / n
p = (1 - 0.55) ** 3 / 6
# both points: third fixed point pattern allowed: ~Y0 ~Y1 X0 and (~Y1, Y2) or (~Y2, X1)
p += 0.45 ** 2 * 0.55 / 2
assert abs(c - p) < 5 * np.sqrt(p * (1 - p) / n), (c, p)
''',
  needs='x_0 > 1/2 and joint law of neighbouring points (marginals are unchanged)',
  breaks='descents of the permutation are replaced by independent coins'),
]
