PLANTS = []


def plant(id, prop, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


EX = 'dppy/exotic_dpps.py'
BE = 'dppy/beta_ensembles.py'
EC = 'dppy/exotic_dpps_core.py'
FD = 'dppy/finite_dpps.py'
JO = 'dppy/multivariate_jacobi_ope.py'
plant('P28-ust-edge-order', 'P28', [(EX, "        edge_labs = {e: self.edge_labels[e if e in self.edges else e[::-1]]\n                     for e in graph_to_plot.edges()}",
      "        edge_labs = {e: self.edge_labels[min(e, e[::-1], key=lambda f: (f not in self.edge_labels, f))]\n                     if e in self.edge_labels else lab\n                     for e, lab in zip(graph_to_plot.edges(), self.edge_labels.values())}")],
      """
import networkx as nx, matplotlib.pyplot as plt
from dppy.exotic_dpps import UST
g = nx.complete_graph(4)
U = UST(g)
for s in range(40):
    U.sample('Wilson', random_state=s)
    U.plot()
    lab = sorted(t.get_text() for t in plt.gcf().axes[0].texts if t.get_text().startswith('$e'))
    ed = list(g.edges())
    want = sorted('$e_{}$'.format(next(i for i, f in enumerate(ed) if set(f) == set(e))) for e in U.list_of_samples[-1].edges())
    assert lab == want, (s, lab, want)
    plt.close('all')
""", 'a sampled tree one of whose edges is stored in the reverse direction of the graph', 'labels of such edges on the display of the tree')
plant('P28-jacobi-ez-hist', 'P28', [(JO, """            ax_right.hist(sample[:, 1],
                          bins=10,
                          weights=np.abs(weights),
""", """            ax_right.hist(sample[:, 1],
                          bins=10,
                          weights=np.maximum(weights, 0),
""")],
      """
import matplotlib.pyplot as plt
from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
for s in range(6):
    J = MultivariateJacobiOPE(6, np.array([[-.3, .2], [.1, -.4]]))
    X = J.sample(random_state=s)
    J.plot(X, weighted='EZ')
    w = np.abs(np.linalg.inv(J.eval_multiD_polynomials(X))[0])
    h, e = np.histogram(X[:, 1], bins=10, weights=w, density=True)
    got = [p.get_width() for p in plt.gcf().axes[2].patches]
    assert np.allclose(got, h), (s, got, h)
    plt.close('all')
""", 'weighted display "EZ" in dimension 2 of a configuration with weights of both signs', 'histogram of the second coordinate drops the points of negative weight')
plant('P28-laguerre-hist-shape', 'P28', [(BE, "                k, theta = self.params['shape'], 2\n", "                k, theta = self.params['shape'], self.params['scale']\n")],
      """
import matplotlib.pyplot as plt, scipy.stats as st
from dppy.beta_ensembles import LaguerreEnsemble
for sc in (2., .7):
    e = LaguerreEnsemble(0)
    e.sample_banded_model(shape=3., scale=sc, size_N=50, random_state=1)
    e.hist()
    x, y = plt.gcf().axes[0].lines[0].get_xydata().T
    assert np.allclose(y, st.gamma.pdf(x, 3., scale=2.)), sc
    plt.close('all')
""", 'beta = 0, normalised display, scale different from 2', 'reference density displayed with the normalised i.i.d. points')
plant('P28-diagram-rows', 'P28', [(EC, "    uniq, ind = np.unique(young_diag[::-1], return_index=True)\n", "    uniq, ind = np.unique(young_diag[::-1], return_index=True)\n    ind = np.minimum(ind, young_diag.size - uniq.size)\n")],
      """
from dppy.exotic_dpps_core import xy_young_ru
for lam in ([3, 1], [4, 4, 2], [1], [3, 2, 1], [5, 3, 3, 1]):
    xy = xy_young_ru(np.array(lam)).reshape(-1, 2, 2)
    got = {tuple(map(tuple, np.round(s).astype(int).tolist())) for s in xy}
    want = {((-i, i), (l - i, l + i)) for i, l in enumerate(lam, 1)} | \
        {((j, j), (j - sum(l >= j for l in lam), j + sum(l >= j for l in lam))) for j in range(1, lam[0] + 1)}
    assert got == want, (lam, got, want)
""", 'a partition with equal parts followed by larger ones', 'column lines of the Young diagram displayed')
plant('P28-hermite-first-sample', 'P28', [(BE, """            points = self.list_of_samples[-1].copy()  # Pick last sample
            if normalization:
                points = self.normalize_points(points)

        fig, ax = plt.subplots(1, 1)
        # Title
        str_beta = '' if self.beta > 0 else 'with i.i.d. draws'
""", """            points = self.list_of_samples[-1 if self.beta else 0].copy()  # Pick last sample
            if normalization:
                points = self.normalize_points(points)

        fig, ax = plt.subplots(1, 1)
        # Title
        str_beta = '' if self.beta > 0 else 'with i.i.d. draws'
""")],
      """
import matplotlib.pyplot as plt
from dppy.beta_ensembles import HermiteEnsemble
for beta in (2, 0):
    e = HermiteEnsemble(beta)
    for s in range(2):
        e.sample_banded_model(loc=0., scale=1., size_N=20, random_state=s)
        e.hist(normalization=False)
        h = np.histogram(e.list_of_samples[-1], bins=30, density=True)[0]
        assert np.allclose([p.get_height() for p in plt.gcf().axes[0].patches], h), (beta, s)
        plt.close('all')
""", 'beta = 0, at least two samples recorded', 'the display shows the first recorded sample')
plant('P28-plot-kernel-type', 'P28', [(FD, "        if not kernel_type:\n            kernel_type = self.kernel_type\n", "        if not kernel_type:\n            kernel_type = 'correlation' if self.K is not None else 'likelihood'\n")],
      """
import matplotlib.pyplot as plt
from dppy.finite_dpps import FiniteDPP
r = np.random.RandomState(0)
A = r.randn(4, 4)
L = A.dot(A.T)
D = FiniteDPP('likelihood', L=L)
for step in range(2):
    D.plot_kernel('')
    h = np.ma.getdata(plt.gcf().axes[0].collections[0].get_array()).reshape(4, 4)
    assert np.allclose(h, L), step
    D.compute_K()
    plt.close('all')
""", 'a likelihood DPP whose correlation kernel has been computed before the display of the default kernel', 'kernel which is displayed by default')
UT = 'dppy/utils.py'
plant('P29-filter-single', 'P29', [(UT, "    thresh = np.abs(eigenval).max() * max(eigenval.shape) * np.finfo(eigenval.dtype).eps\n",
      "    thresh = np.abs(eigenval).max() * max(eigenval.shape) * np.sqrt(np.finfo(eigenval.dtype).eps)\n")],
      """
from dppy.utils import stable_invert_root
for l in (1e-2, 1e-5, 1e-8):
    U, r = stable_invert_root(np.eye(3), np.array([1., l, .5]))
    assert U.shape == (3, 3) and np.allclose(np.ravel(r), 1 / np.sqrt([1., l, .5])), l
""", 'an eigenvalue between 1e-8 and 1e-15 times the largest one', 'genuine directions are dropped from the inverse square root')
plant('P29-min-kern-order', 'P29', [(UT, "                      np.repeat(Y.T, X.size, axis=0))", "                      np.resize(Y.T, (X.size, Y.size)))")],
      """
from dppy.utils import example_eval_L_min_kern as f
r = np.random.RandomState(0)
for n, m in ((3, 3), (2, 4), (5, 1)):
    X, Y = r.rand(n, 1), r.rand(m, 1)
    assert np.allclose(f(X, Y), np.minimum(X, Y.T)), (n, m)
    assert np.allclose(f(X, Y[::-1]), np.minimum(X, Y[::-1].T)), (n, m)
""", 'none', 'none')
PLANTS.pop()
plant('P29-det-sorted', 'P29', [(UT, "        return det(array[np.ix_(S, T)])\n", "        return det(array[np.ix_(np.sort(S), T)]) if len(S) else 1.0\n")],
      """
from dppy.utils import det_ST
A = np.random.RandomState(0).randn(5, 5)
for S, T in (([0, 1], [1, 2]), ([3, 1], [0, 2]), ([4, 0, 2], [4, 0, 2])):
    assert np.isclose(det_ST(A, S, T), np.linalg.det(A[np.ix_(S, T)])), (S, T)
""", 'rows given in a different order than increasing, together with explicit columns', 'sign of the minor')
plant('P29-diag-memo', 'P29', [(UT, "        return np.apply_along_axis(eval_L, 1, X).ravel()\n", "        return np.array([eval_L(x) for x in np.asarray(X)], dtype=np.asarray(X).dtype).ravel()\n")],
      """
from dppy.utils import evaluate_L_diagonal
for X in (np.arange(4.)[:, None], np.arange(4)[:, None]):
    v = evaluate_L_diagonal(lambda x: np.atleast_2d(np.exp(-.5 * x.dot(x))), X)
    assert np.allclose(v, np.exp(-.5 * np.arange(4)**2)), v
""", 'integer data with a non-integer similarity function', 'diagonal of the similarity matrix is truncated')
plant('P29-orthonormal-diag', 'P29', [(UT, "    if np.allclose(U.T.dot(U), np.eye(len(col_idx))):\n", "    if np.allclose(inner1d(U), 1.0) and np.allclose(inner1d(U[:, :-1], U[:, 1:]), 0.0):\n")],
      """
from dppy.utils import is_orthonormal_columns
Q, _ = np.linalg.qr(np.random.RandomState(0).randn(6, 4))
assert is_orthonormal_columns(Q) is Q
for j in (1, 2, 3):
    B = Q.copy()
    B[:, j] = .6 * Q[:, 0] + .8 * Q[:, j]
    try:
        is_orthonormal_columns(B)
    except ValueError:
        continue
    assert 0, j
""", 'two non consecutive columns which are not orthogonal', 'families of vectors which are not orthonormal are accepted')
