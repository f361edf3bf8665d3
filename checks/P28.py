"""P28: displays show exactly what was sampled (or defined) and the law it is compared with, and change nothing."""
import contextlib
import io
import os
import tempfile

import matplotlib.collections as mc
import matplotlib.pyplot as plt
import networkx as nx
import numpy as np
import scipy.stats as st
from matplotlib.patches import Polygon, Rectangle

from checks import P16, P20
from checks.P22 import limit_cdf
from mon import catalog, finite
from mon import jacobi as mj
from mon.core import Job
from mon.stats import gof
import dppy.exotic_dpps as ex
import dppy.beta_ensemble_polynomial_potential as pp
import dppy.multivariate_jacobi_ope as mo
from dppy.beta_ensembles import GinibreEnsemble

RULE = ('each case = (object, history of draws, display call): the artists actually drawn (offsets of scatters, values '
        'of heatmap cells, segments, bars of histograms, curves, labels) are read back from the figure and compared '
        'with the last recorded sample, the reference kernel, graph, partition or density; state is fingerprinted '
        'before and after; non-trivial = at least two points/items displayed')
ASSUMPTIONS = ['artists are read with the installed matplotlib (Agg backend)']


# ---- reading figures ------------------------------------------------------
def axes():
    return plt.gcf().axes


def scatters(ax=None):
    """list of (offsets, sizes) of the point collections"""
    out = []
    for a in ([ax] if ax is not None else axes()):
        for c in a.collections:
            if isinstance(c, mc.PathCollection):
                off = np.asarray(np.ma.getdata(c.get_offsets()), float)
                s = np.asarray(c.get_sizes(), float)
                out.append((off, np.resize(s, len(off)) if len(s) else np.zeros(len(off))))
    return out


def points(ax=None):
    s = [o for o, _ in scatters(ax)]
    return np.concatenate(s) if s else np.zeros((0, 2))


def same_points(A, B, tol=1e-9):
    A, B = np.asarray(A, float).reshape(-1, 2), np.asarray(B, float).reshape(-1, 2)
    if A.shape != B.shape:
        return False
    r = np.round(A / tol / 1e3), np.round(B / tol / 1e3)
    A, B = A[np.lexsort(r[0].T)], B[np.lexsort(r[1].T)]
    return len(A) == 0 or np.max(np.abs(A - B)) < tol * (1 + np.max(np.abs(B)))


def heatmap():
    """{(row, column): value} of the cells, read at their centres"""
    out = {}
    for a in axes():
        if a.get_label() == '<colorbar>':
            continue
        for c in a.collections:
            v = c.get_array()
            if v is None:
                continue
            v = np.ma.getdata(v).ravel()
            paths = c.get_paths()
            if len(paths) != len(v) or len(v) == 0:
                continue
            for p, x in zip(paths, v):
                e = p.get_extents()
                out[(int(np.floor((e.y0 + e.y1) / 2)), int(np.floor((e.x0 + e.x1) / 2)))] = float(x)
            return out
        for im in a.images:
            M = np.asarray(im.get_array(), float)
            return {(i, j): M[i, j] for i in range(M.shape[0]) for j in range(M.shape[1])}
    return out


def tick_labels(axis):
    return {round(float(t), 6): l.get_text().strip('$') for t, l in zip(axis.get_ticklocs(), axis.get_ticklabels())}


def bars(ax, horizontal=False):
    """(edges lo, edges hi, heights) of the bars or of a step outline"""
    r = [p for p in ax.patches if isinstance(p, Rectangle)]
    if r:
        b = [(p.get_y(), p.get_y() + p.get_height(), p.get_width()) if horizontal else
             (p.get_x(), p.get_x() + p.get_width(), p.get_height()) for p in r]
        return np.array(sorted(b))
    for p in ax.patches:
        if isinstance(p, Polygon):
            xy = p.get_xy()
            b = [(xy[i, 0], xy[i + 1, 0], xy[i, 1]) for i in range(len(xy) - 1)
                 if xy[i, 1] == xy[i + 1, 1] and xy[i + 1, 0] > xy[i, 0]]
            return np.array(sorted(b))
    return np.zeros((0, 3))


def check_hist(rec, key, b, x, w, rp):
    """bars b form the density histogram of the points x with weights w, all points included"""
    x, w = np.asarray(x, float), np.asarray(w, float)
    if not rec.expect(len(b) >= 1, key + '/bars', 'no histogram', **rp):
        return
    lo, hi = b[0, 0], b[-1, 1]
    eps = 1e-9 * (1 + np.max(np.abs(x)))
    if not rec.expect(np.min(x) >= lo - eps and np.max(x) <= hi + eps, key + '/range', '{} of the {} points are outside '
                      'of the histogram [{:.4g}, {:.4g}]'.format(int(np.sum((x < lo - eps) | (x > hi + eps))), len(x), lo, hi), **rp):
        return
    # cumulative mass at the right edge of each bin, sandwiched to be safe at ties with edges
    cum = np.cumsum(b[:, 2] * (b[:, 1] - b[:, 0]))
    W = w.sum()
    tol = 1e-6
    up = np.array([w[x <= e + eps].sum() / W for e in b[:, 1]])
    dn = np.array([w[x < e - eps].sum() / W for e in b[:, 1]])
    bad = (cum > up + tol) | (cum < dn - tol)
    rec.expect(not np.any(bad), key + '/counts', 'histogram is not the one of the sample (mass {:.6f}, bin {})'.format(
        cum[-1], int(np.argmax(bad))), **rp)


def curves(ax):
    return [np.asarray(l.get_xydata(), float) for l in ax.lines if len(l.get_xydata()) >= 20]


def has_curve(ax, f, lo, hi, swap=False, atol=1e-6):
    """some displayed curve is the graph of f and spans most of [lo, hi]"""
    for c in curves(ax):
        x, y = (c[:, 1], c[:, 0]) if swap else (c[:, 0], c[:, 1])
        g = np.array([f(t) for t in x])
        ok = np.isfinite(g)
        if ok.sum() >= 20 and np.max(np.abs(g - y)[ok] / (1 + np.abs(g[ok]))) < atol and \
                np.min(x) < lo + .3 * (hi - lo) and np.max(x) > hi - .3 * (hi - lo):
            return True
    return False


def shown(rec, key, f, rp, **kw):
    """call a display on a clean figure manager; True when it succeeded"""
    plt.close('all')
    with contextlib.redirect_stdout(io.StringIO()):
        ok, _ = rec.call(key, f, replay=rp, **kw)
    return ok


def state(obj):
    skip = ('nx', 'rng')
    return catalog.canon({k: v for k, v in vars(obj).items() if k not in skip and not callable(v)})


# ---- finite ----------------------------------------------------------------
def finite_kernels(rec, count, seed):
    r = np.random.RandomState(seed)
    fams = [('K', finite.K_KERNS), ('K_eig_dec', finite.K_KERNS), ('K_thin', finite.K_KERNS), ('L', finite.L_KERNS),
            ('L_eig_dec', finite.L_KERNS), ('L_thin', finite.L_KERNS), ('L_gram_factor', finite.L_KERNS),
            ('L_gram_tall', finite.L_KERNS), ('L_eval_X_data', finite.L_KERNS)] + \
        [(p, finite.PROJ_KERNS) for p in finite.PROJ_PARAMS]
    for c in range(count):
        param, kerns = fams[c % len(fams)]
        n = int(r.randint(2, 9))
        kern = kerns[r.randint(len(kerns))]
        s = int(r.randint(2**31 - 1))
        try:
            factory, info = finite.build(param, kern, n, s)
        except StopIteration:
            continue
        rp = dict(param=param, kern=kern, n=n, seed=s)
        key = 'kernel/' + param
        D = factory()
        for step in range(3):
            u = r.randint(4)
            if u == 0:
                D.sample_exact(random_state=int(r.randint(2**31 - 1)))
            elif u == 1 and not info.get('proj') and 'L' in info:
                D.compute_L()
            elif u == 2:
                D.compute_K()
            for typ in ('correlation', 'likelihood', ''):
                want = info.get({'correlation': 'K', 'likelihood': 'L', '': 'K' if D.kernel_type == 'correlation' else 'L'}[typ])
                if want is None or (typ == 'likelihood' and info.get('proj')) or np.max(np.abs(want)) > 1e6:
                    continue
                before = len(D.list_of_samples)
                if not shown(rec, key, lambda: D.plot_kernel(typ), rp):
                    continue
                h = heatmap()
                M = np.full((n, n), np.nan)
                for (i, j), v in h.items():
                    if 0 <= i < n and 0 <= j < n:
                        M[i, j] = v
                rec.observe((key, kern, n, s, step, typ), nontrivial=n > 1, sample=dict(rp, kernel_type=typ))
                rec.expect(len(h) == n * n and np.max(np.abs(M - want)) < 1e-7 * (1 + np.max(np.abs(want))), key + '/cells',
                           'plot_kernel({!r}) does not show the kernel'.format(typ), **rp)
                ax = plt.gcf().axes[0]
                for axis in (ax.xaxis, ax.yaxis):
                    lab = tick_labels(axis)
                    rec.expect(all(lab.get(i + .5) == str(i) for i in range(n)), key + '/labels',
                               'labels of the items are {}'.format(lab), **rp)
                rec.expect(len(D.list_of_samples) == before, key + '/recorded', 'display recorded a sample', **rp)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'k.png')
            if 'K' in info and shown(rec, key, lambda: D.plot_kernel('correlation', save_path=path), rp):
                rec.expect(os.path.exists(path) and os.path.getsize(path) > 0, key + '/save', 'save_path: no file', **rp)
        rec.expect(str(len(D.list_of_samples)) in str(D), key + '/str', 'str: number of samples', **rp)
        plt.close('all')


# ---- one dimensional processes -----------------------------------------------
def descents(rec, count, seed):
    r = np.random.RandomState(seed)
    pool = {}
    for c in range(count):
        if c % 3 == 0:
            b = int(r.choice([2, 3, 10, 16]))
            o, p, tag = ex.CarriesProcess(b), .5 * (1 - 1. / b), 'carries{}'.format(b)
        elif c % 3 == 1:
            o, p, tag = ex.DescentProcess(), .5, 'descent'
        else:
            x0 = float(r.choice([0., .3, .5, .9]))
            o, p, tag = ex.VirtualDescentProcess(x0), .5 * (1 - x0**2), 'virtual{}'.format(x0)
        key = 'process/' + type(o).__name__
        rp = dict(seed=seed, case=c, tag=tag)
        for step in range(3):
            size = int(r.choice([1, 2, 3, 10, 40, 150]))
            o.sample(size, random_state=int(r.randint(2**31 - 1)))
            X = np.array(sorted(o.list_of_samples[-1]), float)
            before = state(o)
            for vs in (True, False):
                s = int(r.randint(2**31 - 1))
                if not shown(rec, key, lambda: o.plot(vs_bernoullis=vs, random_state=s), rp):
                    continue
                groups = [(g[:, 0], g[:, 1]) for g, _ in scatters() if len(g)]
                hit = [i for i, g in enumerate(groups) if len(g[0]) == len(X) and np.array_equal(np.sort(g[0]), X)
                       and len(np.unique(g[1])) == 1]
                rec.observe((key, tag, size, step, vs, s), nontrivial=len(X) > 1, sample=dict(rp, size=size))
                rec.expect(len(hit) >= 1 or len(X) == 0, key + '/points', 'the last sample {} is not displayed'.format(X[:20]), size=size, **rp)
                rec.expect(len(groups) <= (2 if vs else 1), key + '/groups', '{} sets of points'.format(len(groups)), size=size, **rp)
                if vs and (hit or not len(X)):
                    B = [g for i, g in enumerate(groups) if not hit or i != hit[-1 if len(hit) < 2 else
                         int(np.argmax([groups[h][1][0] for h in hit]))]]
                    got = B[0][0] if B else np.zeros(0)
                    rec.expect(all(float(v).is_integer() and 0 <= v < size for v in got) and len(set(got)) == len(got),
                               key + '/bernoulli', 'Bernoulli positions {}'.format(got[:20]), size=size, **rp)
                    if B and hit:
                        rec.expect(B[0][1][0] != groups[hit[0]][1][0] or len(hit) > 1, key + '/superposed',
                                   'the sample and the Bernoullis are drawn at the same height', size=size, **rp)
                    q = pool.setdefault((tag, p), {0: 0, 1: 0})
                    q[1] += len(got)
                    q[0] += size - len(got)
                rec.expect(catalog.same(state(o), before), key + '/state', 'display changed the object', size=size, **rp)
        rec.expect(str(len(o.list_of_samples)) in str(o), key + '/str', 'str: number of samples', **rp)
        plt.close('all')
    for (tag, p), q in pool.items():
        pv, d = gof(q, {0: 1 - p, 1: p})
        rec.observe(('bernoulli', tag), n=q[0] + q[1])
        rec.expect(pv > 1e-9, 'process/bernoulli', '{}: Bernoullis displayed do not have parameter {}: {}'.format(tag, p, d))


def outline(lam):
    """russian border of a partition as a function of x"""
    lam = [l for l in lam if l > 0]
    xs, ys = [-float(len(lam)) if lam else 0.], [float(len(lam)) if lam else 0.]
    x, y = xs[0], ys[0]
    rows = lam[::-1]
    prev = 0
    for l in rows:                       # l - prev steps along the row (up), then one step down the column
        x, y = x + (l - prev), y + (l - prev)
        xs.append(x), ys.append(y)
        x, y = x + 1, y - 1
        xs.append(x), ys.append(y)
        prev = l
    return np.array(xs), np.array(ys)


def diagram_segments(lam):
    """unit segments of the french diagram which do not lie on the axes, in russian coordinates"""
    seg = set()
    for i, l in enumerate(lam, 1):
        for j in range(1, l + 1):
            seg.add(((j - 1, i), (j, i)))
            seg.add(((j, i - 1), (j, i)))
    return {tuple(sorted(((a - b, a + b)) for a, b in s)) for s in seg}


def units(segs):
    """unit pieces of diagonal segments; None when one of them is not a lattice segment"""
    out = set()
    for s in segs:
        (x0, y0), (x1, y1) = s
        k = int(round(abs(x1 - x0)))
        q = np.round(s)
        if np.max(np.abs(s - q)) > 1e-6 or abs(abs(x1 - x0) - abs(y1 - y0)) > 1e-6:
            return None
        for t in range(k):
            f = [tuple(np.round(s[0] + (s[1] - s[0]) * u / k).astype(int)) for u in (t, t + 1)]
            out.add(tuple(sorted(f)))
    return out


def plancherel(rec, count, seed):
    r = np.random.RandomState(seed)

    def shape(x):
        return abs(x) if abs(x) >= 2 else 2 / np.pi * (x * np.arcsin(x / 2.) + np.sqrt(4 - x * x))
    for c in range(count):
        theta = float(r.choice([.01, .3, 1., 3., 12., 60.]) * np.exp(.3 * r.randn()))
        o = ex.PoissonizedPlancherel(theta)
        rp = dict(theta=theta, seed=seed, case=c)
        for step in range(2):
            o.sample(random_state=int(r.randint(2**31 - 1)))
            lam = [int(v) for v in o.list_of_young_diag[-1]]
            X = np.array([l - i - .5 for i, l in enumerate(lam)])
            before = state(o)
            if shown(rec, 'plancherel/plot', o.plot, rp):
                rec.expect(same_points(points(), np.column_stack([X, 0 * X])), 'plancherel/plot/points',
                           'displayed points {} instead of {}'.format(points()[:6].tolist(), X[:6]), **rp)
                lo, hi = axes()[0].get_xlim()
                rec.expect(all(lo <= v <= hi for v in X), 'plancherel/plot/hidden', 'points are outside of the axis', **rp)
            if shown(rec, 'plancherel/plot', lambda: o.plot(title='abc'), rp):
                rec.expect(axes()[0].get_title() == 'abc', 'plancherel/plot/title', 'title', **rp)
            for norm in (False, True):
                key = 'plancherel/diagram'
                if not shown(rec, key, lambda: o.plot_diagram(normalization=norm), rp):
                    continue
                sc = np.sqrt(theta) if norm else 1.
                rec.expect(same_points(points() * sc, np.column_stack([X, 0 * X])), key + '/points',
                           'displayed points (normalization={})'.format(norm), **rp)
                segs = [np.asarray(s) * sc for a in axes() for q in a.collections if isinstance(q, mc.LineCollection)
                        for s in q.get_segments()]
                got, want = units(segs), diagram_segments(lam)
                rec.expect(got is not None and want <= got and all(abs(a[0]) == a[1] and abs(b[0]) == b[1] for a, b in got - want),
                           key + '/boxes', 'the boxes displayed are not those of the partition {}'.format(lam[:10]), norm=norm, **rp)
                if norm:
                    m = max([len(lam)] + lam) / sc if lam else .1
                    rec.expect(has_curve(axes()[0], shape, -m, m), key + '/limit', 'limit shape is not displayed', **rp)
                rec.observe((key, theta, step, norm), nontrivial=len(lam) > 1, sample=dict(rp, partition=lam[:8], normalization=norm))
            rec.expect(catalog.same(state(o), before), 'plancherel/state', 'display changed the object', **rp)
        rec.expect(str(len(o.list_of_samples)) in str(o), 'plancherel/str', 'str: number of samples', **rp)
        plt.close('all')


# ---- spanning trees ------------------------------------------------------------
def graphs(r):
    kind = r.randint(6)
    n = int(r.randint(2, 9))
    if kind == 0:
        g = nx.complete_graph(n)
    elif kind == 1:
        g = nx.cycle_graph(max(n, 3))
    elif kind == 2:
        g = nx.star_graph(n)
    elif kind == 3:
        g = nx.path_graph(n)
    else:
        g = nx.random_labeled_tree(n, seed=int(r.randint(2**31 - 1)))
        nodes = list(g)
        for _ in range(n):
            a, b = r.choice(len(nodes), 2, replace=False)
            g.add_edge(nodes[a], nodes[b])
    if r.rand() < .5:
        names = [chr(97 + i) for i in range(len(g))] if r.rand() < .5 else [int(v) for v in r.permutation(50)[:len(g)]]
        perm = r.permutation(len(g))
        h = nx.Graph()
        h.add_nodes_from([names[i] for i in perm])
        e = [(names[a], names[b]) if r.rand() < .5 else (names[b], names[a]) for a, b in g.edges()]
        h.add_edges_from([e[i] for i in r.permutation(len(e))])
        g = h
    return g


def ust(rec, count, seed):
    r = np.random.RandomState(seed)

    def read(nodes):
        t = [(q.get_text(), np.array(q.get_position())) for a in axes() for q in a.texts]
        names = {str(v): v for v in nodes}
        pos = {names[s]: p for s, p in t if s in names}
        return pos, [(s, p) for s, p in t if s not in names]

    def drawn(pos):
        """edges as pairs of nodes"""
        out = []
        for a in axes():
            for q in a.collections:
                if isinstance(q, mc.LineCollection):
                    for s in q.get_segments():
                        e = []
                        for p in (s[0], s[-1]):
                            v = min(pos, key=lambda k: np.sum((pos[k] - p)**2))
                            e.append(v if np.sum((pos[v] - p)**2) < 1e-12 else None)
                        out.append(frozenset(e))
        return out

    for c in range(count):
        g = graphs(r)
        U = ex.UST(g)
        edges = list(g.edges())
        rp = dict(nodes=list(g), edges=edges)

        def labels(pos, lab, shown_edges, key):
            want = {}
            for e in shown_edges:
                i = next(i for i, f in enumerate(edges) if frozenset(f) == e)
                u, v = tuple(e)
                want[r'$e_{}$'.format(i)] = (pos[u] + pos[v]) / 2
            ok = sorted(s for s, _ in lab) == sorted(want) and all(np.max(np.abs(want[s] - p)) < 1e-2 for s, p in lab)
            rec.expect(ok, key + '/labels', 'labels of the edges {} instead of {}'.format(sorted(s for s, _ in lab), sorted(want)), **rp)
        plots = ['graph', 'kernel'] if c % 2 else []
        for mode in [('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol')[i] for i in r.permutation(7)[:3]]:
            U.sample(mode, random_state=int(r.randint(2**31 - 1)))
            before = state(U)
            T = U.list_of_samples[-1]
            want = [frozenset(e) for e in T.edges()]
            if shown(rec, 'ust/plot', U.plot, rp):
                pos, lab = read(g)
                rec.expect(set(pos) == set(g), 'ust/plot/nodes', 'nodes displayed {}'.format(list(pos)), mode=mode, **rp)
                if set(pos) == set(g):
                    got = drawn(pos)
                    rec.expect(sorted(map(sorted_str, got)) == sorted(map(sorted_str, want)), 'ust/plot/edges',
                               'edges displayed {} instead of {}'.format([tuple(e) for e in got], list(T.edges())), mode=mode, **rp)
                    labels(pos, lab, want, 'ust/plot')
                rec.expect(len(points()) == len(g), 'ust/plot/nodes', 'number of nodes displayed', mode=mode, **rp)
            rec.expect(catalog.same(state(U), before), 'ust/state', 'display changed the object', **rp)
            rec.expect(sorted(map(sorted_str, map(frozenset, U.list_of_samples[-1].edges()))) == sorted(map(sorted_str, want)),
                       'ust/state', 'display changed the sample', **rp)
            rec.observe(('ust', repr(edges), mode), nontrivial=len(edges) > 1, sample=dict(rp, mode=mode))
        for p in plots or ['kernel', 'graph']:
            if p == 'graph' and shown(rec, 'ust/graph', U.plot_graph, rp):
                pos, lab = read(g)
                if rec.expect(set(pos) == set(g), 'ust/graph/nodes', 'nodes displayed', **rp):
                    want = [frozenset(e) for e in edges]
                    rec.expect(sorted(map(sorted_str, drawn(pos))) == sorted(map(sorted_str, want)), 'ust/graph/edges',
                               'edges displayed {}'.format([tuple(e) for e in drawn(pos)]), **rp)
                    labels(pos, lab, want, 'ust/graph')
            elif p == 'kernel' and shown(rec, 'ust/kernel', U.plot_kernel, rp):
                B = nx.incidence_matrix(g, oriented=True).toarray()
                K = B.T.dot(np.linalg.pinv(B.dot(B.T))).dot(B)
                h = heatmap()
                n = len(edges)
                M = np.array([[h.get((i, j), np.nan) for j in range(n)] for i in range(n)])
                rec.expect(len(h) == n * n and np.max(np.abs(np.abs(M) - np.abs(K))) < 1e-9, 'ust/kernel/cells',
                           'plot_kernel does not show the transfer current matrix', **rp)
                for axis in (axes()[0].xaxis, axes()[0].yaxis):
                    lab = tick_labels(axis)
                    rec.expect(all(lab.get(i + .5) == str(i) for i in range(n)), 'ust/kernel/labels', 'labels {}'.format(lab), **rp)
        for f in (U.plot, U.plot_graph, U.plot_kernel):
            if shown(rec, 'ust/title', lambda: f(title='abc'), rp):
                rec.expect(any(a.get_title() == 'abc' for a in axes()), 'ust/title', 'title is not displayed', **rp)
        rec.expect(str(len(U.list_of_samples)) in str(U), 'ust/str', 'str: number of samples', **rp)
        plt.close('all')


def sorted_str(e):
    return tuple(sorted(map(str, e)))


# ---- beta-ensembles ------------------------------------------------------------
def draw(r, kind, model, beta, N):
    """keyword arguments of a valid draw"""
    if kind == 'hermite':
        return {} if model == 'full' else dict(loc=float(3 * r.randn()), scale=float(.3 + 2 * r.rand()))
    if kind == 'laguerre':
        if beta > 0 and (model == 'full' or r.rand() < .5):
            return dict(size_M=N + int(r.randint(0, 2 * N + 2)))
        return dict(shape=float(.5 + 4 * r.rand()) * max(1, N * beta / 8), scale=float(.3 + 2 * r.rand()))
    if kind == 'jacobi':
        if beta > 0 and (model == 'full' or r.rand() < .5):
            return dict(size_M1=N + int(r.randint(0, 2 * N + 2)), size_M2=N + int(r.randint(0, 2 * N + 2)))
        return dict(a=float(.5 + 4 * r.rand()), b=float(.5 + 4 * r.rand()))
    if kind == 'circular' and model == 'full':
        return dict(haar_mode=str(r.choice(['Hermite', 'QR'])) if beta != 4 else 'Hermite')
    return {}


def density(kind, model, beta, N, kw):
    """reference density of normalised points (and its main support)"""
    if kind == 'ginibre':
        return lambda t: 2 * t if t < 1 else 0., 0., 1.
    if kind == 'circular':
        return lambda t: 1 / (2 * np.pi), -np.pi, np.pi
    if beta == 0:
        law = {'hermite': lambda: st.norm(0, np.sqrt(2)), 'laguerre': lambda: st.gamma(kw['shape'], scale=2.),
               'jacobi': lambda: st.beta(kw['a'], kw['b'])}[kind]()
        return law.pdf, law.ppf(.05), law.ppf(.95)
    sizes = None
    if kind == 'laguerre':
        sizes = (kw['size_M'] if 'size_M' in kw else 2. / beta * kw['shape'] + N - 1,)
    elif kind == 'jacobi':
        sizes = (kw['size_M1'], kw['size_M2']) if 'size_M1' in kw else (2. / beta * kw['a'] + N - 1, 2. / beta * kw['b'] + N - 1)
    f, lo, hi = limit_cdf(kind, beta, N, sizes)

    def g(t):
        if abs(t - lo) < 1e-4 * (hi - lo) or abs(t - hi) < 1e-4 * (hi - lo):
            return np.nan                    # vertical tangents: not decided there
        return float(np.ravel(f(np.array([t]) if kind == 'hermite' else t))[0]) if lo < t < hi else 0.
    return g, lo, hi


def normalised(kind, model, beta, N, kw, x):
    if kind == 'hermite':
        if model == 'banded':
            x = (x - kw['loc']) / (kw['scale'] * np.sqrt(.5))
        return x / np.sqrt(beta * N) if beta else x
    if kind == 'laguerre':
        if 'scale' in kw:
            x = x / (.5 * kw['scale'])
        return x / (beta * (kw['size_M'] if 'size_M' in kw else 2. / beta * kw['shape'] + N - 1)) if beta else x
    if kind == 'ginibre':
        return x / np.sqrt(N)
    return x


def beta_ensembles(rec, kind, count, seed):
    r = np.random.RandomState(seed)
    for c in range(count):
        beta = 2 if kind == 'ginibre' else int(r.choice([0, 1, 2, 4])) if r.rand() < .8 else float(.5 + 3 * r.rand())
        if kind == 'circular' and beta not in (0, 1, 2, 4):
            beta = int(r.randint(1, 6))
        ens = GinibreEnsemble() if kind == 'ginibre' else P20.CLS[kind](beta)
        key = 'beta/' + kind
        for step in range(3):
            N = int(r.choice([1, 2, 5, 12, 40]))
            model = 'full' if kind == 'ginibre' or (beta in (1, 2, 4) and r.rand() < .5) else 'banded'
            if kind == 'jacobi' and beta == 0:
                model = 'banded'
            kw = draw(r, kind, model, beta, N)
            s = int(r.randint(2**31 - 1))
            rp = dict(kind=kind, beta=beta, N=N, model=model, kw=kw, seed=s)
            ok, _ = rec.call(key, ens.sample_full_model if model == 'full' else ens.sample_banded_model, size_N=N,
                             random_state=s, replay=rp, **kw)
            if not ok:
                break
            x = np.array(ens.list_of_samples[-1], copy=True)
            before = state(ens)
            f, lo, hi = density(kind, model, beta, N, kw)
            for norm in (True, False):
                y = normalised(kind, model, beta, N, kw, x) if norm else x
                if kind == 'laguerre' and norm:
                    hi = min(hi, np.max(y) + .3)        # the curve is drawn up to the largest point
                rp['normalization'] = norm
                if shown(rec, key + '/plot', lambda: ens.plot(normalization=norm), rp):
                    ax = axes()[0]
                    rec.expect(same_points(points(ax), np.column_stack([y.real, y.imag])), key + '/plot/points',
                               'the points displayed are not those of the last sample', **rp)
                    if kind in ('circular', 'ginibre'):
                        circ = [p for p in ax.patches + ax.artists if isinstance(p, plt.Circle)]
                        rec.expect((len(circ) == 1 and circ[0].get_radius() == 1 and tuple(circ[0].get_center()) == (0, 0))
                                   if norm else len(circ) == 0, key + '/plot/circle', 'unit circle', **rp)
                        if kind == 'circular' or not norm:
                            (a, b), (u, v) = ax.get_xlim(), ax.get_ylim()
                            rec.expect(np.all((y.real >= a) & (y.real <= b) & (y.imag >= u) & (y.imag <= v)),
                                       key + '/plot/hidden', 'points are outside of the axes', **rp)
                    elif norm:
                        rec.expect(has_curve(ax, f, lo, hi), key + '/plot/curve', 'reference density is not displayed', **rp)
                    else:
                        rec.expect(not curves(ax), key + '/plot/curve', 'density displayed without normalisation', **rp)
                if shown(rec, key + '/hist', lambda: ens.hist(normalization=norm), rp):
                    ax = axes()[0]
                    h = np.angle(y) if kind == 'circular' else np.abs(y) if kind == 'ginibre' else y
                    check_hist(rec, key + '/hist', bars(ax), h, np.ones(len(h)), rp)
                    if norm and kind == 'circular':
                        lev = [l.get_ydata()[0] for l in ax.lines if np.ptp(l.get_ydata()) == 0]
                        rec.expect(any(abs(v - 1 / (2 * np.pi)) < 1e-9 for v in lev), key + '/hist/level', 'uniform level {}'.format(lev), **rp)
                    elif norm and kind == 'ginibre':
                        rec.expect(any(np.all(np.abs(l.get_xydata()[:2] - [[0, 0], [1, 2]]) < 1e-9) if len(l.get_xydata()) < 20 else
                                       np.max(np.abs(l.get_xydata()[:, 1] - 2 * l.get_xydata()[:, 0])[l.get_xydata()[:, 0] < 1]) < 1e-9
                                       for l in ax.lines), key + '/hist/curve', 'density 2r of the radii is not displayed', **rp)
                    elif norm:
                        rec.expect(has_curve(ax, f, lo, hi), key + '/hist/curve', 'reference density is not displayed', **rp)
                rec.expect(catalog.same(state(ens), before), key + '/state', 'display changed the object', **rp)
                rec.observe((key, beta, N, model, repr(kw), norm), nontrivial=N > 1, sample=dict(rp))
            rec.expect(str(len(ens.list_of_samples)) in str(ens), key + '/str', 'str: number of samples', **rp)
            plt.close('all')


def potentials(rec, count, seed):
    r = np.random.RandomState(seed)
    V = [[.5, 0., 0.], [.25, 0., 0., 0., 0.], [.25, 0., -.5, 0., 0.], [.25, 0., .3, 0., 0.], [1 / 6.] + [0.] * 6,
         [1 / 20, -4 / 15, 1 / 5, 8 / 5, 0], [.25, 0., -1.5, 0., 0.], [.1, .3, 0., 0., 0.]]
    for c in range(count):
        v = V[c % len(V)]
        beta = int(r.choice([1, 2, 4]))
        B = pp.BetaEnsemblePolynomialPotential(beta, np.poly1d(v))
        X = B.sample_mcmc(int(r.choice([3, 8])), 10, nb_mala_steps=5, return_chain_of_eig_vals=True, random_state=int(r.randint(2**31 - 1)))
        for S in (X, X[:, -1], list(X[:, 0])):
            S0 = np.array(S, copy=True)
            rp = dict(V=v, beta=beta, seed=seed, case=c, shape=np.shape(S))
            if not shown(rec, 'potential/hist', lambda: B.hist(S), rp):
                continue
            check_hist(rec, 'potential/hist', bars(axes()[0]), np.ravel(S0), np.ones(S0.size), rp)
            if B.equilibrium_density is not None and B.support is not None:
                f = lambda t: float(B.equilibrium_density(np.array([t]))[0])
                rec.expect(has_curve(axes()[0], f, *B.support), 'potential/hist/curve', 'equilibrium density is not displayed', **rp)
            rec.expect(np.array_equal(S, S0), 'potential/hist/mutation', 'hist modified the sample', **rp)
            rec.observe(('potential', tuple(v), beta, np.shape(S)), sample=rp)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'h.png')
            if shown(rec, 'potential/hist', lambda: B.hist(X, save_file_name=path), rp):
                rec.expect(os.path.exists(path) and os.path.getsize(path) > 0, 'potential/save', 'no file', **rp)
        ok, _ = rec.call('potential/str', str, B, replay=rp)
        plt.close('all')


def jacobi(rec, count, seed):
    """points, quadrature weights (Bardenet-Hardy, Ermakov-Zolotukhin) and reference densities"""
    r = np.random.RandomState(seed)
    for c in range(count):
        d = 1 + c % 2
        N = int(r.choice([2, 3, 5, 8, 12]))
        P = np.array([[round(float(v), 3) for v in r.uniform(-.5, .5, 2)] for _ in range(d)])
        J = mo.MultivariateJacobiOPE(N, P)
        X = J.sample(random_state=int(r.randint(2**31 - 1)))
        X0 = X.copy()
        F = mj.features(N, P, X0)
        bh = 1 / np.sum(F**2, axis=1)
        S = np.linalg.svd(F, compute_uv=False)
        W = {'': np.ones(N), 'BH': bh}
        if S[-1] > 1e-6 * S[0]:
            W['EZ'] = np.linalg.solve(F.T, np.eye(N)[0]) * np.sign(F[0, 0])
        for w, ref in W.items():
            key = 'jacobi/d{}/{}'.format(d, w or 'plain')
            rp = dict(N=N, params=P, weighted=w, seed=seed, case=c)
            if not shown(rec, key, lambda: J.plot(X, weighted=w), rp):
                continue
            ax = axes()[0]
            ref2 = X0 if d == 2 else np.column_stack([X0[:, 0], np.zeros(N)])
            rec.observe((key, N, repr(P)), nontrivial=N > 1, sample=rp)
            if rec.expect(same_points(points(ax), ref2), key + '/points', 'displayed points are not the sample', **rp):
                # areas of the markers are proportional to the absolute weights
                off = np.concatenate([o for o, _ in scatters(ax)])
                siz = np.concatenate([s for _, s in scatters(ax)])
                idx = [int(np.argmin(np.sum((ref2 - o)**2, axis=1))) for o in off]
                q = np.abs(ref)[idx] / np.max(np.abs(ref))
                if len(set(idx)) == N and (d == 2 or w != 'EZ'):
                    rec.expect(np.all(np.isfinite(siz)) and np.max(np.abs(siz / np.max(siz) - q)) < 1e-5, key + '/sizes',
                               'markers are not proportional to the weights', **rp)
                if w == 'EZ' and d == 2 and len(set(idx)) == N:
                    # the two signs are displayed as two sets of points
                    g = np.concatenate([np.full(len(o), k) for k, (o, _) in enumerate(scatters(ax))])
                    sg = np.sign(ref)[idx]
                    rec.expect(all(len(set(g[sg == v])) <= 1 for v in (-1, 1)) and (len(set(sg)) == 1 or
                               set(g[sg == 1]) != set(g[sg == -1])), key + '/signs', 'signs of the weights', **rp)
            for j in range(d):
                a = ax if d == 1 else [t for t in axes()[1:]][j]
                if not (w == 'EZ' and d == 1 and np.any(ref < 0)):
                    check_hist(rec, key + '/hist', bars(a, horizontal=j == 1), X0[:, j], np.abs(ref), rp)
                al, be = P[j]
                law = st.beta(1 + be, 1 + al, loc=-1, scale=2)
                rec.expect(has_curve(a, law.pdf, -.9, .9, swap=j == 1), key + '/reference', 'reference density of coordinate '
                           '{} is not displayed'.format(j), **rp)
                if not w:
                    rec.expect(has_curve(a, st.beta(.5, .5, loc=-1, scale=2).pdf, -.9, .9, swap=j == 1), key + '/arcsine',
                               'arcsine density is not displayed', **rp)
            rec.expect(np.array_equal(X, X0), key + '/mutation', 'plot modified the sample', **rp)
        plt.close('all')


def jobs(tier, seed):
    f = 12 if tier == 'thorough' else 1
    s = 1000 * seed
    J = []
    for k in range(3):
        J.append(Job('finite#%d' % k, finite_kernels, count=26 * f, seed=s + k, timeout=880))
    for k in range(2):
        J.append(Job('descents#%d' % k, descents, count=36 * f, seed=s + 20 + k, timeout=880))
        J.append(Job('plancherel#%d' % k, plancherel, count=24 * f, seed=s + 30 + k, timeout=880))
        J.append(Job('ust#%d' % k, ust, count=25 * f, seed=s + 40 + k, timeout=880))
        J.append(Job('jacobi#%d' % k, jacobi, count=16 * f, seed=s + 60 + k, timeout=880))
        for kind in ('hermite', 'laguerre', 'jacobi', 'circular', 'ginibre'):
            J.append(Job('beta %s#%d' % (kind, k), beta_ensembles, kind=kind, count=12 * f, seed=s + 50 + k, timeout=880))
    J.append(Job('potentials', potentials, count=16 * f, seed=s + 70, timeout=880))
    return J
