"""P16: every UST sampler draws uniform spanning trees; the kernel is the transfer current matrix."""
import collections
import itertools
import math

import networkx as nx
import numpy as np

from mon import lawcheck, ref, stats
from mon.core import Job, cpu_budget
from dppy.exotic_dpps import UST
from dppy.exotic_dpps_core import ust_sampler_aldous_broder, ust_sampler_wilson

RULE = ('each case = (graph, sampling mode); every returned object is monitored for being a spanning tree '
        'of the graph; on graphs small enough to enumerate all spanning trees independently, the empirical '
        'law is compared with the uniform one (chi2, 1e-9), on larger ones the edge frequencies are compared '
        'with effective resistances; kernels are compared with Inc^T Lap^+ Inc and with inclusion '
        'probabilities counted over all spanning trees; non-trivial = more than one spanning tree')
ASSUMPTIONS = ['graphs are simple, connected, with at least two nodes; node labels are arbitrary hashable objects',
               'statistical tests at level 1e-9 with fixed seeds']
MODES = ('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol')


def graph_zoo(seed):
    r = np.random.RandomState(seed)

    def mk(n, edges, perm=False):
        g = nx.Graph()
        g.add_nodes_from(r.permutation(n).tolist() if perm else range(n))
        g.add_edges_from(edges)
        return g
    out = [('edge', mk(2, [(0, 1)])),
           ('path4', mk(4, [(0, 1), (1, 2), (2, 3)])),
           ('triangle', mk(3, [(0, 1), (1, 2), (0, 2)])),
           ('cycle5', mk(5, [(i, (i + 1) % 5) for i in range(5)])),
           ('K4', nx.complete_graph(4)),
           ('K4-perm', mk(4, [(3, 1), (2, 0), (0, 1), (1, 2), (3, 0), (2, 3)], perm=True)),
           ('diamond', mk(4, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)])),
           ('K23', nx.complete_bipartite_graph(2, 3)),
           ('wheel5', nx.wheel_graph(5)),
           ('lollipop', mk(6, [(0, 1), (1, 2), (0, 2), (2, 3), (3, 4), (4, 5), (5, 3)], perm=True)),
           ('star+1', mk(5, [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2)])),
           ('grid23', nx.convert_node_labels_to_integers(nx.grid_2d_graph(2, 3))),
           # other labels
           ('grid23-tuples', nx.grid_2d_graph(2, 3)),
           ('K4-letters', nx.relabel_nodes(nx.complete_graph(4), dict(enumerate('dbca')))),
           ('diamond-from1', mk(0, [(1, 2), (2, 3), (3, 4), (4, 1), (1, 3)])),
           ('wheel5-shifted', nx.relabel_nodes(nx.wheel_graph(5), {0: 4, 1: 0, 2: 1, 3: 2, 4: 3})),
           ('house-mixed', nx.relabel_nodes(nx.house_graph(), {0: 'x', 1: 7, 2: (1, 2), 3: -1, 4: 2.5}))]
    for t in range(2):
        while True:
            g = nx.gnp_random_graph(6, .5, seed=int(r.randint(2**31 - 1)))
            if nx.is_connected(g) and g.number_of_edges() <= 10:
                break
        out.append(('gnp%d' % t, g))
    return out


def enumerate_trees(g):
    """edge -> index map and the spanning trees as sets of indices"""
    pos = {v: i for i, v in enumerate(g.nodes())}
    edges = [frozenset(e) for e in g.edges()]
    return {e: i for i, e in enumerate(edges)}, ref.spanning_trees(len(pos), [tuple(sorted(pos[v] for v in e)) for e in edges])


def check_tree(rec, g, t, key, rp):
    n = g.number_of_nodes()
    edges = list(t.edges())
    ok = (set(t.nodes()) == set(g.nodes()) and len(edges) == n - 1 and all(g.has_edge(*e) for e in edges) and
          t.number_of_nodes() == n and nx.is_connected(t))
    return rec.expect(ok, key + '/not_a_tree', 'returned graph is not a spanning tree: edges {}'.format(edges), **rp)


def uniform(rec, gname, seed, draws, modes):
    g = dict(graph_zoo(seed))[gname]
    edges = list(g.edges())
    idx, trees = enumerate_trees(g)
    law = {t: 1.0 / len(trees) for t in trees}
    for mode in modes:
        key = 'uniform/' + mode
        rp = dict(graph=gname, edges=edges, mode=mode, seed=seed)
        ust = UST(g)
        rng = np.random.RandomState(seed + 17)
        counts = collections.Counter()
        nd = draws if len(trees) > 1 else 20
        for i in range(nd):
            ok, _ = rec.call(key, ust.sample, mode, random_state=rng, replay=rp, cpu=60)
            if not ok:
                break
            t = ust.list_of_samples[-1]
            if not check_tree(rec, g, t, key, rp):
                ok = False
                break
            counts[frozenset(idx[frozenset(e)] for e in t.edges())] += 1
        if not ok:
            continue
        rec.expect(len(ust.list_of_samples) == nd, key + '/bookkeeping', 'list_of_samples has {} of {}'.format(
            len(ust.list_of_samples), nd), **rp)
        pv, desc = stats.gof(counts, law)
        rec.observe((gname, mode), n=nd, nontrivial=len(trees) > 1, sample=dict(rp, trees=len(trees), stat=desc))
        rec.count('trees_observed', nd)
        rec.expect(pv > stats.ALPHA, key, 'spanning trees are not uniform on {}: {} (p={:.2g})'.format(
            gname, desc, pv), **rp)


def exact(rec, gname, seed, limit):
    """chain-rule samplers: exact law over every entropy branch"""
    g = dict(graph_zoo(seed))[gname]
    edges = list(g.edges())
    idx, trees = enumerate_trees(g)
    law = {t: 1.0 / len(trees) for t in trees}
    if len(trees) * math.factorial(g.number_of_nodes() - 1) > limit:
        rec.observe((gname, 'skipped: too many branches'), nontrivial=False)
        return
    for mode in MODES[2:]:
        for reuse in (False, True):
            shared = UST(g)

            def run(rng):
                ust = shared if reuse else UST(g)
                ust.sample(mode, random_state=rng)
                return frozenset(idx[frozenset(e)] for e in ust.list_of_samples[-1].edges())
            lawcheck.check_law(rec, 'exact/' + mode, run, law, max_leaves=8000, stat_n=3000, stat_seed=seed,
                               replay=dict(graph=gname, edges=edges, mode=mode, reuse=reuse, seed=seed), cpu=60)


def mixed(rec, seed, draws):
    """modes interleaved on one object, kernel computed in between"""
    for gname, g in graph_zoo(seed)[4:10] + graph_zoo(seed)[12:17]:
        idx, trees = enumerate_trees(g)
        law = {t: 1.0 / len(trees) for t in trees}
        ust = UST(g)
        rng = np.random.RandomState(seed)
        counts = collections.defaultdict(collections.Counter)
        key = 'mixed'
        rp = dict(graph=gname, seed=seed)
        for i in range(draws):
            mode = MODES[rng.randint(len(MODES))]
            if i % 97 == 50:
                ust.compute_kernel()
            ok, _ = rec.call(key, ust.sample, mode, random_state=rng, replay=rp)
            if not ok:
                return
            t = ust.list_of_samples[-1]
            if not check_tree(rec, g, t, key, rp):
                return
            counts['all'][frozenset(idx[frozenset(e)] for e in t.edges())] += 1
        pv, desc = stats.gof(counts['all'], law)
        rec.observe((gname, 'mixed'), n=draws, sample=dict(rp, stat=desc))
        rec.expect(pv > stats.ALPHA, key, desc, **rp)


def kernel(rec, seed):
    for gname, g in graph_zoo(seed) + [('gnp20', nx.gnp_random_graph(20, .35, seed=seed)),
                                       ('K7', nx.complete_graph(7))]:
        if not nx.is_connected(g):
            continue
        n, m = g.number_of_nodes(), g.number_of_edges()
        rp = dict(graph=gname, seed=seed)
        for via in ('direct', 'after_sample'):
            ust = UST(g)
            if via == 'after_sample':
                for mode in MODES:
                    rec.call('kernel', ust.sample, mode, random_state=0, replay=rp)
            ok, _ = rec.call('kernel', ust.compute_kernel, replay=rp)
            if not ok:
                continue
            K = ust.kernel
            Inc = np.zeros((n, m))
            for j, (a, b) in enumerate(g.edges()):
                # orientation used by networkx: from the node listed first
                pos = {v: i for i, v in enumerate(g.nodes())}
                Inc[pos[a], j], Inc[pos[b], j] = -1, 1
            R = Inc.T.dot(np.linalg.pinv(Inc.dot(Inc.T))).dot(Inc)
            rec.observe((gname, 'kernel', via), nontrivial=m > n - 1, sample=dict(rp, edges=m))
            if not rec.expect(getattr(K, 'shape', None) == (m, m), 'kernel/shape', 'shape', **rp):
                continue
            rec.expect(np.max(np.abs(K.dot(K) - K)) < 1e-9 and np.max(np.abs(K - K.T)) < 1e-9, 'kernel/projection',
                       'not an orthogonal projection', **rp)
            # orientation of edges is a matter of signs: compare |K| and all principal minors up to 3
            rec.expect(np.max(np.abs(np.abs(K) - np.abs(R))) < 1e-9, 'kernel/values',
                       'differs from the transfer current matrix by {:.3g}'.format(
                           np.max(np.abs(np.abs(K) - np.abs(R)))), **rp)
            for k in (2, 3):
                combs = list(itertools.combinations(range(m), k))
                rr = np.random.RandomState(seed)
                for c in [combs[i] for i in rr.permutation(len(combs))[:60]]:
                    a, b = np.linalg.det(K[np.ix_(c, c)]), np.linalg.det(R[np.ix_(c, c)])
                    if not rec.expect(abs(a - b) < 1e-9, 'kernel/minor', 'minor {} is {} instead of {}'.format(
                            c, a, b), **rp):
                        break
            if n <= 6 and m <= 10:
                _, trees = enumerate_trees(g)
                for j in range(m):
                    p = np.mean([j in t for t in trees])
                    rec.expect(abs(K[j, j] - p) < 1e-9, 'kernel/inclusion', 'edge {} has inclusion probability '
                               '{} but K_jj = {}'.format(j, p, K[j, j]), **rp)


def large(rec, seed, mode, n, draws):
    """larger graphs: tree-ness of all samples, edge frequencies = effective resistances"""
    r = np.random.RandomState(seed)
    while True:
        g = nx.gnp_random_graph(n, min(1., 4.0 / n), seed=int(r.randint(2**31 - 1)))
        if nx.is_connected(g):
            break
    edges = [tuple(sorted(e)) for e in g.edges()]
    idx = {frozenset(e): i for i, e in enumerate(edges)}
    Lp = np.linalg.pinv(nx.laplacian_matrix(g, nodelist=range(n)).toarray().astype(float))
    res = np.array([Lp[a, a] + Lp[b, b] - 2 * Lp[a, b] for a, b in edges])
    ust = UST(g)
    c = np.zeros(len(edges))
    key = 'large/' + mode
    rp = dict(n=n, edges=edges, mode=mode, seed=seed)
    for _ in range(draws):
        ok, _v = rec.call(key, ust.sample, mode, random_state=r, replay=rp)
        if not ok or not check_tree(rec, g, ust.list_of_samples[-1], key, rp):
            return
        for e in ust.list_of_samples[-1].edges():
            c[idx[frozenset(e)]] += 1
    ps = [stats.binom_test(c[i], draws, min(1., max(0., res[i]))) if 1e-9 < res[i] < 1 - 1e-9 else
          float(round(res[i]) * draws == c[i]) for i in range(len(edges))]
    rec.observe((key, n), n=draws, sample=dict(n=n, mode=mode, edges=len(edges), min_p=min(ps)))
    rec.expect(min(ps) > stats.ALPHA, key, 'edge frequency differs from its effective resistance (p={:.2g})'.format(
        min(ps)), **rp)


def huge(rec, seed, reps):
    """hundreds of nodes: only tree-ness, and presence of bridges"""
    r = np.random.RandomState(seed)
    perm = r.permutation(300).tolist()
    rnd = nx.path_graph(300)
    rnd.add_edges_from([tuple(int(x) for x in r.permutation(300)[:2]) for _ in range(200)])
    zoo = [('star300', nx.star_graph(300), 2), ('cycle270', nx.cycle_graph(270), 2), ('path290', nx.path_graph(290), 1), ('random300', rnd, 2),
           ('random300 relabelled', nx.relabel_nodes(rnd, dict(enumerate(perm))), 2), ('K130', nx.complete_graph(130), 1), ('wheel400', nx.wheel_graph(400), 1),
           ('star700', nx.star_graph(700), 1), ('ladder150', nx.circular_ladder_graph(150), 1), ('letters300', nx.relabel_nodes(rnd, {i: 'v%d' % i for i in range(300)}), 1)]
    for gname, g, k in zoo:
        bridges = [frozenset(e) for e in nx.bridges(g)]
        ust = UST(g)
        modes = list(MODES[:2]) + (['GS', 'Schur'] if g.number_of_edges() < 600 else [])
        for mode in modes:
            for t in range(k * reps):
                key = 'huge/' + mode
                rp = dict(graph=gname, mode=mode, seed=seed, draw=t)
                s = int(r.randint(2**31 - 1))
                kw = {}
                if mode in MODES[:2] and t % 2 == 0 and set(g.nodes()) == set(range(len(g))):
                    kw['root'] = int(r.choice([0, 3, len(g) - 1]))
                ok, _ = rec.call(key, ust.sample, mode, random_state=s, replay=rp, cpu=120, **kw)
                if not ok or not check_tree(rec, g, ust.list_of_samples[-1], key, rp):
                    return
                e = set(frozenset(x) for x in ust.list_of_samples[-1].edges())
                rec.expect(e.issuperset(bridges), key + '/bridges', 'a bridge is missing', **rp)
                rec.observe((key, gname, t), nontrivial=len(bridges) < g.number_of_edges())
                rec.count('trees_observed')


def hubs(seed):
    """graphs with vertices of large degree"""
    fan = nx.compose(nx.path_graph(8), nx.star_graph(7))        # 0 is both an end of the path and the hub
    flower = nx.Graph()
    for i in range(9):                                          # 9 triangles sharing vertex 0
        flower.add_edges_from([(0, 2 * i + 1), (2 * i + 1, 2 * i + 2), (2 * i + 2, 0)])
    bouquet = nx.Graph()
    for i in range(6):                                          # cycles of different lengths sharing vertex 0
        nx.add_cycle(bouquet, [0] + list(range(100 * (i + 1), 100 * (i + 1) + i + 2)))
    bouquet = nx.convert_node_labels_to_integers(bouquet, ordering='default')
    return [('fan', fan), ('wheel9', nx.wheel_graph(9)), ('wheel21', nx.wheel_graph(21)), ('flower', flower),
            ('bouquet', bouquet), ('K8', nx.complete_graph(8)), ('K2,40', nx.complete_bipartite_graph(2, 40)),
            ('K3,12', nx.complete_bipartite_graph(3, 12)), ('K2,100', nx.complete_bipartite_graph(2, 100)),
            ('hypercube3', nx.convert_node_labels_to_integers(nx.hypercube_graph(3))),
            ('barbell', nx.barbell_graph(6, 2)), ('gnp9', nx.gnp_random_graph(9, .7, seed=seed))]


def marginals(rec, gname, seed, draws, mode):
    """inclusion of every edge, every pair of edges at a vertex (transfer current theorem), and degrees"""
    g = dict(hubs(seed))[gname]
    n, edges = g.number_of_nodes(), [tuple(sorted(e)) for e in g.edges()]
    m = len(edges)
    idx = {frozenset(e): i for i, e in enumerate(edges)}
    B = np.zeros((n, m))
    for j, (a, b) in enumerate(edges):
        B[a, j], B[b, j] = 1, -1
    K = B.T @ np.linalg.pinv(B @ B.T) @ B
    ust = UST(g)
    r = np.random.RandomState(seed)
    C = np.zeros((m, m))
    hub = max(g.nodes(), key=g.degree)
    # neighbours of degree 2 of the hub and their two edges
    two = [[idx[frozenset((v, w))] for w in g.neighbors(v)] for v in sorted(g.neighbors(hub)) if g.degree(v) == 2]
    both = []
    key = 'marginals/' + mode
    rp = dict(graph=gname, mode=mode, seed=seed, draws=draws)
    for i in range(draws):
        ok, _ = rec.call(key, ust.sample, mode, random_state=r, replay=rp)
        if not ok or not check_tree(rec, g, ust.list_of_samples[-1], key, rp):
            return
        e = [idx[frozenset(x)] for x in ust.list_of_samples[-1].edges()]
        C[np.ix_(e, e)] += 1
        es = set(e)
        both.append([a in es and b in es for a, b in two])
        if i % 500 == 499:
            ust.flush_samples()
    ps = {}
    p1 = np.clip(np.diag(K), 0, 1)
    for i in range(m):
        ps[(edges[i],)] = stats.binom_test(C[i, i], draws, p1[i]) if 1e-9 < p1[i] < 1 - 1e-9 else float(
            abs(C[i, i] - draws * round(p1[i])) < .5)
    if m <= 60:
        for i, j in itertools.combinations(range(m), 2):
            p = p1[i] * p1[j] - K[i, j]**2
            if 1e-9 < p < 1 - 1e-9:
                ps[(edges[i], edges[j])] = stats.binom_test(C[i, j], draws, p)
            elif p < 1e-9:
                ps[(edges[i], edges[j])] = float(C[i, j] == 0)
    else:
        # halves of the edges at a vertex of large degree
        v = hub
        inc = [idx[frozenset((v, w))] for w in sorted(g.neighbors(v))]
        h = len(inc) // 2
        mean = p1[inc[:h]].sum()
        sd = math.sqrt(max(1e-12, (p1[inc[:h]]).sum() - np.sum(K[np.ix_(inc[:h], inc[:h])]**2)) / draws)
        z = (np.diag(C)[inc[:h]].sum() / draws - mean) / sd
        ps[('half of the neighbours', v)] = float(math.erfc(abs(z) / math.sqrt(2)))
    if len(two) > 3:
        both = np.array(both, float)
        for frac in (.25, .5, .75):
            h = int(len(two) * frac)
            pr = [p1[a] * p1[b] - K[a, b]**2 for a, b in two[:h]]
            ps[('vertices of degree 2 with both edges, first', h)] = stats.ztest(both[:, :h].sum(1), sum(pr))[0]
    w = min(ps, key=ps.get)
    rec.observe((key, gname), n=draws, sample=dict(graph=gname, mode=mode, tests=len(ps), min_p=ps[w]))
    rec.count('trees_observed', draws)
    rec.expect(ps[w] > stats.ALPHA / 10, key, '{}: inclusion of {} differs from the transfer current theorem (p={:.2g}, '
               'n={})'.format(gname, w, ps[w], draws), **rp)


def roots(rec, seed, draws):
    """the law does not depend on the root"""
    for gname, g in [x for x in graph_zoo(seed) if sorted(map(str, x[1].nodes())) == [str(i) for i in range(len(x[1]))]]:
        idx, trees = enumerate_trees(g)
        law = {t: 1.0 / len(trees) for t in trees}
        nb = [list(g.neighbors(v)) for v in range(len(g))]
        for fn in (ust_sampler_wilson, ust_sampler_aldous_broder):
            key = 'roots/' + fn.__name__
            for root in range(len(g)):
                r = np.random.RandomState(seed + root)
                counts = collections.Counter()
                rp = dict(graph=gname, root=root, seed=seed)
                for _ in range(draws if len(trees) > 1 else 5):
                    ok, t = rec.call(key, fn, nb, root=root, random_state=r, replay=rp)
                    if not ok or not check_tree(rec, g, t, key, rp):
                        return
                    counts[frozenset(idx[frozenset(e)] for e in t.edges())] += 1
                pv, desc = stats.gof(counts, law)
                rec.observe((key, gname, root), n=sum(counts.values()), nontrivial=len(trees) > 1)
                rec.expect(pv > stats.ALPHA, key, '{} root={}: {}'.format(gname, root, desc), **rp)
        ust = UST(g)
        for mode in MODES[:2]:
            for root in range(len(g)):
                ok, _ = rec.call('roots/UST', ust.sample, mode, root=root, random_state=seed, replay=dict(graph=gname, mode=mode, root=root))
                if not ok or not check_tree(rec, g, ust.list_of_samples[-1], 'roots/UST', dict(graph=gname, mode=mode)):
                    return


def jobs(tier, seed):
    th = tier == 'thorough'
    draws = 6000 if not th else 30000
    out = []
    for nm, _ in graph_zoo(seed):
        out.append(Job('exact#' + nm, exact, timeout=800, gname=nm, seed=seed, limit=700 if not th else 6000))
        for part in (MODES[:1], MODES[1:2], MODES[2:5], MODES[5:]):
            out.append(Job('uniform#%s/%s' % (nm, part[0]), uniform, timeout=800, gname=nm, seed=seed,
                           draws=draws if part[0] in MODES[:2] else draws // 3, modes=part))
    out.insert(0, Job('mixed', mixed, timeout=800, seed=seed, draws=draws // 3))
    out.append(Job('kernel', kernel, timeout=800, seed=seed))
    for mode in MODES:
        for n in (10, 15) if not th else (10, 15, 25, 40):
            out.append(Job('large#%s/%d' % (mode, n), large, timeout=800, seed=seed + n, mode=mode, n=n,
                           draws=400 if not th else 5000))
    for gname, g in hubs(seed):
        for mode in MODES:
            chain = mode in MODES[:2]
            nd = (12000 if chain else 3000) if g.number_of_edges() <= 60 else (3000 if chain else 300)
            out.append(Job('marginals#%s/%s' % (gname, mode), marginals, timeout=800, gname=gname, seed=seed,
                           draws=nd * (1 if not th else 8), mode=mode))
    for b in range(4 if not th else 12):
        out.append(Job('huge#%d' % b, huge, timeout=800, seed=seed * 10 + b, reps=1 if not th else 5))
    out.append(Job('roots', roots, timeout=800, seed=seed, draws=500 if not th else 5000))
    return out
