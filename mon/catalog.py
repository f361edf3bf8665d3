"""Catalogue of the public calls of the library, used by the history, isolation and reproducibility monitors.

A Case has
  inputs(r)            -> dict of fresh user-level inputs (arrays, graphs, dicts, tuples)
  new(inp)             -> object under test (or None)
  call(obj, inp, rs)   -> returned value of one public sampling call with random_state=rs
  recorded(obj)        -> list of recorded samples, or None when the class keeps no history
"""
import copy

import numpy as np
import networkx as nx

from mon import fakecvxopt, ref

fakecvxopt.install()

from dppy.finite_dpps import FiniteDPP
from dppy import (beta_ensembles as be, beta_ensemble_polynomial_potential as pp,
                  beta_ensemble_polynomial_potential_core as pc, bless as bl, exact_sampling as es,
                  exotic_dpps as ex, exotic_dpps_core as ec, mcmc_sampling as mc,
                  multivariate_jacobi_ope as jo, random_matrices as rm)
from dppy.utils import example_eval_L_linear, example_eval_L_polynomial


class Case:
    def __init__(self, name, inputs, new, call, history=True, stateful=False, random=True, fn=False, slow=False,
                 entry='last', none_result=False):
        self.name, self.inputs, self.new, self.call = name, inputs, new, call
        self.history = history and not fn
        self.stateful = stateful      # later calls legitimately use the source differently (cached dictionaries)
        self.random = random          # consumes the random source
        self.fn = fn                  # free function
        self.slow = slow
        self.entry = entry            # 'last': history entry == returned value, 'chain': entry[-1] == returned value
        self.none_result = none_result  # nothing is returned, the entry is the sample

    def recorded(self, obj):
        return obj.list_of_samples if self.history else None

    def result(self, obj, inp, rs):
        """the observable outcome of one call: returned value and recorded entry"""
        v = self.call(obj, inp, rs)
        if not self.history:
            return v
        return (v, obj.list_of_samples[-1])


def rbf(X, Y=None):
    X = np.atleast_2d(X)
    Y = X if Y is None else np.atleast_2d(Y)
    return np.exp(-.5 * ((X[:, None, :] - Y[None])**2).sum(-1))


def spectra(r, N, lo, hi):
    return lo + (hi - lo) * r.rand(N), ref.rand_orth(r, N)


def _K(r, N):
    v, U = spectra(r, N, .05, .95)
    return v, U, ref.sym(v, U)


def _proj(r, N, d):
    U = ref.rand_orth(r, N, d)
    P = U.dot(U.T)
    return (P + P.T) / 2, U


def _graph(r, n):
    while True:
        g = nx.gnp_random_graph(n, .5, seed=int(r.randint(2**31 - 1)))
        if nx.is_connected(g) and g.number_of_edges() >= n:
            return g


def fdpp(desc, N=7):
    """(inputs, new) of a finite DPP description"""
    def inputs(r):
        d = dict(desc=desc)
        if desc == 'K':
            d['K'] = _K(r, N)[2]
        elif desc == 'K_eig':
            v, U, _ = _K(r, N)
            d['K_eig_dec'] = (v, U)
        elif desc == 'L':
            v, U = spectra(r, N, .1, 3.)
            d['L'] = ref.sym(v, U)
        elif desc == 'L_eig':
            d['L_eig_dec'] = spectra(r, N, .1, 3.)
        elif desc == 'gram':
            d['L_gram_factor'] = r.randn(N - 3, N)
        elif desc == 'gram_tall':
            d['L_gram_factor'] = r.randn(N + 2, N)
        elif desc == 'projK':
            d['K'] = _proj(r, N, 3)[0]
        elif desc == 'projK_eig':
            d['K_eig_dec'] = (np.ones(3), _proj(r, N, 3)[1])
        elif desc == 'projK_eig01':
            U = ref.rand_orth(r, N)
            v = np.zeros(N)
            v[r.permutation(N)[:3]] = 1.
            d['K_eig_dec'] = (v, U)
        elif desc == 'projL':
            d['L'] = _proj(r, N, 3)[0]
        elif desc == 'projL_eig':
            d['L_eig_dec'] = (np.ones(3), _proj(r, N, 3)[1])
        elif desc == 'A_zono':
            d['A_zono'] = r.randn(3, N)
        elif desc == 'eval':
            d['L_eval_X_data'] = (rbf, r.rand(N, 2) * 3)
        elif desc == 'Kcplx':
            v = .05 + .9 * r.rand(N)
            Q, _ = np.linalg.qr(r.randn(N, N) + 1j * r.randn(N, N))
            K = (Q * v).dot(Q.conj().T)
            d['K'] = K
        return d

    def new(inp):
        par = {k: v for k, v in inp.items() if k not in ('desc', 's_init', 'params')}
        kt = 'correlation' if inp['desc'].startswith(('K', 'projK', 'A_')) else 'likelihood'
        return FiniteDPP(kt, projection=inp['desc'].startswith(('proj', 'A_')), **par)
    return inputs, new


def cases(thorough=False):
    out = []
    # ---------------- finite DPPs, exact
    for desc in ('K', 'K_eig', 'L', 'L_eig', 'gram', 'gram_tall', 'projK', 'projK_eig', 'projK_eig01', 'projL',
                 'projL_eig', 'A_zono', 'eval'):
        modes = ('GS', 'GS_bis', 'KuTa12')
        if desc == 'projK':
            modes = ('GS', 'Chol', 'Schur')
        elif desc == 'projL':
            modes = ('GS', 'GS_bis', 'KuTa12')
        elif desc in ('K', 'L', 'eval'):
            modes += ('Chol',) if desc == 'K' else ()
        for mode in modes:
            inputs, new = fdpp(desc)
            out.append(Case('exact/%s/%s' % (desc, mode), inputs, new,
                            lambda o, i, rs, mode=mode: o.sample_exact(mode=mode, random_state=rs)))
        kmodes = ('GS', 'GS_bis', 'KuTa12') if desc not in ('projK', 'projL') else ('GS', 'Chol', 'Schur')
        for mode in kmodes:
            if desc == 'projL' and mode == 'Schur':
                pass
            inputs, new = fdpp(desc)
            out.append(Case('kdpp/%s/%s' % (desc, mode), inputs, new,
                            lambda o, i, rs, mode=mode: o.sample_exact_k_dpp(size=3, mode=mode, random_state=rs)))
    # ---------------- finite DPPs, intermediate sampling
    for mode in ('vfx', 'alpha'):

        def inputs(r, mode=mode):
            d = fdpp('eval', 12)[0](r)
            d['params'] = dict(rls_oversample_bless=6., verbose=False)
            d['params'].update(dict(rls_oversample_dppvfx=6.) if mode == 'vfx' else dict(rls_oversample_alphadpp=6.))
            return d
        new = fdpp('eval')[1]
        out.append(Case('exact/eval/%s' % mode, inputs, new,
                        lambda o, i, rs, mode=mode: o.sample_exact(mode=mode, random_state=rs, **i['params']),
                        stateful=True))
        out.append(Case('kdpp/eval/%s' % mode, inputs, new,
                        lambda o, i, rs, mode=mode: o.sample_exact_k_dpp(size=2, mode=mode, random_state=rs,
                                                                         **i['params']), stateful=True))
    # ---------------- finite DPPs, MCMC
    for desc in ('L', 'L_eig', 'gram', 'K', 'eval'):
        for mode in ('AED', 'AD', 'E'):
            for s0 in (False, True):
                def inputs(r, desc=desc, s0=s0, mode=mode):
                    d = fdpp(desc)[0](r)
                    if s0:
                        d['s_init'] = [int(x) for x in r.permutation(7)[:3]]
                    return d

                def call(o, i, rs, mode=mode):
                    kw = {'s_init': i['s_init']} if 's_init' in i else {}
                    if mode == 'E':
                        kw['size'] = 3
                    return o.sample_mcmc(mode, random_state=rs, nb_iter=15, **kw)
                out.append(Case('mcmc/%s/%s%s' % (desc, mode, '/s_init' if s0 else ''), inputs, fdpp(desc)[1], call,
                                entry='chain'))
    inputs, new = fdpp('projK')
    out.append(Case('mcmc/projK/E', inputs, new,
                    lambda o, i, rs: o.sample_mcmc('E', size=3, random_state=rs, nb_iter=15), entry='chain'))
    for s0 in (False, True):
        def inputs(r, s0=s0):
            d = fdpp('L')[0](r)
            if s0:
                d['s_init'] = [int(x) for x in r.permutation(7)[:3]]
            return d
        out.append(Case('mcmc_k/L' + ('/s_init' if s0 else ''), inputs, fdpp('L')[1],
                        lambda o, i, rs: o.sample_mcmc_k_dpp(3, random_state=rs, nb_iter=15,
                                                             **({'s_init': i['s_init']} if 's_init' in i else {})),
                        entry='chain'))

    def inputs(r):
        d = fdpp('A_zono', 5)[0](r)
        d['params'] = dict(lin_obj=r.randn(5), x_0=d['A_zono'].dot(r.rand(5)))
        return d
    out.append(Case('mcmc/zonotope/given', inputs, fdpp('A_zono')[1],
                    lambda o, i, rs: o.sample_mcmc('zonotope', random_state=rs, nb_iter=4, **i['params']),
                    entry='chain', slow=True))
    out.append(Case('mcmc/zonotope', fdpp('A_zono', 5)[0], fdpp('A_zono')[1],
                    lambda o, i, rs: o.sample_mcmc('zonotope', random_state=rs, nb_iter=4), entry='chain', slow=True))
    # ---------------- exotic
    for size in (30,):
        out.append(Case('carries', lambda r: dict(base=int(r.randint(2, 12))), lambda i: ex.CarriesProcess(i['base']),
                        lambda o, i, rs: o.sample(size=40, random_state=rs), none_result=True))
        out.append(Case('descent', lambda r: {}, lambda i: ex.DescentProcess(),
                        lambda o, i, rs: o.sample(size=30, random_state=rs), none_result=True))
        out.append(Case('virtual_descent', lambda r: dict(x=float(r.rand())), lambda i: ex.VirtualDescentProcess(i['x']),
                        lambda o, i, rs: o.sample(size=30, random_state=rs), none_result=True))
    out.append(Case('plancherel', lambda r: dict(theta=float(5 + 10 * r.rand())),
                    lambda i: ex.PoissonizedPlancherel(i['theta']), lambda o, i, rs: o.sample(random_state=rs),
                    none_result=True))
    for mode in ('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol'):
        out.append(Case('ust/' + mode, lambda r: dict(graph=_graph(r, 7)), lambda i: ex.UST(i['graph']),
                        lambda o, i, rs, mode=mode: o.sample(mode=mode, random_state=rs), none_result=True))
    # ---------------- beta ensembles
    for beta in (0, 1, 2, 4, 3.7):
        def add(kind, cls, model, kw, beta=beta):
            out.append(Case('beta/%s/%s/%s/%s' % (kind, model, beta, kw.get('haar_mode', ','.join(sorted(kw)))), lambda r: {},
                            lambda i: cls(beta),
                            lambda o, i, rs: getattr(o, 'sample_%s_model' % model)(random_state=rs, **kw)))
        full = beta in (1, 2, 4)
        add('hermite', be.HermiteEnsemble, 'banded', dict(size_N=6))
        if beta:
            add('laguerre', be.LaguerreEnsemble, 'banded', dict(size_N=6, size_M=9))
            add('jacobi', be.JacobiEnsemble, 'banded', dict(size_N=6, size_M1=9, size_M2=8))
        add('laguerre', be.LaguerreEnsemble, 'banded', dict(size_N=6, shape=1.5, scale=.7))
        add('jacobi', be.JacobiEnsemble, 'banded', dict(size_N=6, a=1.5, b=.7))
        if isinstance(beta, int):
            add('circular', be.CircularEnsemble, 'banded', dict(size_N=6))
        if full or beta == 0:
            add('hermite', be.HermiteEnsemble, 'full', dict(size_N=6))
        if full:
            add('laguerre', be.LaguerreEnsemble, 'full', dict(size_N=6, size_M=8))
            add('jacobi', be.JacobiEnsemble, 'full', dict(size_N=6, size_M1=8, size_M2=9))
        if full or beta == 0:
            if beta != 4:
                add('circular', be.CircularEnsemble, 'full', dict(size_N=6, haar_mode='QR'))
            add('circular', be.CircularEnsemble, 'full', dict(size_N=6, haar_mode='Hermite'))
        if beta == 2:
            add('ginibre', be.GinibreEnsemble, 'full', dict(size_N=6))
    # ---------------- polynomial potentials
    for nm, V, kw in (('x2', [.5, 0, 0], dict(sample_exact_cond=True)),
                      ('quartic', [.25, 0, .5, .3, 0], dict(sample_exact_cond=True)),
                      ('quartic_mala', [.25, .2, .5, .3, 0], dict(nb_mala_steps=5)),
                      ('quartic_const', [.25, 0, .5, .3, 1.3], dict(sample_exact_cond=True)),
                      ('sextic', [1 / 6, 0, 0, 0, 0, 0, 0], dict(nb_mala_steps=5)),
                      ('lammax', [.25, 0, 0, 0, 0], dict(sample_exact_cond=True, return_chain_of_lambda_max=True)),
                      ('eigchain', [.25, 0, 0, 0, 0], dict(sample_exact_cond=True, return_chain_of_eig_vals=True))):
        out.append(Case('polypot/' + nm, lambda r, V=V: dict(V=np.array(V) if nm != 'sextic' else list(V)),
                        lambda i: pp.BetaEnsemblePolynomialPotential(2., i['V']),
                        lambda o, i, rs, kw=kw: o.sample_mcmc(N=4, nb_gibbs_passes=3, random_state=rs, **kw),
                        history=False))
    # ---------------- Jacobi OPE
    for d, tri in ((1, True), (1, False), (2, True), (3, True)):
        out.append(Case('ope/d%d/%s' % (d, tri), lambda r, d=d: dict(p=.5 - r.rand(d, 2)),
                        lambda i: jo.MultivariateJacobiOPE(5, i['p']),
                        lambda o, i, rs, tri=tri: o.sample(random_state=rs, tridiag_1D=tri), history=False))
    out.append(Case('ope/proposal', lambda r: dict(p=.5 - r.rand(2, 2)), lambda i: jo.MultivariateJacobiOPE(5, i['p']),
                    lambda o, i, rs: o.sample_chain_rule_proposal(random_state=rs), history=False))
    # ---------------- free functions
    N = 7

    def f(name, inputs, call, random=True):
        out.append(Case('fn/' + name, inputs, lambda i: None, lambda o, i, rs: call(i, rs), fn=True, random=random))
    pk = lambda r: dict(K=_proj(r, N, 3)[0])
    pv = lambda r: dict(V=_proj(r, N, 3)[1])
    for m in ('GS', 'Chol', 'Schur'):
        f('proj_dpp_sampler_kernel/' + m, pk, lambda i, rs, m=m: es.proj_dpp_sampler_kernel(i['K'], m, random_state=rs))
        f('proj_dpp_sampler_kernel/size/' + m, pk,
          lambda i, rs, m=m: es.proj_dpp_sampler_kernel(i['K'], m, size=3, random_state=rs))
    for m in ('GS', 'GS_bis', 'KuTa12'):
        f('proj_dpp_sampler_eig/' + m, pv, lambda i, rs, m=m: es.proj_dpp_sampler_eig(i['V'], m, random_state=rs))
        f('proj_dpp_sampler_eig/size/' + m, pv,
          lambda i, rs, m=m: es.proj_dpp_sampler_eig(i['V'], m, size=2, random_state=rs))
    f('dpp_sampler_generic_kernel', lambda r: dict(K=_K(r, N)[2]),
      lambda i, rs: es.dpp_sampler_generic_kernel(i['K'], random_state=rs))
    f('dpp_sampler_generic_kernel/cplx', fdpp('Kcplx')[0],
      lambda i, rs: es.dpp_sampler_generic_kernel(i['K'], random_state=rs))
    f('dpp_sampler_generic_kernel/nonsym', lambda r: dict(K=_nonsym(r, N)),
      lambda i, rs: es.dpp_sampler_generic_kernel(i['K'], random_state=rs))
    f('dpp_eig_vecs_selector', lambda r: dict(zip(('v', 'U'), spectra(r, N, .05, .95))),
      lambda i, rs: es.dpp_eig_vecs_selector(i['v'], i['U'], random_state=rs))
    f('k_dpp_eig_vecs_selector', lambda r: dict(zip(('v', 'U'), spectra(r, N, .05, 3))),
      lambda i, rs: es.k_dpp_eig_vecs_selector(i['v'], i['U'], 3, random_state=rs))
    f('k_dpp_eig_vecs_selector/E', lambda r: _with_E(dict(zip(('v', 'U'), spectra(r, N, .05, 3)))),
      lambda i, rs: es.k_dpp_eig_vecs_selector(i['v'], i['U'], 3, E_poly=i['E'], random_state=rs))
    sL = lambda r: dict(L=ref.sym(*spectra(r, N, .1, 3.)), s=[int(x) for x in r.permutation(N)[:3]])
    f('add_exchange_delete_sampler', sL, lambda i, rs: mc.add_exchange_delete_sampler(i['L'], i['s'], 12, random_state=rs))
    f('add_delete_sampler', sL, lambda i, rs: mc.add_delete_sampler(i['L'], i['s'], 12, random_state=rs))
    f('basis_exchange_sampler', sL, lambda i, rs: mc.basis_exchange_sampler(i['L'], i['s'], 12, random_state=rs))
    f('initialize_AED_sampler', sL, lambda i, rs: mc.initialize_AED_sampler(i['L'], random_state=rs))
    f('initialize_AD_and_E_sampler', sL, lambda i, rs: mc.initialize_AD_and_E_sampler(i['L'], 2, random_state=rs))
    for m in ('AED', 'AD', 'E'):
        f('dpp_sampler_mcmc/' + m, sL, lambda i, rs, m=m: mc.dpp_sampler_mcmc(i['L'], m, s_init=i['s'], nb_iter=12,
                                                                              random_state=rs))
    f('uniform_permutation', lambda r: {}, lambda i, rs: ec.uniform_permutation(9, random_state=rs))
    nb = lambda r: dict(nb=[list(g) for g in (lambda G: [G.neighbors(v) for v in range(7)])(_graph(r, 7))])
    f('ust_sampler_wilson', nb, lambda i, rs: ec.ust_sampler_wilson(i['nb'], random_state=rs))
    f('ust_sampler_wilson/root', nb, lambda i, rs: ec.ust_sampler_wilson(i['nb'], root=2, random_state=rs))
    f('ust_sampler_aldous_broder', nb, lambda i, rs: ec.ust_sampler_aldous_broder(i['nb'], random_state=rs))
    f('hermite_sampler_full', lambda r: {}, lambda i, rs: rm.hermite_sampler_full(5, 2, random_state=rs))
    f('laguerre_sampler_full', lambda r: {}, lambda i, rs: rm.laguerre_sampler_full(7, 5, 4, random_state=rs))
    f('jacobi_sampler_full', lambda r: {}, lambda i, rs: rm.jacobi_sampler_full(7, 8, 5, 1, random_state=rs))
    f('circular_sampler_full', lambda r: {}, lambda i, rs: rm.circular_sampler_full(5, 4, 'Hermite', random_state=rs))
    f('ginibre_sampler_full', lambda r: {}, lambda i, rs: rm.ginibre_sampler_full(5, random_state=rs))
    f('mu_ref_normal_sampler_tridiag', lambda r: {},
      lambda i, rs: rm.mu_ref_normal_sampler_tridiag(.3, 1.2, 2.5, 5, random_state=rs))
    f('mu_ref_gamma_sampler_tridiag', lambda r: {},
      lambda i, rs: rm.mu_ref_gamma_sampler_tridiag(.3, 1.2, 2.5, 5, random_state=rs))
    f('mu_ref_beta_sampler_tridiag', lambda r: {},
      lambda i, rs: rm.mu_ref_beta_sampler_tridiag(.3, 1.2, 2.5, 5, random_state=rs))
    f('mu_ref_unif_unit_circle_sampler_quindiag', lambda r: {},
      lambda i, rs: rm.mu_ref_unif_unit_circle_sampler_quindiag(3, 5, random_state=rs))
    P4 = lambda r: dict(P=np.poly1d([.5 + r.rand(), 0, r.rand(), r.randn(), 0]))
    P2 = lambda r: dict(P=np.poly1d([.5 + r.rand(), r.randn(), 0]))
    f('sampler_exact_convex_quartic', P4, lambda i, rs: pc.sampler_exact_convex_quartic(i['P'], random_state=rs))
    f('sampler_exact_convex_quartic/shape', P2,
      lambda i, rs: pc.sampler_exact_convex_quartic(i['P'], shape=2.3, random_state=rs))
    f('sampler_exact_convex_quartic/shape<1', P2,
      lambda i, rs: pc.sampler_exact_convex_quartic(i['P'], shape=.7, random_state=rs))
    f('sampler_exact_convex_quartic/gamma', lambda r: dict(P=np.poly1d([.5 + r.rand(), 0])),
      lambda i, rs: pc.sampler_exact_convex_quartic(i['P'], shape=.7, random_state=rs))
    f('sampler_mala', P4, lambda i, rs: pc.sampler_mala(.3, i['P'], sigma=.2, nb_steps=5, random_state=rs))
    X = lambda r: dict(X=r.rand(14, 2) * 3)
    f('bless', X, lambda i, rs: _dico(bl.bless(i['X'], rbf, lam_final=1., rls_oversample_param=4., random_state=rs,
                                               verbose=False)))
    f('bless_size', X, lambda i, rs: _dico(bl.bless_size(i['X'], rbf, 3, 5., random_state=rs, verbose=False)))
    return out


def big_cases():
    """the same calls far above the sizes of the examples"""
    out = []
    N = 160
    for desc, modes, kmodes in (('K', ('GS', 'Chol'), ()), ('K_eig', ('GS_bis',), ('GS',)), ('L', ('KuTa12',), ('GS',)), ('gram', ('GS',), ('GS',)),
                                ('projK', ('Schur', 'GS'), ('Chol',)), ('projK_eig', ('GS',), ()), ('eval', ('GS',), ('GS_bis',))):
        inputs, new = fdpp(desc, N)
        for mode in modes:
            out.append(Case('big/exact/%s/%s' % (desc, mode), inputs, new, lambda o, i, rs, mode=mode: o.sample_exact(mode=mode, random_state=rs)))
        for mode in kmodes:
            out.append(Case('big/kdpp/%s/%s' % (desc, mode), inputs, new,
                            lambda o, i, rs, mode=mode: o.sample_exact_k_dpp(size=3, mode=mode, random_state=rs)))
    for mode in ('AED', 'AD', 'E'):
        for init in (True, False):
            def inputs(r, init=init):
                d = fdpp('L', N)[0](r)
                if init:
                    d['s_init'] = [int(x) for x in r.permutation(8)[:5]]
                return d
            out.append(Case('big/mcmc/L/%s%s' % (mode, '/s_init' if init else ''), inputs, fdpp('L')[1],
                            lambda o, i, rs, mode=mode: o.sample_mcmc(mode, random_state=rs, nb_iter=300, **dict(
                                {'s_init': i['s_init']} if 's_init' in i else {}, **({'size': 5} if mode == 'E' else {}))), entry='chain'))
    out.append(Case('big/carries', lambda r: dict(base=int(r.randint(2, 400))), lambda i: ex.CarriesProcess(i['base']),
                    lambda o, i, rs: o.sample(size=5000, random_state=rs), none_result=True))
    out.append(Case('big/descent', lambda r: {}, lambda i: ex.DescentProcess(), lambda o, i, rs: o.sample(size=5000, random_state=rs), none_result=True))
    out.append(Case('big/virtual_descent', lambda r: dict(x=float(r.rand())), lambda i: ex.VirtualDescentProcess(i['x']),
                    lambda o, i, rs: o.sample(size=5000, random_state=rs), none_result=True))
    out.append(Case('big/plancherel', lambda r: dict(theta=float(1000 + 100 * r.rand())), lambda i: ex.PoissonizedPlancherel(i['theta']),
                    lambda o, i, rs: o.sample(random_state=rs), none_result=True))
    for mode in ('Wilson', 'Aldous-Broder', 'GS', 'Schur'):
        def graph(r):
            g = nx.random_tree(300, seed=int(r.randint(10**6))) if hasattr(nx, 'random_tree') else nx.path_graph(300)
            g.add_edges_from([tuple(int(x) for x in r.permutation(300)[:2]) for _ in range(150)])
            return dict(graph=g)
        out.append(Case('big/ust/' + mode, graph, lambda i: ex.UST(i['graph']),
                        lambda o, i, rs, mode=mode: o.sample(mode=mode, random_state=rs), none_result=True))
    n = 150
    for kind, cls, model, kw in (('hermite', be.HermiteEnsemble, 'banded', {}), ('hermite', be.HermiteEnsemble, 'full', {}),
                                 ('laguerre', be.LaguerreEnsemble, 'banded', dict(size_M=400)), ('laguerre', be.LaguerreEnsemble, 'full', dict(size_M=n)),
                                 ('jacobi', be.JacobiEnsemble, 'banded', dict(a=70.5, b=.3)), ('jacobi', be.JacobiEnsemble, 'full', dict(size_M1=n, size_M2=2 * n)),
                                 ('circular', be.CircularEnsemble, 'banded', {}), ('circular', be.CircularEnsemble, 'full', dict(haar_mode='QR')),
                                 ('circular', be.CircularEnsemble, 'full', dict(haar_mode='Hermite')), ('ginibre', be.GinibreEnsemble, 'full', {})):
        out.append(Case('big/beta/%s/%s/%s' % (kind, model, kw.get('haar_mode', '')), lambda r: {}, lambda i, cls=cls: cls(2),
                        lambda o, i, rs, model=model, kw=kw: getattr(o, 'sample_%s_model' % model)(random_state=rs, size_N=n, **kw)))
    for tri, N_, d in ((True, 200, 1), (False, 25, 1), (True, 30, 2)):
        out.append(Case('big/ope/d%d/%s' % (d, tri), lambda r, d=d: dict(p=.5 - r.rand(d, 2)), lambda i, N_=N_: jo.MultivariateJacobiOPE(N_, i['p']),
                        lambda o, i, rs, tri=tri: o.sample(random_state=rs, tridiag_1D=tri), history=False))
    out.append(Case('big/polypot', lambda r: dict(V=np.array([.25, 0, .5, .3, 0])), lambda i: pp.BetaEnsemblePolynomialPotential(2., i['V']),
                    lambda o, i, rs: o.sample_mcmc(N=60, nb_gibbs_passes=2, sample_exact_cond=True, random_state=rs), history=False))

    def f(name, inputs, call):
        out.append(Case('big/fn/' + name, inputs, lambda i: None, lambda o, i, rs: call(i, rs), fn=True))
    for m in (600, 3000):
        f('uniform_permutation/%d' % m, lambda r: {}, lambda i, rs, m=m: ec.uniform_permutation(m, random_state=rs))
    f('bless', lambda r: dict(X=r.rand(300, 2) * 5), lambda i, rs: _dico(bl.bless(i['X'], rbf, lam_final=.5, rls_oversample_param=3., random_state=rs,
                                                                                  verbose=False)))
    f('proj_dpp_sampler_kernel/Chol', lambda r: dict(K=_proj(r, N, 60)[0]), lambda i, rs: es.proj_dpp_sampler_kernel(i['K'], 'Chol', random_state=rs))
    f('proj_dpp_sampler_eig/GS', lambda r: dict(V=_proj(r, N, 60)[1]), lambda i, rs: es.proj_dpp_sampler_eig(i['V'], 'GS', random_state=rs))
    return out


def _dico(D):
    if not hasattr(D, '_asdict'):
        return tuple(_dico(x) if hasattr(x, '_asdict') else x for x in D)
    return {k: np.asarray(v) for k, v in D._asdict().items()}


def _nonsym(r, N):
    """kernel of a non symmetric DPP: P0 matrix K = I - (I+L)^-1 with L = A A^T + skew part"""
    A, B = r.randn(N, N) * .6, r.randn(N, N) * .4
    L = A.dot(A.T) + B - B.T
    return np.eye(N) - np.linalg.inv(np.eye(N) + L)


def _with_E(d):
    d['E'] = es.elementary_symmetric_polynomials(d['v'], 3)
    return d


# ---------------------------------------------------------------- canonical values
def canon(v):
    """nested tuples of hashable / float-array content of a value"""
    if isinstance(v, nx.Graph):
        return ('graph', tuple(sorted(map(repr, v.nodes()))),
                tuple(sorted(tuple(sorted(map(repr, e))) for e in v.edges())))
    if isinstance(v, np.poly1d):
        return ('poly', canon(v.coef))
    if isinstance(v, np.ndarray):
        return ('array', v.shape, v.dtype.kind, v.copy())
    if isinstance(v, dict):
        return ('dict', tuple((k, canon(v[k])) for k in sorted(v, key=repr)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__ if not hasattr(v, '_fields') else 'tuple', tuple(canon(x) for x in v))
    if isinstance(v, (bool, np.bool_)):
        return ('bool', bool(v))
    if isinstance(v, (int, np.integer)):
        return ('int', int(v))
    if isinstance(v, (float, np.floating, complex, np.complexfloating)):
        return ('num', complex(v))
    if v is None or isinstance(v, str):
        return ('atom', v)
    if callable(v):
        return ('fun', getattr(v, '__qualname__', '?'))
    return ('repr', repr(v))


def same(a, b, tol=1e-8):
    """equality of canonical values, floating point entries up to tol"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, complex) and isinstance(b, complex):
        return a == b or abs(a - b) <= tol * (1 + abs(a)) or (a != a and b != b)
    return type(a) is type(b) and a == b


def fingerprint(v):
    """exact content, type, layout and flags of a user input"""
    if isinstance(v, np.ndarray):
        return ('nd', v.shape, str(v.dtype), v.strides, v.flags.writeable, v.tobytes())
    if isinstance(v, np.poly1d):
        return ('poly', fingerprint(v.coeffs), v.variable)
    if isinstance(v, nx.Graph):
        return ('graph', tuple((repr(n), repr(sorted(d.items()))) for n, d in v.nodes(data=True)),
                tuple((repr(a), repr(b), repr(sorted(d.items()))) for a, b, d in v.edges(data=True)),
                repr(v.graph))
    if isinstance(v, dict):
        return ('dict', tuple((repr(k), fingerprint(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(fingerprint(x) for x in v))
    if isinstance(v, np.random.RandomState):
        return ('rs',)
    if callable(v):
        return ('fun', id(v))
    return ('atom', type(v).__name__, repr(v))


def map_arrays(v, f):
    """rebuild a user input applying f to each ndarray inside"""
    if isinstance(v, np.ndarray):
        return f(v)
    if isinstance(v, dict):
        return {k: map_arrays(x, f) for k, x in v.items()}
    if isinstance(v, tuple) and not hasattr(v, '_fields'):
        return tuple(map_arrays(x, f) for x in v)
    if isinstance(v, list):
        return [map_arrays(x, f) for x in v]
    return v


def clone(v):
    return copy.deepcopy(v)


# ---------------------------------------------------------------- calls which draw nothing
def pure():
    """(name, inputs(r), call(inp) -> value): evaluations, conversions and displays taking user arrays"""
    import matplotlib.pyplot as plt
    from dppy import exotic_dpps_core as ec, utils as ut, intermediate_sampling as it
    out = []

    def p(name, inputs, call):
        out.append((name, inputs, call))
    X = lambda r: dict(x=2.5 * r.randn(9))
    p('semi_circle_law', X, lambda i: rm.semi_circle_law(i['x']))
    p('marcenko_pastur_law', lambda r: dict(x=.1 + 3 * r.rand(9)), lambda i: rm.marcenko_pastur_law(i['x'], 30, 20))
    p('wachter_law', lambda r: dict(x=.02 + .9 * r.rand(9)), lambda i: rm.wachter_law(i['x'], 30, 40, 20))
    p('limit_shape', X, lambda i: ec.limit_shape(i['x']))
    p('xy_young_ru', lambda r: dict(d=np.sort(r.randint(1, 9, 5))[::-1].copy()), lambda i: ec.xy_young_ru(i['d']))
    p('RSK', lambda r: dict(s=r.permutation(9)), lambda i: ec.RSK(i['s']))
    p('RSK/list', lambda r: dict(s=[int(x) for x in r.permutation(9)]), lambda i: ec.RSK(i['s']))
    for nm, mk in (('x2m', lambda: pc.equilibrium_x2m(2, 1.3)), ('x2m3', lambda: pc.equilibrium_x2m(3, 1.)),
                   ('x2_x4', lambda: pc.equilibrium_x2_x4(.5, 1.)), ('x2_x4/2cut', lambda: pc.equilibrium_x2_x4(-3., 1.)),
                   ('ClItKr10', pc.equilibrium_ClItKr10), ('cdf_x2m', lambda: pc.cdf_equilibrium_x2m(2, 1.3)),
                   ('cdf_x2m3', lambda: pc.cdf_equilibrium_x2m(3, 1.)), ('cdf_x2_x4', lambda: pc.cdf_equilibrium_x2_x4(.5, 1.)),
                   ('cdf_x2_x4/2cut', lambda: pc.cdf_equilibrium_x2_x4(-3., 1.))):
        p('equilibrium/' + nm, X, lambda i, mk=mk: mk()[0](i['x']))
    tw = pc.TracyWidom()
    p('TracyWidom.cdf', lambda r: dict(x=2 * r.randn(4)), lambda i: tw.cdf(i['x']))
    for nm in ('a', 'b'):
        fn = getattr(pc, 'polynomial_in_negative_log_conditional_%s_coef' % nm)
        p('conditional_' + nm, lambda r: dict(a=r.randn(9), b=r.rand(9), V=np.poly1d([.3, 0, .4, .2, .5, .1, 0])),
          lambda i, fn=fn: fn(3, i['a'], i['b'], i['V']))
    PP = lambda: pp.BetaEnsemblePolynomialPotential(2, [.25, 0, 0, 0, 0])

    def hist(o, x):
        o.hist(x)
        plt.close('all')
    p('polypot.init/poly1d', lambda r: dict(V=np.poly1d([.5, .2, .7])),
      lambda i: pp.BetaEnsemblePolynomialPotential(2, i['V']).V)
    p('polypot.init/array', lambda r: dict(V=np.array([.5, .2, .7])), lambda i: pp.BetaEnsemblePolynomialPotential(2, i['V']).V)
    p('polypot.init/list', lambda r: dict(V=[.5, .2, .7]), lambda i: pp.BetaEnsemblePolynomialPotential(2, i['V']).V)

    def sampled():
        o = PP()
        o.sample_mcmc(N=4, nb_gibbs_passes=2, sample_exact_cond=True, random_state=0)
        return o
    p('polypot.hist', lambda r: dict(x=r.randn(20)), lambda i: hist(sampled(), i['x']))
    p('polypot.rescale', lambda r: dict(x=r.randn(20)), lambda i: sampled().rescale_largest_eig_val(i['x']))
    ope = lambda i: jo.MultivariateJacobiOPE(5, i['p'])
    par = lambda d: (lambda r: dict(p=.5 - r.rand(d, 2), X=2 * r.rand(4, d) - 1, Y=2 * r.rand(3, d) - 1))
    for d in (1, 2, 3):
        p('ope.init/%d' % d, par(d), lambda i: ope(i).rejection_bounds)
        p('ope.K/%d' % d, par(d), lambda i: ope(i).K(i['X'], i['Y']))
        p('ope.K/X/%d' % d, par(d), lambda i: ope(i).K(i['X'], None, True))
        p('ope.eval_w/%d' % d, par(d), lambda i: ope(i).eval_w(i['X']))
        p('ope.eval/%d' % d, par(d), lambda i: ope(i).eval_multiD_polynomials(i['X']))

        def oplot(i, w):
            ope(i).plot(i['X'], w)
            plt.close('all')
        for w in ('', 'BH'):
            if d < 3:
                p('ope.plot/%d/%s' % (d, w), par(d), lambda i, w=w: oplot(i, w))
    p('ope.plot/1/GQ', par(1), lambda i: oplot(i, 'GQ'))
    p('compute_rejection_bounds', lambda r: dict(p=.5 - r.rand(2, 2), o=jo.compute_ordering(6, 2)),
      lambda i: (jo.compute_rejection_bounds(i['p'], i['o'], log_scale=True),
                 jo.compute_rejection_bounds(i['p'], i['o'], log_scale=False)))
    p('compute_norms', lambda r: dict(p=.5 - r.rand(2, 2), m=4),
      lambda i: jo.compute_norms_1D_polynomials(i['p'], i['m']))
    M = lambda r: dict(M=_K(r, 6)[2])
    p('det_ST', M, lambda i: (ut.det_ST(i['M'], [0, 2, 3]), ut.det_ST(i['M'], [0, 2], [1, 3])))
    p('inner1d', M, lambda i: (ut.inner1d(i['M']), ut.inner1d(i['M'], i['M'], axis=1)))
    p('is_symmetric', M, lambda i: ut.is_symmetric(i['M']))
    p('is_projection', lambda r: dict(M=_proj(r, 6, 2)[0]), lambda i: ut.is_projection(i['M']))
    p('is_orthonormal_columns', lambda r: dict(M=_proj(r, 6, 2)[1]), lambda i: ut.is_orthonormal_columns(i['M']))
    p('is_full_row_rank', lambda r: dict(M=r.randn(2, 6)), lambda i: ut.is_full_row_rank(i['M']))
    p('is_in_01', lambda r: dict(v=r.rand(6)), lambda i: (ut.is_in_01(i['v']), ut.is_geq_0(i['v'])))
    p('stable_invert_root', lambda r: dict(zip('vU', spectra(r, 6, .1, 2.))), lambda i: ut.stable_invert_root(i['U'], i['v']))
    p('evaluate_L_diagonal', lambda r: dict(X=r.rand(6, 2)), lambda i: ut.evaluate_L_diagonal(rbf, i['X']))
    for nm in ('linear', 'polynomial', 'min_kern'):
        fn = getattr(ut, 'example_eval_L_' + nm)
        d = 1 if nm == 'min_kern' else 2
        p('example_eval_L/' + nm, lambda r, d=d: dict(X=r.rand(6, d), Y=r.rand(4, d)),
          lambda i, fn=fn: (fn(i['X']), fn(i['X'], i['Y'])))
    p('elementary_symmetric_polynomials', lambda r: dict(v=r.rand(6)),
      lambda i: es.elementary_symmetric_polynomials(i['v'], 4))
    p('extract_basis', lambda r: dict(v=np.clip(2 * r.rand(6) - .5, 0, 1)), lambda i: mc.extract_basis(i['v']))
    for kind, cls, kw in (('hermite', be.HermiteEnsemble, dict(loc=.3, scale=1.2)), ('laguerre', be.LaguerreEnsemble, dict(size_M=12)),
                          ('jacobi', be.JacobiEnsemble, dict(a=1., b=2.)), ('circular', be.CircularEnsemble, {})):
        def norm(i, cls=cls, kw=kw):
            o = cls(2)
            o.sample_banded_model(size_N=5, random_state=0, **kw)
            return o.normalize_points(i['x'])
        p('normalize_points/' + kind, X, norm)

        def disp(i, cls=cls, kw=kw):
            o = cls(2)
            o.sample_banded_model(size_N=5, random_state=0, **kw)
            before = o.list_of_samples[-1].copy()
            for f in (o.plot, o.hist):
                for n in (True, False):
                    f(normalization=n)
                    plt.close('all')
            return before, o.list_of_samples[-1]
        p('display/' + kind, lambda r: {}, disp)

    def conv(desc, what):
        inputs, new = fdpp(desc)

        def call(i):
            o = new(i)
            out = []
            for w in what:
                v = getattr(o, w[0])(*w[1:])
                plt.close('all')
            return [x for x in (o.K, o.L) if x is not None]
        return inputs, call
    for desc in ('K', 'K_eig', 'L', 'L_eig', 'gram', 'gram_tall', 'projL', 'projL_eig', 'eval'):
        for nm, what in (('KL', [('compute_K',), ('compute_L',)]), ('LK', [('compute_L',), ('compute_K',)]),
                         ('plot', [('plot_kernel', 'correlation' if 'K' in desc else 'likelihood')])):
            inputs, call = conv(desc, what)
            p('convert/%s/%s' % (desc, nm), inputs, call)
    for desc in ('projK', 'projK_eig', 'projK_eig01', 'A_zono'):
        inputs, call = conv(desc, [('compute_K',), ('plot_kernel', 'correlation')])
        p('convert/%s/K' % desc, inputs, call)

    def ust(i):
        o = ex.UST(i['graph'])
        o.compute_kernel()
        for f in (o.plot_graph, o.plot_kernel):
            f()
            plt.close('all')
        return o.kernel
    p('ust.kernel', lambda r: dict(graph=_graph(r, 6)), ust)
    return out


def pure_more():
    """boundary and unusual parameters of the calls of pure()"""
    import matplotlib.pyplot as plt
    from dppy import exotic_dpps_core as ec, utils as ut
    out = []

    def p(name, inputs, call):
        out.append(('more/' + name, inputs, call))
    X = lambda r: dict(x=np.concatenate([2.5 * r.randn(9), [2., -2., 1e-3, 1e3, -1e3]]))
    X01 = lambda r: dict(x=np.concatenate([.02 + .9 * r.rand(9), [1e-9, 1 - 1e-9]]))
    for R in (1e-3, 1, 2, 50.):
        p('semi_circle_law/%s' % R, X, lambda i, R=R: rm.semi_circle_law(i['x'], R))
    for M, N in ((10, 10), (1, 1), (11, 10), (1000, 1), (10, 30), (2, 1)):
        for sg in (1., .3, 2):
            p('marcenko_pastur_law/%s/%s/%s' % (M, N, sg), X, lambda i, M=M, N=N, sg=sg: rm.marcenko_pastur_law(i['x'], M, N, sg))
    for M1, M2, N in ((10, 10, 10), (10, 30, 10), (30, 10, 10), (1, 1, 1), (500, 2, 2)):
        p('wachter_law/%s/%s/%s' % (M1, M2, N), X01, lambda i, M1=M1, M2=M2, N=N: rm.wachter_law(i['x'], M1, M2, N))
    for g2, g4 in ((0., 1.), (-2., 1.), (2., .25), (-6., 1.), (-2.1, 1.), (1., 1e-3)):
        for nm in ('equilibrium_x2_x4', 'cdf_equilibrium_x2_x4'):
            p('%s/%s/%s' % (nm, g2, g4), X, lambda i, nm=nm, g2=g2, g4=g4: getattr(pc, nm)(g2, g4)[0](i['x']))
    for m in (1, 2, 3):
        for g in (.1, 5.):
            for nm in ('equilibrium_x2m', 'cdf_equilibrium_x2m')[:1 if m == 1 else 2]:      # m = 1: no closed form offered
                p('%s/%s/%s' % (nm, m, g), X, lambda i, nm=nm, m=m, g=g: getattr(pc, nm)(m, g)[0](i['x']))
    tw = pc.TracyWidom()
    for q in (2, 10, 100):
        p('TracyWidom.cdf/%d' % q, lambda r: dict(x=np.array([-30., -8., 0., 8., 40.])), lambda i, q=q: tw.cdf(i['x'], q))
    for nm in ('a', 'b'):
        fn = getattr(pc, 'polynomial_in_negative_log_conditional_%s_coef' % nm)
        for k in range(1, 8):
            for deg in (2, 3, 4, 6):
                p('conditional_%s/%d/%d' % (nm, k, deg), lambda r, deg=deg: dict(a=np.append(np.zeros(2), r.randn(9)), b=np.append(np.zeros(2), r.rand(9)),
                                                                             V=np.poly1d(1 + r.rand(deg + 1))),
                  lambda i, fn=fn, k=k: fn(k, i['a'], i['b'], i['V']))
    p('convex_quartic/modes', lambda r: dict(P=np.poly1d([1., 0., .5, .3, 0.])),
      lambda i: (pc.find_mode_convex_quartic(i['P']), pc.find_b_a_convex_quartic(i['P'], pc.find_mode_convex_quartic(i['P'])), pc.log_pdf_convex_quartic(.3, i['P']),
                 pc.shift_pol(i['P'], .7)))
    p('xy_young_ru/one', lambda r: dict(d=np.array([1])), lambda i: ec.xy_young_ru(i['d']))
    p('RSK/decreasing', lambda r: dict(s=np.arange(9)[::-1].copy()), lambda i: ec.RSK(i['s']))
    p('RSK/one', lambda r: dict(s=np.array([0])), lambda i: ec.RSK(i['s']))
    p('RSK/large', lambda r: dict(s=r.permutation(600)), lambda i: ec.RSK(i['s']))
    for d, prm in ((1, [[-.5, -.5]]), (1, [[7., -.9]]), (2, [[-.5, -.5], [.5, .5]]), (2, [[0, 0], [0, 0]])):
        for N in (1, 2, 30):
            p('ope/%s/%d' % (prm, N), lambda r, d=d, prm=prm: dict(p=np.array(prm), X=2 * r.rand(4, d) - 1, Y=np.concatenate([np.ones((1, d)), -np.ones((1, d)), 2 * r.rand(2, d) - 1])),
              lambda i, N=N: [(o.K(i['X']), o.K(i['X'], i['Y']), o.K(i['X'], i['Y'], True), o.eval_w(i['X']), o.eval_multiD_polynomials(i['Y']))
                              for o in [jo.MultivariateJacobiOPE(N, i['p'])]][0])
    p('elementary/zero', lambda r: dict(v=np.zeros(6)), lambda i: es.elementary_symmetric_polynomials(i['v'], 4))
    p('elementary/large', lambda r: dict(v=r.rand(300)), lambda i: es.elementary_symmetric_polynomials(i['v'], 30))
    p('elementary/more', lambda r: dict(v=r.rand(3)), lambda i: es.elementary_symmetric_polynomials(i['v'], 5))
    p('det_ST/empty', lambda r: dict(M=_K(r, 6)[2], S=np.array([], int)), lambda i: (ut.det_ST(i['M'], i['S']), ut.det_ST(i['M'], [])))
    p('det_ST/singular', lambda r: dict(M=np.ones((6, 6)), S=np.array([0, 3])), lambda i: ut.det_ST(i['M'], i['S']))
    p('is_projection/zero', lambda r: dict(M=np.zeros((4, 4))), lambda i: ut.is_projection(i['M']))
    p('stable_invert_root/zeros', lambda r: dict(v=np.array([0., 0., 1., 3.]), U=ref.rand_orth(r, 4)), lambda i: ut.stable_invert_root(i['U'], i['v']))
    p('stable_filter/negative', lambda r: dict(v=np.array([-1e-18, 0., 1., 3.]), U=ref.rand_orth(r, 4)), lambda i: ut.stable_filter(i['U'], i['v']))
    p('extract_basis/01', lambda r: dict(v=np.array([0., 1., .5, .5, 1. - 1e-12, 1e-12])), lambda i: mc.extract_basis(i['v']))

    def kern(name, inputs, make, what):
        def call(i):
            o = make(i)
            for w in what:
                getattr(o, w)()
            return [x for x in (o.K, o.L) if x is not None]
        p('convert/' + name, inputs, call)
    kern('L/zero', lambda r: dict(L=np.zeros((4, 4))), lambda i: FiniteDPP('likelihood', L=i['L']), ['compute_K'])
    kern('L/rank1', lambda r: dict(L=np.ones((4, 4))), lambda i: FiniteDPP('likelihood', L=i['L']), ['compute_K'])
    kern('L/huge', lambda r: dict(L=1e12 * np.eye(4)), lambda i: FiniteDPP('likelihood', L=i['L']), ['compute_K'])
    kern('K/zero', lambda r: dict(K=np.zeros((4, 4))), lambda i: FiniteDPP('correlation', K=i['K']), ['compute_L'])
    kern('K/almost1', lambda r: dict(K=(1 - 1e-6) * np.eye(4)), lambda i: FiniteDPP('correlation', K=i['K']), ['compute_L'])
    kern('L_eig/zeros', lambda r: dict(v=np.array([0., 0., 1., 3.]), U=ref.rand_orth(r, 4)),
         lambda i: FiniteDPP('likelihood', L_eig_dec=(i['v'], i['U'])), ['compute_K', 'compute_L'])
    kern('gram/square', lambda r: dict(P=r.randn(4, 4)), lambda i: FiniteDPP('likelihood', L_gram_factor=i['P']), ['compute_K', 'compute_L'])
    kern('gram/one', lambda r: dict(P=r.randn(1, 4)), lambda i: FiniteDPP('likelihood', L_gram_factor=i['P']), ['compute_K', 'compute_L'])
    kern('A_zono/one', lambda r: dict(A=1 + r.rand(1, 4)), lambda i: FiniteDPP('correlation', True, A_zono=i['A']), ['compute_K'])
    kern('A_zono/square', lambda r: dict(A=r.randn(3, 3)), lambda i: FiniteDPP('correlation', True, A_zono=i['A']), ['compute_K'])

    def display(cls, beta, kw, model):
        def call(i):
            o = cls(beta)
            getattr(o, 'sample_%s_model' % model)(random_state=0, **kw)
            before = canon(o.list_of_samples[-1])
            for f in (o.plot, o.hist):
                for n in (True, False):
                    f(normalization=n)
                    plt.close('all')
            return before, o.list_of_samples[-1]
        p('display/%s/%s/%s' % (cls.__name__, model, sorted(kw.items())), lambda r: {}, call)
    display(be.LaguerreEnsemble, 2, dict(size_N=5, size_M=5), 'banded')
    display(be.LaguerreEnsemble, 1, dict(size_N=5, size_M=5), 'full')
    display(be.LaguerreEnsemble, 2, dict(size_N=1, size_M=1), 'full')
    display(be.LaguerreEnsemble, 3.5, dict(size_N=5, shape=.2, scale=3.), 'banded')
    display(be.JacobiEnsemble, 2, dict(size_N=5, size_M1=5, size_M2=5), 'banded')
    display(be.JacobiEnsemble, 4, dict(size_N=5, size_M1=5, size_M2=9), 'full')
    display(be.JacobiEnsemble, 1, dict(size_N=1, size_M1=1, size_M2=1), 'full')
    display(be.HermiteEnsemble, 2, dict(size_N=1), 'banded')
    display(be.HermiteEnsemble, 4, dict(size_N=1), 'full')
    display(be.CircularEnsemble, 2, dict(size_N=1), 'full')
    display(be.CircularEnsemble, 1, dict(size_N=1), 'banded')
    display(be.GinibreEnsemble, 2, dict(size_N=1), 'full')
    return out
