"""The same request written with other types of the same values: numpy integers for sizes and parameters, integer arrays,
lists and tuples where the documentation says array_like."""
import io
import contextlib
import warnings

import numpy as np

from mon import catalog, fakecvxopt

fakecvxopt.install()

from dppy.finite_dpps import FiniteDPP
from dppy import (beta_ensembles as be, beta_ensemble_polynomial_potential as pp, bless as bl, exact_sampling as es,
                  exotic_dpps as ex, exotic_dpps_core as ec, mcmc_sampling as mc, multivariate_jacobi_ope as jo,
                  random_matrices as rm, utils as ut)

R = np.random.RandomState
SCALARS = dict(int64=np.int64, int32=np.int32, uint8=np.uint8, int16=np.int16)
REALS = dict(float64=np.float64, int64=np.int64, int=int, float32=np.float32)
ARRAYS = dict(int=lambda a: np.array(a, dtype=int), int32=lambda a: np.array(a, dtype=np.int32), F=lambda a: np.asfortranarray(np.array(a, float)))
LISTS = dict(list=lambda a: np.array(a, float).tolist(), tuple=lambda a: tuple(map(tuple, a)) if np.ndim(a) == 2 else tuple(a),
             int=lambda a: np.array(a, dtype=int), intlist=lambda a: np.array(a, dtype=int).tolist())


def sizes(r):
    """requests with integer arguments: f(cast) evaluates it, cast applied to every integer"""
    n, m1, m2, s = int(r.randint(1, 7)), int(r.randint(0, 4)), int(r.randint(0, 4)), int(r.randint(2**31))
    B = r.randn(7, 7)
    L = B.dot(B.T)
    q = np.linalg.qr(r.randn(7, n))[0]
    X = r.randn(30, 3)
    k = min(n, 4)
    out = dict(
        hermite_full=lambda c: be.HermiteEnsemble(c(2)).sample_full_model(size_N=c(n), random_state=s),
        laguerre_full=lambda c: be.LaguerreEnsemble(c(4)).sample_full_model(size_N=c(n), size_M=c(n + m1), random_state=s),
        jacobi_full=lambda c: be.JacobiEnsemble(c(1)).sample_full_model(size_N=c(n), size_M1=c(n + m1), size_M2=c(n + m2), random_state=s),
        circular_full=lambda c: be.CircularEnsemble(c(2)).sample_full_model(size_N=c(n), random_state=s),
        ginibre=lambda c: be.GinibreEnsemble(c(2)).sample_full_model(size_N=c(n), random_state=s),
        hermite_banded=lambda c: be.HermiteEnsemble(c(2)).sample_banded_model(size_N=c(n), random_state=s),
        laguerre_banded=lambda c: be.LaguerreEnsemble(c(2)).sample_banded_model(size_N=c(n), size_M=c(n + m1), random_state=s),
        jacobi_banded=lambda c: be.JacobiEnsemble(c(2)).sample_banded_model(size_N=c(n), size_M1=c(n + m1), size_M2=c(n + m2), random_state=s),
        circular_banded=lambda c: be.CircularEnsemble(c(1 + m1)).sample_banded_model(size_N=c(n), random_state=s),
        hermite_zero=lambda c: be.HermiteEnsemble(c(0)).sample_banded_model(size_N=c(n), random_state=s),
        ope=lambda c: jo.MultivariateJacobiOPE(c(n), np.array([[.2, -.3], [.1, .5]])).sample(random_state=s),
        ope_1d=lambda c: jo.MultivariateJacobiOPE(c(n), np.array([[.2, 1.3]])).sample(random_state=s),
        ope_K=lambda c: jo.MultivariateJacobiOPE(c(n), np.array([[.2, -.3], [.1, .5]])).K(X[:5, :2] / 5),
        ordering=lambda c: jo.compute_ordering(c(n), c(1 + m1)),
        carries=lambda c: _exotic(ex.CarriesProcess(c(2 + m1)), c(5 * n), s),
        descents=lambda c: _exotic(ex.DescentProcess(), c(5 * n), s),
        virtual=lambda c: _exotic(ex.VirtualDescentProcess(.7), c(5 * n), s),
        plancherel=lambda c: _poisson(c(n), s),
        permutation=lambda c: ec.uniform_permutation(c(n), random_state=s),
        kdpp=lambda c: FiniteDPP('likelihood', L=L).sample_exact_k_dpp(c(n), random_state=s),
        kdpp_K=lambda c: FiniteDPP('correlation', K=L.dot(np.linalg.inv(np.eye(7) + L))).sample_exact_k_dpp(size=c(n), mode='GS_bis', random_state=s),
        kdpp_proj=lambda c: FiniteDPP('correlation', projection=True, K=q.dot(q.T)).sample_exact_k_dpp(size=c(n), mode='Schur', random_state=s),
        kdpp_vfx=lambda c: FiniteDPP('likelihood', L_eval_X_data=(catalog.rbf, X)).sample_exact_k_dpp(
            size=c(k), mode='vfx', random_state=s, verbose=False, rls_oversample_bless=c(50), rls_oversample_dppvfx=c(50), nb_iter_bless=c(3), max_iter=c(120)),
        kdpp_alpha=lambda c: FiniteDPP('likelihood', L_eval_X_data=(catalog.rbf, X)).sample_exact_k_dpp(
            size=c(k), mode='alpha', random_state=s, verbose=False, rls_oversample_bless=c(50), rls_oversample_alphadpp=c(50), nb_iter_bless=c(3), max_iter=c(120)),
        mcmc_kdpp=lambda c: _chain(FiniteDPP('likelihood', L=L), 'k', s, size=c(n), nb_iter=c(25)),
        mcmc_aed=lambda c: _chain(FiniteDPP('likelihood', L=L), 'AED', s, nb_iter=c(25), s_init=[c(x) for x in range(n)]),
        mcmc_ad=lambda c: _chain(FiniteDPP('likelihood', L=L), 'AD', s, nb_iter=c(25), s_init=[c(x) for x in range(n)]),
        zonotope=lambda c: _chain(FiniteDPP('correlation', projection=True, A_zono=q.T), 'zonotope', s, nb_iter=c(5)),
        esp=lambda c: es.elementary_symmetric_polynomials(np.abs(X[:, 0]), c(n)),
        polynomial=lambda c: pp.BetaEnsemblePolynomialPotential(c(2), [c(1), c(0), c(0)]).sample_mcmc(N=c(n), nb_gibbs_passes=c(3), random_state=s),
        polynomial_g4=lambda c: pp.BetaEnsemblePolynomialPotential(c(4), [c(1), c(0), c(1), c(0), c(0)]).sample_mcmc(N=c(n), nb_gibbs_passes=c(2), nb_mala_steps=c(3), random_state=s),
        bless=lambda c: bl.bless(X, catalog.rbf, .5, c(20), R(s), nb_iter_bless=c(3), verbose=False).idx,
        bless_size=lambda c: bl.bless_size(X, catalog.rbf, c(k), c(50), R(s), nb_iter_bless=c(3), verbose=False)[2].idx,
        mu_gauss=lambda c: rm.mu_ref_normal_sampler_tridiag(loc=c(0), scale=c(2), beta=c(2), size=c(n), random_state=s),
        mu_gamma=lambda c: rm.mu_ref_gamma_sampler_tridiag(shape=c(3), scale=c(2), beta=c(2), size=c(n), random_state=s),
        mu_beta=lambda c: rm.mu_ref_beta_sampler_tridiag(a=c(3), b=c(2), beta=c(2), size=c(n), random_state=s),
        mu_circle=lambda c: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=c(2), size=c(n), random_state=s),
        seed_eig=lambda c: FiniteDPP('likelihood', L=L).sample_exact(random_state=c(n)),
        seed_rm=lambda c: rm.hermite_sampler_full(4, random_state=c(n)),
    )
    return out


def arrays(r):
    """requests with arrays of integer values: f(cast), cast applied to every array"""
    s = int(r.randint(2**31))
    n = 6
    B = r.randint(-2, 3, (n, n)) + 3 * np.eye(n, dtype=int)
    L = B.dot(B.T)
    P = np.eye(n, dtype=int)[r.permutation(n)]
    D = np.diag((np.arange(n) < 3).astype(int))[r.permutation(n)]
    D = D.dot(D.T)
    A = r.randint(-2, 3, (3, n)) + np.eye(3, n, dtype=int) * 4
    X = r.randint(0, 3, (20, 3))
    lin = ut.example_eval_L_linear
    ev = r.randint(0, 4, n)
    ev[:3] += 1
    kw = dict(verbose=False, rls_oversample_bless=50, rls_oversample_dppvfx=50, rls_oversample_alphadpp=50)
    lik = lambda **p: FiniteDPP('likelihood', **p)
    cor = lambda **p: FiniteDPP('correlation', projection=True, **p)
    out = {}
    for m in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
        out['L/' + m] = lambda c, m=m: lik(L=c(L)).sample_exact(m, random_state=s)
        out['L_eig_dec/' + m] = lambda c, m=m: lik(L_eig_dec=(c(ev), c(P))).sample_exact(m, random_state=s)
        out['gram/' + m] = lambda c, m=m: lik(L_gram_factor=c(A)).sample_exact(m, random_state=s)
        out['gram_tall/' + m] = lambda c, m=m: lik(L_gram_factor=c(A.T)).sample_exact(m, random_state=s)
        out['eval/' + m] = lambda c, m=m: lik(L_eval_X_data=(lin, c(X))).sample_exact(m, random_state=s)
        out['proj_eig/' + m] = lambda c, m=m: cor(K_eig_dec=(c(np.arange(n) % 2), c(P))).sample_exact(m, random_state=s)
        out['zono/' + m] = lambda c, m=m: cor(A_zono=c(A)).sample_exact(m, random_state=s)
        if m != 'Chol':
            out['kL/' + m] = lambda c, m=m: lik(L=c(L)).sample_exact_k_dpp(2, m, random_state=s)
            out['kL_eig_dec/' + m] = lambda c, m=m: lik(L_eig_dec=(c(ev), c(P))).sample_exact_k_dpp(2, m, random_state=s)
            out['kgram/' + m] = lambda c, m=m: lik(L_gram_factor=c(A)).sample_exact_k_dpp(2, m, random_state=s)
    for m in ('GS', 'Chol', 'Schur'):
        out['proj_K/' + m] = lambda c, m=m: cor(K=c(D)).sample_exact(m, random_state=s)
        out['kproj_K/' + m] = lambda c, m=m: cor(K=c(D)).sample_exact_k_dpp(3, m, random_state=s)
    for m in ('vfx', 'alpha'):
        out['eval/' + m] = lambda c, m=m: lik(L_eval_X_data=(lin, c(X))).sample_exact(m, random_state=s, **kw)
        out['keval/' + m] = lambda c, m=m: lik(L_eval_X_data=(lin, c(X))).sample_exact_k_dpp(2, m, random_state=s, **kw)
    for m in ('AED', 'AD', 'E'):
        out['mcmc/' + m] = lambda c, m=m: _chain(lik(L=c(L)), m, s, nb_iter=20, **({'size': 3} if m == 'E' else {}))
    out['zonotope'] = lambda c: _chain(cor(A_zono=c(A)), 'zonotope', s, nb_iter=6)
    out['zonotope_lin'] = lambda c: _chain(cor(A_zono=c(A)), 'zonotope', s, nb_iter=6, lin_obj=c(A.T.dot([1, 3, 2])))
    out['compute_K'] = lambda c: _kernel(lik(L=c(L)), 'K')
    out['compute_K_gram'] = lambda c: _kernel(lik(L_gram_factor=c(A)), 'K')
    out['compute_L_eig'] = lambda c: _kernel(lik(L_eig_dec=(c(ev), c(P))), 'L')
    out['generic'] = lambda c: es.dpp_sampler_generic_kernel(c(D), random_state=s)[0]
    out['esp'] = lambda c: es.elementary_symmetric_polynomials(c(ev), 3)
    out['bless'] = lambda c: bl.bless(c(X), lin, 1.0, 30, R(s), verbose=False).idx
    out['det_ST'] = lambda c: ut.det_ST(c(L), [0, 3], [1, 2])
    out['inner1d'] = lambda c: ut.inner1d(c(A), c(A[::-1]), axis=1)
    out['rsk'] = lambda c: [[float(x) for row in t for x in row] for t in ec.RSK(c(np.array([3, 1, 5, 2, 4])))]
    out['limit_shape'] = lambda c: ec.limit_shape(c(np.arange(-4, 5)))
    return out


def lists(r):
    """array_like parameters documented as such"""
    s = int(r.randint(2**31))
    pts = r.randint(-1, 2, (4, 2))
    out = dict(
        ope=lambda c: jo.MultivariateJacobiOPE(3, c(np.zeros((2, 2)))).sample(random_state=s),
        ope_1d=lambda c: jo.MultivariateJacobiOPE(3, c(np.array([[1, 2]]))).sample(random_state=s),
        ope_w=lambda c: jo.MultivariateJacobiOPE(3, np.zeros((2, 2)) + .25).eval_w(c(pts * 0)),
        polynomial=lambda c: pp.BetaEnsemblePolynomialPotential(2, c(np.array([1, 0, 2, 0, 1]))).sample_mcmc(N=4, nb_gibbs_passes=2, random_state=s),
        limit_shape=lambda c: ec.limit_shape(c(np.arange(-3, 4))),
    )
    return out


def _quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def _exotic(p, size, s):
    p.sample(size=size, random_state=s)
    return p.list_of_samples[-1]


def _poisson(theta, s):
    p = ex.PoissonizedPlancherel(theta)
    p.sample(random_state=s)
    return p.list_of_samples[-1]


def _chain(d, mode, s, **kw):
    if mode == 'k':
        d.sample_mcmc_k_dpp(random_state=s, **kw)
    else:
        d.sample_mcmc(mode, random_state=s, **kw)
    return [list(map(int, x)) for x in d.list_of_samples[-1]]


def _kernel(d, which):
    _quiet(d.compute_K if which == 'K' else d.compute_L)
    return getattr(d, which)


def groups(r):
    """yields (name, type name, reference evaluation, evaluation with the other type)"""
    for nm, f in sizes(r).items():
        for t, c in SCALARS.items():
            yield 'scalar/' + nm, t, (lambda f=f: _quiet(f, int)), (lambda f=f, c=c: _quiet(f, c))
    for nm, f in arrays(r).items():
        for t, c in ARRAYS.items():
            if t == 'F' and nm.startswith('zonotope'):
                continue        # linear programs with ties
            yield 'array/' + nm, t, (lambda f=f: _quiet(f, lambda a: np.array(a, float))), (lambda f=f, c=c: _quiet(f, c))
    for nm, f in lists(r).items():
        for t, c in LISTS.items():
            yield 'list/' + nm, t, (lambda f=f: _quiet(f, lambda a: np.array(a, float))), (lambda f=f, c=c: _quiet(f, c))


def same(a, b):
    try:
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.allclose(a.astype(complex), b.astype(complex), rtol=1e-7, atol=1e-9))
    except (ValueError, TypeError):
        return repr(a) == repr(b)


def watch(rec, seed, part, parts, compare):
    """compare=False: the request is accepted; True: it gives the same result as with ordinary types"""
    todo = list(groups(R(seed)))[part::parts]
    for nm, t, f, g in todo:
        rp = dict(request=nm, type=t, seed=seed)
        key = 'types/{}/{}'.format(nm, t)
        ok, a = rec.call('types/{}/reference'.format(nm), f, cpu=60., replay=rp)
        if not ok:
            continue
        ok, b = rec.call(key, g, cpu=60., replay=rp)
        if not ok:
            continue
        rec.observe((key, seed), sample=rp)
        if compare:
            rec.expect(same(a, b), key + '/differs', 'the same request written with the type {} gives {} instead of {}'
                       .format(t, repr(b)[:120], repr(a)[:120]), **rp)
