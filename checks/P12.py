"""P12: invalid descriptions and requests are refused, valid ones within tolerance are accepted."""
import traceback
import networkx as nx

import numpy as np
import matplotlib.pyplot as plt

from mon import catalog, fakecvxopt, ref, typecases
from mon.catalog import rbf
from mon.core import LIB, Job, Stuck, cpu_budget, lib_site

fakecvxopt.install()

from dppy.finite_dpps import FiniteDPP
from dppy import (beta_ensembles as be, beta_ensemble_polynomial_potential as pp,
                  beta_ensemble_polynomial_potential_core as pc, exact_sampling as es, exotic_dpps as ex,
                  exotic_dpps_core as ec, mcmc_sampling as mc, multivariate_jacobi_ope as jo, random_matrices as rm)

RULE = ('each case = one request derived from a randomly generated valid one by breaking one documented rule (must raise '
        'ValueError, or the documented FloatingPointError / NotImplementedError, and leave the recorded samples of the '
        'object unchanged), or by perturbing it within numerical tolerance / moving it to the boundary of the rule (must '
        'be accepted and produce well formed samples); distinct = (rule, description, sizes)')
ASSUMPTIONS = ['matrix defects are placed among the first 20 rows / 5 eigenvectors, which is what the documented cheap '
               'tests look at', 'defects are at least 1e-4 (1e-6 for eigenvalues), noise at most 1e-10: the tolerance band between is not judged']
V = ValueError


def refused(rec, key, fn, obj=None, exc=(V,), cpu=20., **rp):
    """fn() must raise one of exc with a message, and record nothing on obj"""
    before = None if obj is None else list(obj.list_of_samples)
    try:
        with cpu_budget(cpu):
            out = fn()
    except Stuck:
        rec.violate(key + '/stuck', 'an invalid request did not terminate', **rp)
        return
    except exc as e:
        last = traceback.extract_tb(e.__traceback__)[-1]
        delegated = last.filename.endswith('.pyx') and 'probabilit' not in str(e)      # numpy.random checks its arguments
        rec.expect(last.filename.startswith(LIB) or delegated, key + '/accidental', 'the refusal {}: {} is an accident in {}:{}, it does not explain '
                   'which input is invalid'.format(type(e).__name__, str(e)[:100], last.filename, last.name), **rp)
        rec.expect(str(e).strip() != '', key + '/message', 'refused without any explanation', **rp)
        if obj is not None:
            now = obj.list_of_samples
            rec.expect(len(now) == len(before) and all(x is y for x, y in zip(now, before)), key + '/recorded',
                       'a refused request changed the recorded samples', **rp)
        rec.observe((key, sorted((k, repr(v)[:60]) for k, v in rp.items())), sample=dict(rule=key, error=str(e)[:80], **rp))
        return
    except Exception as e:
        if lib_site(e) is None:
            raise
        rec.violate('{}/raises/{}'.format(key, type(e).__name__),
                    'invalid request raised {}: {} instead of {}'.format(type(e).__name__, e, [x.__name__ for x in exc]), **rp)
        return
    rec.violate(key + '/accepted', 'an invalid request was accepted, result {}'.format(repr(out)[:200]), **rp)


def accepted(rec, key, fn, cpu=20., **rp):
    ok, v = rec.call(key, fn, cpu=cpu, replay=rp)
    if ok:
        rec.observe((key, sorted((k, repr(x)[:60]) for k, x in rp.items())))
    return ok, v


def mk(kt, proj, **par):
    return FiniteDPP(kt, projection=proj, **par)


def sizes(r):
    return int(r.randint(2, 13)), 10**r.uniform(-4, 0) * r.choice([-1, 1])


# ---------------------------------------------------------------- constructors
def constructor(rec, seed, n):
    r = np.random.RandomState(seed)
    for it in range(n):
        N, eps = sizes(r)
        kt = ['correlation', 'likelihood'][r.randint(2)]
        lik = kt == 'likelihood'
        nm = 'L' if lik else 'K'
        lam = 3 * r.rand(N) if lik else r.rand(N)
        U = ref.rand_orth(r, N)
        M = ref.sym(lam, U)
        d = int(r.randint(1, N))
        Q = U[:, :d]
        P = Q.dot(Q.T)
        P = (P + P.T) / 2
        rp = dict(it=it, seed=seed, N=N, d=d, eps=float(eps), kt=kt)
        # --- kernel type, projection flag, parametrisation
        for bad in ('corr', '', None, 'Correlation', 'likelihood ', 0, 'K', 'L'):
            refused(rec, 'ctor/kernel_type', lambda: mk(bad, False, **{nm: M}), bad=repr(bad), **rp)
        for bad in (1, 0, None, 'True', 'yes', 1.0, np.array(True), [True]):
            refused(rec, 'ctor/projection_flag', lambda: mk(kt, bad, **{nm: M}), bad=repr(bad), **rp)
        for bad in ({}, {'M': M}, {nm.lower(): M}, {'K' if lik else 'L': M}, {'eig_dec': (lam, U)},
                    {'K_eig_dec' if lik else 'L_eig_dec': (r.rand(N), U)}, {nm + '_eigen': (lam, U)},
                    {'A_zono': r.randn(d, N)} if lik else {'L_gram_factor': r.randn(d, N)},
                    {'X_data': r.randn(N, 2)} if lik else {'L_eval_X_data': (rbf, r.randn(N, 2))}):
            refused(rec, 'ctor/parametrisation', lambda: mk(kt, False, **bad), bad=sorted(bad), **rp)
            refused(rec, 'ctor/parametrisation', lambda: mk(kt, True, **bad), bad=sorted(bad), **rp)
        # --- matrices
        i, j = r.choice(N, 2, replace=False)
        A = M.copy()
        A[i, j] += eps
        refused(rec, 'ctor/asymmetric', lambda: mk(kt, False, **{nm: A}), i=int(i), j=int(j), **rp)
        A = P.copy()
        A[i, j] += eps
        refused(rec, 'ctor/asymmetric', lambda: mk(kt, True, **{nm: A}), i=int(i), j=int(j), **rp)
        A = M.copy()
        A[i, j] = A[j, i] = np.nan
        refused(rec, 'ctor/nan', lambda: mk(kt, False, **{nm: A}), **rp)
        for A in (M[:-1], M[:, :-1], M[0], M[None], M.ravel(), np.float64(.3), np.hstack([M, M])):
            A = np.asarray(A)
            refused(rec, 'ctor/not_square', lambda: mk(kt, bool(r.randint(2)), **{nm: A}), shape=A.shape, **rp)
        t = r.uniform(.05, .95)
        lam2 = np.ones(d)
        lam2[r.randint(d)] = t
        A = ref.sym(lam2, Q)
        refused(rec, 'ctor/not_projection', lambda: mk(kt, True, **{nm: A}), t=t, **rp)
        refused(rec, 'ctor/not_projection', lambda: mk(kt, True, **{nm: (1 + abs(eps)) * P}), **rp)
        refused(rec, 'ctor/not_projection', lambda: mk(kt, True, **{nm: -P}), **rp)
        # --- eigendecompositions
        ed = nm + '_eig_dec'
        weps, eps = eps, 10**r.uniform(-6, -1)        # eigenvalues: the documented tolerance is 1e-8
        lam2 = lam.copy()
        lam2[r.randint(N)] = -abs(eps)
        refused(rec, 'ctor/negative_eig', lambda: mk(kt, False, **{ed: (lam2, U)}), **rp)
        lam2 = lam.copy()
        lam2[r.randint(N)] = np.nan
        refused(rec, 'ctor/nan', lambda: mk(kt, False, **{ed: (lam2, U)}), **rp)
        refused(rec, 'ctor/nan', lambda: mk(kt, True, **{ed: (lam2, U)}), **rp)
        if not lik:
            lam2 = lam.copy()
            lam2[r.randint(N)] = 1 + abs(eps)
            refused(rec, 'ctor/eig_above_1', lambda: mk(kt, False, **{ed: (lam2, U)}), **rp)
        lam2 = (r.rand(N) < .5).astype(float)
        lam2[r.randint(N)] = r.choice([t, 1 + abs(eps), -abs(eps), 2., -1.])
        refused(rec, 'ctor/eig_not_01', lambda: mk(kt, True, **{ed: (lam2, U)}), lam=lam2.tolist(), **rp)
        eps = weps
        W = U.copy()
        c = r.randint(min(5, N))
        W[:, c] *= 1 + eps
        refused(rec, 'ctor/not_orthonormal', lambda: mk(kt, False, **{ed: (lam, W)}), **rp)
        W = U.copy()
        c2 = (c + 1) % min(5, N)
        W[:, c] = (W[:, c] + eps * W[:, c2]) / np.sqrt(1 + eps**2)
        if N >= 2:
            refused(rec, 'ctor/not_orthonormal', lambda: mk(kt, False, **{ed: (lam, W)}), **rp)
            refused(rec, 'ctor/not_orthonormal', lambda: mk(kt, True, **{ed: ((lam > .5) * 1., W)}), **rp)
        for lam2, W in ((lam[:-1], U), (lam, U[:, :-1]), (np.r_[lam, .5], U), (lam[:1] if N > 1 else np.r_[lam, .1], U)):
            refused(rec, 'ctor/eig_sizes', lambda: mk(kt, False, **{ed: (lam2, W)}), m=(len(lam2), W.shape), **rp)
            refused(rec, 'ctor/eig_sizes', lambda: mk(kt, True, **{ed: ((lam2 > .5) * 1., W)}),
                    m=(len(lam2), W.shape), **rp)
        # --- factors and data
        B = r.randn(d, N)
        for A in (r.randn(N + 1, N), np.vstack([B, B[:1]]), np.vstack([B, np.zeros(N)]),
                  np.vstack([B, B.sum(0)]), np.zeros((d, N)), B[0], np.outer(r.randn(2), r.randn(N))):
            refused(rec, 'ctor/A_zono', lambda: mk('correlation', True, A_zono=A), shape=A.shape, **rp)
            refused(rec, 'ctor/A_zono', lambda: mk('correlation', False, A_zono=A), shape=A.shape, **rp)
            scale = 10**r.uniform(0, 9)
            if A.ndim == 2:
                refused(rec, 'ctor/A_zono', lambda: mk('correlation', True, A_zono=scale * A), shape=A.shape, scale=scale, **rp)
        scale = 10**r.uniform(-12, 9)
        accepted(rec, 'accept/A_zono', lambda: mk('correlation', True, A_zono=scale * B), scale=scale, **rp)
        X = r.rand(N, 2)
        for f, D in ((X.dot(X.T), X), (None and 0 or 3, X), ('rbf', X), (rbf, X[0]), (rbf, X[:0]), (rbf, X[:, :0]),
                     (rbf, X[None])):
            refused(rec, 'ctor/L_eval_X_data', lambda: mk('likelihood', False, L_eval_X_data=(f, D)),
                    f=type(f).__name__, shape=D.shape, **rp)
        refused(rec, 'ctor/L_gram_factor', lambda: mk('likelihood', False, L_gram_factor=B[0]), **rp)


def tolerance(rec, seed, n):
    """valid within numerical tolerance: accepted by the constructor and by every applicable request"""
    r = np.random.RandomState(seed)
    for it in range(n):
        N = int(r.randint(2, 11))
        d = int(r.randint(1, N + 1))
        nz = 10**r.uniform(-13, -10)
        kt = ['correlation', 'likelihood'][r.randint(2)]
        lik = kt == 'likelihood'
        nm = 'L' if lik else 'K'
        U = ref.rand_orth(r, N)
        lam = (3 if lik else 1) * r.rand(N)
        lam[r.rand(N) < .3] = 0.
        if not lik:
            lam[r.rand(N) < .3] = 1.
        rk = int((lam > 0).sum())
        M = ref.sym(lam, U)
        Q = U[:, :d]
        P = Q.dot(Q.T)
        E = nz * r.randn(N, N)
        sign = r.choice([-1., 1.], N)
        rp = dict(it=it, seed=seed, N=N, d=d, noise=nz, kt=kt)
        variants = [('matrix', False, {nm: M + E}), ('matrix/sym', False, {nm: M + E + E.T}), ('proj', True, {nm: P + E}),
                    ('eig', False, {nm + '_eig_dec': (lam + nz * sign, U)}),
                    ('eig/vecs', False, {nm + '_eig_dec': (lam, U + E)}),
                    ('proj eig', True, {nm + '_eig_dec': (1 + nz * sign[:d], Q + E[:, :d])}),
                    ('proj eig01', True, {nm + '_eig_dec': ((np.arange(N) < d) + nz * sign, U + E)}),
                    ('proj full', True, {nm: np.eye(N) + E}), ('fortran', False, {nm: np.asfortranarray(M)}),
                    ('numpy bool ints', False, {nm + '_eig_dec': ((lam > .2).astype(int), U)})]
        if not lik:
            variants += [('A_zono', True, dict(A_zono=r.randn(d, N)))]
        else:
            variants += [('gram', False, dict(L_gram_factor=r.randn(d, N))),
                         ('gram tall', False, dict(L_gram_factor=r.randn(N + 2, N))),
                         ('eval', False, dict(L_eval_X_data=(rbf, r.rand(N, 2))))]
        for label, proj, par in variants:
            key = 'accept/' + label.split('/')[0].replace(' ', '_')
            ok, D = accepted(rec, key, lambda: mk(kt, proj, **par), label=label, **rp)
            if not ok:
                continue
            modes = ['GS', 'GS_bis', 'KuTa12']
            if label in ('proj', 'proj full') and not lik:
                modes = ['GS', 'Chol', 'Schur']
            elif not lik:
                modes += ['Chol'] + (['Schur'] if proj else [])
            for mode in modes:
                ok, s = accepted(rec, key + '/sample', lambda: D.sample_exact(mode, random_state=r), label=label,
                                 mode=mode, **rp)
                if ok:
                    rec.expect(len(set(s)) == len(s) and all(0 <= x < N for x in s), key + '/sample/malformed',
                               'sample {}'.format(s), mode=mode, label=label, **rp)
            for f in (D.compute_K,):
                accepted(rec, key + '/compute_K', f, label=label, **rp)
            if proj:
                k = N if label == 'proj full' else d
                if lik:
                    k = int(r.randint(0, k + 1))
                mode = 'GS'
            else:
                k = int(r.randint(0, max(1, {'gram': d, 'eval': 1, 'gram tall': N}.get(
                    label, (lam > .2).sum() if label.startswith('numpy') else rk)) + 1))
                if label == 'gram' or label == 'gram tall' or label == 'eval':
                    pass
                elif k > ((lam > .2).sum() if label.startswith('numpy') else rk):
                    k = 0
                if not lik and (label.startswith('numpy') or (lam == 1).any()):
                    # the likelihood kernel does not exist: documented refusal
                    if label in ('fortran',) or label.startswith('numpy'):
                        refused(rec, 'exists/k-dpp', lambda: D.sample_exact_k_dpp(k, random_state=r), D,
                                (V, FloatingPointError), label=label, **rp) \
                            if (label.startswith('numpy') and (lam > .2).any()) else None
                    continue
                mode = modes[r.randint(3)]
            ok, s = accepted(rec, key + '/k-dpp', lambda: D.sample_exact_k_dpp(k, mode, random_state=r), label=label,
                             mode=mode, k=k, **rp)
            if ok:
                rec.expect(len(s) == k and len(set(s)) == k, key + '/k-dpp/malformed', 'sample {}'.format(s),
                           k=k, label=label, **rp)


# ---------------------------------------------------------------- requests on finite DPPs
DESCS = ('K', 'K_eig', 'L', 'L_eig', 'gram', 'gram_tall', 'projK', 'projK_eig', 'projK_eig01', 'projL', 'projL_eig',
         'A_zono', 'eval')


def requests(rec, seed, n, part):
    r = np.random.RandomState(seed)
    for it in range(n):
        for desc in DESCS:
            N = int(r.randint(5, 9))
            inputs, new = catalog.fdpp(desc, N)
            inp = inputs(r)
            D = new(inp)
            rp = dict(it=it, seed=seed, N=N, desc=desc)
            proj = desc.startswith('proj') or desc == 'A_zono'
            corr = desc[0] == 'K' or desc.startswith('projK') or desc == 'A_zono'
            rank = 3 if proj else (N - 3 if desc == 'gram' else N)
            warm = r.randint(3)
            if warm and not (warm == 2 and desc == 'projL'):
                ok, _ = rec.call('req/warm', lambda: D.sample_exact(random_state=r) if warm == 1 else
                                 D.sample_exact_k_dpp(3 if proj else min(2, rank), random_state=r), replay=rp)
            rp['warm'] = int(warm)
            bads = ['nope', '', None, 'gs', 'GS ', 'schur', 'CHOL', 'exact', 0, 'E']
            for bad in bads:
                refused(rec, 'req/exact_mode', lambda: D.sample_exact(mode=bad, random_state=r), D, bad=repr(bad), **rp)
                k = 3 if proj else int(r.randint(0, rank + 1))
                refused(rec, 'req/k_mode', lambda: D.sample_exact_k_dpp(k, mode=bad, random_state=r), D, bad=repr(bad),
                        k=k, **rp)
                refused(rec, 'req/mcmc_mode', lambda: D.sample_mcmc(bad if bad != 'E' else 'aed', random_state=r), D,
                        bad=repr(bad), **rp)
            for bad in (-1, -3):
                refused(rec, 'req/k_negative', lambda: D.sample_exact_k_dpp(bad, random_state=r), D, k=bad, **rp)
                for m in ('vfx', 'alpha') if desc == 'eval' else ():
                    refused(rec, 'req/k_negative', lambda: D.sample_exact_k_dpp(bad, mode=m, random_state=r), D,
                            k=bad, mode=m, **rp)
                refused(rec, 'req/mcmc_negative', lambda: D.sample_mcmc_k_dpp(bad, random_state=r), D, k=bad, **rp)
            for k in (rank + 1, rank + 2, N + 1, 50):
                refused(rec, 'req/k_above_rank', lambda: D.sample_exact_k_dpp(
                    k, mode=['GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur'][r.randint(3)], random_state=r), D, k=k, **rp)
                refused(rec, 'req/mcmc_above_rank', lambda: D.sample_mcmc_k_dpp(k, random_state=r), D, k=k, **rp)
            if proj and corr:
                for k in (0, 1, 2):
                    refused(rec, 'req/k_not_rank', lambda: D.sample_exact_k_dpp(k, random_state=r), D, k=k, **rp)
                    refused(rec, 'req/E_not_rank', lambda: D.sample_mcmc('E', size=k, random_state=r), D, k=k, **rp)
                    refused(rec, 'req/E_not_rank', lambda: D.sample_mcmc_k_dpp(k, random_state=r), D, k=k, **rp)
                for m in ('AD', 'AED'):
                    refused(rec, 'req/AD_projection_K', lambda: D.sample_mcmc(m, random_state=r), D, mode=m, **rp)
                refused(rec, 'req/compute_L_projection_K', D.compute_L, D, **rp)
            else:
                refused(rec, 'req/Schur', lambda: D.sample_exact(mode='Schur', random_state=r), D, **rp)
                for k in (1, 3):
                    for s0 in ([0], [0, 1], [0, 1, 2], []):
                        if len(s0) != k:
                            refused(rec, 'req/s_init_size', lambda: D.sample_mcmc_k_dpp(k, s_init=s0, random_state=r), D,
                                    k=k, s0=s0, **rp)
                            refused(rec, 'req/s_init_size', lambda: D.sample_mcmc('E', size=k, s_init=s0, random_state=r),
                                    D, k=k, s0=s0, **rp)
            if proj and corr:
                for s0 in ([0], [0, 1], [0, 1, 2, 3], []):
                    refused(rec, 'req/s_init_size', lambda: D.sample_mcmc('E', size=3, s_init=s0, random_state=r), D,
                            s0=s0, **rp)
            if desc != 'A_zono':
                refused(rec, 'req/zonotope', lambda: D.sample_mcmc('zonotope', random_state=r), D, **rp)
            if desc != 'eval':
                for m in ('vfx', 'alpha'):
                    refused(rec, 'req/no_data', lambda: D.sample_exact(mode=m, random_state=r), D, mode=m, **rp)
                    refused(rec, 'req/no_data', lambda: D.sample_exact_k_dpp(2, mode=m, random_state=r), D, mode=m, **rp)
            for bad in ('kernel', 'K', 'Correlation', 3):
                refused(rec, 'req/plot_kernel', lambda: D.plot_kernel(bad), D, bad=bad, **rp)
            plt.close('all')
            # after all these refusals the object still works
            ok, s = accepted(rec, 'req/still_works', lambda: D.sample_exact(random_state=r), **rp)


def spectra(rec, seed, n):
    """kernels given as matrices: the spectrum is checked by spectral requests; kernels which do not exist are refused"""
    r = np.random.RandomState(seed)
    FP = (V, FloatingPointError)
    for it in range(n):
        N, eps = sizes(r)
        eps = abs(eps)
        U = ref.rand_orth(r, N)
        j = r.randint(N)
        rp = dict(it=it, seed=seed, N=N, eps=eps)
        modes = ('GS', 'GS_bis', 'KuTa12')
        for kt, lo in (('correlation', True), ('correlation', False), ('likelihood', True)):
            lam = r.rand(N) * .9
            lam[j] = -eps if lo else 1 + eps
            nm = 'K' if kt == 'correlation' else 'L'
            M = ref.sym(lam, U)
            for mode in modes:
                D = mk(kt, False, **{nm: M})
                refused(rec, 'spectrum/exact', lambda: D.sample_exact(mode, random_state=r), D, kt=kt, lo=lo, mode=mode, **rp)
                D = mk(kt, False, **{nm: M})
                refused(rec, 'spectrum/k', lambda: D.sample_exact_k_dpp(1, mode, random_state=r), D, kt=kt, lo=lo,
                        mode=mode, **rp)
            D = mk(kt, False, **{nm: M})
            refused(rec, 'spectrum/other_kernel', D.compute_L if nm == 'K' else D.compute_K, D, kt=kt, lo=lo, **rp)
            # a second attempt is refused as well
            refused(rec, 'spectrum/other_kernel', D.compute_L if nm == 'K' else D.compute_K, D, kt=kt, lo=lo, **rp)
            refused(rec, 'spectrum/exact', lambda: D.sample_exact(random_state=r), D, kt=kt, lo=lo, **rp)
        # eigenvalue 1: no likelihood kernel
        lam = r.rand(N) * .9
        lam[r.rand(N) < .3] = 1.
        lam[j] = 1.
        for par in (dict(K=ref.sym(lam, U)), dict(K_eig_dec=(lam, U))):
            nm = list(par)[0]
            for what in ('L', 'k', 'AD', 'AED', 'E', 'mcmc_k', 'plot'):
                D = mk('correlation', False, **par)
                if r.randint(2):
                    rec.call('spectrum/warm', D.sample_exact, random_state=r, replay=rp)
                fn = dict(L=D.compute_L, k=lambda: D.sample_exact_k_dpp(1, random_state=r),
                          AD=lambda: D.sample_mcmc('AD', random_state=r), AED=lambda: D.sample_mcmc('AED', random_state=r),
                          E=lambda: D.sample_mcmc('E', size=1, random_state=r),
                          mcmc_k=lambda: D.sample_mcmc_k_dpp(1, random_state=r),
                          plot=lambda: D.plot_kernel('likelihood'))[what]
                refused(rec, 'exists/L', fn, D, FP, what=what, nm=nm, **rp)
                refused(rec, 'exists/L', fn, D, FP, what=what, nm=nm, again=True, **rp)
                accepted(rec, 'exists/still_works', lambda: D.sample_exact(random_state=r), what=what, nm=nm, **rp)
        plt.close('all')
        # no eigenvector selected: modes are still checked
        for kt, nm in (('correlation', 'K_eig_dec'), ('likelihood', 'L_eig_dec')):
            D = mk(kt, False, **{nm: (np.zeros(N), U)})
            for bad in ('nope', '', 'Schur', None):
                refused(rec, 'req/exact_mode_empty', lambda: D.sample_exact(bad, random_state=r), D, bad=repr(bad), kt=kt, **rp)
                refused(rec, 'req/k_mode_empty', lambda: D.sample_exact_k_dpp(0, bad, random_state=r), D, bad=repr(bad),
                        kt=kt, **rp)
            ok, s = accepted(rec, 'accept/zero_kernel', lambda: D.sample_exact(random_state=r), kt=kt, **rp)
            rec.expect(ok and len(s) == 0, 'accept/zero_kernel/value', 'sample {} of the null kernel'.format(s), **rp)


def free(rec, seed, n):
    """documented free samplers"""
    r = np.random.RandomState(seed)
    for it in range(n):
        N = int(r.randint(3, 10))
        d = int(r.randint(1, N))
        Q = ref.rand_orth(r, N)[:, :d]
        P = Q.dot(Q.T)
        P = (P + P.T) / 2
        rp = dict(it=it, seed=seed, N=N, d=d)
        for m in ('nope', 'KuTa12', '', None):
            refused(rec, 'free/kernel_mode', lambda: es.proj_dpp_sampler_kernel(P, m, random_state=r), m=repr(m), **rp)
        for m in ('nope', 'Chol', 'Schur', '', None):
            refused(rec, 'free/eig_mode', lambda: es.proj_dpp_sampler_eig(Q, m, random_state=r), m=repr(m), **rp)
            refused(rec, 'free/eig_mode', lambda: es.proj_dpp_sampler_eig(Q[:, :0], m, random_state=r), m=repr(m), **rp)
        for m in ('GS', 'Chol', 'Schur'):
            refused(rec, 'free/kernel_size', lambda: es.proj_dpp_sampler_kernel(P, m, size=d + 1, random_state=r), m=m, **rp)
        for m in ('GS', 'GS_bis', 'KuTa12'):
            for V in (Q, Q[:, :0]):
                refused(rec, 'free/eig_size', lambda: es.proj_dpp_sampler_eig(V, m, size=V.shape[1] + 1, random_state=r), m=m, r=V.shape[1], **rp)
        lam = r.rand(N) + .1
        lam[d:] = 0
        U = ref.rand_orth(r, N)
        refused(rec, 'free/k_selector', lambda: es.k_dpp_eig_vecs_selector(lam, U, d + 1, random_state=r), **rp)
        accepted(rec, 'free/k_selector/ok', lambda: es.k_dpp_eig_vecs_selector(lam, U, d, random_state=r), **rp)
        refused(rec, 'free/uniform_permutation', lambda: ec.uniform_permutation(-d, random_state=r), **rp)
        b = float(r.choice([-1., 0., -.5, np.nan]))
        for nm, fn in (('hermite', lambda: rm.mu_ref_normal_sampler_tridiag(0., 1., b, N, random_state=r)),
                       ('laguerre', lambda: rm.mu_ref_gamma_sampler_tridiag(1., 1., b, N, random_state=r)),
                       ('jacobi', lambda: rm.mu_ref_beta_sampler_tridiag(1., 1., b, N, random_state=r)),
                       ('circular', lambda: rm.mu_ref_unif_unit_circle_sampler_quindiag(
                           b if r.randint(2) else 1.5, N, random_state=r))):
            refused(rec, 'free/tridiag_beta/' + nm, fn, b=b, **rp)
        b = [3, 0, 2.5, -1, 8][r.randint(5)]
        for nm, fn in (('hermite', lambda: rm.hermite_sampler_full(N, b, random_state=r)),
                       ('laguerre', lambda: rm.laguerre_sampler_full(N + 1, N, b, random_state=r)),
                       ('jacobi', lambda: rm.jacobi_sampler_full(N + 1, N + 2, N, b, random_state=r)),
                       ('circular', lambda: rm.circular_sampler_full(N, b, ['QR', 'Hermite'][r.randint(2)], random_state=r))):
            refused(rec, 'free/full_beta/' + nm, fn, b=b, **rp)
        refused(rec, 'free/full_beta/circularQR4', lambda: rm.circular_sampler_full(N, 4, 'QR', random_state=r), **rp)


# ---------------------------------------------------------------- other classes
def exotic(rec, seed, n):
    r = np.random.RandomState(seed)
    for it in range(n):
        rp = dict(it=it, seed=seed)
        m = int(r.randint(1, 60))
        for C in (ex.CarriesProcess, ex.DescentProcess):
            D = C()
            if r.randint(2):
                D.sample(5, random_state=r)
            refused(rec, 'exotic/negative_size/' + C.__name__, lambda: D.sample(size=-m, random_state=r), D, m=m, **rp)
            accepted(rec, 'exotic/ok/' + C.__name__, lambda: D.sample(size=m, random_state=r), m=m, **rp)
        D = ex.VirtualDescentProcess(r.rand())
        refused(rec, 'exotic/negative_size/Virtual', lambda: D.sample(size=-m - 1, random_state=r), D, m=m, **rp)
        for x in (-10**r.uniform(-6, 1), 1 + 10**r.uniform(-6, 1), np.nan):
            refused(rec, 'exotic/x_0', lambda: ex.VirtualDescentProcess(x), x=float(x), **rp)
        for x in (0, 1, 0., 1., r.rand(), np.float32(.5)):
            accepted(rec, 'exotic/x_0/ok', lambda: ex.VirtualDescentProcess(x).sample(4, random_state=r), x=float(x), **rp)
        D = ex.PoissonizedPlancherel(-r.rand() - 1e-3)
        refused(rec, 'exotic/theta', lambda: D.sample(random_state=r), D, theta=D.theta, **rp)
        rec.expect(not D.list_of_young_diag, 'exotic/theta/recorded', 'a diagram was recorded by a refused call', **rp)
        # graphs
        a, b = int(r.randint(1, 5)), int(r.randint(1, 5))
        g = nx.disjoint_union(nx.gnp_random_graph(a, .8, seed=int(r.randint(1000))), nx.gnp_random_graph(b, .8, seed=it))
        refused(rec, 'ust/disconnected', lambda: ex.UST(g), a=a, b=b, **rp)
        g = catalog._graph(r, int(r.randint(3, 8)))
        U = ex.UST(g)
        for bad in ('wilson', 'nope', '', None, 'AldousBroder', 'markov-chain', 'GS '):
            refused(rec, 'ust/mode', lambda: U.sample(mode=bad, random_state=r), U, bad=repr(bad), **rp)
        g1 = nx.path_graph(int(r.randint(1, 5)))
        for mode in ('Wilson', 'Aldous-Broder'):
            accepted(rec, 'ust/small', lambda: ex.UST(g1).sample(mode=mode, random_state=r), n=len(g1), mode=mode, **rp)


def beta(rec, seed, n):
    r = np.random.RandomState(seed)
    CL = dict(hermite=be.HermiteEnsemble, laguerre=be.LaguerreEnsemble, jacobi=be.JacobiEnsemble,
              circular=be.CircularEnsemble, ginibre=be.GinibreEnsemble)
    for it in range(n):
        for nm, C in CL.items():
            rp = dict(it=it, seed=seed, cls=nm)
            for bad in (-1, -2, -3 if nm == 'circular' else -10**r.uniform(-3, 0)) + (() if nm == 'circular' else (np.nan,)):
                refused(rec, 'beta/negative/' + nm, lambda: C(bad), bad=float(bad), **rp)
            good = {'circular': [0, 1, 2, 3, 4, 7], 'ginibre': [2]}.get(nm, [0, 1, 2, 4, .5, 3, 2.7])
            b = good[r.randint(len(good))]
            E = C(b)
            rp['beta'] = b
            for f in (E.plot, E.hist):
                for norm in (True, False):
                    refused(rec, 'beta/display_before/' + nm, lambda: f(normalization=norm), E, norm=norm, **rp)
            N = int(r.randint(1, 7))
            rp['N'] = N
            kw = {'laguerre': dict(size_M=N + int(r.randint(0, 3))),
                  'jacobi': dict(size_M1=N + int(r.randint(0, 3)), size_M2=N + int(r.randint(0, 3)))}.get(nm, {})
            if nm == 'ginibre':
                refused(rec, 'beta/ginibre_beta', lambda: C([1, 4, 0, 2.5, 3][r.randint(5)]), **rp)
                refused(rec, 'beta/ginibre_banded', lambda: E.sample_banded_model(size_N=N, random_state=r), E,
                        (NotImplementedError,), **rp)
            if r.randint(2) and not (b == 0 and kw):
                f = E.sample_banded_model if nm != 'ginibre' else E.sample_full_model
                accepted(rec, 'beta/ok/' + nm, lambda: f(size_N=N, random_state=r, **kw), kw=kw, **rp)
            # full models exist for beta in {0, 1, 2, 4}
            if b not in (0, 1, 2, 4) and nm != 'ginibre':
                refused(rec, 'beta/full_beta/' + nm, lambda: E.sample_full_model(size_N=N, random_state=r, **kw), E, **rp)
            elif nm != 'ginibre' and not (b == 0 and kw):
                accepted(rec, 'beta/full/' + nm, lambda: E.sample_full_model(size_N=N, random_state=r, **kw), kw=kw, **rp)
            # sizes
            models = ['full'] if nm == 'ginibre' else ['full', 'banded']
            for mod in models:
                f = getattr(E, 'sample_%s_model' % mod)
                if mod == 'full' and b not in (0, 1, 2, 4):
                    continue
                refused(rec, 'beta/negative_size/' + nm, lambda: f(size_N=-N, random_state=r), E, model=mod, **rp)
                if nm == 'laguerre':
                    refused(rec, 'beta/M<N', lambda: f(size_N=N + 1, size_M=N, random_state=r), E, model=mod, **rp)
                    if b == 0:
                        refused(rec, 'beta/shape0', lambda: f(size_N=N, size_M=N + 1, random_state=r), E, model=mod, **rp)
                if nm == 'jacobi':
                    for m1, m2 in ((N, N + 3), (N + 3, N), (N, N)):
                        refused(rec, 'beta/M<N', lambda: f(size_N=N + 1, size_M1=m1, size_M2=m2, random_state=r), E,
                                model=mod, m=(m1, m2), **rp)
                    if b == 0:
                        refused(rec, 'beta/shape0', lambda: f(size_N=N, size_M1=N + 1, size_M2=N + 3, random_state=r), E,
                                model=mod, **rp)
            neg = -10**r.uniform(-2, 1)
            if nm == 'hermite':
                refused(rec, 'beta/scale', lambda: E.sample_banded_model(scale=neg, size_N=N, random_state=r), E, neg=neg, **rp)
            if nm == 'laguerre':
                refused(rec, 'beta/scale', lambda: E.sample_banded_model(shape=1., scale=neg, size_N=N, random_state=r), E,
                        neg=neg, **rp)
                refused(rec, 'beta/shape', lambda: E.sample_banded_model(shape=neg, size_N=N, random_state=r), E, neg=neg, **rp)
            if nm == 'jacobi':
                refused(rec, 'beta/shape', lambda: E.sample_banded_model(a=neg, b=1., size_N=N, random_state=r), E, neg=neg, **rp)
                refused(rec, 'beta/shape', lambda: E.sample_banded_model(a=1., b=neg, size_N=N, random_state=r), E, neg=neg, **rp)
                refused(rec, 'beta/shape', lambda: E.sample_banded_model(a=0., b=1., size_N=N, random_state=r), E, **rp)
            if nm == 'circular':
                for bad in (1.5, 2.5, .5, -.5):
                    refused(rec, 'beta/circular_int', lambda: C(bad), bad=bad, **rp)
                if b:
                    for bad in ('nope', '', None, 'qr', 'hermite'):
                        refused(rec, 'beta/haar_mode', lambda: E.sample_full_model(size_N=N, haar_mode=bad, random_state=r),
                                E, bad=repr(bad), **rp)
                refused(rec, 'beta/circularQR4', lambda: C(4).sample_full_model(size_N=N, haar_mode='QR', random_state=r), **rp)
        plt.close('all')


def polynomial(rec, seed, n):
    r = np.random.RandomState(seed)
    B = pp.BetaEnsemblePolynomialPotential
    for it in range(n):
        g = lambda: r.uniform(.1, 2) * r.choice([-1, 1])
        h = lambda: r.uniform(.1, 2)
        rp = dict(it=it, seed=seed)
        for b in (0, -1, -h(), 0., np.nan):
            refused(rec, 'pot/beta', lambda: B(b, [h(), 0, 0]), b=float(b), **rp)
        for label, cf in (('degree8', [h()] + [0] * 8), ('degree8', [h(), 0, g(), 0, 0, 0, g(), 0, 0]),
                          ('degree10', [h()] + [0] * 10), ('degree12', [h()] + [0] * 12),
                          ('odd', [h(), 0]), ('odd', [g(), 0, 0, 0]), ('odd', [h(), g(), 0, 0]),
                          ('odd', [h(), 0, 0, 0, 0, 0]), ('odd', [h()] + [0] * 7), ('odd', [h()] + [0] * 9),
                          ('g5', [h(), g(), 0, 0, 0, 0, 0]), ('g5', [h(), 1e-3 * g(), g(), 0, g(), 0, 0]),
                          ('leading', [-h(), 0, 0]), ('leading', [-h(), g(), 0]), ('leading', [-h(), 0, h(), 0, 0]),
                          ('leading', [-h(), 0, h(), 0, h(), 0, 0]), ('constant', [g()]), ('constant', [0, 0, g()]),
                          ('constant', [0.]), ('constant', [0, 0, 0]), ('padded odd', [0, h(), 0, 0, 0]),
                          ('padded leading', [0, 0, -h(), 0, h(), 0, 0])):
            refused(rec, 'pot/' + label.replace(' ', '_'), lambda: B(2, cf), cf=cf, **rp)
        for label, cf in (('x2', [h(), 0, 0]), ('x4', [h(), 0, g(), 0, 0]), ('x6', [h(), 0, 0, g(), 0, 0, 0]),
                          ('g3', [h(), g(), 0, 0, 0]), ('g1', [h(), 0, h(), g(), 0]), ('padded', [0, 0, h(), 0, 0]),
                          ('int', [int(1 + 3 * r.rand()), 0, 0]), ('tuple', (h(), 0, 0)), ('g0', [h(), 0, h(), 0, g()])):
            b = [1, 2, 4, .5, 3.3][r.randint(5)]
            ok, E = accepted(rec, 'pot/ok/' + label, lambda: B(b, cf), cf=list(cf), b=b, **rp)
            if not ok:
                continue
            if label in ('x2', 'g1', 'padded', 'int', 'tuple', 'g0'):
                accepted(rec, 'pot/exact_ok/' + label, lambda: E.sample_mcmc(
                    N=3, nb_gibbs_passes=2, sample_exact_cond=True, random_state=r), cf=list(cf), b=b, **rp)
            else:
                accepted(rec, 'pot/mala_ok/' + label, lambda: E.sample_mcmc(
                    N=2, nb_gibbs_passes=2, nb_mala_steps=2, random_state=r), cf=list(cf), b=b, **rp)
        for label, cf in (('exact_g3', [h(), g(), h(), 0, 0]), ('exact_g3', [h(), 1e-4, h(), g(), 0]),
                          ('exact_deg6', [h(), 0, 0, 0, 0, 0, 0]), ('exact_deg6', [h(), 0, h(), 0, h(), 0, 0]),
                          ('exact_negative', [h(), 0, -h(), 0, 0]), ('exact_negative', [h(), 0, -1e-3, g(), 0])):
            ok, E = accepted(rec, 'pot/ok/' + label, lambda: B(2, cf), cf=cf, **rp)
            if ok:
                for kw in (dict(), dict(return_chain_of_eig_vals=True), dict(return_chain_of_lambda_max=True)):
                    refused(rec, 'pot/' + label, lambda: E.sample_mcmc(N=3, nb_gibbs_passes=2, sample_exact_cond=True,
                                                                       random_state=r, **kw), cf=cf, kw=sorted(kw), **rp)
                rec.expect(E.N is None, 'pot/{}/state'.format(label), 'a refused call changed the recorded size', **rp)


def ope(rec, seed, n):
    r = np.random.RandomState(seed)
    M = jo.MultivariateJacobiOPE
    for it in range(n):
        d = int(r.randint(1, 5))
        N = int(r.randint(1, 12))
        p = .5 - r.rand(d, 2)
        rp = dict(it=it, seed=seed, d=d, N=N)
        for bad in (0, -1, -N, float(N), N + .5, None, str(N), [N]):
            refused(rec, 'ope/N', lambda: M(bad, p), bad=repr(bad), **rp)
        for bad in (p.ravel(), p.T if d != 2 else p[None], p[:, :1], np.hstack([p, p]), p[:0], 0.3, [], [[]],
                    np.hstack([p, p[:, :1]]), p[None], p.ravel()[:-1]):
            refused(rec, 'ope/shape', lambda: M(N, bad), shape=np.shape(bad), **rp)
        i, j = r.randint(d), r.randint(2)
        if d == 1:
            for v in (-1., -1 - 10**r.uniform(-6, 1), np.nan):
                q = p.copy()
                q[i, j] = v
                refused(rec, 'ope/params_1d', lambda: M(N, q), v=v, j=int(j), **rp)
            for v in (.5, -.5, 3.7, -1 + 1e-3, 0, 12.):
                q = p.copy()
                q[i, j] = v
                ok, o = accepted(rec, 'ope/params_1d/ok', lambda: M(N, q), v=v, **rp)
                if ok:
                    accepted(rec, 'ope/sample', lambda: o.sample(random_state=r), v=v, **rp)
        else:
            for v in (.5 + 10**r.uniform(-6, 1), -.5 - 10**r.uniform(-6, 0), np.nan, -1., 1.):
                q = p.copy()
                q[i, j] = v
                refused(rec, 'ope/params', lambda: M(N, q), v=v, i=int(i), j=int(j), **rp)
            for v in (.5, -.5, 0):
                q = p.copy()
                q[i, j] = v
                ok, o = accepted(rec, 'ope/params/ok', lambda: M(N, q.tolist() if r.randint(2) else q), v=v, **rp)
        ok, o = accepted(rec, 'ope/ok', lambda: M(N, p), **rp)
        if ok and d >= 3:
            refused(rec, 'ope/plot', lambda: o.plot(np.zeros((N, d))), exc=(NotImplementedError,), **rp)


def seeds(rec, seed, names):
    """an invalid random source is refused by every sampler and nothing is recorded"""
    cs = {c.name: c for c in catalog.cases()}
    bads = ['abc', 1.5, np.random.default_rng(0), [1], -1, 2**32, (1,), np.array([.5]), {}]
    for nm in names:
        c = cs[nm]
        if not c.random:
            continue
        r = np.random.RandomState(seed)
        inp = c.inputs(r)
        obj = c.new(inp)
        if c.history and r.randint(2):
            ok, _ = rec.call('seed/warm', c.call, obj, inp, 3, replay=dict(case=nm))
        for bad in bads:
            refused(rec, 'seed/' + nm.split('/')[0], lambda: c.call(obj, inp, bad), obj if c.history else None, case=nm,
                    bad=repr(bad)[:30])
        for good in (0, np.int64(5), np.random.RandomState(3), 2**32 - 1, np.random, None):
            accepted(rec, 'seed/ok/' + nm.split('/')[0], lambda: c.call(obj, inp, good), case=nm, good=repr(good)[:30])


def types(rec, seed, part):
    """numpy integers, integer arrays and lists of valid values are valid"""
    typecases.watch(rec, seed, part, 4, compare=False)


def jobs(tier, seed):
    t = dict(quick=1, thorough=12)[tier]
    out = []
    for i in range(t if t > 1 else 1):
        s = 1000 * seed + 37 * i
        out += [Job('constructor#%d' % i, constructor, seed=s, n=40),
                Job('tolerance#%d' % i, tolerance, seed=s + 1, n=25),
                Job('requests#%d' % i, requests, seed=s + 2, n=3, part=i),
                Job('spectra#%d' % i, spectra, seed=s + 3, n=20),
                Job('free#%d' % i, free, seed=s + 4, n=30),
                Job('exotic#%d' % i, exotic, seed=s + 5, n=30),
                Job('beta#%d' % i, beta, seed=s + 6, n=12),
                Job('polynomial#%d' % i, polynomial, seed=s + 7, n=4),
                Job('ope#%d' % i, ope, seed=s + 8, n=30)]
    names = [c.name for c in catalog.cases() if not c.slow]
    k = 6
    for i in range(k):
        out.append(Job('seeds#%d' % i, seeds, seed=1000 * seed + i, names=names[i::k], timeout=600))
    for i in range(4):
        for k in range(t):
            out.append(Job('types#%d/%d' % (i, k), types, seed=1000 * seed + 700 + k, part=i, timeout=600))
    return out
