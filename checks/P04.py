"""P04: what an object samples does not depend on what was done with it before."""
import copy
import warnings

import numpy as np

from mon import finite, ref
from mon.core import Job
from mon.lawcheck import check_law

RULE = ('each case = (parametrisation, kernel, random history of public operations on one object, final '
        'draw); after the history the exact law of the final draw (over all its entropy branches, on '
        'deep copies of the aged object) is compared with the law of the specified DPP / k-DPP, and '
        'compute_K / compute_L with the reference kernels; non-trivial = history of >= 1 operation')
ASSUMPTIONS = ['N = 4', 'operations that raise on a fresh object are not part of histories']

PARAMS = finite.K_PARAMS + finite.L_PARAMS + finite.PROJ_PARAMS + ('projL_L', 'projL_L_eig_dec', 'L_gram_rankdef')


ILL = tuple('ill_' + k for k in finite.ILL_KINDS)


def build(param, kern, n, seed):
    if param in ILL:
        factory, w, U = finite.illcond(param[4:], n, seed)
        return factory, dict(L=ref.sym(w, U), K=ref.sym(w / (1 + w), U), w=w, U=U)
    if param == 'L_gram_rankdef':
        from dppy.finite_dpps import FiniteDPP
        r = np.random.RandomState(seed)
        d = n - 1
        Phi = r.randn(d, 2).dot(r.randn(2, n))
        L = Phi.T.dot(Phi)
        w, U = np.linalg.eigh(L)
        w = np.maximum(w, 0)
        return (lambda: FiniteDPP('likelihood', L_gram_factor=Phi.copy())), \
            dict(L=L, K=ref.sym(w / (1 + w), U))
    return finite.build(param, kern, n, seed)


def operations(param, info, n):
    """all public operations valid on a fresh object: name -> callable(dpp, rng)"""
    ops = {}
    proj = 'proj' in info
    rank = len(info['w']) if 'w' in info else int(np.linalg.matrix_rank(info['L'] if 'L' in info else info['K'], tol=1e-9))
    eigmodes = ('GS', 'GS_bis', 'KuTa12')
    modes = finite_modes(param)
    for m in modes:
        ops['exact/' + m] = lambda d, rng, m=m: d.sample_exact(mode=m, random_state=rng)
    sizes = range(1, rank + 1) if 'L' in info else ((info['proj'],) if proj else ())
    kmodes = {'proj_K': ('GS', 'Chol', 'Schur'), 'projL_L': ('GS', 'Chol', 'Schur')}.get(param, eigmodes)
    for k in sizes:
        for m in kmodes:
            ops['kdpp/{}/{}'.format(m, k)] = lambda d, rng, m=m, k=k: d.sample_exact_k_dpp(
                size=k, mode=m, random_state=rng)
        ops['mcmc_k/{}'.format(k)] = lambda d, rng, k=k: d.sample_mcmc_k_dpp(
            size=k, nb_iter=3, random_state=rng)
    if 'L' in info:
        for m in (('AED', 'AD') if rank else ()):   # L = 0 needs an initial state
            ops['mcmc/' + m] = lambda d, rng, m=m: d.sample_mcmc(m, nb_iter=3, random_state=rng)
        ops['compute_L'] = lambda d, rng: d.compute_L()
    ops['compute_K'] = lambda d, rng: d.compute_K()
    ops['plot/correlation'] = lambda d, rng: plot(d, 'correlation')
    if 'L' in info:
        ops['plot/likelihood'] = lambda d, rng: plot(d, 'likelihood')
    ops['flush'] = lambda d, rng: d.flush_samples()
    ops['str'] = lambda d, rng: str(d)
    return ops


def plot(d, kernel_type):
    import matplotlib.pyplot as plt
    try:
        d.plot_kernel(kernel_type)
    finally:
        plt.close('all')


def finite_modes(param):
    if param in ('proj_K',):
        return ('GS', 'Chol', 'Schur')
    if param.startswith('proj_'):
        return ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur')
    return ('GS', 'GS_bis', 'KuTa12', 'Chol')


def histories(rec, param, kern, seed, count, maxlen):
    warnings.simplefilter('ignore')
    n = 4
    factory, info = build(param, kern, n, seed)
    ops = operations(param, info, n)
    names = sorted(ops)
    draws = [x for x in names if x.startswith(('exact/', 'kdpp/'))]
    law_dpp = ref.law_K(info['K'])
    h = np.random.RandomState(seed * 31 + 7)
    # which operations are valid on a fresh object?
    valid = []
    for nm in names:
        try:
            for s in range(3):
                ops[nm](factory(), np.random.RandomState(s))
            valid.append(nm)
        except (ValueError, FloatingPointError) as e:
            rec.count('op_invalid_on_fresh_object')
            if nm in draws and not nm.startswith('mcmc'):
                rec.violate('fresh/{}/{}'.format(param, nm.split('/')[1]),
                            'operation {} refused on a fresh object: {}'.format(nm, e), param=param, kern=kern)
    draws = [d for d in draws if d in valid]
    mutating = [v for v in valid if not v.startswith(('flush', 'str'))] + ['flush']
    for c in range(count):
        hist = [mutating[i] for i in h.randint(len(mutating), size=h.randint(1, maxlen + 1))]
        final = draws[h.randint(len(draws))]
        rp = dict(param=param, kern=kern, seed=seed, history=hist, final=final)
        dpp = factory()
        rng = np.random.RandomState(1234 + c)
        ok = True
        for op in hist:
            ok, _ = rec.call('history/{}/{}'.format(param, op.split('/')[0]), ops[op], dpp, rng, replay=rp)
            if not ok:
                break
        if not ok:
            continue
        rec.count('operations', len(hist))
        if final.startswith('exact'):
            law = law_dpp
        elif 'w' in info:
            law = finite.mixture_law(info['w'], info['U'], int(final.split('/')[2]))
        else:
            law = ref.law_kdpp(info['L'] if 'L' in info else info['K'], int(final.split('/')[2]))
        tol = 1e-5 if 'w' in info else 1e-6

        def run(rng):
            d = copy.copy(dpp)
            d.__dict__ = copy.deepcopy(dpp.__dict__) if 'L_eval' not in param else _dc(dpp)
            return finite.canon(ops[final](d, rng), n)
        check_law(rec, 'history_law/{}/{}'.format(param, final.split('/')[0]), run, law,
                  tol=tol, replay=rp)
        # kernels after the history
        ok, _ = rec.call('history/{}/compute_K'.format(param), dpp.compute_K, replay=rp)
        if ok:
            err = np.max(np.abs(dpp.K - info['K']))
            rec.expect(err < tol / 10 * (1 + np.max(np.abs(info['K']))), 'history_kernel/{}/K'.format(param),
                       'K after the history is off by {:.3g}'.format(err), **rp)
        if 'compute_L' in valid:
            ok, _ = rec.call('history/{}/compute_L'.format(param), dpp.compute_L, replay=rp)
            if ok:
                err = np.max(np.abs(dpp.L - info['L']))
                rec.expect(err < 1e-7 * (1 + np.max(np.abs(info['L']))), 'history_kernel/{}/L'.format(param),
                           'L after the history is off by {:.3g}'.format(err), **rp)


def _dc(dpp):
    d = dict(dpp.__dict__)
    f = d.pop('eval_L')
    out = copy.deepcopy(d)
    out['eval_L'] = f
    return out


def jobs(tier, seed):
    th = tier == 'thorough'
    out = []
    for param in PARAMS + ILL:
        kerns = ('generic', 'block')
        if param in ILL:
            kerns = ('spread',)
        elif param.startswith('L_') or param == 'L':
            kerns = ('generic', 'rankdef', 'large')
        if param.startswith('K'):
            kerns = ('generic', 'zero_one') if param != 'K_thin' else ('generic', 'diag')
        for kern in kerns:
            for rep in range(1 if not th else 12):
                out.append(Job('histories#{}/{}/{}'.format(param, kern, rep), histories, timeout=800,
                               param=param, kern=kern, seed=1000 * seed + 13 * rep,
                               count=45 if not th else 90, maxlen=4 if not th else 7))
    return out
