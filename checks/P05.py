"""P05: correlation/likelihood kernel conversions."""
import itertools
import warnings

import numpy as np

from mon import finite, ref
from mon.core import Job
from dppy.finite_dpps import FiniteDPP

RULE = ('each case = (parametrisation, kernel family, N, order of compute_K/compute_L/eigendecomposition-'
        'triggering calls); computed K and L are compared with reference kernels derived independently '
        'from the parameters, with each other through K = L (I+L)^-1, and monitored for symmetry, '
        'spectrum and idempotence; non-trivial = N >= 2')
ASSUMPTIONS = ['eigenvalues of K away from 1 by > 1e-9 when L is requested']

ORDERS = (('K',), ('L',), ('K', 'L'), ('L', 'K'), ('s', 'K', 'L'), ('s', 'L', 'K'), ('K', 's', 'L'),
          ('K', 'K', 'L', 'L'), ('L', 's', 'K'), ('k', 'K', 'L'), ('k', 'L', 'K'))


def conv(rec, cases):
    warnings.simplefilter('ignore')
    for param, kern, n, seed, order in cases:
        factory, info = build(param, kern, n, seed)
        key = 'conv/{}'.format(param)
        rp = dict(param=param, kern=kern, n=n, seed=seed, order=order)
        dpp = factory()
        hasL = 'L' in info and 'proj' not in info
        ok = True
        if 'k' in order and hasL and np.linalg.matrix_rank(info['L']) < 1:
            continue          # a 1-DPP needs rank >= 1
        for o in order:
            if o == 'K':
                ok, _ = rec.call(key + '/compute_K', dpp.compute_K, replay=rp)
            elif o == 'L' and hasL:
                ok, _ = rec.call(key + '/compute_L', dpp.compute_L, replay=rp)
            elif o == 's':
                ok, _ = rec.call(key + '/sample', dpp.sample_exact, random_state=0, replay=rp)
            elif o == 'k':
                if hasL:
                    ok, _ = rec.call(key + '/sample_k', dpp.sample_exact_k_dpp, size=1, random_state=0, replay=rp)
                else:
                    ok, _ = rec.call(key + '/sample_k', dpp.sample_exact_k_dpp, size=info['proj'],
                                     random_state=0, replay=rp)
            if not ok:
                break
        if not ok:
            continue
        if 'K' in order:
            check(rec, key + '/K', dpp.K, info['K'], rp)
        if 'L' in order and hasL:
            check(rec, key + '/L', dpp.L, info['L'], rp)
            if 'K' in order:
                A = np.linalg.solve(np.eye(n) + dpp.L, dpp.L)
                err = np.max(np.abs(A - dpp.K))
                rec.expect(err < 1e-7, key + '/relation', 'K != L(I+L)^-1, off by {:.3g}'.format(err), **rp)
        elif 'L' in order:
            try:
                dpp.compute_L()
                rec.violate(key + '/projL', 'compute_L accepted a projection correlation kernel', **rp)
            except ValueError:
                pass
        rec.observe((param, kern, n, seed, order), nontrivial=n > 1,
                    sample=dict(rp, trace_K=float(np.trace(info['K']))))


def check(rec, key, M, R, rp):
    if not rec.expect(M is not None and getattr(M, 'shape', None) == R.shape, key + '/shape',
                      'kernel has shape {}'.format(getattr(M, 'shape', None)), **rp):
        return
    scale = 1 + np.max(np.abs(R))
    err = np.max(np.abs(M - R))
    rec.expect(err <= 1e-7 * scale, key, 'kernel is off by {:.3g} (scale {:.3g})'.format(err, scale), **rp)
    rec.expect(np.max(np.abs(M - M.T)) <= 1e-9 * scale, key + '/symmetry', 'not symmetric', **rp)


def build(param, kern, n, seed):
    if param.startswith('gram:'):
        r = np.random.RandomState(seed)
        d = {'wide': max(1, n // 2), 'wide_rankdef': max(2, n - 1), 'square': n, 'tall': n + 3,
             'tall_rankdef': n + 3, 'one': 1}[param[5:]]
        if param.endswith('rankdef'):
            rk = max(1, min(d, n) // 2)
            Phi = r.randn(d, rk).dot(r.randn(rk, n))
        else:
            Phi = r.randn(d, n)
        L = Phi.T.dot(Phi)
        w, U = np.linalg.eigh(L)
        w = np.maximum(w, 0)
        return (lambda: FiniteDPP('likelihood', L_gram_factor=Phi.copy())), \
            dict(L=L, K=ref.sym(w / (1 + w), U))
    return finite.build(param, kern, n, seed)


def near_one(rec, seed, count):
    """a correlation kernel with an eigenvalue 1 has no likelihood kernel: computing L
    must be refused, never return garbage"""
    r = np.random.RandomState(seed)
    for c in range(count):
        n = r.randint(2, 9)
        Q = ref.rand_orth(r, n)
        d = r.randint(1, n + 1)
        vals = np.concatenate([np.ones(d), r.rand(n - d) * .9])
        exact_one = c % 2 == 0
        dpp = FiniteDPP('correlation', K_eig_dec=(vals, Q)) if exact_one else \
            FiniteDPP('correlation', K=ref.sym(vals, Q))
        rp = dict(n=n, ones=d, seed=seed, case=c, through='K_eig_dec' if exact_one else 'K')
        for nm, f in (('compute_L', lambda: dpp.compute_L()),
                      ('sample_exact_k_dpp', lambda: dpp.sample_exact_k_dpp(size=1, random_state=0))):
            try:
                f()
            except (FloatingPointError, ValueError):
                rec.observe(('near_one', rp['through'], n, d, nm), sample=dict(rp, call=nm, outcome='refused'))
                continue
            rec.observe(('near_one', rp['through'], n, d, nm))
            rec.violate('eig_one/{}/{}'.format(rp['through'], nm),
                        '{} did not refuse a correlation kernel with {} eigenvalue(s) 1'.format(nm, d), **rp)


def extreme(rec, seed, count):
    """spectra over many orders of magnitude: every eigenvalue which is above the rounding errors of the description is
    converted accurately, including eigenvalues of K close to 1 and small eigenvalues of factor descriptions"""
    warnings.simplefilter('ignore')
    r = np.random.RandomState(seed)
    eps = np.finfo(float).eps
    for c in range(count):
        n = int(r.randint(2, 13))
        Q = ref.rand_orth(r, n)
        kind = ('K_eig_dec', 'K', 'L_eig_dec', 'L', 'gram_wide', 'gram_tall')[c % 6]
        m = n - 1 if kind == 'gram_wide' else n
        U = Q[:, :m]
        if kind[0] == 'K':
            top = 9 if kind == 'K_eig_dec' else 7
            k = np.where(r.rand(m) < .5, 1 - 10.0**r.uniform(-top, -1, m), 10.0**r.uniform(-6, -.1, m))
            noise = (2 if kind == 'K_eig_dec' else 40 * n) * eps
            ell = k / (1 - k)
            factory = (lambda: FiniteDPP('correlation', K_eig_dec=(k.copy(), U.copy()))) if kind == 'K_eig_dec' else \
                (lambda: FiniteDPP('correlation', K=ref.sym(k, U)))
            err_k, err_l = noise + 0 * k, noise * (1 + ell)**2
        else:
            ell = 10.0**r.uniform(-2, r.choice([3, 8, 10.5]), m)
            k = ell / (1 + ell)
            noise = 40 * n * eps * (ell.max() if kind != 'L_eig_dec' else 0)
            err_l = noise + 10 * eps * ell
            err_k = err_l / (1 + ell)**2 + 40 * n * eps
            if kind == 'L_eig_dec':
                factory = lambda: FiniteDPP('likelihood', L_eig_dec=(ell.copy(), U.copy()))
            elif kind == 'L':
                factory = lambda: FiniteDPP('likelihood', L=ref.sym(ell, U))
            else:
                d = m if kind == 'gram_wide' else m + 2
                W = ref.rand_orth(r, d)[:, :m]
                Phi = (W * np.sqrt(ell)).dot(U.T)
                factory = lambda: FiniteDPP('likelihood', L_gram_factor=Phi.copy())
        key = 'extreme/' + kind
        order = 'KL' if r.rand() < .5 else 'LK'
        rp = dict(kind=kind, n=n, m=m, order=order, eig_K=k, eig_L=ell, seed=seed, case=c)
        dpp = factory()
        if r.rand() < .4:
            ok, _ = rec.call(key + '/sample', dpp.sample_exact, random_state=0, replay=rp)
        ok = True
        for o in order:
            ok &= rec.call(key + '/compute', dpp.compute_K if o == 'K' else dpp.compute_L, replay=rp)[0]
        if not ok:
            continue
        for nm, M, lam, err in (('K', dpp.K, k, err_k), ('L', dpp.L, ell, err_l)):
            B = U.T.dot(M).dot(U)
            # rotation of eigenvectors by rounding errors of the description: off-diagonal of the size of the noise
            off = np.abs(np.diag(B) - lam) / (err + 200 * n * eps * lam.max())
            rec.expect(off.max() < 100, key + '/' + nm, 'eigenvalue {:.6g} of {} became {:.6g} ({:.3g} times the rounding '
                       'errors)'.format(lam[off.argmax()], nm, np.diag(B)[off.argmax()], off.max()), **rp)
            rec.expect(np.max(np.abs(M - M.T)) <= 1e-9 * (1 + np.abs(M).max()), key + '/symmetry', 'not symmetric', **rp)
        rec.observe((key, n, seed, c), sample=rp)


def jobs(tier, seed):
    th = tier == 'thorough'
    cases = []
    base = (1, 2, 3, 5, 8, 25) if not th else (1, 2, 3, 4, 5, 6, 8, 12, 20, 25, 40, 60)
    big = (150,) if not th else (100, 150, 280)
    for param in finite.K_PARAMS + finite.L_PARAMS + finite.PROJ_PARAMS + \
            tuple('gram:' + x for x in ('wide', 'wide_rankdef', 'square', 'tall', 'tall_rankdef', 'one')):
        kerns = finite.L_KERNS
        if param.startswith('K'):
            kerns = ('generic', 'repeated', 'diag', 'block', 'tiny')
        elif param.startswith('proj'):
            kerns = finite.PROJ_KERNS
        elif param.startswith('gram'):
            kerns = ('generic',)
        for kern in kerns:
            for n in base + (big if kern in ('generic', 'large') else ()):
                if n < 3 and kern in ('nearsing', 'rankdef', 'tiny', 'two_scales'):
                    continue
                if n == 1 and param in ('proj_K_thin',):
                    continue
                for order in (ORDERS if n <= 60 else ORDERS[:3]):
                    for rep in range(1 if not th else 4):
                        cases.append((param, kern, n, 100 * seed + n + 1000 * rep, order))
    nb = 16
    out = [Job('conv#%d' % b, conv, timeout=600, cases=cases[b::nb]) for b in range(nb)]
    for b in range(8):
        out.append(Job('extreme#%d' % b, extreme, seed=1000 * seed + b, count=120 if not th else 3000))
    out.append(Job('near_one', near_one, seed=seed, count=60 if not th else 1000))
    return out
