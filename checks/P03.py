"""P03: projection DPPs have fixed cardinality and the det(K_S) law."""
import warnings

import numpy as np

from dppy import exact_sampling as es
from mon import finite, groups, ref, stats
from mon.core import Job
from mon.lawcheck import check_law

RULE = ('each case = (projection parametrisation, kernel family, N, rank, entry point, mode); exact '
        'output law over all entropy branches vs det(K_S) on sets of size rank(K); non-trivial = '
        'more than one outcome and branch')
ASSUMPTIONS = ['exact law for N <= 6; statistical inclusion/pair monitors for N = 40']
MODES = {'proj_K': ('GS', 'Chol', 'Schur'),
         'proj_K_eig_dec': ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur'),
         'proj_K_thin': ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur'),
         'proj_A_zono': ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur')}
KMODES = {'proj_K': ('GS', 'Chol', 'Schur'),
          'proj_K_eig_dec': ('GS', 'GS_bis', 'KuTa12'),
          'proj_K_thin': ('GS', 'GS_bis', 'KuTa12'),
          'proj_A_zono': ('GS', 'GS_bis', 'KuTa12')}


def exact(rec, cases):
    warnings.simplefilter('ignore')
    for param, kern, n, d, mode, seed, kdpp in cases:
        factory, info = finite.build(param, kern, n, seed, rank=d)
        law = ref.law_kdpp(info['K'], d)
        tol = 1e-7 if kern != 'nearsing' else 1e-5

        def run(rng):
            dpp = factory()
            if kdpp:
                s = dpp.sample_exact_k_dpp(size=d, mode=mode, random_state=rng)
            else:
                s = dpp.sample_exact(mode=mode, random_state=rng)
            return finite.canon(s, n)
        check_law(rec, 'plaw/{}/{}/{}{}'.format(param, kern, mode, '/k' if kdpp else ''),
                  run, law, tol=tol,
                  replay=dict(param=param, kern=kern, n=n, rank=d, mode=mode, seed=seed, kdpp=kdpp))


def complex_chol(rec, cases):
    """the Cholesky sampler of projection kernels accepts complex Hermitian ones (K = K^H)"""
    from dppy.exact_sampling import proj_dpp_sampler_kernel
    for n, d, size, seed in cases:
        r = np.random.RandomState(seed)
        U = np.linalg.qr(r.randn(n, d) + 1j * r.randn(n, d))[0]
        if seed % 3 == 0:             # real up to conjugation by phases: zero minors are kept
            V = np.kron(np.eye(d), np.ones((n // d + 1, 1)))[:n]
            U = np.linalg.qr(V)[0] * np.exp(2j * np.pi * r.rand(n))[:, None]
        K = U.dot(U.conj().T)
        K = (K + K.conj().T) / 2
        law = ref.law_kdpp(K, size)

        def run(rng):
            return finite.canon(proj_dpp_sampler_kernel(K.copy(), mode='Chol', size=size if size < d else None,
                                                        random_state=rng), n)
        check_law(rec, 'complex/Chol', run, law, tol=1e-7, replay=dict(n=n, rank=d, size=size, seed=seed))


def prescribed(rec, cases):
    """functions sampling the k-DPP of a projection kernel with k smaller than its rank"""
    from dppy import exact_sampling as es
    for entry, mode, n, d, size, seed in cases:
        r = np.random.RandomState(seed)
        U = ref.rand_orth(r, n, d)
        K = ref.sym(np.ones(d), U)
        law = ref.law_kdpp(K, size)

        def run(rng):
            if entry == 'kernel':
                s = es.proj_dpp_sampler_kernel(K.copy(), mode=mode, size=size, random_state=rng)
            else:
                s = es.proj_dpp_sampler_eig(U.copy(), mode=mode, size=size, random_state=rng)
            return finite.canon(s, n)
        check_law(rec, 'prescribed/{}/{}'.format(entry, mode), run, law, tol=1e-7,
                  replay=dict(entry=entry, mode=mode, n=n, rank=d, size=size, seed=seed))


def big(rec, param, kern, n, d, mode, seed, m):
    warnings.simplefilter('ignore')
    factory, info = finite.build(param, kern, n, seed, rank=d)
    K = info['K']
    key = 'pmarginals/{}/{}'.format(param, mode)
    rp = dict(param=param, kern=kern, n=n, rank=d, mode=mode, seed=seed, m=m)
    dpp = factory()
    rng = np.random.RandomState(seed)
    inc = np.zeros((m, n))
    for i in range(m):
        ok, s = rec.call(key, dpp.sample_exact, mode=mode, random_state=rng, replay=dict(rp, draw=i))
        if not ok:
            return
        c = finite.canon(s, n)
        if not rec.expect(finite.well_formed(c) and len(c) == d, key + '/malformed',
                          'sample {} (rank {})'.format(c, d), **rp):
            return
        inc[i, list(c)] = 1
    f, G = inc.sum(0), inc.T.dot(inc)
    for j in range(n):
        p = stats.binom_test(f[j], m, min(max(K[j, j], 0), 1))
        rec.expect(p > stats.ALPHA / n, key + '/inclusion',
                   'item {}: {} of {}, specified {:.4f}'.format(j, int(f[j]), m, K[j, j]), **rp)
        for b in range(j):
            p2 = K[j, j] * K[b, b] - K[j, b]**2
            p = stats.binom_test(G[j, b], m, min(max(p2, 0), 1))
            rec.expect(p > stats.ALPHA / n**2, key + '/pairs',
                       'pair {}: {} of {}, specified {:.5f}'.format((j, b), int(G[j, b]), m, p2), **rp)
    rec.observe((key, rp), n=m + n * (n + 1) // 2, sample=dict(case=rp))


def types(rec, cases, kdpp):
    """the same kernels given with other types and memory layouts"""
    finite.typed_law(rec, 'types/k' if kdpp else 'types', cases, kdpp=kdpp)


def blocks(rec, **k):
    """hundreds of items: kernels made of blocks of rank one"""
    key = 'blocks/{}/{}'.format(k['param'], k['mode'])
    mode, size = k['mode'], k['k']
    if size is not None and size < k['g']:      # prescribed size: the samplers themselves
        if k['param'] == 'proj_K':
            def sampler(dpp, rng):
                return es.proj_dpp_sampler_kernel(dpp.K, mode=mode, size=size, random_state=rng)
        else:
            def sampler(dpp, rng):
                return es.proj_dpp_sampler_eig(dpp.eig_vecs, mode=mode, size=size, random_state=rng)
        groups.run(rec, key + '/prescribed', proj=True, sampler=sampler, **k)
    else:
        groups.run(rec, key, proj=True, **k)


def multi(rec, **k):
    """up to two hundred items: independent blocks of a few items with arbitrary projections"""
    key = 'multi/{}/{}'.format(k['param'], k['mode'])
    mode, size = k['mode'], k['k']
    sampler = None
    if size is not None:
        key += '/prescribed'

        def sampler(dpp, rng, B, size):
            if k['param'] == 'proj_K':
                return es.proj_dpp_sampler_kernel(dpp.K, mode=mode, size=size, random_state=rng)
            return es.proj_dpp_sampler_eig(dpp.eig_vecs, mode=mode, size=size, random_state=rng)
    groups.run_blocks(rec, key, proj=True, sampler=sampler, **k)


def jobs(tier, seed):
    th = tier == 'thorough'
    cases = []
    for param in finite.PROJ_PARAMS:
        for kern in finite.PROJ_KERNS:
            for kdpp in (False, True):
                for mode in (KMODES if kdpp else MODES)[param]:
                    for n, d in ((1, 1), (3, 1), (3, 2), (3, 3), (4, 2), (5, 3), (6, 3), (5, 4)) + \
                            (((6, 2), (6, 4), (7, 4)) if th else ()):
                        if kern == 'nearsing' and n < 3:
                            continue
                        if n == 7 and kern not in ('generic', 'block'):
                            continue
                        for rep in range(2 if th and n <= 5 else 1):
                            cases.append((param, kern, n, d, mode, 1000 * seed + 10 * n + d + 77 * rep, kdpp))
    nb = 24 if not th else 64
    out = [Job('exact#%d' % b, exact, timeout=800, cases=cases[b::nb]) for b in range(nb)]
    cc = [(n, d, k, 100 * seed + s) for n, d in ((1, 1), (3, 1), (4, 2), (5, 3), (5, 4), (6, 3)) for k in range(1, d + 1)
          for s in range(3 if not th else 15)]
    out += [Job('complex#%d' % b, complex_chol, timeout=800, cases=cc[b::4]) for b in range(4)]
    pc = [(e, m, n, d, k, 100 * seed + n) for e, ms in (('kernel', ('GS', 'Chol', 'Schur')), ('eig', ('GS', 'GS_bis', 'KuTa12')))
          for m in ms for n, d in ((3, 2), (4, 3), (5, 4)) + (((6, 5),) if th else ()) for k in range(1, d + 1)]
    out += [Job('prescribed#%d' % b, prescribed, timeout=800, cases=pc[b::4]) for b in range(4)]
    n, d, m = (24, 8, 1000) if not th else (40, 12, 8000)
    for param in finite.PROJ_PARAMS:
        for mode in MODES[param]:
            out.append(Job('big#%s/%s' % (param, mode), big, timeout=800, param=param,
                           kern='block' if mode == 'KuTa12' else 'generic', n=n, d=d, mode=mode,
                           seed=seed + 3, m=m))
    for kdpp in (False, True):
        tc = finite.typed_cases(seed, kdpp, True, th)
        out += [Job('types#%d/%s' % (b, kdpp), types, timeout=700, cases=tc[b::4], kdpp=kdpp) for b in range(4)]
    for param in ('proj_K', 'proj_K_thin', 'proj_A_zono'):
        for mode in MODES[param]:
            for n, g, m, k in ((150, 20, 100, None), (300, 40, 40, None), (600, 60, 15, None), (300, 150, 15, None), (150, 20, 100, 6), (600, 60, 15, 20), (150, 20, 20, 20)):
                if k and (mode not in KMODES[param] or k < g and param == 'proj_A_zono'):
                    continue
                out.append(Job('blocks#%s/%s/%d/%d/%s' % (param, mode, n, g, k), blocks, timeout=700, param=param, mode=mode, n=n, g=g, k=k,
                               seed=seed + 40 + n, m=m if not th else 10 * m))
    for param in ('proj_K', 'proj_K_thin', 'proj_A_zono'):
        for mode in MODES[param]:
            for nb, k, m in ((12, None, 1500), (45, None, 200), (110, None, 20), (12, .6, 1000), (45, .5, 200)):
                if k and (mode not in KMODES[param] or param == 'proj_A_zono'):
                    continue
                out.append(Job('multi#%s/%s/%d/%s' % (param, mode, nb, k), multi, timeout=700, param=param, mode=mode, nb=nb, k=k,
                               seed=seed + 60 + nb, m=m if not th else 10 * m))
    return out
