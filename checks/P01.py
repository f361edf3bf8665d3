"""P01: exact samplers draw from the specified finite DPP."""
import numpy as np

from mon import finite, groups, ref, stats
from mon.core import Job
from mon.lawcheck import check_law

RULE = ('each case = (parametrisation, kernel family, ground-set size, sampling mode); the '
        'real sampler is replayed along every branch of its entropy and its exact output law '
        'compared with det-formula law of the reference kernel; non-trivial = more than one '
        'outcome and more than one branch')
ASSUMPTIONS = ['real symmetric kernels, except for the Cholesky sampler of generic kernels (complex Hermitian and non symmetric ones too)', 'ground sets up to 5 (quick) / 6 (thorough) items for the '
               'exact law, 40 for the statistical monitors']

MODES = ('GS', 'GS_bis', 'KuTa12', 'Chol')


def exact(rec, cases):
    for param, kern, n, mode, seed in cases:
        factory, info = finite.build(param, kern, n, seed)
        law = ref.law_K(info['K'])

        def run(rng):
            dpp = factory()
            return finite.canon(dpp.sample_exact(mode=mode, random_state=rng), n)
        check_law(rec, 'law/{}/{}/{}'.format(param, kern, mode), run, law, tol=1e-7,
                  replay=dict(param=param, kern=kern, n=n, mode=mode, seed=seed))


def unitary(r, n, d=None):
    q, _ = np.linalg.qr(r.randn(n, n) + 1j * r.randn(n, n))
    return q[:, :d] if d is not None else q


def nonsym_kernel(r, n, kind):
    """non symmetric correlation kernels of genuine point processes"""
    if kind == 'one_dependent':        # descents of a uniform permutation (Borodin, Diaconis, Fulman)
        from math import factorial
        # K(i, j) = k(j - i), sum_m k(m) z^m = 1 / (1 - exp(z)); the pole is at m = -1
        c = [1.0 / factorial(m + 1) for m in range(n + 3)]        # (exp(z) - 1) / z
        inv = [1.0]
        for m in range(1, n + 3):
            inv.append(-sum(c[i] * inv[m - i] for i in range(1, m + 1)))
        return np.array([[-inv[j - i + 1] if j - i + 1 >= 0 else 0.0 for j in range(n)] for i in range(n)])
    # conjugate of a symmetric kernel by a diagonal matrix plus permuted coordinates: same law
    K = ref.sym(r.rand(n), ref.rand_orth(r, n))
    D = np.exp(r.randn(n))
    return K * D[:, None] / D[None, :]


def generic_kernel(rec, cases):
    """dpp_sampler_generic_kernel accepts complex Hermitian and non symmetric correlation kernels"""
    from dppy.exact_sampling import dpp_sampler_generic_kernel
    for kind, n, seed in cases:
        r = np.random.RandomState(seed)
        if kind == 'hermitian':
            U = unitary(r, n)
            K = (U * r.uniform(.02, .98, n)).dot(U.conj().T)
            K = (K + K.conj().T) / 2
        else:
            K = nonsym_kernel(r, n, kind)
        law = ref.law_K(K)

        def run(rng):
            return finite.canon(dpp_sampler_generic_kernel(K.copy(), random_state=rng)[0], n)
        check_law(rec, 'generic_kernel/' + kind, run, law, tol=1e-7, replay=dict(kind=kind, n=n, seed=seed))


def marginals(rec, param, kern, n, mode, seed, m):
    """statistical monitor on larger ground sets: inclusion, pairs, cardinality."""
    factory, info = finite.build(param, kern, n, seed, rank=n // 3 if 'gram_factor' in param else None)
    K = info['K']
    key = 'marginals/{}/{}/{}'.format(param, kern, mode)
    rp = dict(param=param, kern=kern, n=n, mode=mode, seed=seed, m=m)
    dpp = factory()
    rng = np.random.RandomState(seed)
    inc = np.zeros((m, n))
    for i in range(m):
        ok, s = rec.call(key, dpp.sample_exact, mode=mode, random_state=rng, replay=dict(rp, draw=i))
        if not ok:
            return
        c = finite.canon(s, n)
        if not finite.well_formed(c):
            rec.violate(key + '/malformed', 'sample {}'.format(c), **rp)
            return
        inc[i, list(c)] = 1
    k = np.linalg.eigvalsh(K).clip(0, 1)
    pmf = np.array([1.0])
    for x in k:
        pmf = np.convolve(pmf, [1 - x, x])
    sizes = inc.sum(1).astype(int)
    pv, desc = stats.gof({int(a): int((sizes == a).sum()) for a in set(sizes)},
                         {a: p for a, p in enumerate(pmf)})
    rec.observe((key, 'size', rp), n=m, sample=dict(case=rp, size=desc))
    rec.expect(pv > stats.ALPHA, key + '/cardinality', desc, **rp)
    f = inc.sum(0)
    for j in range(n):
        p = stats.binom_test(f[j], m, min(max(K[j, j], 0), 1))
        rec.expect(p > stats.ALPHA / n, key + '/inclusion',
                   'item {} included {} times of {}, specified {:.4f}'.format(j, int(f[j]), m, K[j, j]), **rp)
    G = inc.T.dot(inc)
    for a in range(n):
        for b in range(a):
            p2 = K[a, a] * K[b, b] - K[a, b]**2
            p = stats.binom_test(G[a, b], m, min(max(p2, 0), 1))
            rec.expect(p > stats.ALPHA / n**2, key + '/pairs',
                       'pair {} included {} times of {}, specified {:.5f}'.format((a, b), int(G[a, b]), m, p2), **rp)
    rec.observe((key, 'pairs', rp), n=n * (n - 1) // 2)
    rec.count('samples', m)


def types(rec, cases):
    """the same kernels given with other types and memory layouts"""
    finite.typed_law(rec, 'types', cases, kdpp=False)


def illcond(rec, cases):
    """eigenvalues over many orders of magnitude"""
    finite.illcond_law(rec, cases, kdpp=False)


def blocks(rec, **k):
    """hundreds of items: kernels made of blocks of rank one"""
    groups.run(rec, 'blocks/{}/{}'.format(k['param'], k['mode']), **k)


def multi(rec, **k):
    """up to two hundred items: independent blocks of a few items with arbitrary kernels"""
    groups.run_blocks(rec, 'multi/{}/{}'.format(k['param'], k['mode']), **k)


def jobs(tier, seed):
    thorough = tier == 'thorough'
    out = []
    sizes = (1, 2, 3, 4, 5) if not thorough else (1, 2, 3, 4, 5, 6)
    buckets = [[] for _ in range(24 if not thorough else 64)]
    i = 0
    for param in finite.K_PARAMS + finite.L_PARAMS:
        for kern in (finite.K_KERNS if param.startswith('K') else finite.L_KERNS):
            for mode in MODES:
                for n in sizes:
                    if n == 5 and not thorough and (mode != 'GS' or param not in ('K', 'L')):
                        continue
                    if n == 6 and (param not in ('K', 'L') or kern not in ('generic', 'block')):
                        continue
                    if n == 1 and kern in ('two_scales', 'rankdef', 'zero_one', 'tiny'):
                        continue
                    for rep in range(3 if thorough and n <= 4 else 1):
                        buckets[i % len(buckets)].append(
                            (param, kern, n, mode, 1000 * seed + 7 * n + 101 * rep))
                        i += 1
    for b, cases in enumerate(buckets):
        out.append(Job('exact#%d' % b, exact, timeout=600, cases=cases))
    for kind in ('hermitian', 'one_dependent', 'conjugate'):
        out.append(Job('generic_kernel#' + kind, generic_kernel, timeout=600,
                       cases=[(kind, n, 1000 * seed + n + 50 * k) for n in ((1, 2, 3, 4, 5) if not thorough else range(1, 9))
                              for k in range(2 if not thorough else 8)]))
    m, n = (1500, 30) if not thorough else (12000, 40)
    for param in ('K', 'K_eig_dec', 'L', 'L_gram_factor', 'L_gram_tall'):
        for mode in MODES:
            kern = 'generic' if mode != 'GS' else ('block')
            out.append(Job('marginals#%s/%s' % (param, mode), marginals, timeout=700,
                           param=param, kern=kern, n=n, mode=mode, seed=seed + 17, m=m))
    tc = finite.typed_cases(seed, False, False, thorough)
    out += [Job('types#%d' % b, types, timeout=700, cases=tc[b::6]) for b in range(6)]
    ic = finite.illcond_cases(seed, False, thorough)
    out += [Job('illcond#%d' % b, illcond, timeout=700, cases=ic[b::6]) for b in range(6)]
    for param in ('K', 'K_thin', 'L', 'L_thin', 'L_gram_factor', 'L_eval_X_data'):
        for mode in MODES:
            for n, g, m in ((150, 20, 150), (300, 40, 60), (600, 60, 20)) + (((300, 150, 60),) if mode in ('GS', 'Chol') else ()) + \
                    (((1100, 30, 12),) if mode == 'GS' else ()):
                if mode == 'Chol' and n > 300:
                    continue
                out.append(Job('blocks#%s/%s/%d/%d' % (param, mode, n, g), blocks, timeout=700, param=param, mode=mode, n=n, g=g,
                               seed=seed + 40 + n, m=m if not thorough else 10 * m))
    for param in ('K', 'K_thin', 'L', 'L_thin', 'L_gram_factor', 'L_eval_X_data'):
        for mode in MODES:
            for nb, m in ((12, 2000), (45, 300), (110, 40)):
                out.append(Job('multi#%s/%s/%d' % (param, mode, nb), multi, timeout=700, param=param, mode=mode, nb=nb,
                               seed=seed + 60 + nb, m=m if not thorough else 10 * m))
    return out
