"""P02: exact k-DPP samplers."""
import numpy as np

from mon import finite, groups, ref, stats
from mon.core import Job
from mon.lawcheck import check_law
from dppy.finite_dpps import FiniteDPP

RULE = ('each case = (parametrisation, kernel family, N, k, mode); exact output law of the real '
        'sampler over all entropy branches vs det(L_S)/e_k; sequences of sizes on one object are '
        'replayed too; non-trivial = more than one outcome and branch')
ASSUMPTIONS = ['0 <= k <= rank(L)', 'exact law for N <= 5 (quick) / 6 (thorough); statistical for N = 30']
MODES = ('GS', 'GS_bis', 'KuTa12')


def exact(rec, cases):
    for param, kern, n, k, mode, seed, prior in cases:
        factory, info = finite.build(param, kern, n, seed)
        law = ref.law_kdpp(info['L'], k)

        def run(rng):
            dpp = factory()
            for kk in prior:         # earlier draws of other sizes
                dpp.sample_exact_k_dpp(size=kk, mode=mode, random_state=np.random.RandomState(3))
            return finite.canon(dpp.sample_exact_k_dpp(size=k, mode=mode, random_state=rng), n)
        key = 'klaw/{}/{}/{}'.format(param, kern, mode)
        if prior:
            key = 'klaw_after_sizes/{}/{}'.format(param, mode)
        check_law(rec, key, run, law, tol=1e-7,
                  replay=dict(param=param, kern=kern, n=n, k=k, mode=mode, seed=seed, prior=prior))


def marginals(rec, param, kern, n, k, mode, seed, m, prior=()):
    """larger ground set: cardinality, inclusion probabilities from e_k ratios"""
    factory, info = finite.build(param, kern, n, seed)
    L = info['L']
    w, U = np.linalg.eigh(L)
    w = np.maximum(w, 0)
    # P(eigenvector i selected) = w_i e_{k-1}(w without i) / e_k(w)
    ek = ref.esp(w)[k]
    sel = np.array([w[i] * ref.esp(np.delete(w, i))[k - 1] for i in range(n)]) / ek
    inc_p = (U**2).dot(sel)
    key = 'kmarginals/{}/{}'.format(param, mode)
    rp = dict(param=param, kern=kern, n=n, k=k, mode=mode, seed=seed, m=m, prior=prior)
    dpp = factory()
    rng = np.random.RandomState(seed)
    for kk in prior:
        ok, s = rec.call(key, dpp.sample_exact_k_dpp, size=kk, mode=mode, random_state=rng, replay=rp)
        if not ok:
            return
    f = np.zeros(n)
    for i in range(m):
        ok, s = rec.call(key, dpp.sample_exact_k_dpp, size=k, mode=mode, random_state=rng,
                         replay=dict(rp, draw=i))
        if not ok:
            return
        c = finite.canon(s, n)
        if not rec.expect(finite.well_formed(c) and len(c) == k, key + '/malformed',
                          'sample {} for k={}'.format(c, k), **rp):
            return
        f[list(c)] += 1
    for j in range(n):
        p = stats.binom_test(f[j], m, min(max(inc_p[j], 0), 1))
        rec.expect(p > stats.ALPHA / n, key + '/inclusion',
                   'item {} included {} times of {}, specified {:.4f}'.format(j, int(f[j]), m, inc_p[j]), **rp)
    rec.observe((key, rp), n=m, sample=dict(case=rp, freq_item0=[f[0] / m, inc_p[0]]))


def scaled(rec, cases):
    """the k-DPP of c L is the k-DPP of L whatever c > 0: exact laws"""
    for param, kern, n, k, c, seed in cases:
        L = finite.build('L', kern, n, seed)[1]['L']
        law = ref.law_kdpp(L, k)
        check_law(rec, 'kscaled/{}/{}'.format(param, kern), lambda rng: finite.canon(
            _scaled_dpp(param, L, c).sample_exact_k_dpp(size=k, random_state=rng), n), law, tol=1e-7,
            replay=dict(param=param, kern=kern, n=n, k=k, c=c, seed=seed))


def _scaled_dpp(param, L, c):
    if param == 'L':
        return FiniteDPP('likelihood', L=c * L)
    w, U = np.linalg.eigh(L)
    w = np.maximum(w, 0) * (w > 1e-10 * w.max())
    if param == 'L_eig_dec':
        return FiniteDPP('likelihood', L_eig_dec=(c * w, U))
    keep = w > 0
    return FiniteDPP('likelihood', L_gram_factor=np.sqrt(c) * (U[:, keep] * np.sqrt(w[keep])).T)


def log_esp(lw, k):
    """logarithms of e_0, ..., e_k of exp(lw)"""
    le = np.full(k + 1, -np.inf)
    le[0] = 0.0
    for x in lw:
        le[1:] = np.logaddexp(le[1:], x + le[:-1])
    return le


def large(rec, param, spectrum, n, k, c, mode, seed, m):
    """sizes for which the elementary symmetric polynomials of the spectrum leave the range of floats"""
    rng = np.random.RandomState(seed)
    U = np.linalg.qr(rng.randn(n, n))[0]
    w = dict(flat=rng.uniform(.5, 2.0, n), geometric=2.0**-np.arange(n), twolevel=np.where(np.arange(n) < n // 2, 1.0, 1e-3))[spectrum]
    w = w[rng.permutation(n)]
    lw = np.log(w)
    tot = log_esp(lw, k)[k]
    sel = np.exp([lw[i] + log_esp(np.delete(lw, i), k - 1)[k - 1] - tot for i in range(n)])
    inc_p = (U**2).dot(sel)
    key = 'klarge/{}/{}/{}'.format(param, spectrum, mode)
    rp = dict(param=param, spectrum=spectrum, n=n, k=k, c=c, mode=mode, seed=seed, m=m)
    if param == 'L':
        L = (U * (c * w)).dot(U.T)
        dpp = FiniteDPP('likelihood', L=(L + L.T) / 2)
    else:
        dpp = FiniteDPP('likelihood', L_eig_dec=(c * w, U))
    f = np.zeros(n)
    r = np.random.RandomState(seed + 1)
    for i in range(m):
        with np.errstate(over='ignore', under='ignore', invalid='ignore'):
            ok, s = rec.call(key, dpp.sample_exact_k_dpp, size=k, mode=mode, random_state=r, replay=dict(rp, draw=i))
        if not ok:
            return
        cs = finite.canon(s, n)
        if not rec.expect(finite.well_formed(cs) and len(cs) == k, key + '/malformed', 'sample {} for k={}'.format(cs, k), **rp):
            return
        f[list(cs)] += 1
    for j in range(n):
        p = stats.binom_test(f[j], m, min(max(inc_p[j], 0), 1))
        rec.expect(p > stats.ALPHA / n, key + '/inclusion', 'item {} included {} times of {}, specified {:.4f}'.format(j, int(f[j]), m, inc_p[j]), **rp)
    rec.observe((key, rp), n=m, sample=dict(case=rp, log_e_k=float(tot + k * np.log(c))))


def illcond(rec, cases):
    """eigenvalues over many orders of magnitude"""
    finite.illcond_law(rec, cases, kdpp=True)


def types(rec, cases):
    """the same kernels given with other types and memory layouts"""
    finite.typed_law(rec, 'types', cases, kdpp=True)


def blocks(rec, **k):
    """hundreds of items: kernels made of blocks of rank one"""
    groups.run(rec, 'blocks/{}/{}'.format(k['param'], k['mode']), **k)


def multi(rec, **k):
    """up to two hundred items: independent blocks of a few items with arbitrary kernels"""
    groups.run_blocks(rec, 'multi/{}/{}'.format(k['param'], k['mode']), **k)


def jobs(tier, seed):
    th = tier == 'thorough'
    cases = []
    for param in finite.L_PARAMS + ('K', 'K_eig_dec', 'projL_L', 'projL_L_eig_dec'):
        kerns = finite.L_KERNS
        if param.startswith('K'):
            kerns = ('generic', 'repeated', 'diag', 'block')
        if param.startswith('projL'):
            kerns = ('generic', 'block', 'coord', 'parallel')
        modes = MODES
        if param == 'projL_L':
            modes = ('GS', 'Schur', 'Chol')
        for kern in kerns:
            for mode in modes:
                for n in ((2, 3, 4, 5) if not th else (2, 3, 4, 5, 6)):
                    if n == 6 and param not in ('L', 'L_eig_dec'):
                        continue
                    factory, info = finite.build(param, kern, n, 1000 * seed + n)
                    rank = np.linalg.matrix_rank(info['L'])
                    for k in range(0, rank + 1):
                        if n == 5 and not th and k not in (2, 4):
                            continue
                        if n >= 5 and k == n and mode != 'GS':
                            continue
                        cases.append((param, kern, n, k, mode, 1000 * seed + n, ()))
                    if n == 4 and rank >= 2:
                        for prior in ((1,), (rank,), (rank, 1), (1, rank, 1)):
                            for k in sorted({1, 2, rank}):
                                cases.append((param, kern, n, k, mode, 1000 * seed + n, prior))
                    if n == 4 and th:
                        for rep in range(4):
                            for k in range(1, rank + 1):
                                cases.append((param, kern, n, k, mode, 1000 * seed + 31 * rep + 500, ()))
    nb = 24 if not th else 64
    # keep only cases whose rank under that seed allows k
    out = [Job('exact#%d' % b, exact, timeout=800, cases=_valid(cases[b::nb])) for b in range(nb)]
    n, m = (20, 1000) if not th else (30, 10000)
    for param in ('L', 'L_eig_dec', 'L_gram_tall', 'K'):
        for mode in MODES:
            for k, prior in ((3, ()), (6, (2, 9))):
                out.append(Job('marginals#%s/%s/%d' % (param, mode, k), marginals, timeout=800,
                               param=param, kern='generic', n=n, k=k, mode=mode,
                               seed=seed + 5, m=m, prior=prior))
    cases = [(param, kern, n, k, c, 1000 * seed + n) for param in ('L', 'L_eig_dec', 'L_gram') for kern in finite.L_KERNS
             for n in (3, 4) for k in range(0, n + 1) for c in ((1e-9, 1e-4, 1e5, 1e12) if not th else 10.0**np.arange(-12, 16, 3))]
    cases = [x for x in cases if x[3] <= np.linalg.matrix_rank(finite.build('L', x[1], x[2], x[5])[1]['L'])]
    out += [Job('scaled#%d' % b, scaled, timeout=800, cases=cases[b::8]) for b in range(8)]
    for param in ('L', 'L_eig_dec'):
        for spectrum, n, k, c in (('flat', 60, 40, 1e10), ('flat', 60, 40, 1e-10), ('twolevel', 70, 45, 1e8), ('geometric', 40, 30, 1e-3),
                                  ('geometric', 40, 39, 1.0), ('flat', 60, 60, 1e9)):
            for mode in (MODES if th else ('GS',)):
                out.append(Job('large#%s/%s/%g/%s' % (param, spectrum, c, mode), large, timeout=800, param=param, spectrum=spectrum,
                               n=n, k=k, c=c, mode=mode, seed=seed + 9, m=300 if not th else 3000))
    ic = finite.illcond_cases(seed, True, th)
    out += [Job('illcond#%d' % b, illcond, timeout=700, cases=ic[b::6]) for b in range(6)]
    tc = finite.typed_cases(seed, True, False, th)
    out += [Job('types#%d' % b, types, timeout=700, cases=tc[b::6]) for b in range(6)]
    for param in ('K', 'K_thin', 'L', 'L_thin', 'L_gram_factor', 'L_eval_X_data'):
        for mode in MODES:
            for n, g, k, m in ((150, 20, 7, 150), (300, 40, 12, 60), (600, 60, 30, 20)) + (((300, 150, 60, 60),) if mode == 'GS' else ()) + \
                    (((1100, 30, 8, 12),) if mode == 'GS' else ()):
                out.append(Job('blocks#%s/%s/%d/%d' % (param, mode, n, g), blocks, timeout=700, param=param, mode=mode, n=n, g=g, k=k,
                               seed=seed + 40 + n, m=m if not th else 10 * m))
    for param in ('K', 'K_thin', 'L', 'L_thin', 'L_gram_factor', 'L_eval_X_data'):
        for mode in MODES:
            for nb, k, m in ((12, .4, 1500), (12, .7, 1500), (45, .5, 300), (110, .3, 30), (12, 1.0, 100)):
                out.append(Job('multi#%s/%s/%d/%g' % (param, mode, nb, k), multi, timeout=700, param=param, mode=mode, nb=nb, k=k,
                               seed=seed + 60 + nb, m=m if not th else 10 * m))
    return out


def _valid(cases):
    good = []
    for c in cases:
        param, kern, n, k, mode, seed, prior = c
        _, info = finite.build(param, kern, n, seed)
        if max((k,) + tuple(prior)) <= np.linalg.matrix_rank(info['L']):
            good.append(c)
    return good
