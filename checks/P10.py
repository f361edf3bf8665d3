"""P10: BLESS dictionaries and ridge leverage score estimates."""
import contextlib

import numpy as np

import dppy.bless as B
import dppy.intermediate_sampling as IS

from mon import stats
from mon.core import Job, Stuck, cpu_budget, lib_site
from checks.P06 import Gauss, gauss_fun, full_L
from dppy import utils as dppy_utils

RULE = ('each case = (data set, similarity function, dictionary, regularisation, oversampling, seed); estimates of the '
        'real code are compared with the exact scores / the closed form computed from the full similarity matrix, '
        'every intermediate dictionary of an execution is checked by an online monitor; non-trivial = dictionary '
        'with at least two points')
ASSUMPTIONS = ['relative tolerance 1e-6 on scores (absolute 1e-8)',
               'failures announced by "No point selected" or "Estimated deff is smaller than 1" are accepted only when '
               'the expected size of the dictionary is below 30', 'inclusion frequencies at level 1e-9']


def datasets(n, seed):
    r = np.random.RandomState(100 + seed)
    out = [('gauss', r.randn(n, 2), gauss_fun(1.0, 1.0)),
           ('gauss_diag', r.randn(n, 3), Gauss(20.0, 3.0)),
           ('narrow', r.randn(n, 3), gauss_fun(5.0, 0.05)),
           ('linear', r.randn(n, 3), dppy_utils.example_eval_L_linear),
           ('het', r.randn(n, 5) * np.geomspace(0.01, 20, n)[:, None], dppy_utils.example_eval_L_linear),
           ('poly', r.randn(n, 2), dppy_utils.example_eval_L_polynomial),
           ('min', r.rand(n, 1), dppy_utils.example_eval_L_min_kern)]
    X = r.randn(n, 2)
    X[n // 2:] = X[:n - n // 2]
    out.append(('twins', X, gauss_fun(3.0, 1.0)))
    X = r.randn(n, 3)
    X[0] = 0
    out.append(('null', X, dppy_utils.example_eval_L_linear))
    return out


def exact_rls(L, lam):
    return np.diag(np.linalg.solve((L + lam * np.eye(len(L))).T, L.T)).copy()


def formula(L, idx, probs, lam):
    """diag(L - L_XD (L_DD + lam diag(p))^-1 L_DX) / lam"""
    A = L[np.ix_(idx, idx)] + lam * np.diag(probs)
    C = L[idx, :]
    return (np.diag(L) - np.einsum('ij,ij->j', C, np.linalg.solve(A, C))) / lam


def close(a, b, L, lam):
    return np.all(np.abs(a - b) <= 1e-6 * np.abs(b) + 1e-9 * max(1.0, np.abs(L).max() / lam))


def scores(rec, n, seed, reps):
    for name, X, f in datasets(n, seed):
        L = full_L(X, f)
        r = np.random.RandomState(seed)
        for rep in range(reps):
            lam = float(10**(r.uniform(-1.5, 2) if rep % 3 else r.uniform(-5, -1.5)))
            rp = dict(data=name, n=n, seed=seed, rep=rep, lam=lam)
            ex = exact_rls(L, lam)
            # whole data set, unit weights
            D = B.CentersDictionary(idx=np.arange(n), X=X, probs=np.ones(n), lam=lam, rls_oversample=1.0)
            ok, est = rec.call('full_dictionary', B.estimate_rls_bless, D, X, f, lam, replay=rp)
            if ok:
                rec.expect(close(est, ex, L, lam), 'full_dictionary',
                           'score of the whole data set with unit weights differs from the exact one by {:.3g}'.format(
                               np.abs(est - ex).max()), **rp)
            # sub dictionary, unit weights: dominates, monotone in the dictionary
            order = r.permutation(n)
            m = r.randint(1, n + 1)
            prev = None
            for mm in sorted({max(1, m // 2), m}, reverse=True):
                idx = np.sort(order[:mm])
                D = B.CentersDictionary(idx=idx, X=X[idx], probs=np.ones(mm), lam=lam, rls_oversample=1.0)
                ok, est = rec.call('sub_dictionary', B.estimate_rls_bless, D, X, f, lam, replay=rp)
                if not ok:
                    break
                slack = 1e-7 * (1 + np.abs(L).max() / lam)
                rec.expect(np.all(est >= ex - slack), 'dominates',
                           'estimate below the exact score by {:.3g}'.format((ex - est).max()), idx=idx, **rp)
                if prev is not None:
                    rec.expect(np.all(est >= prev - slack), 'monotone', 'a smaller dictionary gave smaller estimates', **rp)
                prev = est
                rec.expect(close(est, formula(L, idx, np.ones(mm), lam), L, lam), 'sub_dictionary',
                           'estimate differs from its closed form', idx=idx, **rp)
            # weighted dictionary, estimates at a subset of the points
            probs = r.uniform(0.05, 1, m)
            idx = np.sort(order[:m])
            sub = r.permutation(n)[:r.randint(1, n + 1)]
            D = B.CentersDictionary(idx=idx, X=X[idx], probs=probs, lam=lam, rls_oversample=2.0)
            ok, est = rec.call('weighted', B.estimate_rls_bless, D, X[sub], f, lam, replay=rp)
            if ok:
                want = formula(L, idx, probs, lam)[sub]
                rec.expect(close(est, want, L, lam), 'weighted',
                           'weighted estimate differs from its closed form by {:.3g}'.format(np.abs(est - want).max()), **rp)
            # alpha * L: eigendecomposition of the weighted dictionary
            alpha = 1 / lam
            W = 1 / np.sqrt(probs)
            w, V = np.linalg.eigh(W[:, None] * L[np.ix_(idx, idx)] * W)
            keep = w > w.max() * len(w) * 1e-13
            ok, est = rec.call('eigendecomp', IS.estimate_rls_from_weighted_dict_eigendecomp, X[sub], f, D,
                               V[:, keep], w[keep], alpha, replay=rp)
            if ok:
                want = formula(L, idx, probs, lam)[sub]
                rec.expect(close(est, want, L, lam), 'eigendecomp',
                           'estimate from the eigendecomposition differs from its closed form by {:.3g}'.format(
                               np.abs(est - want).max()), **rp)
            rec.observe((name, n, lam, tuple(idx)), n=4, nontrivial=m > 1, sample=dict(rp, dictionary=idx, max=ex.max()))


@contextlib.contextmanager
def spy(events):
    """record the intermediate dictionaries, if the code goes through reduce_lambda"""
    orig = getattr(B, 'reduce_lambda', None)
    if orig is None:
        yield
        return

    def wrapped(*a, **k):
        out = orig(*a, **k)
        events.append(out)
        return out
    B.reduce_lambda = wrapped
    try:
        yield
    finally:
        B.reduce_lambda = orig


def check_dict(rec, key, D, X, L, rp, q=None, lam=None):
    idx, probs = np.asarray(D.idx), np.asarray(D.probs)
    n = len(X)
    ok = rec.expect(idx.ndim == 1 and idx.size > 0 and np.issubdtype(idx.dtype, np.integer)
                    and len(set(idx.tolist())) == idx.size and idx.min() >= 0 and idx.max() < n,
                    key + '/indices', 'indices {} for {} points'.format(idx, n), **rp)
    ok &= rec.expect(np.shape(D.X) == (idx.size, X.shape[1]) and np.array_equal(D.X, X[idx] if ok else None),
                     key + '/points', 'points of the dictionary are not the data points of its indices', **rp)
    ok &= rec.expect(probs.shape == idx.shape and np.all(probs > 0) and np.all(probs <= 1 + 1e-12),
                     key + '/probabilities', 'probabilities outside (0,1]: min {} max {}'.format(
                         probs.min() if probs.size else None, probs.max() if probs.size else None), **rp)
    if lam is not None:
        ok &= rec.expect(abs(D.lam - lam) <= 1e-12 * lam, key + '/lam', 'lam={} instead of {}'.format(D.lam, lam), **rp)
    if q is not None:
        ok &= rec.expect(D.rls_oversample == q, key + '/oversample', 'rls_oversample={} instead of {}'.format(
            D.rls_oversample, q), **rp)
    return ok


LOUD = ('No point selected', 'Estimated deff is smaller than 1')


def attempt(rec, key, fn, expected, rp):
    """expected: expected size of the dictionary"""
    try:
        with cpu_budget(30):
            return fn()
    except Stuck:
        rec.violate(key + '/stuck', 'no termination within 30 s of CPU', **rp)
    except Exception as e:
        if lib_site(e) is None:
            raise
        if isinstance(e, ValueError) and any(m in str(e) for m in LOUD) and expected < 30:
            rec.count('loud')
            rec.observe((key, 'loud', rp['data'], rp['n']), nontrivial=False)
            return None
        rec.violate('{}/raises/{}'.format(key, type(e).__name__), 'valid call raised {}: {} in {}'.format(
            type(e).__name__, e, lib_site(e)), **rp)
    return None


def run_bless(rec, n, seed, reps):
    r = np.random.RandomState(seed + 10 * n)
    for name, X, f in datasets(n, seed):
        L = full_L(X, f)
        for rep in range(reps):
            lam = [0.3, 1.0, 1, 2.5, float(10**r.uniform(-1, 1.5)), float(2 * n), 1e-2, 1e-4, float(10**r.uniform(-7, -1))][rep % 9]
            q = [1.5, 4.0, 8.0, 30.0][r.randint(4)]
            it = [None, None, 1, 2, 3, 8][r.randint(6)]
            rp = dict(data=name, n=n, seed=seed, rep=rep, lam=lam, q=q, nb_iter=it)
            ev = []
            with spy(ev):
                D = attempt(rec, 'bless', lambda: B.bless(X, f, lam, q, random_state=np.random.RandomState(rep),
                                                         nb_iter_bless=it, verbose=False),
                            q * exact_rls(L, lam).sum(), rp)
            for e in ev:
                check_dict(rec, 'bless/intermediate', e, X, L, rp, q=q)
            for a, b in zip(ev, ev[1:]):
                rec.expect(b.lam <= a.lam * (1 + 1e-12), 'bless/decreasing',
                           'regularisation went from {} to {}'.format(a.lam, b.lam), **rp)
            rec.count('intermediate_dictionaries', len(ev))
            if D is None:
                continue
            check_dict(rec, 'bless', D, X, L, rp, q=q, lam=lam)
            rec.observe((name, n, lam, q, it, tuple(D.idx)), nontrivial=len(D.idx) > 1,
                        sample=dict(rp, size=len(D.idx), dictionaries=len(ev)))
            # with a huge oversampling every point of non negligible score is kept: estimates are exact
            D = attempt(rec, 'bless_complete', lambda: B.bless(X, f, lam, 1e7, random_state=rep, verbose=False),
                        1e9, rp)
            if D is not None:
                check_dict(rec, 'bless_complete', D, X, L, rp, q=1e7, lam=lam)
                ok, est = rec.call('bless_complete', B.estimate_rls_bless, D, X, f, lam, replay=rp)
                ex = exact_rls(L, lam)
                if ok:
                    rec.expect(np.all(np.abs(est - ex) <= 1e-4 + 1e-6 * np.abs(L).max() / lam), 'bless_complete',
                               'scores from a complete dictionary differ from the exact ones by {:.3g}'.format(
                                   np.abs(est - ex).max()), **rp)


def run_size(rec, n, seed, reps):
    r = np.random.RandomState(seed + 10 * n)
    for name, X, f0 in datasets(n, seed):
        for rep in range(reps):
            c = [1.0, 0.1, 20.0][rep % 3]
            f = (lambda A, Y=None, f0=f0, c=c: c * f0(A) if Y is None else c * f0(A, Y))
            L = full_L(X, f)
            k = int(r.randint(1, 8))
            q = [4.0, 10.0, 30.0][r.randint(3)]
            it = [None, None, 1, 5][r.randint(4)]
            lam0 = np.trace(L) / max(k - 1.0, 0.5)
            rp = dict(data=name, n=n, seed=seed, rep=rep, scale=c, size=k, q=q, nb_iter=it)
            if lam0 <= 1.0 + 1e-9:      # L too small for this size: must be refused
                try:
                    with cpu_budget(30):
                        B.bless_size(X, f, k, q, random_state=rep, nb_iter_bless=it, verbose=False)
                    if lam0 < 1 - 1e-6:
                        rec.violate('bless_size/unreachable', 'size {} accepted although tr(L)={:.3g}'.format(
                            k, np.trace(L)), **rp)
                except ValueError:
                    rec.observe(('refused', name, n, k), nontrivial=False)
                except Exception as e:
                    rec.violate('bless_size/refusal', 'unreachable size raised {}: {}'.format(type(e).__name__, e), **rp)
                continue
            ev = []
            with spy(ev):
                out = attempt(rec, 'bless_size', lambda: B.bless_size(
                    X, f, k, q, random_state=np.random.RandomState(rep), nb_iter_bless=it, verbose=False),
                    q * exact_rls(L, lam0).sum(), rp)
            for e in ev:
                check_dict(rec, 'bless_size/intermediate', e, X, L, rp, q=q)
            rec.count('intermediate_dictionaries', len(ev))
            if out is None:
                continue
            hi, lo, D = out
            check_dict(rec, 'bless_size', D, X, L, rp, q=q)
            rec.expect(1 - 1e-9 <= lo <= hi * (1 + 1e-9) and hi <= lam0 * (1 + 1e-9), 'bless_size/interval',
                       'interval [{}, {}] for initial value {}'.format(lo, hi, lam0), **rp)
            rec.expect(lo * (1 - 1e-9) <= D.lam <= lam0 * (1 + 1e-9), 'bless_size/lam', 'dictionary for lam={}, '
                       'interval [{}, {}]'.format(D.lam, lo, hi), **rp)
            if hi < lam0 * (1 - 1e-9) and n >= 3 * q * (k + 1):    # otherwise sizes of dictionaries saturate
                d = exact_rls(L, hi).sum()
                rec.expect(d <= 2 * k + 2, 'bless_size/upper', 'deff(lam_max)={:.3g} for size {}'.format(d, k), **rp)
            rec.observe((name, n, k, q, it, c), nontrivial=len(D.idx) > 1, sample=dict(rp, interval=[lo, hi]))


def frequencies(rec, name_i, n, seed, m):
    name, X, f = datasets(n, seed)[name_i]
    L = full_L(X, f)
    r = np.random.RandomState(seed)
    for lam_old, lam, q, q0 in ((5.0, 2.0, 1.3, None), (2.0, 2.0, 3.0, 1.0), (1.0, 0.2, 0.6, None)):
        idx = np.sort(r.permutation(n)[:max(2, n // 2)])
        pr = r.uniform(0.3, 1.0, idx.size)
        D = B.CentersDictionary(idx=idx, X=X[idx], probs=pr, lam=lam_old, rls_oversample=q0 if q0 else q)
        rls = np.maximum(formula(L, idx, pr, lam), 0)
        dg = np.diag(L)
        ucb = np.minimum(q * dg / (dg + lam), 1.0)
        want = np.minimum(q * rls, ucb)
        rp = dict(data=name, n=n, seed=seed, lam_old=lam_old, lam=lam, q=q, m=m)
        cnt, pair, tot = np.zeros(n), np.zeros((n, n)), 0
        rng = np.random.RandomState(seed)
        if want.sum() < 3:
            rec.count('skipped_small')
            continue
        bad = loud = 0
        for i in range(m):
            try:
                with cpu_budget(30):
                    E = B.reduce_lambda(X, f, D, lam, rng, q if q0 else None)
            except ValueError as e:
                if any(x in str(e) for x in LOUD):
                    loud += 1
                    continue
                rec.violate('reduce_lambda/raises', str(e), **rp)
                bad = 1
                break
            if not check_dict(rec, 'reduce_lambda', E, X, L, rp, q=q, lam=lam):
                bad = 1
                break
            if not np.allclose(E.probs, want[E.idx], rtol=1e-5, atol=1e-8):
                rec.violate('reduce_lambda/reported', 'reported probabilities differ from min(q * score, q * ucb) by '
                            '{:.3g}'.format(np.abs(E.probs - want[E.idx]).max()), **rp)
                bad = 1
                break
            v = np.zeros(n)
            v[E.idx] = 1
            cnt += v
            pair += np.outer(v, v)
            tot += 1
        if bad:
            continue
        if loud > 0.02 * m:       # conditioning on success would bias the frequencies
            rec.undecided('{}: {} loud failures'.format(rp, loud))
            continue
        slack = loud / m + 1e-12
        for i in range(n):
            lo, hi = max(want[i] - slack, 0), min(want[i] / (1 - slack), 1)
            c = int(cnt[i])
            p = min(want[i] if lo * tot <= c <= hi * tot else 1, 1)
            pv = 1.0
            if c > hi * tot:
                pv = stats.binom_test(c, tot, hi)
            elif c < lo * tot:
                pv = stats.binom_test(c, tot, lo)
            rec.expect(pv > stats.ALPHA, 'reduce_lambda/inclusion', 'point {} kept {} times of {}, announced probability '
                       '{:.4f}'.format(i, c, tot, want[i]), **rp)
        for i in range(n):
            for j in range(i):
                p = want[i] * want[j]
                c = int(pair[i, j])
                pv = stats.binom_test(c, tot, min(p, 1.0))
                rec.expect(pv > stats.ALPHA or loud, 'reduce_lambda/independence', 'points {} and {} kept together {} times '
                           'of {}, announced {:.4f}'.format(i, j, c, tot, p), **rp)
        rec.observe(('freq', name, lam, q), n=tot, sample=dict(rp, want=want[:4], got=cnt[:4] / max(tot, 1)))


def precompute(rec, n, seed):
    """constants of the intermediate samplers built on a complete dictionary"""
    for name, X, f0 in datasets(n, seed):
        f = (lambda A, Y=None: 15 * f0(A) if Y is None else 15 * f0(A, Y))
        L = full_L(X, f)
        w = np.maximum(np.linalg.eigvalsh(L), 0)
        d1 = (w / (1 + w)).sum()
        if name in ('twins', 'null', 'het', 'min'):
            continue
        for size in (None, 0.7 * d1, 0.3 * d1):
            rp = dict(data=name, n=n, seed=seed, size=size)
            ok, c = rec.call('vfx_constants', IS.vfx_sampling_precompute_constants, X, f, np.random.RandomState(seed),
                             desired_expected_size=size, rls_oversample_dppvfx=1e6, rls_oversample_bless=1e6,
                             verbose=False, replay=rp)
            if ok:
                a = c.alpha_star
                ex = exact_rls(L, 1 / a)
                rec.expect(np.all(np.abs(c.rls_estimate - ex) < 1e-5), 'vfx_constants/scores',
                           'marginal inclusion estimates differ from the exact ones by {:.3g}'.format(
                               np.abs(c.rls_estimate - ex).max()), **rp)
                rec.expect(abs(ex.sum() - (d1 if size is None else size)) < 1e-4, 'vfx_constants/size',
                           'expected size {:.6g} instead of {}'.format(ex.sum(), size or d1), **rp)
                rec.expect(size is not None or a == 1, 'vfx_constants/alpha', 'alpha={}'.format(a), **rp)
            ok, c = rec.call('alpha_constants', IS.alpha_dpp_sampling_precompute_constants, X, f,
                             np.random.RandomState(seed), desired_expected_size=size, rls_oversample_alphadpp=1e6,
                             rls_oversample_bless=1e6, verbose=False, replay=rp)
            if ok:
                ex = exact_rls(L, 1 / c.alpha_hat)
                rec.expect(abs(ex.sum() - (d1 if size is None else size)) < 1e-4, 'alpha_constants/size',
                           'expected size {:.6g} instead of {}'.format(ex.sum(), size or d1), **rp)
                rec.expect(abs(c.deff_alpha_L_hat - ex.sum()) < 1e-4, 'alpha_constants/deff',
                           'deff {} instead of {}'.format(c.deff_alpha_L_hat, ex.sum()), **rp)
            rec.observe(('constants', name, n, size), sample=rp)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = []
    reps = 20 if not th else 100
    for n in ((2, 3, 8, 30) if not th else (2, 3, 5, 8, 15, 30, 60)):
        out.append(Job('scores#%d' % n, scores, timeout=800, n=n, seed=seed, reps=reps))
        out.append(Job('size#%d' % n, run_size, timeout=800, n=n, seed=seed, reps=2 * reps))
    out.append(Job('size#100', run_size, timeout=800, n=100, seed=seed, reps=2 * reps))
    for n in ((1, 2, 3, 8, 30, 80) if not th else (1, 2, 3, 5, 8, 15, 30, 80, 200)):
        out.append(Job('bless#%d' % n, run_bless, timeout=800, n=n, seed=seed, reps=3 * reps if not th else reps))
    for i in (0, 1, 3, 4, 7):
        out.append(Job('freq#%d' % i, frequencies, timeout=800, name_i=i, n=12, seed=seed, m=8000 if not th else 40000))
    for n in (6, 15):
        out.append(Job('constants#%d' % n, precompute, timeout=800, n=n, seed=seed))
    return out
