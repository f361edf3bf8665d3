"""P06: intermediate samplers (vfx, alpha) target the DPP / k-DPP of the full similarity matrix."""
import collections

import numpy as np
from scipy.optimize import brentq

from mon import groups, finite, ref, stats
from mon.core import Job, Stuck, cpu_budget, lib_site

from dppy.finite_dpps import FiniteDPP
from dppy import utils as dppy_utils

RULE = ('each case = (request, similarity function, data set, parameters, history); goodness of fit of thousands of '
        'draws of the real sampler to the enumerated determinantal law of the full similarity matrix, draws being '
        'spread over many objects (dictionaries) and over histories of interleaved requests on one object; '
        'non-trivial = law with more than one outcome')
ASSUMPTIONS = ['N <= 8 so that the target law can be enumerated', 'significance level 1e-9 per test',
               'the rescaling of desired_expected_size is only checked when the dictionary is complete '
               '(large oversampling), where it is a deterministic function of the similarity matrix',
               'the documented "maximum number of rejections" failures are tolerated up to 2% of the draws']
FAST = dict(verbose=False)
FULL = dict(verbose=False, rls_oversample_bless=1000.0, rls_oversample_dppvfx=1000.0, rls_oversample_alphadpp=1000.0)


class Gauss:
    """kernel object with a diag method, as those of scikit-learn"""

    def __init__(self, scale, width):
        self.s, self.w = scale, width

    def __call__(self, A, B=None):
        A = np.atleast_2d(A)
        B = A if B is None else np.atleast_2d(B)
        return self.s * np.exp(-((A[:, None] - B[None])**2).sum(-1) / self.w)

    def diag(self, X):
        return np.full(len(X), float(self.s))


def gauss_fun(scale, width):
    g = Gauss(scale, width)
    return lambda A, B=None: g(A, B)


def data(kern, n, seed):
    """X_data, eval_L"""
    r = np.random.RandomState(1000 + 17 * seed + n)
    if kern == 'gauss':
        return r.randn(n, 2), gauss_fun(12.0, 2.0)
    if kern == 'gauss_diag':
        return r.randn(n, 3), Gauss(30.0, 6.0)
    if kern == 'linear':
        return 3.0 * r.randn(n, 4), dppy_utils.example_eval_L_linear
    if kern == 'linear_full':
        X = r.randn(n, n + 1) * np.linspace(1, 6, n)[:, None]
        return X, dppy_utils.example_eval_L_linear
    if kern == 'poly':
        return 1.5 * r.randn(n, 3), dppy_utils.example_eval_L_polynomial
    if kern == 'min':
        X = r.rand(n, 1)
        return X, (lambda A, B=None: 60.0 * dppy_utils.example_eval_L_min_kern(A, B))
    if kern == 'twins':         # repeated rows: items which exclude each other
        X = r.randn(n, 2)
        X[-1] = X[0]
        return X, gauss_fun(15.0, 2.0)
    if kern == 'het':           # very different qualities
        X = r.randn(n, n)
        X *= np.geomspace(0.5, 8.0, n)[:, None]
        return X, dppy_utils.example_eval_L_linear
    if kern == 'binary':        # integer features
        X = r.randint(0, 3, (n, 3))
        X[:3, :3] += np.eye(3, dtype=int)
        return X, dppy_utils.example_eval_L_linear
    if kern.startswith('weak'):     # expected size prescribed, of order 1
        X = r.randn(n, 2)
        K1 = full_L(X, gauss_fun(1.0, 4.0))
        c = brentq(lambda a: eff(K1, a) - float(kern[4:]), 1e-9, 1e9)
        return X, gauss_fun(c, 4.0)
    raise ValueError(kern)


KERNS = ('gauss', 'gauss_diag', 'linear', 'linear_full', 'poly', 'min', 'twins', 'het')


def full_L(X, f):
    # entry by entry, so that the oracle does not use the batched evaluation
    n = len(X)
    L = np.array([[np.asarray(f(X[i:i + 1], X[j:j + 1])).item() for j in range(n)] for i in range(n)])
    return (L + L.T) / 2


def eff(L, a):
    w = np.maximum(np.linalg.eigvalsh(L), 0)
    return (a * w / (1 + a * w)).sum()


def target(L, req):
    """law of a request = (kind, mode, size)"""
    kind, mode, size = req
    if kind == 'k':
        return ref.law_kdpp(L, size)
    if size is None:
        return ref.law_L(L)
    a = brentq(lambda x: eff(L, x) - size, 1e-14, 1.0, xtol=1e-16, rtol=1e-14)
    return ref.law_L(a * L)


def issue(dpp, req, rng, kw):
    kind, mode, size = req
    kw = dict(kw) if mode in ('vfx', 'alpha') else {}
    if kind == 'k':
        return dpp.sample_exact_k_dpp(size=size, mode=mode, random_state=rng, **kw)
    if size is not None:
        kw['desired_expected_size'] = size
    return dpp.sample_exact(mode=mode, random_state=rng, **kw)


class Tally:
    """monitor of the draws of one request"""

    def __init__(self, rec, key, n, law, rp):
        self.rec, self.key, self.n, self.law, self.rp = rec, key, n, law, rp
        self.counts = collections.Counter()
        self.total = self.loud = 0
        self.bad = False

    def draw(self, dpp, req, rng, kw, where):
        self.total += 1
        try:
            with cpu_budget(60):
                s = issue(dpp, req, rng, kw)
        except Stuck:
            self.rec.violate(self.key + '/stuck', 'no termination within 60 s of CPU', where=where, **self.rp)
            self.bad = True
            return False
        except Exception as e:
            if lib_site(e) is None:
                raise
            if isinstance(e, ValueError) and 'maximum number of rejections' in str(e):
                self.loud += 1
                return True
            self.rec.violate('{}/raises/{}'.format(self.key, type(e).__name__),
                             'valid request {} raised {}: {} in {}'.format(req, type(e).__name__, e, lib_site(e)),
                             where=where, **self.rp)
            self.bad = True
            return False
        c = finite.canon(s, self.n)
        if not finite.well_formed(c) or (req[0] == 'k' and len(c) != req[2]):
            self.rec.violate(self.key + '/malformed', 'sample {} for request {}'.format(s, req), where=where, **self.rp)
            self.bad = True
            return False
        self.counts[c] += 1
        return True

    def judge(self):
        if self.bad or not self.total:
            return
        if self.loud > 0.02 * self.total + 2:
            self.rec.violate(self.key + '/rejections', '{} of {} valid requests failed with the maximum number of '
                             'rejections'.format(self.loud, self.total), **self.rp)
            return
        self.rec.count('loud_rejections', self.loud)
        p, desc = stats.gof(self.counts, self.law)
        self.rec.observe((self.key, self.rp), n=self.total, nontrivial=len(self.law) > 1,
                         sample=dict(case=self.rp, statistical=desc, p=p))
        self.rec.expect(p > stats.ALPHA, self.key, 'draws do not follow the target law: {} (p={:.2g})'.format(desc, p),
                        **self.rp)
        # sharper on inclusion probabilities and size
        m = sum(self.counts.values())
        for i in range(self.n):
            pi = sum(q for s, q in self.law.items() if i in s)
            k = sum(c for s, c in self.counts.items() if i in s)
            pv = stats.binom_test(k, m, min(max(pi, 0.0), 1.0)) if 1e-12 < pi < 1 - 1e-12 else 1.0
            self.rec.expect(pv > stats.ALPHA, self.key + '/inclusion',
                            'item {} included {} times of {}, specified {:.5f}'.format(i, k, m, pi), **self.rp)
        ms = sum(len(s) * q for s, q in self.law.items())
        sd = np.sqrt(max(sum(len(s)**2 * q for s, q in self.law.items()) - ms**2, 0.0))
        if sd > 1e-9:
            pv, d = stats.ztest(np.repeat([len(s) for s in self.counts], list(self.counts.values())), ms, sd)
            self.rec.expect(pv > stats.ALPHA, self.key + '/size', 'cardinality: ' + d, **self.rp)


def law(rec, kern, n, req, kw, seed, objs, draws, tag):
    X, f = data(kern, n, seed)
    L = full_L(X, f)
    rp = dict(kern=kern, n=n, request=req, params=kw, seed=seed)
    t = Tally(rec, 'law/{}/{}/{}/{}'.format(tag, req[1], req[0] if req[2] is None or req[0] == 'k' else 'size', kern),
              n, target(L, req), rp)
    rng = np.random.RandomState(seed)
    for o in range(objs):
        dpp = FiniteDPP('likelihood', L_eval_X_data=(f, X))
        for i in range(draws):
            if not t.draw(dpp, req, rng, kw, (o, i)):
                return
    t.judge()


REQS = [('dpp', 'vfx', None), ('dpp', 'vfx', 2.0), ('dpp', 'vfx', 3.0), ('k', 'vfx', 2), ('k', 'vfx', 3),
        ('dpp', 'alpha', None), ('dpp', 'alpha', 2.0), ('dpp', 'alpha', 3.0), ('k', 'alpha', 2), ('k', 'alpha', 3),
        ('k', 'alpha', 1), ('dpp', 'GS', None), ('k', 'GS', 2)]


def history(rec, prev, kern, n, seed, reps, m):
    """requests following `prev` on a used object"""
    X, f = data(kern, n, seed)
    L = full_L(X, f)
    rng = np.random.RandomState(seed + 1)
    tallies = {}
    for cur in REQS:
        tallies[cur] = Tally(rec, 'history/{}/{}'.format('-'.join(map(str, prev)), '-'.join(map(str, cur))), n,
                             target(L, cur), dict(previous=prev, request=cur, kern=kern, n=n, seed=seed))
    for rep in range(reps):
        dpp = FiniteDPP('likelihood', L_eval_X_data=(f, X))
        order = rng.permutation(len(REQS))
        for j in order:
            cur = REQS[j]
            if tallies[cur].bad:
                continue
            for i in range(1 + rep % 3):
                try:
                    with cpu_budget(60):
                        issue(dpp, prev, rng, FULL)
                except (Exception, Stuck) as e:     # judged when `prev` is itself the current request
                    if lib_site(e) is None and not isinstance(e, Stuck):
                        raise
                    rec.count('failed_previous')
            for i in range(m):
                if not tallies[cur].draw(dpp, cur, rng, FULL, dict(rep=rep, i=i, order=[int(x) for x in order])):
                    break
    for t in tallies.values():
        t.judge()


def near(rec, prev, cur, kern, n, seed, reps, m):
    """a request following a similar one on the same object (constants of the first must not be reused)"""
    X, f = data(kern, n, seed)
    t = Tally(rec, 'near/{}-{}'.format('-'.join(map(str, prev)), '-'.join(map(str, cur))), n, target(full_L(X, f), cur),
              dict(previous=prev, request=cur, kern=kern, n=n, seed=seed))
    rng = np.random.RandomState(seed + 5)
    for rep in range(reps):
        dpp = FiniteDPP('likelihood', L_eval_X_data=(f, X))
        for i in range(1 + 2 * (rep % 2)):
            try:
                with cpu_budget(60):
                    issue(dpp, prev, rng, FULL)
            except (Exception, Stuck) as e:
                if lib_site(e) is None and not isinstance(e, Stuck):
                    raise
                rec.count('failed_previous')
        for i in range(m):
            if not t.draw(dpp, cur, rng, FULL, (rep, i)):
                return
    t.judge()


NEAR = [(('dpp', 'vfx', 2.0), ('dpp', 'vfx', 2.4)), (('dpp', 'vfx', 2.4), ('dpp', 'vfx', 2.0)), (('dpp', 'alpha', 2.0), ('dpp', 'alpha', 2.4)),
        (('k', 'vfx', 2), ('dpp', 'vfx', 2.3)), (('k', 'alpha', 2), ('dpp', 'alpha', 2)), (('k', 'alpha', 1), ('dpp', 'alpha', 1)),
        (('k', 'alpha', 3), ('dpp', 'alpha', 3)), (('k', 'alpha', 2), ('dpp', 'alpha', None)), (('dpp', 'alpha', 2), ('k', 'alpha', 2)),
        (('dpp', 'vfx', 2.7), ('dpp', 'vfx', None))]


def limits(rec, kern, n, seed, reps):
    """the limits on rejections given by the caller are obeyed, and a request that hits them leaves a usable object"""
    X, f = data(kern, n, seed)
    L = full_L(X, f)
    rng = np.random.RandomState(seed + 3)
    for rep in range(reps):
        for mode in ('vfx', 'alpha'):
            for kind, size in (('dpp', None), ('dpp', 2.0), ('k', 2), ('k', 3)):
                req = (kind, mode, size)
                for lim in ('max_iter', 'max_iter_size_rejection') if kind == 'k' else ('max_iter',):
                    rp = dict(kern=kern, n=n, seed=seed, rep=rep, request=req, limit=lim)
                    dpp = FiniteDPP('likelihood', L_eval_X_data=(f, X))
                    for it in range(2):
                        before = len(dpp.list_of_samples)
                        try:
                            with cpu_budget(60):
                                s = issue(dpp, req, rng, dict(FULL, **{lim: 0}))
                        except ValueError as e:
                            rec.expect(lib_site(e) is not None and 'maximum number of rejections' in str(e), 'limits/message',
                                       'a request with {}=0 failed with {}'.format(lim, e), **rp)
                            rec.expect(len(dpp.list_of_samples) == before, 'limits/recorded', 'a failed request was recorded', **rp)
                        except Stuck:
                            rec.violate('limits/stuck', 'no termination within 60 s of CPU', **rp)
                        else:
                            rec.violate('limits/ignored', 'a request with {}=0 returned {}'.format(lim, s), **rp)
                        rec.observe(('limits', rp, it), sample=rp)
                        t = Tally(rec, 'limits/after', n, target(L, req), rp)
                        if not t.draw(dpp, req, rng, FULL, it):
                            return


def blocks(rec, mode, n, g, k, m, seed):
    """hundreds of items: kernels made of blocks of rank one"""
    def sampler(dpp, rng):
        if k is None:
            return dpp.sample_exact(mode=mode, random_state=rng, verbose=False)
        return dpp.sample_exact_k_dpp(size=k, mode=mode, random_state=rng, verbose=False)
    groups.run(rec, 'blocks/{}/{}'.format(mode, 'k' if k else 'dpp'), param='L_eval_X_data', mode=mode, n=n, g=g, k=k, m=m, seed=seed, sampler=sampler, low=.5)


def multi(rec, mode, nb, k, m, seed):
    """independent blocks of a few items with arbitrary kernels"""
    def sampler(dpp, rng, B, size):
        if size is None:
            return dpp.sample_exact(mode=mode, random_state=rng, verbose=False)
        return dpp.sample_exact_k_dpp(size=size, mode=mode, random_state=rng, verbose=False)
    groups.run_blocks(rec, 'multi/{}/{}'.format(mode, 'k' if k else 'dpp'), param='L_eval_X_data', mode=mode, nb=nb, k=k, m=m,
                      seed=seed, sampler=sampler, low=.5)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = []
    objs, draws = (40, 50) if not th else (200, 100)
    for kern in KERNS:
        for n in ((6,) if not th else (5, 6, 8)):
            L = full_L(*data(kern, n, seed))
            w = np.linalg.eigvalsh(L)
            rank = int((w > 1e-9 * w.max()).sum())
            d1 = eff(L, 1.0)
            for mode in ('vfx', 'alpha'):
                reqs = [(('dpp', mode, None), FAST, 'default')]
                reqs.append((('dpp', mode, None), dict(verbose=False, rls_oversample_bless=2.0, nb_iter_bless=3,
                                                       rls_oversample_dppvfx=10.0, rls_oversample_alphadpp=10.0), 'params'))
                if d1 > 1.8:
                    reqs.append((('dpp', mode, round(0.6 * d1, 3)), FULL, 'full'))
                for k in (1, 2, 3):
                    if k < rank and k + 0.6 < d1:
                        reqs.append((('k', mode, k), FULL, 'full'))
                        if th:
                            reqs.append((('k', mode, k), dict(FULL, max_iter_size_rejection=400), 'full_more'))
                            if mode == 'alpha':
                                reqs.append((('k', mode, k), dict(FULL, early_stop=True), 'early'))
                if mode == 'vfx':
                    reqs.append((('dpp', mode, None), dict(verbose=False, q_func=_q4), 'qfunc'))
                else:
                    reqs.append((('dpp', mode, None), dict(verbose=False, r_func=_r2), 'rfunc'))
                for i, (req, kw, tag) in enumerate(reqs):
                    big = kern in ('gauss', 'linear_full') and i < 3 and not th
                    out.append(Job('law#%s/%d/%s/%d' % (kern, n, mode, i), law, timeout=800, kern=kern, n=n, req=req,
                                   kw=kw, seed=seed, objs=objs * (4 if big else 1), draws=draws, tag=tag))
    # small expected sizes and small intermediate samples: the sampler must be exact, not only asymptotically
    for kern in ('weak0.2', 'weak0.6', 'weak1', 'weak1.3', 'weak2', 'binary'):
        for mode in ('vfx', 'alpha'):
            reqs = [(('dpp', mode, None), FULL, 'weak')] if kern != 'weak0.2' else []     # q = s^2 would reject too much
            if mode == 'vfx':
                reqs.append((('dpp', mode, None), dict(FULL, q_func=_q1), 'weak_qfunc'))
            else:
                reqs.append((('dpp', mode, None), dict(FULL, r_func=_r1), 'weak_rfunc'))
            if kern in ('weak1.3', 'weak2', 'binary'):
                reqs.append((('dpp', mode, .7), FULL, 'weak'))
                reqs.append((('k', mode, 1), FULL, 'weak'))
            for i, (req, kw, tag) in enumerate(reqs):
                out.append(Job('law#%s/%s/%d' % (kern, mode, i), law, timeout=800, kern=kern, n=6, req=req, kw=kw, seed=seed,
                               objs=objs, draws=4 * draws, tag=tag))
    for kern in ('gauss', 'linear_full'):
        out.append(Job('limits#' + kern, limits, timeout=800, kern=kern, n=6, seed=seed, reps=4 if not th else 40))
    for mode in ('vfx', 'alpha'):
        for n, g, k, m in ((60, 8, None, 3000), (200, 12, None, 1000), (60, 8, 2, 1500), (200, 12, 3, 800), (400, 25, None, 300)):
            out.append(Job('blocks#%s/%d/%s' % (mode, n, k), blocks, timeout=800, mode=mode, n=n, g=g, k=k, m=m if not th else 10 * m, seed=seed + n))
    for mode in ('vfx', 'alpha'):
        for nb, k, m in ((5, None, 2000), (5, 3, 1000), (9, None, 500)):
            out.append(Job('multi#%s/%d/%s' % (mode, nb, k), multi, timeout=800, mode=mode, nb=nb, k=k, m=m if not th else 10 * m, seed=seed + nb))
    for i, (a, b) in enumerate(NEAR):
        out.append(Job('near#%d' % i, near, timeout=800, prev=a, cur=b, kern='gauss', n=6, seed=seed + i, reps=80 if not th else 400, m=30))
    kerns = ('gauss',) if not th else ('gauss', 'linear_full', 'min')
    for kern in kerns:
        for prev in REQS:
            out.append(Job('history#%s/%s' % (kern, '-'.join(map(str, prev))), history, timeout=800, prev=prev,
                           kern=kern, n=6, seed=seed, reps=60 if not th else 300, m=8))
    return out


def _q4(s):
    return s**2 + 4.0


def _q1(s):
    return 0.8 * s


def _r1(r):
    return 0.8 * r + 0.2


def _r2(r):
    return 2.0 * r
