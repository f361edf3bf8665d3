"""P09: zonotope sampler: bases, chain structure, tiles, stationarity."""
import collections
import itertools

import numpy as np

from mon import fakecvxopt, finite, ref, stats
from mon.core import Job, REPO
from checks.P08 import VirtualClock, check_shape

fakecvxopt.install()
from dppy import mcmc_sampling
from dppy.finite_dpps import FiniteDPP

RULE = ('each case = (feature matrix, history): recorded chains are traced (length, distinct columns forming a basis, '
        'start in the tile of the given point, time limit under a virtual clock), and independent chains started from '
        'the stationary law are compared after 1 and several transitions with det(A_B)^2; distinct = (matrix, seed)')
ASSUMPTIONS = ['cvxopt is replaced by a stand-in with the same interface whose LP solver enumerates vertices']


def shim_safe(rec, key, fn, *a, **k):
    try:
        return rec.call(key, fn, *a, **k)
    except fakecvxopt.ShimLimit as e:
        rec.undecided('{}: cvxopt feature {} is not emulated'.format(key, e))
        return False, None


def gen(r, d, n, kind):
    A = r.randn(d, n)
    if kind == 'aniso':
        A = (r.randn(d, d) * 10.0**r.uniform(-1, 1, size=(d, 1))).dot(A)
    elif kind == 'parallel' and n >= 2:
        A[:, 1] = 2 * A[:, 0]
    elif kind == 'zero' and n > d:
        A[:, int(r.randint(n))] = 0
    elif kind == 'unit':
        A[:, :d] = np.eye(d)
    if np.linalg.matrix_rank(A) < d:
        return gen(r, d, n, 'generic')
    return A


def law_of(A):
    d, n = A.shape
    w = {b: np.linalg.det(A[:, b])**2 for b in itertools.combinations(range(n), d)}
    z = sum(w.values())
    return {b: (x / z if x / z > 1e-14 else 0.0) for b, x in w.items()}


def tile_point(r, A, c, B):
    """uniform point of the tile of basis B for the linear objective c"""
    d, n = A.shape
    B = list(B)
    y = np.zeros(n)
    y[B] = 2e-5 + (1 - 4e-5) * r.rand(d)
    lam = np.linalg.solve(A[:, B].T, c[B])
    red = c - A.T.dot(lam)
    for j in range(n):
        if j not in B:
            y[j] = 1.0 if red[j] < 0 else 0.0
    return A.dot(y)


def bad_state(A, s):
    d, n = A.shape
    k = finite.canon(s, n)
    if not finite.well_formed(k):
        return str(k)
    if len(k) != d:
        return 'size {} != {}'.format(len(k), d)
    if abs(np.linalg.det(A[:, list(k)])) < 1e-9:
        return 'not a basis: {}'.format(k)


def traces(rec, seeds, seed):
    for s in seeds:
        r = np.random.RandomState(seed * 1000 + s)
        d = int(r.randint(1, 4))
        n = int(r.randint(d, 7))
        kind = ('generic', 'aniso', 'parallel', 'zero', 'unit')[s % 5]
        A = gen(r, d, n, kind)
        nb = int(r.choice([1, 2, 3, 10, 30]))
        rp = dict(seed=seed * 1000 + s, d=d, n=n, kind=kind, nb_iter=nb)
        dpp = FiniteDPP('correlation', projection=True, A_zono=A)
        kw = {}
        if s % 3 == 0:
            kw['lin_obj'] = r.randn(n)
        if s % 3 == 1:
            kw['lin_obj'] = r.randn(n)
            law = law_of(A)
            B0 = max(law, key=law.get)
            kw['x_0'] = tile_point(r, A, kw['lin_obj'], B0)
        default = s % 4 == 0
        if not default:
            kw['nb_iter'] = nb
        key = 'trace'
        ok, last = shim_safe(rec, key, dpp.sample_mcmc, 'zonotope', random_state=s, replay=rp, **kw)
        if not ok:
            continue
        if not rec.expect(len(dpp.list_of_samples) == 1, key + '/recorded', 'chain not recorded once', **rp):
            continue
        chain = dpp.list_of_samples[0]
        rec.observe((key, s, kind, nb), n=len(chain), nontrivial=n > d)
        rec.expect(len(chain) == (10 if default else nb), key + '/length', 'chain of length {}'.format(len(chain)), **rp)
        rec.expect(list(last) == list(chain[-1]), key + '/last', 'returned value is not the last state', **rp)
        for st in chain:
            msg = bad_state(A, st)
            if msg:
                rec.violate(key + '/state', msg, state=st, **rp)
                break
        if 'x_0' in kw:
            rec.count('tiles')
            rec.expect(finite.canon(chain[0], n) == B0, key + '/tile',
                       'x_0 lies in the tile of {} but the chain starts at {}'.format(B0, chain[0]), **rp)
        # same initial tile for linearly transformed features
        if 'x_0' in kw:
            M = r.randn(d, d)
            if abs(np.linalg.det(M)) > 0.1:
                ok, ch2 = shim_safe(rec, key, mcmc_sampling.zonotope_sampler, M.dot(A), lin_obj=kw['lin_obj'],
                                    x_0=M.dot(kw['x_0']), nb_iter=1, random_state=s, replay=rp)
                if ok:
                    rec.expect(finite.canon(ch2[0], n) == B0, key + '/rowspace',
                               'tile depends on a change of rows: {} vs {}'.format(ch2[0], B0), **rp)
        # time limit under a virtual clock
        for T in (2.5, 0.5, 1e6):
            with VirtualClock(1.0) as clock:
                ok, ch = shim_safe(rec, key, mcmc_sampling.zonotope_sampler, A, nb_iter=12, T_max=T,
                                   random_state=s, replay=rp)
            if ok:
                check_shape(rec, key + '/T_max', ch, 12, T, clock, rp)


class Degenerate:
    """some proposals land on the border of a tile: coordinates of the solution move to 0 or 1"""

    def __init__(self, seed, rate, first=False):
        self.first = first
        self.r, self.rate, self.calls, self.hit = np.random.RandomState(seed), rate, 0, 0

    def __call__(self, y):
        self.calls += 1
        if (self.calls == 1 and not self.first) or self.r.rand() > self.rate:
            return y
        inner = np.flatnonzero((y > 1e-5) & (y < 1 - 1e-5))
        if not len(inner):
            return y
        y = y.copy()
        self.hit += 1
        k = self.r.randint(1, len(inner) + 1)
        for i in self.r.permutation(inner)[:k]:
            y[i] = self.r.choice([0., 1., 1e-9, 1 - 1e-9])
        return y

    def __enter__(self):
        fakecvxopt.FAULT = self
        return self

    def __exit__(self, *a):
        fakecvxopt.FAULT = None


def degenerate(rec, seeds, seed):
    """injected degenerate proposals: every recorded state is a basis all the same, and the chain still moves"""
    moved = total = hits = 0
    for s in seeds:
        r = np.random.RandomState(seed * 991 + s)
        d = int(r.randint(1, 4))
        n = int(r.randint(d + 1, 7))
        A = gen(r, d, n, 'generic')
        rate = float(r.choice([.2, .5, .9, 1.]))
        nb = int(r.choice([3, 10, 25]))
        rp = dict(seed=seed * 991 + s, d=d, n=n, nb_iter=nb, rate=rate)
        key = 'degenerate'
        with Degenerate(s, rate, first=rate < 1 and s % 2) as fault:
            ok, ch = shim_safe(rec, key, mcmc_sampling.zonotope_sampler, A, nb_iter=nb, random_state=s, replay=rp)
        if not ok:
            continue
        hits += fault.hit
        rec.observe((key, s, nb, rate), n=len(ch), nontrivial=fault.hit > 0, sample=dict(rp, degenerate_proposals=fault.hit))
        rec.count('degenerate_proposals', fault.hit)
        rec.expect(len(ch) == nb, key + '/length', 'chain of length {}'.format(len(ch)), **rp)
        for st in ch:
            msg = bad_state(A, st)
            if msg:
                rec.violate(key + '/state', msg, state=st, **rp)
                break
        if rate == 1.:
            rec.expect(fault.hit < nb - 1 or all(finite.canon(st, n) == finite.canon(ch[0], n) for st in ch), key + '/moved',
                       'the chain moved although all proposals are degenerate', **rp)
        else:
            moved += sum(finite.canon(a, n) != finite.canon(b, n) for a, b in zip(ch, ch[1:]))
            total += nb
    if hits and total > 200:
        rec.expect(moved > 0, 'degenerate/frozen', 'chains never move after degenerate proposals', total=total)


class Tracer:
    """the linear problems met along a chain, in order: ('segment', x, d, t) and ('tile', x)"""

    def __init__(self):
        self.log = []

    def __call__(self, c, A, b, lo, hi, x):
        free = np.flatnonzero(np.isinf(lo))
        if len(free) == 1:
            j = free[0]
            self.log.append(('segment', b.copy(), A[:, j].copy(), float(x[j])))
        elif len(free) == 0:
            self.log.append(('tile', b.copy()))
        else:
            self.log.append(('other',))

    def __enter__(self):
        fakecvxopt.TRACE = self
        return self

    def __exit__(self, *a):
        fakecvxopt.TRACE = None


def tile_of(A, c, x):
    """the tile of x for the objective c, found here; None on borders"""
    d, n = A.shape
    y = fakecvxopt._enumerate(c, A, x, np.zeros(n), np.ones(n))
    if y is None:
        return None
    inner = np.flatnonzero((y > 1e-4) & (y < 1 - 1e-4))
    edge = np.any((np.minimum(y, 1 - y) < 1e-4) & (np.minimum(y, 1 - y) > 1e-7))
    return tuple(int(i) for i in inner) if len(inner) == d and not edge else None


def longtrace(rec, d, n, kind, nb, seed):
    """the steps of long chains: each segment starts in the tile of the state recorded just before, the proposal is
    uniform on it, moves are accepted with probability min(1, |det B1| / |det B0|)"""
    r = np.random.RandomState(seed)
    A = gen(r, d, n, kind)
    c = r.randn(n)
    law = law_of(A)
    x = tile_point(r, A, c, max(law, key=law.get))
    rp = dict(d=d, n=n, kind=kind, nb_iter=nb, seed=seed)
    key = 'steps'
    with Tracer() as tr:
        ok, ch = shim_safe(rec, key, mcmc_sampling.zonotope_sampler, A, lin_obj=c, x_0=x, nb_iter=nb, random_state=r, replay=rp)
    if not ok:
        return
    rec.expect(len(ch) == nb, key + '/length', 'chain of length {}'.format(len(ch)), **rp)
    for st in ch:
        msg = bad_state(A, st)
        if msg:
            rec.violate(key + '/state', msg, state=st, **rp)
            return
    # one group per iteration: two segment problems of the same line, then the tile of the proposal
    it, i, log = [], 0, tr.log
    if log and log[0][0] == 'tile':
        i = 1
    while i + 2 < len(log) + 0 and [e[0] for e in log[i:i + 3]] == ['segment', 'segment', 'tile']:
        it.append(log[i:i + 3])
        i += 3
    if i != len(log) or len(it) != nb - 1 or any(not np.allclose(a[1], b[1]) for a, b, _ in it):
        rec.undecided('the linear problems of the chain are not the expected ones')     # written otherwise: nothing to say
        return
    us, acc, pacc, used = [], [], [], 0
    for t, (a, b, p) in enumerate(it):
        x0, x1 = a[1], p[1]
        B0, B1 = finite.canon(ch[t], n), tile_of(A, c, x1)
        T0 = tile_of(A, c, x0)
        if T0 is not None:
            used += 1
            if not rec.expect(T0 == B0, key + '/point', 'iteration {}: recorded state {} but the line starts in the tile {}'.format(t + 1, B0, T0), **rp):
                return
        dd = a[2] if a[2].dot(a[2]) > 0 else None
        if dd is not None and b[2].dot(b[2]) > 0:
            ends = sorted([a[3] * np.sign(1), b[3] * np.sign(a[2].dot(b[2])) * np.sqrt(b[2].dot(b[2]) / a[2].dot(a[2]))])
            for sg in (1, -1):          # x = A lam - alpha*col or + alpha*col
                y0, y1 = x0 - sg * ends[0] * dd, x0 - sg * ends[1] * dd
                w = y1 - y0
                if w.dot(w) < 1e-18:
                    continue
                u = (x1 - y0).dot(w) / w.dot(w)
                if sg == 1:
                    if not rec.expect(np.linalg.norm(x1 - y0 - u * w) <= 1e-6 * (1 + np.linalg.norm(w)), key + '/line',
                                      'iteration {}: the proposal is not on the line'.format(t + 1), **rp):
                        return
                    us.append(u)
        B2 = finite.canon(ch[t + 1], n)
        if B1 is not None and B1 == B0 and t + 1 < len(it):
            x2 = it[t + 1][0][1]
            rec.expect(B2 == B0 and np.allclose(x2, x1), key + '/inside', 'iteration {}: a proposal in the current tile is not taken'.format(t + 1), **rp)
        elif B1 is not None:
            if not rec.expect(B2 in (B0, B1), key + '/jump', 'iteration {}: {} -> {} while {} was proposed'.format(t + 1, B0, B2, B1), **rp):
                return
            p_ = min(1.0, np.sqrt(law[B1] / law[B0]))
            if t + 1 < len(it):
                x2 = it[t + 1][0][1]
                want = x1 if B2 == B1 else x0
                if not rec.expect(np.allclose(x2, want), key + '/next', 'iteration {}: state {} but the next line starts elsewhere'.format(t + 1, B2), **rp):
                    return
            acc.append(B2 == B1)
            pacc.append(p_)
    rec.observe((key, rp), n=len(it), nontrivial=sum(acc) > 0, sample=dict(rp, moves=int(sum(acc)), iterations=len(it), points_located=used))
    rec.count('steps', len(it))
    us = np.array(us)
    if len(us) > 50:
        pv, desc = stats.ks(us, 'uniform')
        rec.expect(pv > stats.ALPHA, key + '/uniform', 'position of the proposals on the segments: ' + desc, **rp)
    acc, pacc = np.array(acc, float), np.array(pacc)
    if len(acc):
        rec.expect(np.all(acc[pacc > 1 - 1e-9] == 1), key + '/accept', 'a move to a larger tile is rejected', **rp)
        v = np.sum(pacc * (1 - pacc))
        if v > 5:
            z = abs(np.sum(acc - pacc)) / np.sqrt(v)
            rec.expect(z < 6.5, key + '/accept', 'accepted {} moves of {}, expected {:.1f} (z={:.1f})'.format(int(acc.sum()), len(acc), pacc.sum(), z), **rp)


def border(rec, seeds, seed):
    """starting points on the border of a tile are refused or lead to a valid chain; in both cases the call returns"""
    for s in seeds:
        r = np.random.RandomState(seed * 313 + s)
        d = int(r.randint(1, 4))
        n = int(r.randint(d + 1, 7))
        A = gen(r, d, n, 'generic')
        y = (r.rand(n) < .5).astype(float)              # a vertex of the cube
        c = r.randn(n)
        B = sorted(law_of(A), key=law_of(A).get)[-1]
        x0 = tile_point(r, A, c, B) if s % 4 == 0 else A.dot(y) if s % 4 == 1 else None
        if x0 is None:
            y = np.zeros(n)
            lam = np.linalg.solve(A[:, B].T, c[list(B)])
            red = c - A.T.dot(lam)
            for j in range(n):
                y[j] = r.choice([0., 1., .5]) if j in B else float(red[j] < 0)
            x0 = A.dot(y)
        rp = dict(seed=seed * 313 + s, d=d, n=n, x_0=x0, lin_obj=c)
        ok, ch = shim_safe(rec, 'border', mcmc_sampling.zonotope_sampler, A, lin_obj=c, x_0=x0, nb_iter=4,
                           random_state=s, replay=rp, cpu=20, allow=(ValueError,))
        rec.observe(('border', s), nontrivial=s % 4 > 0, sample=dict(rp, refused=not ok))
        if ok:
            for st in ch:
                msg = bad_state(A, st)
                if not rec.expect(not msg, 'border/state', msg, state=st, **rp):
                    break
        else:
            rec.expect(s % 4 > 0, 'border/refused', 'a point in the interior of a tile was refused', **rp)


def basis(rec, seeds, seed):
    for s in seeds:
        r = np.random.RandomState(seed * 77 + s)
        n = int(r.randint(1, 9))
        y = r.choice([0., 1., 1e-7, 1 - 1e-7, .3, .9, .5, 1e-3, 1 - 1e-3, 0.02], size=n)
        eps = float(r.choice([1e-5, 1e-2, 5e-3]))
        want = tuple(i for i in range(n) if eps < y[i] < 1 - eps)
        for shape in ((n,), (n, 1)):
            ok, b = rec.call('basis', mcmc_sampling.extract_basis, y.reshape(shape), eps, replay=dict(y=y, eps=eps))
            if ok:
                rec.observe(('basis', tuple(y), eps))
                rec.expect(tuple(int(i) for i in b) == want, 'basis', 'extract_basis({}, {}) = {}'.format(y, eps, b))
        if eps == 1e-5:
            ok, b = rec.call('basis', mcmc_sampling.extract_basis, y)
            rec.expect(not ok or tuple(int(i) for i in b) == want, 'basis', 'default eps: {} -> {}'.format(y, b))


def stationary(rec, d, n, kind, steps, reps, seed, part):
    """chains started in the stationary law of (point, tile)"""
    r0 = np.random.RandomState(seed * 13 + 100 * d + n)
    A = gen(r0, d, n, kind)
    c = r0.randn(n)
    law = law_of(A)
    bases = [b for b in law if law[b] > 0]
    p = np.array([law[b] for b in bases])
    r = np.random.RandomState(seed * 1000 + part)
    counts, moved = collections.Counter(), 0
    rp = dict(d=d, n=n, kind=kind, steps=steps, seed=seed, part=part)
    key = 'stationarity'
    for i in range(reps):
        B = bases[r.choice(len(bases), p=p / p.sum())]
        x = tile_point(r, A, c, B)
        ok, ch = shim_safe(rec, key, mcmc_sampling.zonotope_sampler, A, lin_obj=c, x_0=x, nb_iter=steps + 1,
                           random_state=r, replay=rp)
        if not ok or len(ch) != steps + 1:
            return
        b = finite.canon(ch[-1], n)
        counts[b] += 1
        moved += b != B
    pv, desc = stats.gof(counts, law)
    rec.observe((key, rp), n=reps, nontrivial=len(bases) > 1, sample=dict(rp, moved=moved, stat=desc))
    rec.count('transitions', reps * steps)
    rec.count('moves', moved)
    rec.expect(pv > stats.ALPHA, key, desc, **rp)
    if len(bases) > 1 and sorted(p)[-2] > 0.05:
        rec.expect(moved > 0, key + '/frozen', 'the chain never leaves its initial basis', **rp)


def convergence(rec, d, n, seed, reps, length):
    r = np.random.RandomState(seed * 17 + 10 * d + n)
    A = gen(r, d, n, 'generic')
    law = law_of(A)
    dpp = FiniteDPP('correlation', projection=True, A_zono=A)
    counts = collections.Counter()
    rp = dict(d=d, n=n, seed=seed, length=length)
    for i in range(reps):
        ok, s = shim_safe(rec, 'convergence', dpp.sample_mcmc, 'zonotope', nb_iter=length, random_state=r, replay=rp)
        if not ok:
            return
        counts[finite.canon(s, n)] += 1
        dpp.flush_samples()
    pv, desc = stats.gof(counts, law)
    tv = 0.5 * sum(abs(counts.get(b, 0) / reps - law.get(b, 0)) for b in set(law) | set(counts))
    rec.observe(('convergence', rp), n=reps, sample=dict(rp, stat=desc, tv=tv))
    rec.expect(pv > stats.ALPHA or tv < 0.06, 'convergence', '{} TV={:.3f}'.format(desc, tv), **rp)


def jobs(tier, seed):
    th = tier == 'thorough'
    m = 120 if not th else 600
    out = [Job('trace#%d' % b, traces, seeds=list(range(m))[b::6], seed=seed, timeout=800) for b in range(6)]
    for b in range(2):
        out.append(Job('degenerate#%d' % b, degenerate, seeds=list(range(m))[b::2], seed=seed, timeout=800))
    out.append(Job('border', border, seeds=list(range(m // 2)), seed=seed, timeout=800))
    out.append(Job('basis', basis, seeds=list(range(200)), seed=seed))
    reps = 6000 if not th else 30000
    confs = [(1, 3, 'generic'), (2, 4, 'generic'), (2, 4, 'aniso'), (2, 5, 'parallel'), (3, 5, 'generic'), (2, 4, 'zero')]
    for d, n, kind in confs:
        for steps in (1, 4):
            out.append(Job('stationary#%d-%d-%s-%d' % (d, n, kind, steps), stationary, d=d, n=n, kind=kind, steps=steps,
                           reps=reps if steps == 1 else reps // 2, seed=seed, part=steps, timeout=850))
    for d, n, kind in ((1, 3, 'generic'), (2, 4, 'generic'), (2, 5, 'aniso'), (3, 5, 'generic'), (3, 6, 'unit'), (2, 6, 'generic'), (4, 6, 'generic'), (2, 2, 'generic')):
        for rep in range(2 if not th else 8):
            out.append(Job('steps#%d-%d-%s-%d' % (d, n, kind, rep), longtrace, d=d, n=n, kind=kind, nb=1500 if not th else 4000,
                           seed=1000 * seed + 10 * d + n + 100 * rep, timeout=850))
    out.append(Job('convergence#2-4', convergence, d=2, n=4, seed=seed, reps=1500 if not th else 8000, length=30, timeout=850))
    return out
