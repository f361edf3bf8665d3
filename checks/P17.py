"""P17: uniform permutations and the Robinson-Schensted-Knuth correspondence."""
import itertools
import math

import numpy as np

from mon import lawcheck, stats
from mon.core import Job
from dppy.exotic_dpps_core import RSK, uniform_permutation

RULE = ('permutations: exact law of the real sampler over all entropy branches for N<=6 compared with 1/N!, '
        'distributional statistics beyond; RSK: each case = one sequence; tableaux are monitored for shape, '
        'standardness, agreement with an independent quadratic row insertion, invertibility, the symmetry '
        'P(sigma^-1) = Q(sigma), and first row/column lengths = longest weakly increasing/strictly '
        'decreasing subsequences computed by dynamic programming')
ASSUMPTIONS = ['sequences of comparable numbers']


def perm_law(rec, N, seed):
    def run(rng):
        return tuple(int(x) for x in uniform_permutation(N, random_state=rng))
    law = {p: 1.0 / math.factorial(N) for p in itertools.permutations(range(N))}
    lawcheck.check_law(rec, 'permutation', run, law, replay=dict(N=N), stat_n=20000, stat_seed=seed,
                       max_leaves=40000)


def perm_stats(rec, N, seed, draws):
    r = np.random.RandomState(seed)
    first, where0, fixed, inv = [], [], [], []
    for _ in range(draws):
        ok, s = rec.call('permutation', uniform_permutation, N, random_state=r, replay=dict(N=N))
        if not ok:
            return
        s = np.asarray(s)
        if not rec.expect(s.shape == (N,) and sorted(s.tolist()) == list(range(N)), 'permutation/valid',
                          'not a permutation of 0..N-1', N=N):
            return
        first.append(s[0])
        where0.append(int(np.where(s == 0)[0][0]))
        fixed.append(int(np.sum(s == np.arange(N))))
        inv.append(int(np.sum(s[:-1] > s[1:])))
    rec.observe(('perm_stats', N), n=draws, nontrivial=N > 1, sample=dict(N=N, draws=draws))
    if N < 2:
        return
    import collections
    for nm, x in (('first', first), ('position_of_0', where0)):
        pv, d = stats.gof(collections.Counter(int(v) for v in x), {i: 1.0 / N for i in range(N)})
        rec.expect(pv > stats.ALPHA, 'permutation/' + nm, d, N=N)
    pv, d = stats.ztest(fixed, 1.0, 1.0)
    rec.expect(pv > stats.ALPHA, 'permutation/fixed', d, N=N)
    pv, d = stats.ztest(inv, (N - 1) / 2., math.sqrt((N + 1) / 12.))
    rec.expect(pv > stats.ALPHA, 'permutation/descents', d, N=N)


def perm_sizes(rec, seed, sizes):
    """every size: a permutation, with the displacement and descents of a uniform one"""
    r = np.random.RandomState(seed)
    for N in sizes:
        for N_ in (N, np.int64(N)):
            ok, s = rec.call('permutation', uniform_permutation, N_, random_state=r, replay=dict(N=N))
            if not ok:
                break
            s = np.asarray(s)
            rec.observe(('perm_sizes', N, type(N_).__name__), nontrivial=N > 1)
            if not rec.expect(s.shape == (N,) and np.array_equal(np.sort(s), np.arange(N)), 'permutation/valid',
                              'not a permutation of 0..N-1', N=N):
                break
            if N >= 200:
                v = s.astype(float) - (N - 1) / 2.
                w = np.arange(N) - (N - 1) / 2.
                c = np.sum(v * w) / np.sum(w * w) * math.sqrt(N - 1)
                dsc = (np.sum(s[:-1] > s[1:]) - (N - 1) / 2.) / math.sqrt((N + 1) / 12.)
                rec.expect(abs(c) < 7 and abs(dsc) < 7, 'permutation/uniform', 'N={}: rank correlation with the identity {:.2f}, '
                           'descents {:.2f} standard deviations off'.format(N, c, dsc), N=N)


def ref_rsk(seq):
    P, Q = [], []
    for t, x in enumerate(seq, 1):
        i = 0
        while True:
            if i == len(P):
                P.append([x])
                Q.append([t])
                break
            j = next((j for j, y in enumerate(P[i]) if y > x), None)
            if j is None:
                P[i].append(x)
                Q[i].append(t)
                break
            P[i][j], x = x, P[i][j]
            i += 1
    return P, Q


def inverse_rsk(P, Q):
    P = [list(r) for r in P]
    Q = [list(r) for r in Q]
    out = []
    n = sum(map(len, P))
    for t in range(n, 0, -1):
        i = next(i for i, row in enumerate(Q) if row and row[-1] == t)
        Q[i].pop()
        x = P[i].pop()
        for k in range(i - 1, -1, -1):
            j = max(j for j, y in enumerate(P[k]) if y < x)
            P[k][j], x = x, P[k][j]
        out.append(x)
    return out[::-1]


def longest(seq, ok):
    seq = np.asarray(seq, float)
    best = np.zeros(len(seq), dtype=int)
    for i, x in enumerate(seq):
        best[i] = 1 + max(best[:i][ok(seq[:i], x)], default=0)
    return max(best, default=0)


def one(rec, seq, rp, how):
    arg = {'list': list, 'tuple': tuple, 'array': np.array}[how](seq)
    ok, res = rec.call('rsk', RSK, arg, replay=rp)
    if not ok:
        return
    P, Q = res
    P, Q = [list(map(float, r)) for r in P], [list(map(int, r)) for r in Q]
    seq = [float(x) for x in seq]
    sh = [len(r) for r in P]
    rec.observe(('rsk', tuple(seq)), nontrivial=len(seq) > 1, sample=dict(rp, shape=sh))
    if not rec.expect(sh == [len(r) for r in Q] and sh == sorted(sh, reverse=True) and sum(sh) == len(seq) and 0 not in sh,
                      'rsk/shape', 'shapes {} {}'.format(sh, [len(r) for r in Q]), **rp):
        return
    rec.expect(sorted(sum(P, [])) == sorted(seq), 'rsk/content', 'P does not contain the sequence', **rp)
    rec.expect(sorted(sum(Q, [])) == list(range(1, len(seq) + 1)), 'rsk/Qcontent', 'Q is not 1..n', **rp)
    for nm, T, strict in (('P', P, False), ('Q', Q, True)):
        rows = all((a < b if strict else a <= b) for r in T for a, b in zip(r, r[1:]))
        cols = all(T[i][j] < T[i + 1][j] for i in range(len(T) - 1) for j in range(len(T[i + 1])))
        rec.expect(rows and cols, 'rsk/' + nm + '_standard', nm + ' is not (semi)standard', **rp)
    rp_, rq_ = ref_rsk(seq)
    rec.expect((P, Q) == (rp_, rq_), 'rsk/reference', 'differs from row insertion', **rp)
    try:
        back = inverse_rsk(P, Q)
    except (ValueError, StopIteration):
        back = None
    rec.expect(back == seq, 'rsk/inverse', 'the correspondence is not invertible', **rp)
    rec.expect((sh[0] if sh else 0) == longest(seq, lambda a, b: a <= b), 'rsk/lis', 'first row', **rp)
    rec.expect(len(sh) == longest(seq, lambda a, b: a > b), 'rsk/lds', 'number of rows', **rp)
    if len(set(seq)) == len(seq) and sorted(seq) == list(range(len(seq))):
        inv = [0.] * len(seq)
        for i, v in enumerate(seq):
            inv[int(v)] = i
        P2, Q2 = RSK(inv)
        rec.expect([[int(x) + 1 for x in r] for r in P2] == Q and
                   [[x - 1 for x in r] for r in Q2] == [[int(x) for x in r] for r in P],
                   'rsk/symmetry', 'RSK(inverse) is not (Q, P)', **rp)


def rsk(rec, seed, count, exhaustive):
    r = np.random.RandomState(seed)
    for n in range(0, exhaustive + 1):
        for p in itertools.permutations(range(n)):
            one(rec, p, dict(seq=p), ('list', 'tuple', 'array')[sum(p[:1]) % 3])
    for n in range(1, 5):
        for p in itertools.product(range(3), repeat=n):
            one(rec, p, dict(seq=p), 'list')
    for c in range(count):
        n = int(r.choice([2, 5, 9, 20, 60, 150, 260]) if c % 20 else r.choice([300, 700, 1100]))
        kind = r.randint(10)
        seq = {0: lambda: r.permutation(n), 1: lambda: r.randint(0, max(2, n // 3), n), 2: lambda: r.randn(n),
               3: lambda: np.sort(r.randn(n))[::-1], 4: lambda: np.round(r.randn(n), 1) * np.array(1.),
               5: lambda: np.argsort(np.arange(n) + r.randn(n) * r.choice([.3, 3, 10])),          # long rows
               6: lambda: np.argsort(-np.arange(n) + r.randn(n) * r.choice([.3, 3, 10])),         # long columns
               7: lambda: r.randint(0, 2, n), 8: lambda: np.arange(n),
               9: lambda: r.permutation(n) * r.choice([1e-9, 1e9])}[kind]()
        one(rec, seq.tolist(), dict(seq=seq.tolist()), ('list', 'tuple', 'array')[c % 3])


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [Job('perm_law#%d' % N, perm_law, timeout=600, N=N, seed=seed) for N in range(1, 7 if not th else 8)]
    for N in (2, 3, 7, 50) + ((500,) if th else ()):
        out.append(Job('perm_stats#%d' % N, perm_stats, timeout=600, N=N, seed=seed,
                       draws=40000 if not th else 400000))
    out.append(Job('perm_sizes', perm_sizes, timeout=600, seed=seed,
                   sizes=list(range(0, 40)) + [63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 513, 1000,
                                               4097, 33000, 66000] + ([200000] if th else [])))
    for b in range(4 if not th else 16):
        out.append(Job('rsk#%d' % b, rsk, timeout=600, seed=100 * seed + b, count=600 if not th else 8000,
                       exhaustive=(6 if not th else 7) if b == 0 else 2))
    return out
