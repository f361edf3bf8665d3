"""Large ground sets whose (k-)DPP is explicit: items are split into groups, the kernel is block diagonal
with blocks of rank one.  Two items of the same group are never sampled together, groups are occupied
independently (or as a k-DPP of their weights), the item representing an occupied group has probability v_j^2."""
import itertools
import warnings

import numpy as np
import scipy.stats as st

from mon import finite, ref, stats
from dppy.finite_dpps import FiniteDPP


class Groups:
    def __init__(self, n, g, seed, proj=False, low=.03):
        r = np.random.RandomState(seed)
        self.n, self.g = n, g
        lab = np.concatenate([np.arange(g), r.randint(g, size=n - g)])
        self.lab = r.permutation(lab)
        self.v = r.randn(n) * 10.0**r.uniform(-1, 0, n)
        null = r.rand(n) < 0.05
        for a in range(g):
            i = np.where(self.lab == a)[0]
            if null[i].all():
                null[i[0]] = False
        self.v[null] = 0.0
        nrm = np.sqrt(np.bincount(self.lab, self.v**2, g))
        self.v /= nrm[self.lab]
        self.k = np.ones(g) if proj else r.uniform(low, .97, g)
        self.proj = proj
        self.U = np.zeros((n, g))
        self.U[np.arange(n), self.lab] = self.v
        # cumulative probability of the items inside their group
        self.lo = np.zeros(n)
        for a in range(g):
            i = np.where(self.lab == a)[0]
            self.lo[i] = np.concatenate([[0], np.cumsum(self.v[i]**2)[:-1]])

    @property
    def l(self):
        return self.k / (1 - self.k)

    def K(self):
        return (self.U * self.k).dot(self.U.T)

    def L(self, c=1.0):
        return (self.U * (c * self.l)).dot(self.U.T)

    def dpp(self, param, seed=0):
        r = np.random.RandomState(seed)
        U, n, g = self.U, self.n, self.g
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if self.proj:
                if param == 'proj_K':
                    return FiniteDPP('correlation', projection=True, K=self.K())
                if param == 'proj_K_thin':
                    Q = np.linalg.qr(r.randn(g, g))[0]
                    return FiniteDPP('correlation', projection=True, K_eig_dec=(np.ones(g), U.dot(Q)))
                if param == 'proj_A_zono':
                    return FiniteDPP('correlation', projection=True, A_zono=r.randn(g, g).dot(U.T))
            if param == 'K':
                return FiniteDPP('correlation', K=self.K())
            if param == 'K_thin':
                return FiniteDPP('correlation', K_eig_dec=(self.k.copy(), U.copy()))
            if param == 'L':
                return FiniteDPP('likelihood', L=self.L())
            if param == 'L_thin':
                return FiniteDPP('likelihood', L_eig_dec=(self.l.copy(), U.copy()))
            if param == 'L_gram_factor':
                Q = np.linalg.qr(r.randn(g, g))[0]
                return FiniteDPP('likelihood', L_gram_factor=Q.dot((U * np.sqrt(self.l)).T))
            if param == 'L_eval_X_data':
                return FiniteDPP('likelihood', L_eval_X_data=(finite.linear_eval_L, U * np.sqrt(self.l)))
        raise KeyError(param)


def log_esp(lw, k):
    le = np.full(k + 1, -np.inf)
    le[0] = 0.0
    for x in lw:
        le[1:] = np.logaddexp(le[1:], x + le[:-1])
    return le


def judge(rec, key, G, draws, rp, k=None, shifted=None):
    """draws: list of samples; k: size of the k-DPP (None: DPP)"""
    m = len(draws)
    occ = np.zeros((m, G.g))
    pit = []
    r = np.random.RandomState(12345)
    for t, s in enumerate(draws):
        c = finite.canon(s, G.n)
        if not rec.expect(finite.well_formed(c), key + '/malformed', 'sample {}'.format(str(c)[:200]), **rp):
            return
        c = np.array(c, dtype=int)
        a = G.lab[c]
        if not rec.expect(len(set(a.tolist())) == len(a), key + '/exclusion', 'two items of one block of rank one: {}'.format(c[:50].tolist()), **rp):
            return
        if not rec.expect(np.all(G.v[c] != 0), key + '/null', 'an item of probability zero in {}'.format(c[:50].tolist()), **rp):
            return
        occ[t, a] = 1
        pit.extend(G.lo[c] + r.rand(len(c)) * G.v[c]**2)
    sizes = occ.sum(1).astype(int)
    if k is not None:
        if not rec.expect(np.all(sizes == k), key + '/size', 'sizes {} requested {}'.format(sorted(set(sizes.tolist()))[:5], k), **rp):
            return
        lw = np.log(G.l) if not G.proj else np.zeros(G.g)
        tot = log_esp(lw, k)[k]
        p = np.exp([lw[i] + log_esp(np.delete(lw, i), k - 1)[k - 1] - tot for i in range(G.g)]) if k else np.zeros(G.g)
    else:
        p = G.k
        pmf = np.array([1.0])
        for x in p:
            pmf = np.convolve(pmf, [1 - x, x])
        if G.proj:
            if not rec.expect(np.all(sizes == G.g), key + '/size', 'sizes {} rank {}'.format(sorted(set(sizes.tolist()))[:5], G.g), **rp):
                return
        else:
            cdf = np.cumsum(pmf)
            u = cdf[sizes] - r.rand(m) * pmf[sizes]
            pv, desc = stats.ks(u, 'uniform')
            rec.expect(pv > stats.ALPHA, key + '/cardinality', desc, **rp)
    f = occ.sum(0)
    for a in range(G.g):
        pv = stats.binom_test(f[a], m, min(max(p[a], 0), 1))
        rec.expect(pv > stats.ALPHA / G.g, key + '/blocks', 'block {} occupied {} times of {}, specified {:.4f}'.format(a, int(f[a]), m, p[a]), **rp)
    # pooled: blocks by decreasing probability
    order = np.argsort(p)
    if not G.proj:
        h = order[:G.g // 2]
        z = occ[:, h].sum(1) - p[h].sum()
        sd = z.std(ddof=1)
        if sd > 1e-9:
            q = 2 * st.norm.sf(abs(z.mean()) / sd * np.sqrt(m))
            rec.expect(q > stats.ALPHA, key + '/small_blocks', 'mean excess {:.4f} (sd {:.3f}, {} draws)'.format(z.mean(), sd, m), **rp)
    pv, desc = stats.ks(pit, 'uniform')
    rec.expect(pv > stats.ALPHA, key + '/inside', 'representatives of the blocks: ' + desc, **rp)
    rec.observe((key, rp), n=len(pit), sample=dict(case=rp, items=len(pit), ks=desc))


def run(rec, key, param, n, g, mode, seed, m, k=None, proj=False, sampler=None, low=.03):
    warnings.simplefilter('ignore')
    G = Groups(n, g, seed, proj, low)
    rp = dict(param=param, n=n, blocks=g, mode=mode, seed=seed, m=m, k=k)
    dpp = G.dpp(param, seed)
    rng = np.random.RandomState(seed + 1)
    draws = []
    for i in range(m):
        if sampler is not None:
            ok, s = rec.call(key, sampler, dpp, rng, replay=dict(rp, draw=i))
        elif k is None:
            ok, s = rec.call(key, dpp.sample_exact, mode=mode, random_state=rng, replay=dict(rp, draw=i))
        else:
            ok, s = rec.call(key, dpp.sample_exact_k_dpp, size=k, mode=mode, random_state=rng, replay=dict(rp, draw=i))
        if not ok:
            return
        draws.append(s)
    judge(rec, key, G, draws, rp, k)


class Blocks(Groups):
    """independent blocks of a few items with arbitrary kernels of small rank, so that the law of the
    part of the sample falling in a block is enumerable while the total rank is large"""

    def __init__(self, nb, seed, proj=False, low=.03):
        r = np.random.RandomState(seed)
        self.proj, self.nb = proj, nb
        parts, ks = [], []
        for b in range(nb):
            size = r.randint(2, 7)
            rank = r.randint(1, min(size, 3) + 1)
            V = r.randn(size, rank)
            kind = r.randint(4)
            if kind == 0 and size > rank:        # the same item twice
                V[1] = V[0] * r.choice([1, -1, 2.5])
            elif kind == 1 and size > rank:      # an item of probability zero
                V[-1] = 0.0
            elif kind == 2:
                V *= 10.0**r.uniform(-1, 0, size)[:, None]
            parts.append(np.linalg.qr(V)[0])
            ks.append(np.ones(rank) if proj else np.full(rank, r.uniform(low, .97)) if r.rand() < .2 else r.uniform(low, .97, rank))
        sizes = [len(p) for p in parts]
        self.n, self.g = sum(sizes), sum(p.shape[1] for p in parts)
        perm = r.permutation(self.n)
        self.U = np.zeros((self.n, self.g))
        self.blk = np.zeros(self.n, dtype=int)
        self.pos = np.zeros(self.n, dtype=int)
        self.k = np.concatenate(ks)
        self.rank_blk = np.repeat(np.arange(nb), [p.shape[1] for p in parts])
        i = j = 0
        for b, p in enumerate(parts):
            rows = perm[i:i + len(p)]
            self.U[rows, j:j + p.shape[1]] = p
            self.blk[rows] = b
            self.pos[rows] = np.arange(len(p))
            i, j = i + len(p), j + p.shape[1]
        # the eigenvectors come in any order
        o = r.permutation(self.g)
        self.U, self.k, self.rank_blk = self.U[:, o], self.k[o], self.rank_blk[o]
        self.laws = []
        j = 0
        for b, p in enumerate(parts):
            kb = ks[b]
            lam = np.ones(len(kb)) if proj else kb / (1 - kb)
            L = (p * lam).dot(p.T)
            law = {}
            for size in range(p.shape[1] + 1):
                w = {s: max(ref.det_sub(L, s), 0.0) for s in itertools.combinations(range(len(p)), size)}
                z = sum(w.values())
                w = {s: x / z for s, x in w.items()}
                law[size] = {s: (x if x > 1e-13 else 0.0) for s, x in w.items()}
            self.laws.append((law, ref.esp(lam)))


def judge_blocks(rec, key, B, draws, rp, k=None):
    m = len(draws)
    r = np.random.RandomState(54321)
    pit, sizes, totals = [], np.zeros((m, B.nb), dtype=int), []
    cums = [{size: (sorted(w), np.cumsum([w[s] for s in sorted(w)])) for size, w in law.items()} for law, _ in B.laws]
    for t, s in enumerate(draws):
        c = finite.canon(s, B.n)
        if not rec.expect(finite.well_formed(c), key + '/malformed', 'sample {}'.format(str(c)[:200]), **rp):
            return
        c = np.array(c, dtype=int)
        if not rec.expect(k is None or len(c) == k, key + '/size', 'size {} requested {}'.format(len(c), k), **rp):
            return
        if B.proj and k is None and not rec.expect(len(c) == B.g, key + '/size', 'size {} rank {}'.format(len(c), B.g), **rp):
            return
        totals.append(len(c))
        part = [[] for _ in range(B.nb)]
        for i in c:
            part[B.blk[i]].append(int(B.pos[i]))
        for b in range(B.nb):
            u = tuple(sorted(part[b]))
            p = B.laws[b][0].get(len(u), {}).get(u, 0.0)
            if not rec.expect(p > 0, key + '/impossible', 'the part {} of block {} has probability zero'.format(u, b), draw=t, **rp):
                return
            sizes[t, b] = len(u)
            names, cum = cums[b][len(u)]
            if len(names) > 1:
                pit.append(cum[names.index(u)] - r.rand() * p)
    if len(pit) > 20:
        pv, desc = stats.ks(pit, 'uniform')
        rec.expect(pv > stats.ALPHA, key + '/subsets', 'items sampled inside the blocks: ' + desc, **rp)
    # number of items per block
    es = [e for _, e in B.laws]

    def conv(idx, top):
        out = np.array([1.0])
        for i in idx:
            out = np.convolve(out, np.array(es[i]) / max(es[i]))[:top + 1]
            out = out / out.max()
        return out
    kk = k if k is not None else (B.g if B.proj else None)
    upits = []
    for b in range(B.nb):
        if kk is None:
            law = np.array(es[b]) / sum(es[b])
        else:
            rest = conv([i for i in range(B.nb) if i != b], kk)
            law = np.array([e * (rest[kk - j] if 0 <= kk - j < len(rest) else 0.0) for j, e in enumerate(es[b])])
            law = law / law.sum()
        cum = np.cumsum(law)
        u = cum[sizes[:, b]] - r.rand(m) * law[sizes[:, b]]
        upits.append(u)
        pv, desc = stats.gof({j: int(np.sum(sizes[:, b] == j)) for j in range(len(law)) if np.any(sizes[:, b] == j)}, dict(enumerate(law)))
        rec.expect(pv > stats.ALPHA / B.nb, key + '/numbers', 'items of block {}: {}'.format(b, desc), **rp)
    if kk is None:
        pv, desc = stats.ks(np.concatenate(upits), 'uniform')
        rec.expect(pv > stats.ALPHA, key + '/numbers', 'items per block: ' + desc, **rp)
        pmf = np.array([1.0])
        for x in B.k:
            pmf = np.convolve(pmf, [1 - x, x])
        T = np.array(totals)
        pv, desc = stats.ks(np.cumsum(pmf)[T] - r.rand(m) * pmf[T], 'uniform')
        rec.expect(pv > stats.ALPHA, key + '/cardinality', desc, **rp)
    rec.observe((key, rp), n=len(pit), sample=dict(case=rp, parts=len(pit), impossible_parts=int(sum(sum(1 for w in law.values() for x in w.values() if x == 0)
                                                                                                    for law, _ in B.laws))))


def run_blocks(rec, key, param, nb, mode, seed, m, k=None, proj=False, sampler=None, low=.03):
    warnings.simplefilter('ignore')
    B = Blocks(nb, seed, proj, low)
    if isinstance(k, float):
        k = int(round(k * B.g))
    rp = dict(param=param, blocks=nb, n=B.n, rank=B.g, mode=mode, seed=seed, m=m, k=k)
    dpp = B.dpp(param, seed)
    rng = np.random.RandomState(seed + 1)
    draws = []
    for i in range(m):
        if sampler is not None:
            ok, s = rec.call(key, sampler, dpp, rng, B, k, replay=dict(rp, draw=i))
        elif k is None:
            ok, s = rec.call(key, dpp.sample_exact, mode=mode, random_state=rng, replay=dict(rp, draw=i))
        else:
            ok, s = rec.call(key, dpp.sample_exact_k_dpp, size=k, mode=mode, random_state=rng, replay=dict(rp, draw=i))
        if not ok:
            return
        draws.append(s)
    judge_blocks(rec, key, B, draws, rp, k if not proj or k != B.g else None)
