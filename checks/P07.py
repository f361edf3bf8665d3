"""P07: the (k-)DPP is the stationary law of every MCMC kernel."""
import itertools

import numpy as np

from mon import finite, ref, rngmon, stats
from mon.core import Job, cpu_budget, Stuck, lib_site
from dppy.finite_dpps import FiniteDPP

RULE = ('each case = (parametrisation, kernel, mode): the exact one-step transition matrix of the real '
        'chain is observed by replaying one transition from every state along every entropy branch; '
        'monitored: rows are stochastic, pi P = pi for the (k-)DPP pi, all states of positive probability '
        'communicate; non-trivial = at least 2 states')
ASSUMPTIONS = ['N <= 5 (quick) / 6 (thorough)']


def transition_matrix(rec, key, dpp_factory, mode, states, n, rp, params):
    P = {}
    leaves = 0
    for s in states:
        def run(rng):
            dpp = dpp_factory()
            dpp.sample_mcmc(mode, s_init=list(s), nb_iter=2, random_state=rng, **params)
            chain = dpp.list_of_samples[-1]
            if len(chain) != 2:
                return ('chain_length', len(chain))
            a, b = finite.canon(chain[0], n), finite.canon(chain[1], n)
            return b if a == tuple(s) else ('start', a)
        try:
            with cpu_budget(120):
                law, lv, crashes = rngmon.exact_law(run)
        except rngmon.Undecidable as e:
            rec.undecided('{}: {}'.format(key, e))
            return None, 0
        if crashes:
            e = crashes[0][0]
            if lib_site(e) is None:
                raise e
            # confirm under ordinary entropy
            for t in range(500):
                try:
                    run(np.random.RandomState(t))
                except Exception as e2:
                    rec.violate(key + '/raises/' + type(e2).__name__,
                                'transition from {} raised {}: {}'.format(s, type(e2).__name__, e2), state=s, **rp)
                    return None, 0
            rec.undecided('{}: unconfirmed scripted crash {!r}'.format(key, e))
            return None, 0
        leaves += lv
        P[s] = law
    return P, leaves


def stationarity(rec, cases):
    for param, kern, n, mode, size, seed in cases:
        factory, info = finite.build(param, kern, n, seed, rank=size if 'proj' in param else None)
        if mode == 'E':
            L = info['K'] if param.startswith('proj_') else info['L']
            law = ref.law_kdpp(L, size)
            params = dict(size=size)
        else:
            L = info['L']
            law = ref.law_L(L)
            params = {}
        tot = sum(law.values())
        states = [s for s in law if law[s] / tot > 1e-10]
        key = 'stationary/{}/{}'.format(mode, param)
        rp = dict(param=param, kern=kern, n=n, mode=mode, size=size, seed=seed)
        P, leaves = transition_matrix(rec, key, factory, mode, states, n, rp, params)
        if P is None:
            # statistical fallback: start in pi, make one step, test pi
            fallback(rec, key, factory, mode, law, n, rp, params)
            continue
        idx = {s: i for i, s in enumerate(states)}
        M = np.zeros((len(states), len(states)))
        bad = False
        for s in states:
            for t, p in P[s].items():
                if t not in idx:
                    if p > 1e-9:
                        rec.violate(key + '/support', 'transition {} -> {} with probability {:.3g} leaves the '
                                    'support of the target'.format(s, t, p), **rp)
                        bad = True
                    continue
                M[idx[s], idx[t]] += p
        rec.observe((key, rp), n=leaves, nontrivial=len(states) > 1,
                    sample=dict(rp, states=len(states), branches=leaves))
        rec.count('states', len(states))
        rec.count('branches', leaves)
        if bad:
            continue
        pi = np.array([law[s] for s in states])
        err = np.max(np.abs(pi.dot(M) - pi))
        rec.expect(np.max(np.abs(M.sum(1) - 1)) < 1e-8, key + '/stochastic', 'rows do not sum to 1', **rp)
        rec.expect(err < 1e-8, key, 'pi P - pi = {:.3g} (max norm, {} states): the (k-)DPP is not stationary'.format(
            err, len(states)), **rp)
        # communication: closure of M > 0
        R = (M > 1e-14).astype(int) + np.eye(len(states), dtype=int)
        for _ in range(10):
            R = (R.dot(R) > 0).astype(int)
        comm = R.min() > 0
        needs = mode != 'E' or matroid_connected(L, states)
        if len(states) > 1 and needs:
            rec.expect(comm, key + '/irreducible', 'states of positive probability do not communicate', **rp)
            if comm:
                rec.expect(np.max(np.diag(M)) > 0, key + '/aperiodic', 'chain has no holding probability', **rp)
        elif len(states) > 1:
            rec.count('exchange_graph_not_checked')


def matroid_connected(L, states):
    """is the single-exchange graph on the states connected?"""
    S = [set(s) for s in states]
    seen, stack = {0}, [0]
    while stack:
        i = stack.pop()
        for j in range(len(S)):
            if j not in seen and len(S[i] - S[j]) == 1:
                seen.add(j)
                stack.append(j)
    return len(seen) == len(S)


def fallback(rec, key, factory, mode, law, n, rp, params, m=6000):
    import collections
    states = list(law)
    p = np.array([law[s] for s in states])
    p /= p.sum()
    r = np.random.RandomState(77)
    counts = collections.Counter()
    dpp = factory()
    for i in range(m):
        s = states[r.choice(len(states), p=p)]
        ok, _ = rec.call(key, dpp.sample_mcmc, mode, s_init=list(s), nb_iter=3, random_state=r, replay=rp, **params)
        if not ok:
            return
        counts[finite.canon(dpp.list_of_samples[-1][-1], n)] += 1
    pv, desc = stats.gof(counts, law)
    rec.observe((key, rp, 'stat'), n=m, sample=dict(rp, stat=desc))
    rec.expect(pv > stats.ALPHA, key, 'stationarity (statistical): ' + desc, **rp)


def sequential(rec, param, kern, n, mode, size, seed, m):
    """the chain as users run it (long runs, from the default initialisation): the
    empirical law along a long trajectory, thinned"""
    import collections
    factory, info = finite.build(param, kern, n, seed, rank=size if 'proj' in param else None)
    if mode == 'E':
        law = ref.law_kdpp(info['K'] if param.startswith('proj_') else info['L'], size)
        params = dict(size=size)
    else:
        law = ref.law_L(info['L'])
        params = {}
    key = 'longrun/{}/{}'.format(mode, param)
    rp = dict(param=param, kern=kern, n=n, mode=mode, size=size, seed=seed, m=m)
    dpp = factory()
    ok, _ = rec.call(key, dpp.sample_mcmc, mode, nb_iter=m, random_state=seed, replay=rp, **params)
    if not ok:
        return
    chain = [finite.canon(s, n) for s in dpp.list_of_samples[-1]]
    thin = 40
    counts = collections.Counter(chain[thin::thin])
    pv, desc = stats.gof(counts, law)
    rec.observe((key, rp), n=m, sample=dict(rp, stat=desc))
    rec.expect(pv > stats.ALPHA, key, desc, **rp)


def scaled(rec, cases):
    """exchange chain on c L: same stationary law as on L, and a default initial state exists"""
    for kern, n, size, c, seed in cases:
        L = finite.build('L', kern, n, seed)[1]['L']
        law = ref.law_kdpp(L, size)
        if min(law.values()) < 1e-7 * max(law.values()):
            continue
        rp = dict(kern=kern, n=n, size=size, c=c, seed=seed)
        key = 'scaled/E/' + kern
        cL = c * L
        states = list(law)
        P, leaves = transition_matrix(rec, key, lambda: FiniteDPP('likelihood', L=cL), 'E', states, n, rp, dict(size=size))
        if P is None:
            continue
        rec.observe((key, rp), n=leaves, nontrivial=len(states) > 1, sample=dict(rp, states=len(states), branches=leaves))
        out = {}
        for s in states:
            for t, q in P[s].items():
                out[t] = out.get(t, 0.0) + law[s] * q
        err = max(abs(out.get(s, 0.0) - law.get(s, 0.0)) for s in set(out) | set(law))
        rec.expect(err < 1e-8, key, 'pi P - pi = {:.3g} (max norm): the k-DPP is not stationary'.format(err), **rp)
        if 0 < size < n:
            move = sum(law[s] * (1 - P[s].get(s, 0.0)) for s in states)
            rec.expect(move > 1e-3, key + '/stuck', 'the chain never moves (probability {:.3g})'.format(move), **rp)
        ok, _ = rec.call(key + '/default_init', FiniteDPP('likelihood', L=cL).sample_mcmc_k_dpp, size=size, nb_iter=3,
                         random_state=seed, replay=rp)


def ref_sample(L, rng, size=None):
    """reference spectral sampler of DPP(L) / k-DPP(L)"""
    w, U = np.linalg.eigh(L)
    lw = np.log(np.maximum(w, 1e-300))
    n = len(w)
    if size is None:
        sel = np.where(rng.rand(n) < 1 / (1 + np.exp(-lw)))[0]
    else:
        le = np.full((size + 1, n + 1), -np.inf)
        le[0] = 0.0
        for i in range(n):
            le[1:, i + 1] = np.logaddexp(le[1:, i], lw[i] + le[:-1, i])
        sel, k = [], size
        for i in range(n, 0, -1):
            if k and np.log(rng.rand()) < lw[i - 1] + le[k - 1, i - 1] - le[k, i]:
                sel.append(i - 1)
                k -= 1
    V = U[:, sel]
    S = []
    while V.shape[1]:
        q = (V**2).sum(1)
        i = rng.choice(n, p=q / q.sum())
        S.append(int(i))
        j = np.argmax(np.abs(V[i]))
        V = np.linalg.qr(np.delete(V - np.outer(V[:, j] / V[i, j], V[i]), j, axis=1))[0]
    return S


def moves(L, S, mode):
    """probability that one Metropolis step from S leaves S"""
    n, k = len(L), len(S)
    ld = lambda T: np.linalg.slogdet(L[np.ix_(T, T)])[1] if T else 0.0
    l0, out = ld(S), [t for t in range(n) if t not in S]
    acc = lambda T, f=1.0: min(1.0, np.exp(min(ld(T) - l0, 300.0)) * f)
    if mode == 'E':
        return .5 * np.mean([acc(S[:i] + S[i + 1:] + [t]) for i in range(k) for t in out[::4]]) if out and k else 0.0
    if mode == 'AD':
        return .5 * np.mean([acc([s for s in S if s != t]) if t in S else acc(S + [t]) for t in range(n)])
    r = k / n
    p = .5 * (1 - r)**2 * np.mean([acc(S + [t], (k + 1) / (n - k)) for t in out]) if out else 0.0
    return p + (.5 * r**2 * np.mean([acc(S[:i] + S[i + 1:], (n - k + 1) / k) for i in range(k)]) if k else 0.0)


def bigchain(rec, mode, n, size, scale, seed, m, T):
    """ground sets whose determinants leave the range of floats: the chain started in the target law stays in it
    (inclusion probabilities, mean size) and moves"""
    rng = np.random.RandomState(seed)
    A = rng.randn(n, 2 * n) / np.sqrt(2 * n)
    d = np.ones(n)
    if mode != 'E':
        d[:n // 2] = np.sqrt(scale)
        A[n // 2:] *= .9
    L = A.dot(A.T)
    if mode == 'E':
        L = L * scale
    else:
        L[:n // 2, n // 2:] = L[n // 2:, :n // 2] = 0.0
        L = d[:, None] * L * d
    rp = dict(mode=mode, n=n, size=size, scale=scale, seed=seed, m=m, T=T)
    key = 'bigchain/' + mode
    F0, F1, expected, moved = np.zeros(n), np.zeros(n), 0.0, 0
    dpp = FiniteDPP('likelihood', L=L)
    params = dict(size=size) if mode == 'E' else {}
    for i in range(m):
        S = ref_sample(L, rng, size)
        rng.shuffle(S)
        if i < m // 10:
            expected += moves(L, S, mode) * 10
        with np.errstate(all='ignore'):
            ok, _ = rec.call(key, dpp.sample_mcmc, mode, s_init=list(S), nb_iter=T, random_state=rng, replay=rp, **params)
        if not ok:
            return
        chain = dpp.list_of_samples[-1]
        if not rec.expect(len(chain) == T and set(chain[0]) == set(S), key + '/start', 'chain of length {} from {}'.format(len(chain), chain[0]), **rp):
            return
        moved += set(chain[1]) != set(S)
        F0[S] += 1
        F1[list(chain[-1])] += 1
    rec.observe((key, rp), n=m * T, sample=dict(rp, log10_det=float(np.linalg.slogdet(L)[1] / np.log(10)), moved=moved, expected=expected))
    rec.expect(moved > .2 * expected - 5, key + '/stuck', '{} moves in {} first steps, about {:.1f} expected'.format(moved, m, expected), **rp)
    K = None if mode == 'E' else L.dot(np.linalg.inv(np.eye(n) + L))
    for j in range(n):
        if K is not None:
            p = stats.binom_test(F1[j], m, min(max(K[j, j], 0.0), 1.0)) if 1e-9 < K[j, j] < 1 - 1e-9 else 1.0
            rec.expect(p > stats.ALPHA / n, key + '/inclusion', 'item {} in {} of {} final states, specified {:.4f}'.format(j, int(F1[j]), m, K[j, j]), **rp)
        else:       # two samples of the same law
            q = (F0[j] + F1[j]) / (2 * m)
            z = (F0[j] - F1[j]) / np.sqrt(max(2 * m * q * (1 - q), 1e-9))
            rec.expect(abs(z) < 7, key + '/inclusion', 'item {} in {} initial and {} final states of {}'.format(j, F0[j], F1[j], m), **rp)


def mixing(rec, mode, n, seed, m):
    """larger ground sets: started in the target law every item keeps entering and leaving the state, and the law stays"""
    rng = np.random.RandomState(seed)
    B = rng.randn(n, n) * .15 / np.sqrt(n)
    d = np.exp(rng.uniform(-.7, .7, n))
    L = np.diag(d) + B.dot(B.T)
    size = n // 2 if mode == 'E' else None
    rp = dict(mode=mode, n=n, seed=seed, m=m)
    key = 'mixing/' + mode
    dpp = FiniteDPP('likelihood', L=L)
    params = dict(size=size) if size else {}
    T = 30 * n
    F0, F1, enter, leave = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(m):
        S = ref_sample(L, rng, size)
        ok, _ = rec.call(key, dpp.sample_mcmc, mode, s_init=list(S), nb_iter=T, random_state=rng, replay=rp, cpu=300., **params)
        if not ok:
            return
        M = np.zeros((T, n), dtype=np.int8)
        for t, s in enumerate(dpp.list_of_samples[-1][:T]):
            M[t, s] = 1
        D = np.diff(M, axis=0)
        enter += (D > 0).sum(0)
        leave += (D < 0).sum(0)
        F0 += M[0]
        F1 += M[-1]
    rec.observe((key, rp), n=m * T, sample=dict(rp, entries=float(enter.sum()), exits=float(leave.sum())))
    # about 1 entry per item and chain; the chain need not move at a given rate, only every item as well as the others
    for nm, c in (('enters', enter), ('leaves', leave)):
        rec.expect(c.min() > .1 * c.mean(), key + '/reach', 'item {} {} {} times, {:.1f} on average'.format(c.argmin(), nm, c.min(), c.mean()), **rp)
    if size is None:
        K = L.dot(np.linalg.inv(np.eye(n) + L))
        for j in range(n):
            p = stats.binom_test(F1[j], m, K[j, j])
            rec.expect(p > stats.ALPHA / n, key + '/inclusion', 'item {} in {} of {} final states, specified {:.4f}'.format(j, int(F1[j]), m, K[j, j]), **rp)
    else:
        q = (F0 + F1) / (2 * m)
        z = (F0 - F1) / np.sqrt(np.maximum(2 * m * q * (1 - q), 1e-9))
        rec.expect(np.abs(z).max() < 7, key + '/inclusion', 'item {}: {} initial and {} final states of {}'.format(
            np.abs(z).argmax(), F0[np.abs(z).argmax()], F1[np.abs(z).argmax()], m), **rp)


def jobs(tier, seed):
    th = tier == 'thorough'
    cases = []
    sizes = (1, 2, 3, 4) if not th else (1, 2, 3, 4, 5)
    for mode in ('AED', 'AD'):
        for param in ('L', 'L_eig_dec', 'L_gram_factor', 'L_eval_X_data', 'K', 'K_eig_dec'):
            kerns = finite.L_KERNS if param.startswith('L') else ('generic', 'diag', 'block')
            for kern in kerns:
                for n in sizes:
                    if n < 2 and kern in ('two_scales', 'rankdef'):
                        continue
                    cases.append((param, kern, n, mode, None, 1000 * seed + n))
    cases.append(('L', 'generic', 5, 'AED', None, 1000 * seed))
    cases.append(('L', 'generic', 5, 'AD', None, 1000 * seed))
    for param in ('L', 'L_eig_dec', 'K', 'L_gram_tall'):
        kerns = ('generic', 'repeated', 'identity_vecs', 'block', 'large') if param.startswith('L') else ('generic', 'diag')
        for kern in kerns:
            for n in (2, 3, 4, 5):
                for k in range(1, n + 1):
                    cases.append((param, kern, n, 'E', k, 1000 * seed + n))
    for param in finite.PROJ_PARAMS:
        for kern in ('generic', 'parallel', 'block'):
            for n, d in ((2, 1), (3, 2), (4, 2), (5, 3), (5, 2), (4, 4)) + (((6, 3),) if th else ()):
                cases.append((param, kern, n, 'E', d, 1000 * seed + 10 * n + d))
    nb = 24
    out = [Job('stationarity#%d' % b, stationarity, timeout=800, cases=cases[b::nb]) for b in range(nb)]
    cases = [(kern, n, k, c, 1000 * seed + n) for kern in ('generic', 'repeated', 'block', 'diag' if 'diag' in finite.L_KERNS else 'identity_vecs')
             for n in (3, 4, 5) for k in range(1, n + 1) for c in ((1e-160, 1e-60, 1e-7, 1e110) if not th else 10.0**np.arange(-200, 201, 40))]
    out += [Job('scaled#%d' % b, scaled, timeout=800, cases=cases[b::8]) for b in range(8)]
    for mode, n, size, scale in (('E', 50, 35, 1e12), ('E', 50, 35, 1e-12), ('E', 40, 12, 1.0), ('AD', 40, None, 1e30), ('AED', 40, None, 1e30),
                                 ('AD', 40, None, 1.0), ('AED', 40, None, 1.0)):
        out.append(Job('bigchain#%s/%g' % (mode, scale), bigchain, timeout=800, mode=mode, n=n, size=size, scale=scale, seed=seed + 17,
                       m=300 if not th else 4000, T=40))
    for mode in ('AED', 'AD', 'E'):
        for n in (30, 64, 100):
            out.append(Job('mixing#%s/%d' % (mode, n), mixing, timeout=850, mode=mode, n=n, seed=seed + n, m=(40 if n < 100 else 25) * (1 if not th else 8)))
    m = 80000 if not th else 1000000
    for mode, param, size in (('AED', 'L', None), ('AD', 'L', None), ('E', 'L', 2), ('E', 'proj_K', 2),
                              ('AED', 'K', None)):
        out.append(Job('longrun#%s/%s' % (mode, param), sequential, timeout=800, param=param, kern='generic',
                       n=4, mode=mode, size=size, seed=seed + 9, m=m))
    return out
