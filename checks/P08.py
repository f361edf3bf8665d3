"""P08: MCMC chains are well-formed histories."""
import time

import numpy as np

from mon import finite, ref
from mon.core import Job
from dppy import mcmc_sampling
from dppy.finite_dpps import FiniteDPP

RULE = ('each case = (parametrisation, kernel, mode, initial state, nb_iter, time limit, virtual clock): the recorded '
        'chain is traced: start, length, distinct items, positive determinant, legal single moves, constant size, '
        'stop exactly when the virtual clock exceeds the limit; non-trivial = chain with at least one move')
ASSUMPTIONS = ['the time limit is observed through time.time/perf_counter/monotonic, replaced by a virtual clock']


class VirtualClock:
    """every reading of the clock advances it by dt"""
    def __init__(self, dt):
        self.dt, self.now, self.readings = dt, 1000.0, 0

    def tick(self):
        self.readings += 1
        self.now += self.dt
        return self.now

    NAMES = ('time', 'perf_counter', 'monotonic', 'process_time')

    def __enter__(self):
        self.saved = {nm: getattr(time, nm) for nm in self.NAMES}
        self.mods = []
        for nm in self.NAMES:
            setattr(time, nm, self.tick)
        for nm in self.NAMES:                       # from time import perf_counter
            if getattr(mcmc_sampling, nm, None) is self.saved[nm]:
                setattr(mcmc_sampling, nm, self.tick)
                self.mods.append(nm)
        return self

    def __exit__(self, *exc):
        for nm, f in self.saved.items():
            setattr(time, nm, f)
        for nm in self.mods:
            setattr(mcmc_sampling, nm, self.saved[nm])


def check_shape(rec, key, chain, nb_iter, T, clock, rp):
    """length of a time limited chain"""
    if clock.readings == 0:
        rec.count('clock_not_observed')
        return
    rec.observe((key, rp, T, clock.dt, nb_iter))
    full = T is None or T > (nb_iter + 5) * clock.dt * 4
    if full:
        rec.expect(len(chain) == nb_iter, key + '/early',
                   'stopped after {} of {} states although the limit {} was not exceeded'.format(
                       len(chain), nb_iter, T), **rp)
    else:
        # one reading of the clock per iteration: stops within a couple of iterations of the limit
        n_max = int(np.floor(T / clock.dt)) + 3
        rec.expect(1 <= len(chain) <= min(nb_iter, n_max), key + '/late',
                   '{} states recorded, the limit {} was exceeded after {} readings of step {}'.format(
                       len(chain), T, T / clock.dt, clock.dt), **rp)
        n_min = int(np.floor(T / clock.dt / 4))
        rec.expect(len(chain) >= min(nb_iter, n_min), key + '/early',
                   'stopped after {} states, before the limit {} (step {})'.format(len(chain), T, clock.dt), **rp)


def legal(mode, a, b):
    a, b = set(a), set(b)
    if a == b:
        return True
    add, rem = len(b - a), len(a - b)
    return {'AED': (add, rem) in ((1, 0), (0, 1), (1, 1)),
            'AD': (add, rem) in ((1, 0), (0, 1)),
            'E': (add, rem) == (1, 1)}[mode]


def trace(rec, cases, seed):
    for param, kern, n, mode, size, s in cases:
        factory, info = finite.build(param, kern, n, seed * 101 + n, rank=size if 'proj' in param else None)
        r = np.random.RandomState(s * 65537 % 2**32)
        L = info['K'] if param.startswith('proj_') else info['L']
        rp = dict(param=param, kern=kern, n=n, mode=mode, size=size, seed=s)
        key = 'chain/{}'.format(mode)
        states = [st for st in ref.subsets(n) if ref.det_sub(L, st) > 1e-6]
        if mode == 'E':
            states = [st for st in states if len(st) == size]
        if not states:
            continue
        nb = int(r.choice([1, 2, 5, 40]))
        kw = {}
        if s % 4:
            kw['nb_iter'] = nb
        else:
            nb = 10
        start = None
        if s % 2:
            start = list(states[r.randint(len(states))])
            r.shuffle(start)
            kw['s_init'] = [int(i) for i in start]
        if mode == 'E':
            kw['size'] = size
        dpp = factory()
        dpp.list_of_samples = []
        use_k = mode == 'E' and s % 3 == 0
        if use_k:
            kw.pop('size')
            fn, args = dpp.sample_mcmc_k_dpp, ()
            kw['size'] = size
        else:
            fn, args = dpp.sample_mcmc, (mode,)
        ok, last = rec.call(key, fn, *args, random_state=s, replay=rp, **kw)
        if not ok:
            continue
        if not rec.expect(len(dpp.list_of_samples) == 1, key + '/recorded', 'chain not recorded once', **rp):
            continue
        chain = dpp.list_of_samples[0]
        rec.expect(len(chain) == nb, key + '/length', 'chain of {} states, {} requested'.format(len(chain), nb), **rp)
        rec.expect(list(last) == list(chain[-1]), key + '/last', 'returned value is not the last state', **rp)
        canon = [finite.canon(x, n) for x in chain]
        if start is not None:
            rec.expect(canon[0] == tuple(sorted(start)), key + '/start',
                       'chain starts at {} instead of {}'.format(chain[0], start), **rp)
        bad = [c for c in canon if not finite.well_formed(c)]
        if not rec.expect(not bad, key + '/state', 'malformed state {}'.format(bad[:1]), **rp):
            continue
        if size is not None:
            rec.expect(all(len(c) == size for c in canon), key + '/size', 'size of the states changes', **rp)
        for c in canon:
            if not rec.expect(ref.det_sub(L, c) > 1e-12, key + '/null', 'state {} of probability 0'.format(c), **rp):
                break
        moves = 0
        for a, b in zip(canon, canon[1:]):
            moves += a != b
            if not rec.expect(legal(mode, a, b), key + '/move', 'illegal move {} -> {}'.format(a, b), **rp):
                break
        rec.count('moves', moves)
        rec.count('states', len(canon))
        rec.observe((key, rp), n=len(canon), nontrivial=moves > 0)
        # aliasing between recorded states: editing one must not edit the others
        if len(chain) > 1 and isinstance(chain[0], list):
            rec.count('chains')
        # time limited run
        dt = float(r.choice([1.0, 0.125]))
        T = float(r.choice([0.4, 2.5, 7.5, 1e5])) * dt
        kw2 = dict(kw, nb_iter=25, T_max=T)
        dpp2 = factory()
        with VirtualClock(dt) as clock:
            f2 = dpp2.sample_mcmc_k_dpp if use_k else dpp2.sample_mcmc
            ok, _ = rec.call(key, f2, *args, random_state=s, replay=rp, **kw2)
        if ok:
            ch = dpp2.list_of_samples[-1]
            check_shape(rec, key + '/T_max', ch, 25, T, clock, dict(rp, T=T, dt=dt))
            # the time limit does not change what is sampled
            dpp3 = factory()
            f3 = dpp3.sample_mcmc_k_dpp if use_k else dpp3.sample_mcmc
            ok, _ = rec.call(key, f3, *args, random_state=s, replay=rp, **dict(kw, nb_iter=25))
            if ok:
                full = [finite.canon(x, n) for x in dpp3.list_of_samples[-1]]
                lim = [finite.canon(x, n) for x in ch]
                rec.expect(full[:len(lim)] == lim, key + '/T_max/prefix',
                           'the time-limited chain is not a prefix of the unlimited one', **rp)


def defaults(rec, cases, seed):
    """default initial states have positive probability and the right size, for awkward kernels"""
    for kind, n, k, s in cases:
        r = np.random.RandomState(s)
        if kind == 'lowrank':
            X = r.randn(n, max(k, 1))
            L = X.dot(X.T)
        elif kind == 'small':
            L = 1e-2 * np.eye(n) + 1e-3 * np.ones((n, n))
        elif kind == 'diagzero':
            d = np.ones(n)
            d[: max(0, n // 4)] = 0
            L = np.diag(d)
            k = min(k, int(d.sum()))
        elif kind == 'graded':        # every subset has positive probability, by far above rounding errors
            L = np.diag(10.0**np.linspace(3, -6, n)[r.permutation(n)]) * (1.0 if s % 2 else 1e-5)
        elif kind == 'smooth':
            Q = ref.rand_orth(r, n)
            L = ref.sym(10.0**np.linspace(2, -7, n), Q)
        else:
            L = np.eye(n)
        rp = dict(kind=kind, n=n, k=k, seed=s)
        for mode in ('AED', 'AD', 'E'):
            dpp = FiniteDPP('likelihood', L=L.copy())
            kw = dict(size=k) if mode == 'E' else {}
            try:
                dpp.sample_mcmc(mode, nb_iter=20, random_state=s, **kw)
            except ValueError as e:
                if kind in ('graded', 'smooth'):
                    rec.violate('default/{}/refused'.format(mode), 'no initial state found although every set of items has '
                                'positive probability: {}'.format(str(e).splitlines()[0]), **rp)
                    continue
                if 'nitialization' in str(e):
                    rec.count('initialisation_refused')
                    rec.observe(('refused', rp, mode), nontrivial=False)
                    continue
                raise
            chain = [finite.canon(x, n) for x in dpp.list_of_samples[-1]]
            rec.observe(('default', rp, mode), n=len(chain))
            key = 'default/{}'.format(mode)
            for c in chain:
                if not rec.expect(finite.well_formed(c) and ref.det_sub(L, c) > 0, key,
                                  'visits {} of probability 0'.format(c), **rp):
                    break
            if mode == 'E':
                rec.expect(all(len(c) == k for c in chain), key + '/size', 'sizes {}'.format({len(c) for c in chain}), **rp)
            rec.expect(all(legal(mode, a, b) for a, b in zip(chain, chain[1:])), key + '/move', 'illegal move', **rp)


def large(rec, cases):
    """hundreds of items: states stay sets of items of the ground set, consecutive ones differ by one legal move, every
    item is reached, and every kind of move is made"""
    for mode, n, kind, steps, s in cases:
        r = np.random.RandomState(s)
        X = r.randn(n, 3 * n)
        L = X.dot(X.T) / (3 * n) * (1.0 if mode == 'E' else 3.0)
        start = sorted(range(6), key=lambda i: r.rand()) if kind == 'small' else [n - 1 - int(i) for i in r.permutation(n // 2)[:5]] if kind == 'last' else \
            [int(i) for i in r.permutation(n)[:n // 3]] if kind == 'third' else None
        kw = {} if start is None else dict(s_init=list(start))
        if mode == 'E':
            kw['size'] = 4 if start is None else len(start)
        key = 'large/' + mode
        rp = dict(mode=mode, n=n, kind=kind, steps=steps, seed=s)
        dpp = FiniteDPP('likelihood', L=L)
        ok, _ = rec.call(key, dpp.sample_mcmc, mode, nb_iter=steps, random_state=s, replay=rp, **kw)
        if not ok:
            continue
        chain = dpp.list_of_samples[-1]
        rec.expect(len(chain) == steps, key + '/length', '{} states instead of {}'.format(len(chain), steps), **rp)
        sets = [set(map(int, c)) for c in chain]
        rec.expect(start is None or sets[0] == set(start), key + '/start', 'starts at {}'.format(chain[0]), **rp)
        bad = [i for i, (c, t) in enumerate(zip(chain, sets)) if len(t) != len(c) or any(not 0 <= x < n for x in t) or any(int(x) != x for x in c)]
        if not rec.expect(not bad, key + '/state', 'malformed state {}'.format([list(chain[i]) for i in bad[:1]]), **rp):
            continue
        seen = set().union(*sets)
        moves = {}
        for a, b in zip(sets, sets[1:]):
            if not rec.expect(legal(mode, a, b), key + '/move', 'illegal move {} -> {}'.format(sorted(a), sorted(b)), **rp):
                break
            moves[(len(b - a), len(a - b))] = moves.get((len(b - a), len(a - b)), 0) + 1
        rec.observe((key, rp), n=len(chain), nontrivial=len(moves) > 1, sample=dict(rp, moves=str(moves), items=len(seen)))
        if steps > 60 * n:
            rec.expect(len(seen) == n, key + '/reach', 'items {} are never visited in {} steps'.format(sorted(set(range(n)) - seen)[:5], steps), **rp)
            for mv in {'AED': ((1, 0), (0, 1), (1, 1)), 'AD': ((1, 0), (0, 1)), 'E': ((1, 1),)}[mode]:
                rec.expect(moves.get(mv, 0) > 0, key + '/kinds', 'the chain never makes a move (added, removed) = {}'.format(mv), **rp)


def fixed_chain(rec, seed):
    """an s_init array given by the user is not modified, and chains do not alias it after edits"""
    L = np.eye(4) + 0.2
    for mode in ('AED', 'AD', 'E'):
        s0 = [0, 2]
        dpp = FiniteDPP('likelihood', L=L)
        kw = dict(size=2) if mode == 'E' else {}
        ok, _ = rec.call('init', dpp.sample_mcmc, mode, s_init=s0, nb_iter=200, random_state=seed, **kw)
        if ok:
            rec.observe(('init', mode))
            rec.expect(s0 == [0, 2], 'init/' + mode, 's_init was modified into {}'.format(s0))
            rec.expect(len({finite.canon(x, 4) for x in dpp.list_of_samples[-1]}) > 1, 'init/frozen/' + mode,
                       'the chain never moves')


def jobs(tier, seed):
    th = tier == 'thorough'
    cases = []
    i = 0
    reps = 2 if not th else 20
    for rep in range(reps):
        for mode in ('AED', 'AD', 'E'):
            for param in ('L', 'L_eig_dec', 'L_gram_factor', 'L_gram_tall', 'L_eval_X_data', 'K', 'K_eig_dec'):
                for kern in (('generic', 'rankdef', 'two_scales', 'identity_vecs') if param[0] == 'L' else ('generic', 'block')):
                    for n in (1, 2, 3, 5, 7):
                        for size in (sorted({1, min(2, n), n}) if mode == 'E' else (None,)):
                            if n == 1 and kern in ('rankdef', 'two_scales'):
                                continue
                            i += 1
                            cases.append((param, kern, n, mode, size, seed * 100000 + i))
        for param in finite.PROJ_PARAMS:
            for n, d in ((2, 1), (4, 2), (5, 3), (4, 4), (6, 1)):
                for kern in ('generic', 'parallel', 'coord'):
                    i += 1
                    cases.append((param, kern, n, 'E', d, seed * 100000 + i))
    out = [Job('trace#%d' % b, trace, cases=cases[b::8], seed=seed, timeout=850) for b in range(8)]
    dc = [(kind, n, k, seed * 31 + n) for kind in ('lowrank', 'small', 'diagzero', 'eye') for n in (1, 3, 6, 9) for k in (1, 2, 3) if k <= n]
    dc += [(kind, n, k, seed * 37 + n + k) for kind in ('graded', 'smooth') for n in (2, 5, 8) for k in (1, 2, n - 1, n)]
    out.append(Job('defaults', defaults, cases=dc, seed=seed))
    out.append(Job('init', fixed_chain, seed=seed))
    lc = [(mode, n, kind, 400, seed * 77 + n) for mode in ('E', 'AED', 'AD') for n in (140, 300) + ((700,) if th else ()) for kind in ('small', 'last', 'third', 'default')]
    lc += [(mode, n, 'small', 80 * n, seed * 77 + n) for mode in ('E', 'AED', 'AD') for n in (20, 60) + ((140,) if th else ())]
    out += [Job('large#%d' % b, large, cases=lc[b::6], timeout=850) for b in range(6)]
    return out
