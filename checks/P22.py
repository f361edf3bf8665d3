"""P22: beta-ensembles: cardinality, support, normalisation, limiting densities, displays."""
import numpy as np
from scipy.integrate import quad
import matplotlib.pyplot as plt

from mon.core import Job
from checks import P20
import dppy.random_matrices as rm
from dppy.beta_ensembles import GinibreEnsemble

RULE = ('each case = (ensemble, model, beta, parameters) with one large configuration: normalised points are '
        'compared with the exact normalisation map and, in sup norm of CDFs, with the limiting law (rigidity makes '
        'the threshold safe); limiting densities are integrated over their support; histories alternate full and '
        'banded models on one object, normalise twice and display, monitoring stored samples for changes; '
        'non-trivial = N >= 2')
ASSUMPTIONS = ['sup-distance threshold 0.06 at N = 300']


def limit_cdf(kind, beta, N, sizes):
    if kind == 'hermite':
        return (lambda x: rm.semi_circle_law(x), -2., 2.)
    if kind == 'laguerre':
        c = N / sizes[0]
        return (lambda x: np.sqrt(max(((1 + c**.5)**2 - x) * (x - (1 - c**.5)**2), 0)) / (2 * np.pi * c * x),
                (1 - c**.5)**2, (1 + c**.5)**2)
    a, b = sizes[0] / N, sizes[1] / N
    lo, hi = [((np.sqrt(a * (a + b - 1)) + s * np.sqrt(b)) / (a + b))**2 for s in (-1, 1)]
    return (lambda x: (a + b) * np.sqrt(max((hi - x) * (x - lo), 0)) / (2 * np.pi * x * (1 - x)), lo, hi)


def large(rec, cases, seed):
    for i, (kind, model, beta, N, kw) in enumerate(cases):
        key = 'limit/{}/{}'.format(kind, model)
        rp = dict(kind=kind, model=model, beta=beta, N=N, kw=kw, seed=seed + i)
        ens = P20.CLS[kind](beta)
        f = ens.sample_full_model if model == 'full' else ens.sample_banded_model
        ok, x = rec.call(key, f, size_N=N, random_state=seed + i, replay=rp, **kw)
        if not ok or not P20.valid(rec, key, kind, N, ens.list_of_samples[-1], rp):
            continue
        raw = np.array(ens.list_of_samples[-1], copy=True)
        ok, y = rec.call(key + '/normalize', ens.normalize_points, ens.list_of_samples[-1], replay=rp)
        if not ok:
            continue
        rec.expect(np.array_equal(raw, ens.list_of_samples[-1]), key + '/mutation',
                   'normalize_points modified the stored sample', **rp)
        ok, y2 = rec.call(key + '/normalize', ens.normalize_points, ens.list_of_samples[-1], replay=rp)
        rec.expect(ok and np.array_equal(y, y2), key + '/repeat', 'normalising twice differs', **rp)
        if kind == 'hermite':
            loc, sc = (kw.get('loc', 0.), kw.get('scale', np.sqrt(2.)))
            z = np.sqrt(2.) * (raw - loc) / sc / np.sqrt(beta * N)
            sizes = None
        elif kind == 'laguerre':
            if 'size_M' in kw:
                M, th = kw['size_M'], 2.
            else:
                M, th = 2. / beta * kw['shape'] + N - 1, kw['scale']
            z = raw / (th / 2.) / (beta * M)
            sizes = (M,)
        elif kind == 'jacobi':
            if 'size_M1' in kw:
                sizes = (kw['size_M1'], kw['size_M2'])
            else:
                sizes = (2. / beta * kw['a'] + N - 1, 2. / beta * kw['b'] + N - 1)
            z = raw
        else:
            z = raw
            sizes = None
        rec.expect(np.max(np.abs(z - y)) < 1e-9 * (1 + np.max(np.abs(z))), key + '/map', 'normalisation map is off by '
                   '{:.3g}'.format(np.max(np.abs(z - y))), **rp)
        if kind == 'circular':
            v = np.sort(np.angle(z)) / (2 * np.pi) + .5
            D = np.max(np.abs(v - (np.arange(N) + .5) / N))
        else:
            f, lo, hi = limit_cdf(kind, beta, N, sizes)
            xs = np.sort(z)
            grid = lo + (hi - lo) * (1 - np.cos(np.linspace(0, np.pi, 4001))) / 2
            dens = np.array([f(t) for t in .5 * (grid[1:] + grid[:-1])]) * np.diff(grid)
            F = np.concatenate([[0], np.cumsum(dens)])
            D = np.max(np.abs(np.interp(xs, grid, F) - (np.arange(N) + .5) / N))
        rec.observe((key, beta, N, repr(kw)), nontrivial=N > 1, sample=dict(rp, sup_distance=float(D)))
        rec.expect(D < .06, key, 'normalised configuration is at sup distance {:.3f} from the limiting law'.format(D), **rp)


def maps(rec, seed, count):
    """the documented constants, for every size, parameter and beta"""
    r = np.random.RandomState(seed)
    for c in range(count):
        kind = ('hermite', 'laguerre', 'jacobi', 'circular', 'ginibre')[c % 5]
        N = int(r.choice([1, 2, 3, 5, 9, 17, 40, 65]))
        full = kind == 'ginibre' or r.rand() < .3
        beta = 2 if kind == 'ginibre' else int(r.choice([1, 2, 4])) if full else int(r.randint(1, 9)) if kind == 'circular' else \
            float(r.choice([0, .1, .5, 1, 2, 2.5, 4, 20]))
        if kind == 'circular' and full:
            beta = 2
        par = [float(10**r.uniform(-1.2, 1.5)) for _ in range(2)]
        kw, const, off = {}, 1., 0.
        if kind == 'hermite':
            if not full:
                off = float(r.randn() * 5)
                kw = dict(loc=off, scale=par[0])
            const = np.sqrt(2.) / (par[0] if not full else np.sqrt(2.))
            const /= np.sqrt(beta * N) if beta > 0 else 1.
        elif kind == 'laguerre':
            M = N + int(r.choice([0, 1, 2, 50]))
            if full or (beta > 0 and r.rand() < .4):
                kw, th, m = dict(size_M=M), 2., M
            else:
                kw, th, m = dict(shape=par[0], scale=par[1]), par[1], (2. / beta * par[0] + N - 1 if beta > 0 else None)
            const = 2. / th / (beta * m if beta > 0 else 1.)
        elif kind == 'jacobi':
            kw = dict(size_M1=N + int(r.randint(4)), size_M2=N + int(r.randint(4))) if full else dict(a=par[0], b=par[1])
        elif kind == 'circular':
            kw = dict(haar_mode='QR') if full else {}
        else:
            const = 1 / np.sqrt(N)
        key = 'map/' + kind
        rp = dict(kind=kind, beta=beta, N=N, full=full, kw=kw, seed=seed, case=c)
        ens = GinibreEnsemble() if kind == 'ginibre' else P20.CLS[kind](beta)
        ok, _ = rec.call(key, ens.sample_full_model if full else ens.sample_banded_model, size_N=N, random_state=seed + c, replay=rp, **kw)
        if not ok:
            continue
        x = np.array(ens.list_of_samples[-1], copy=True)
        rec.expect(x.shape == (N,) and np.all(np.isfinite(x)), key + '/shape', 'shape {}'.format(x.shape), **rp)
        for pts in (ens.list_of_samples[-1], r.randn(4) + 0.):         # the last sample, or any other points
            keep = np.array(pts, copy=True)
            ok, y = rec.call(key, ens.normalize_points, pts, replay=rp)
            if ok:
                want = (keep - off) * const
                rec.expect(np.shape(y) == keep.shape and np.max(np.abs(y - want)) <= 1e-10 * (1 + np.max(np.abs(want))), key,
                           'normalisation off by {:.3g}'.format(np.max(np.abs(np.asarray(y) - want))), **rp)
                rec.expect(np.array_equal(keep, pts), key + '/mutation', 'points modified', **rp)
        rec.observe((key, beta, N, full, repr(kw)), sample=rp)


def densities(rec, seed, count):
    r = np.random.RandomState(seed)

    def integral(f, lo, hi):
        g = lambda t: f(np.array([lo + (hi - lo) * (1 - np.cos(t)) / 2]))[0] * (hi - lo) / 2 * np.sin(t)
        return quad(g, 0, np.pi, limit=200)[0]
    for _ in range(count):
        R = .3 + 5 * r.rand()
        I = integral(lambda x: rm.semi_circle_law(x, R), -R, R)
        V = integral(lambda x: x**2 * rm.semi_circle_law(x, R), -R, R)
        out = np.max(np.abs(rm.semi_circle_law(np.array([-R - 1, R + .1, 3 * R]), R)))
        rec.observe(('sc', R))
        rec.expect(abs(I - 1) < 1e-6 and abs(V - R**2 / 4) < 1e-6 * R**2 and out == 0, 'density/semi_circle',
                   'mass {} variance {} (R={})'.format(I, V, R), R=R)
        N = int(r.randint(1, 200))
        M = N + int(r.randint(1, 300))
        c, sg = N / M, float(r.choice([1., .5, 2.5, 30., .01]))
        lo, hi = sg**2 * (1 - c**.5)**2, sg**2 * (1 + c**.5)**2
        mp = lambda x: rm.marcenko_pastur_law(x, M, N, sg)
        I, m = integral(mp, lo, hi), integral(lambda x: x * mp(x), lo, hi)
        out = np.max(np.abs(mp(np.array([lo * .5 + 1e-9, hi * 1.01, 2 * hi]))))
        rec.observe(('mp', M, N, sg), sample=dict(law='marcenko_pastur', M=M, N=N, sigma=sg, mass=I))
        rec.expect(abs(I - 1) < 1e-5 and abs(m - sg**2) < 1e-5 * sg**2 and out == 0, 'density/marcenko_pastur',
                   'mass {} mean {} (M={}, N={}, sigma={})'.format(I, m, M, N, sg), M=M, N=N, sigma=sg)
        M2 = N + int(r.randint(1, 300))
        a, b = M / N, M2 / N
        lo, hi = [((np.sqrt(a * (a + b - 1)) + s * np.sqrt(b)) / (a + b))**2 for s in (-1, 1)]
        w = lambda x: rm.wachter_law(x, M, M2, N)
        I, m = integral(w, lo, hi), integral(lambda x: x * w(x), lo, hi)
        rec.observe(('wachter', M, M2, N))
        out = np.max(np.abs(w(np.array([lo * .5 + 1e-12, hi + (1 - hi) * .5]))))
        rec.expect(abs(I - 1) < 1e-5 and abs(m - a / (a + b)) < 1e-5 and out < 1e-12, 'density/wachter',
                   'mass {} mean {} (M1={}, M2={}, N={})'.format(I, m, M, M2, N), M1=M, M2=M2, N=N)


def histories(rec, seed, count):
    """alternate models and sizes on one object: parameters and normalisation follow the last draw"""
    r = np.random.RandomState(seed)
    for c in range(count):
        kind = ('hermite', 'laguerre', 'jacobi', 'circular', 'ginibre')[c % 5]
        beta = 2 if kind in ('circular', 'ginibre') else int(r.choice([1, 2, 4]))
        ens = GinibreEnsemble() if kind == 'ginibre' else P20.CLS[kind](beta)
        stored = []
        rp = dict(kind=kind, beta=beta, seed=seed, case=c)
        key = 'history/' + kind
        for step in range(5):
            N = int(r.randint(1, 9))
            model = 'full' if kind == 'ginibre' or r.rand() < .5 else 'banded'
            kw = {}
            if kind == 'hermite' and model == 'banded':
                kw = dict(loc=float(r.randn()), scale=float(.3 + r.rand()))
            elif kind == 'laguerre':
                kw = dict(size_M=N + int(r.randint(0, 4))) if model == 'full' or r.rand() < .5 else \
                    dict(shape=float(.5 + r.rand()), scale=float(.3 + r.rand()))
            elif kind == 'jacobi':
                kw = dict(size_M1=N + int(r.randint(0, 4)), size_M2=N + int(r.randint(0, 4))) \
                    if model == 'full' or r.rand() < .5 else dict(a=float(.5 + r.rand()), b=float(.5 + r.rand()))
            elif kind == 'circular' and model == 'full':
                kw = dict(haar_mode='QR')
            f = ens.sample_full_model if model == 'full' else ens.sample_banded_model
            s = int(r.randint(2**31 - 1))
            ok, _ = rec.call(key, f, size_N=N, random_state=s, replay=dict(rp, kw=kw, model=model), **kw)
            if not ok:
                break
            stored.append(np.array(ens.list_of_samples[-1], copy=True))
            if r.rand() < .5:
                # a refused request leaves no trace on the sample which is normalised and displayed
                bad = {'hermite': lambda: ens.sample_banded_model(scale=-1., size_N=N + 3) if r.rand() < .5 else
                       ens.sample_full_model(size_N=-2),
                       'laguerre': lambda: ens.sample_full_model(size_N=N + 3, size_M=N + 1) if r.rand() < .5 else
                       ens.sample_banded_model(shape=-1., scale=3., size_N=N + 2),
                       'jacobi': lambda: ens.sample_full_model(size_N=N + 3, size_M1=N + 1, size_M2=N + 5)
                       if r.rand() < .5 else ens.sample_banded_model(a=-1., b=1., size_N=N + 2),
                       'circular': lambda: ens.sample_full_model(size_N=N + 1, haar_mode='nope') if r.rand() < .5 else
                       ens.sample_banded_model(size_N=-1),
                       'ginibre': lambda: ens.sample_full_model(size_N=-2) if r.rand() < .5 else
                       ens.sample_banded_model(size_N=N + 2)}[kind]
                try:
                    bad()
                except (ValueError, NotImplementedError, TypeError, IndexError):
                    rec.count('refused_requests')
                else:
                    rec.count('accepted_requests')
                    del ens.list_of_samples[len(stored):]
                    break
            # a fresh object with the same arguments gives the same configuration and normalisation
            e2 = GinibreEnsemble() if kind == 'ginibre' else P20.CLS[kind](beta)
            (e2.sample_full_model if model == 'full' else e2.sample_banded_model)(size_N=N, random_state=s, **kw)
            rec.expect(np.array_equal(e2.list_of_samples[-1], stored[-1]), key + '/fresh',
                       'an object with a history draws something else', step=step, **rp)
            if r.rand() < .8:
                a = ens.normalize_points(ens.list_of_samples[-1])
                b = e2.normalize_points(e2.list_of_samples[-1])
                rec.expect(np.array_equal(np.asarray(a), np.asarray(b)), key + '/normalize',
                           'normalisation depends on the history', step=step, **rp)
            rec.expect(ens.params['size_N'] == N and e2.params == ens.params if kind not in ('circular', 'laguerre', 'jacobi')
                       else ens.params['size_N'] == N, key + '/params', 'params {} vs {}'.format(ens.params, e2.params), **rp)
            if r.rand() < .5:
                for disp in ('plot', 'hist'):
                    for norm in (True, False):
                        ok, _ = rec.call(key + '/' + disp, getattr(ens, disp), normalization=norm, replay=rp)
                        if ok and disp == 'plot':
                            shown = np.concatenate([np.asarray(cc.get_offsets()) for ax in plt.gcf().axes
                                                    for cc in ax.collections])
                            want = np.asarray(e2.normalize_points(e2.list_of_samples[-1]) if norm else stored[-1])
                            rec.expect(len(shown) == N and np.max(np.abs(np.sort(shown[:, 0]) - np.sort(want.real))) < 1e-9,
                                       key + '/shown', 'plot(normalization={}) does not show the points'.format(norm), **rp)
                        plt.close('all')
        else:
            rec.expect(len(ens.list_of_samples) == 5 and all(np.array_equal(a, b) for a, b in
                                                            zip(ens.list_of_samples, stored)),
                       key + '/stored', 'stored samples changed', **rp)
            ens.flush_samples()
            rec.expect(ens.list_of_samples == [], key + '/flush', 'flush_samples', **rp)
        rec.observe((key, seed, c), sample=rp)


def jobs(tier, seed):
    th = tier == 'thorough'
    r = np.random.RandomState(seed)
    N = 300
    cs = []
    for beta in (1, 2, 4) + ((10, .5) if th else ()):
        full = beta in (1, 2, 4)
        for rep in range(1 if not th else 4):
            cs.append(('hermite', 'banded', beta, N, dict(loc=round(5 * r.randn(), 3), scale=round(.2 + 3 * r.rand(), 3))))
            cs.append(('laguerre', 'banded', beta, N, dict(size_M=int(N * (1.1 + 3 * r.rand())))))
            cs.append(('laguerre', 'banded', beta, N, dict(shape=round(N * beta * (.1 + r.rand()), 2),
                                                           scale=round(.2 + 3 * r.rand(), 3))))
            cs.append(('jacobi', 'banded', beta, N, dict(size_M1=int(N * (1.1 + 2 * r.rand())),
                                                         size_M2=int(N * (1.1 + 2 * r.rand())))))
            cs.append(('jacobi', 'banded', beta, N, dict(a=round(N * beta * (.1 + r.rand()), 2),
                                                         b=round(N * beta * (.1 + r.rand()), 2))))
            if full:
                cs.append(('hermite', 'full', beta, N, {}))
                cs.append(('laguerre', 'full', beta, N, dict(size_M=int(N * (1.1 + 3 * r.rand())))))
                cs.append(('jacobi', 'full', beta, N, dict(size_M1=int(N * (1.1 + 2 * r.rand())),
                                                           size_M2=int(N * (1.1 + 2 * r.rand())))))
    cs += [('circular', 'full', 2, N, dict(haar_mode=m)) for m in ('QR', 'Hermite')] + \
        [('circular', 'banded', b, N, {}) for b in (1, 2, 5)] + \
        [('circular', 'full', 1, N, dict(haar_mode='QR'))]
    nb = 16
    out = [Job('large#%d' % b, large, timeout=880, cases=cs[b::nb], seed=seed * 100 + b) for b in range(nb)]
    out += [Job('maps#%d' % b, maps, timeout=880, seed=seed * 10 + b, count=250 if not th else 2500) for b in range(2)]
    out.append(Job('densities', densities, timeout=880, seed=seed, count=60 if not th else 600))
    for b in range(4):
        out.append(Job('histories#%d' % b, histories, timeout=880, seed=seed * 10 + b, count=20 if not th else 200))
    return out
