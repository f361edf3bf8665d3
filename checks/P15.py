"""P15: recorded samples are exactly the returned ones, in order, under histories of calls."""
import warnings

import networkx as nx
import numpy as np
import matplotlib.pyplot as plt

from mon import catalog
from mon.catalog import canon, same
from mon.core import Job

RULE = ('each case = one history of sampling, refused, display, conversion and flush calls on one object (with a second '
        'object of the same class used in between); an event log of (call, returned value, recorded list before and '
        'after) is checked on line: appended exactly once, equal to the returned value, earlier entries unchanged, '
        'failed calls and displays append nothing, flush empties, the other object unaffected; non-trivial = at least '
        'two recorded samples')
ASSUMPTIONS = ['identity of entries is judged on their content']


def snapshot(lst):
    return [canon(x) for x in lst]


def family(name):
    return name.split('/')[0]


def groups():
    """sampling calls which can be mixed on one object: {group: (inputs, new, [cases])}"""
    g = {}
    for c in catalog.cases():
        if not c.history or c.slow:
            continue
        p = c.name.split('/')
        if p[0] in ('exact', 'kdpp', 'mcmc', 'mcmc_k'):
            desc = p[1]
            if 's_init' in p:
                continue
            k = 'finite/' + desc + ('/data' if p[-1] in ('vfx', 'alpha') else '')
        elif p[0] == 'beta':
            k = '/'.join((p[0], p[1], p[3]))
        else:
            k = p[0]
        g.setdefault(k, []).append(c)
    return g


def refused(kind, obj, r):
    """invalid requests on an object of the family; returns list of (label, callable)"""
    if kind.startswith('finite'):
        N = 7
        out = [('mode', lambda: obj.sample_exact(mode='nope')), ('k mode', lambda: obj.sample_exact_k_dpp(2, mode='nope')),
               ('size', lambda: obj.sample_exact_k_dpp(size=50)), ('mcmc mode', lambda: obj.sample_mcmc('nope')),
               ('seed', lambda: obj.sample_exact(random_state='abc')),
               ('seed k', lambda: obj.sample_exact_k_dpp(3, random_state=1.5)),
               ('kdpp mcmc', lambda: obj.sample_mcmc_k_dpp(50)),
               ('s_init', lambda: obj.sample_mcmc_k_dpp(3, s_init=[0, 1]))]
        if 'A_zono' not in kind:
            out.append(('zonotope', lambda: obj.sample_mcmc('zonotope')))
        if 'eval' not in kind:
            out += [('vfx', lambda: obj.sample_exact(mode='vfx')), ('alpha', lambda: obj.sample_exact_k_dpp(2, mode='alpha'))]
        if 'proj' in kind:
            out.append(('rank', lambda: obj.sample_exact_k_dpp(size=6)))
            out.append(('exchange size', lambda: obj.sample_mcmc('E', size=50)))
        return out
    if kind.startswith('beta'):
        out = [('seed', lambda: (obj.sample_full_model if 'ginibre' in kind else obj.sample_banded_model)(random_state='abc')),
               ('size', lambda: (obj.sample_full_model if 'ginibre' in kind else obj.sample_banded_model)(size_N=-3))]
        if 'laguerre' in kind or 'jacobi' in kind:
            kw = dict(size_M=4) if 'laguerre' in kind else dict(size_M1=4, size_M2=10)
            out.append(('M < N', lambda: obj.sample_full_model(size_N=6, **kw)))
            out.append(('M < N banded', lambda: obj.sample_banded_model(size_N=6, **kw)))
        if 'circular' in kind and not kind.endswith('/0'):
            out.append(('haar', lambda: obj.sample_full_model(haar_mode='nope')))
        if 'ginibre' in kind:
            out.append(('banded', lambda: obj.sample_banded_model()))
        return out
    out = [('seed', lambda: obj.sample(random_state='abc'))]
    if kind == 'ust':
        out.append(('mode', lambda: obj.sample(mode='nope')))
    if kind in ('carries', 'descent', 'virtual_descent'):
        out.append(('size', lambda: obj.sample(size=-4)))
    return out


def displays(kind, obj, r):
    if kind.startswith('finite'):
        return [('plot_kernel', lambda: obj.plot_kernel('correlation' if obj.kernel_type == 'correlation' else 'likelihood')),
                ('info', lambda: obj.info()), ('str', lambda: str(obj))] + \
            ([('compute_K', obj.compute_K)] if obj.kernel_type == 'correlation' or 'eval' in kind or 'L' in kind else []) + \
            ([('compute_L', obj.compute_L)] if obj.kernel_type == 'likelihood' or not obj.projection else [])
    if kind.startswith('beta'):
        if not obj.list_of_samples:
            return [('str', lambda: str(obj))]
        return [('plot', lambda: obj.plot(normalization=bool(r.randint(2)))), ('hist', lambda: obj.hist(normalization=bool(r.randint(2)))),
                ('normalize', lambda: obj.normalize_points(obj.list_of_samples[-1])), ('str', lambda: str(obj))]
    if kind == 'ust':
        out = [('plot_graph', obj.plot_graph), ('plot_kernel', obj.plot_kernel), ('compute_kernel', obj.compute_kernel),
               ('str', lambda: str(obj))]
        return out + ([('plot', obj.plot)] if obj.list_of_samples else [])
    if not obj.list_of_samples:
        return [('str', lambda: str(obj))]
    if kind == 'plancherel':
        return [('plot', obj.plot), ('plot_diagram', lambda: obj.plot_diagram(normalization=bool(r.randint(2)))),
                ('str', lambda: str(obj))]
    return [('plot', lambda: obj.plot(vs_bernoullis=bool(r.randint(2)), random_state=3)), ('str', lambda: str(obj))]


def history(rec, kind, cs, seed, steps):
    r = np.random.RandomState(seed)
    first = cs[r.randint(len(cs))]
    inp = first.inputs(r)
    obj, other = first.new(inp), first.new(catalog.clone(inp))
    log, n_ok = [], 0
    model, model_o = [], []     # expected content of the histories
    diag = []
    last = None

    def check(label, want, o, who):
        got = snapshot(o.list_of_samples)
        return rec.expect(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)),
                          kind + '/' + who, 'after [{}]: recorded samples are {} instead of {}'.format(
                              ', '.join(log[-6:]), str(got)[:300], str(want)[:300]),
                          history=log, seed=seed, kind=kind)
    for step in range(steps):
        act = r.choice(['sample', 'sample', 'sample', 'refused', 'display', 'flush', 'other'],
                       p=[.2, .2, .15, .18, .15, .05, .07])
        if act in ('sample', 'other'):
            c, s = cs[r.randint(len(cs))], int(r.randint(2**31 - 1))
            if last is not None and r.rand() < .35:
                c, s = last             # the same sample again
            last = c, s
            o, m = (obj, model) if act == 'sample' else (other, model_o)
            log.append('{}{}'.format('other.' if act == 'other' else '', c.name))
            ok, v = rec.call(kind + '/sample', c.call, o, inp, s,
                             replay=dict(history=log, seed=seed, kind=kind))
            if not ok:
                return
            n_ok += act == 'sample'
            new = o.list_of_samples[-1] if o.list_of_samples else None
            if c.none_result:
                m.append(canon(new))
                fine = len(o.list_of_samples) == len(m) and v is None
                if kind == 'plancherel' and act == 'sample':
                    diag.append(canon(o.list_of_young_diag[-1]))
                    y = np.asarray(o.list_of_young_diag[-1])
                    rec.expect(len(o.list_of_young_diag) == len(diag) and
                               all(same(a, canon(b)) for a, b in zip(diag, o.list_of_young_diag)), kind + '/diagrams',
                               'recorded Young diagrams do not match the samples', history=log, seed=seed)
                    rec.expect(np.allclose(np.asarray(new), y - np.arange(len(y)) - .5), kind + '/diagrams',
                               'sample and Young diagram differ', history=log, seed=seed)
            elif c.entry == 'chain':
                m.append(canon(new))
                fine = isinstance(new, list) and len(new) > 0 and same(canon(new[-1]), canon(v))
            else:
                m.append(canon(v))
                fine = True
            if not rec.expect(fine, kind + '/returned', 'recorded entry and returned value differ: {} / {}'.format(
                    str(new)[:200], str(v)[:200]), history=log, seed=seed, kind=kind):
                return
        elif act == 'refused':
            opts = refused(kind, obj, r)
            label, fn = opts[r.randint(len(opts))]
            log.append('refused:' + label)
            try:
                fn()
            except (ValueError, NotImplementedError, TypeError, FloatingPointError, IndexError):
                rec.count('refused_calls')
            else:
                rec.violate(kind + '/accepted/' + label, 'an invalid request was accepted', history=log, seed=seed)
                return
        elif act == 'display':
            opts = displays(kind, obj, r)
            label, fn = opts[r.randint(len(opts))]
            log.append(label)
            if label in ('plot', 'hist') and '/0' in kind:
                log.pop()      # i.i.d. case may have no limiting law to display
                continue
            try:
                fn()
            except FloatingPointError:
                pass
            plt.close('all')
        elif act == 'flush':
            if not hasattr(obj, 'flush_samples'):
                continue
            log.append('flush')
            ok, v = rec.call(kind + '/flush', obj.flush_samples, replay=dict(history=log, seed=seed, kind=kind))
            model[:] = []
        if not (check(act, model, obj, 'history') and check(act, model_o, other, 'other')):
            return
    rec.observe((kind, seed), nontrivial=n_ok >= 2, sample=dict(kind=kind, seed=seed, history=log))
    rec.count('events', len(log))
    rec.count('samples', n_ok)


def many(rec, kinds, seed, count, steps):
    g = groups()
    for kind in kinds:
        for k in range(count):
            history(rec, kind, g[kind], seed * 1000 + k, steps)


def jobs(tier, seed):
    th = tier == 'thorough'
    kinds = sorted(groups())
    n = 16
    return [Job('histories#%d' % k, many, timeout=880, kinds=kinds[k::n], seed=seed, count=12 if not th else 150,
                steps=14 if not th else 25) for k in range(n)]
