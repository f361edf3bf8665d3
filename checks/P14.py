"""P14: isolation: arguments and process-wide state are never modified; returned samples are the user's."""
import os
import random
import sys
import warnings

import matplotlib
import matplotlib.pyplot as plt
import networkx as nx
import numpy as np

from mon import catalog
from mon.catalog import canon, clone, fingerprint, map_arrays, same
from mon.core import Job

RULE = ('each case = one public call (samplers, evaluations, conversions, displays of the catalogue) on seeded inputs, in '
        'several memory layouts (C, Fortran, strided view, read-only); monitors: byte-exact fingerprints of every input '
        'before and after, snapshot of process-wide settings, equality of the outcome across layouts, and for samplers '
        'equality of later draws after the user overwrote what was returned; non-trivial = the call received at least one '
        'array, list or graph')
ASSUMPTIONS = ['outcomes across layouts are compared up to 1e-8']


def process_state():
    return dict(err=np.geterr(), errcall=np.geterrcall(), printopts={k: v for k, v in np.get_printoptions().items()},
                rc=dict(matplotlib.rcParams.copy()), filters=[repr(f) for f in warnings.filters], cwd=os.getcwd(),
                environ=dict(os.environ), reclim=sys.getrecursionlimit(), bufsize=np.getbufsize(),
                backend=matplotlib.get_backend())


def diff_state(a, b):
    return [k for k in a if a[k] != b[k]]


LAYOUTS = {
    'C': lambda a: np.array(a, order='C', copy=True),
    'F': lambda a: np.array(a, order='F', copy=True),
    'strided': lambda a: _strided(a),
    'readonly': lambda a: _ro(a),
}


def _ro(a):
    b = np.array(a, copy=True)
    b.flags.writeable = False
    return b


def _strided(a):
    big = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
    v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
    v[...] = a
    return v


def has_container(inp):
    return any(isinstance(v, (np.ndarray, list, tuple, dict, nx.Graph, np.poly1d)) for v in inp.values())


def guarded(rec, key, inp, fn, rp):
    """run fn() watching inputs and process-wide settings"""
    f0, s0 = fingerprint(inp), process_state()
    ok, v = rec.call(key, fn, replay=rp)
    f1, s1 = fingerprint(inp), process_state()
    if f0 != f1:
        which = [k for k in inp if fingerprint({k: inp[k]}) not in [fingerprint({k: inp[k]})]] or \
            [a[0] for a, b in zip(f0[1], f1[1]) if a != b]
        rec.violate(key + '/modified', 'the call modified its argument(s) {}'.format(which), **rp)
    d = diff_state(s0, s1)
    if d:
        rec.violate(key + '/state', 'the call changed process-wide settings: {}'.format(
            {k: (str(s0[k])[:80], str(s1[k])[:80]) for k in d}), **rp)
        np.seterr(**s0['err'])
    rec.count('guarded_calls')
    return ok, v


def scramble(v):
    """what a user may do with a returned value"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = 1 if v.dtype.kind in 'iu' else .123
    elif isinstance(v, list):
        for x in v:
            scramble(x)
        v.reverse()
        v.append(0)
        del v[:1]
    elif isinstance(v, tuple):
        for x in v:
            scramble(x)
    elif isinstance(v, dict):
        for x in v.values():
            scramble(x)
    elif isinstance(v, nx.Graph):
        v.remove_nodes_from(list(v.nodes())[:2])


def sampler(rec, case, seed):
    r = np.random.RandomState(seed)
    base = case.inputs(r)
    s, s2 = [int(x) for x in r.randint(2**31 - 1, size=2)]
    rp = dict(case=case.name, seed=seed)
    res = {}
    for lay, f in LAYOUTS.items():
        inp = map_arrays(clone(base), f)

        def go():
            obj = case.new(inp)
            out = [canon(case.result(obj, inp, s))]
            if not case.fn:
                case.call(obj, inp, s2)        # second call on the same object (cached quantities)
            return out[0]
        ok, v = guarded(rec, case.name, inp, go, dict(rp, layout=lay))
        if ok:
            res[lay] = v
    for lay in res:
        if 'C' in res:
            rec.expect(same(res['C'], res[lay]), case.name + '/layout', 'outcome depends on the memory layout ({}): {} vs '
                       '{}'.format(lay, str(res['C'])[:200], str(res[lay])[:200]), layout=lay, **rp)
    # returned values belong to the user
    inp = clone(base)
    a, b = case.new(inp), case.new(inp)
    ok1, va = rec.call(case.name, case.call, a, clone(base) if case.fn else inp, s, replay=rp)
    ok2, vb = rec.call(case.name, case.call, b, clone(base) if case.fn else inp, s, replay=rp)
    if ok1 and ok2 and not case.fn:
        inp2 = clone(base)       # a chain may start with the user's own initial state
        scramble(va)
        if case.history and a.list_of_samples:
            scramble(a.list_of_samples[-1])
        o1, v1 = rec.call(case.name, case.call, a, inp2, s2, replay=rp)
        o2, v2 = rec.call(case.name, case.call, b, clone(base), s2, replay=rp)
        if o1 and o2:
            if case.history:
                v1, v2 = (v1, a.list_of_samples[-1]), (v2, b.list_of_samples[-1])
            rec.expect(same(canon(v1), canon(v2)), case.name + '/aliasing', 'overwriting a returned sample changes the next '
                       'draw: {} vs {}'.format(str(v2)[:200], str(v1)[:200]), **rp)
    elif ok1 and ok2:
        o1, v1 = rec.call(case.name, case.call, None, clone(base), s, replay=rp)
        keep = canon(v1) if o1 else None
        scramble(va)
        o2, v2 = rec.call(case.name, case.call, None, clone(base), s, replay=rp)
        if o1 and o2:
            rec.expect(same(keep, canon(v2)), case.name + '/aliasing', 'overwriting a returned value changes the next call',
                       **rp)
    rec.observe((case.name, seed), nontrivial=has_container(base), sample=rp)


def evaluation(rec, name, inputs, call, seed):
    r = np.random.RandomState(seed)
    base = inputs(r)
    rp = dict(call=name, seed=seed)
    res = {}
    for lay, f in LAYOUTS.items():
        inp = map_arrays(clone(base), f)
        ok, v = guarded(rec, 'pure/' + name, inp, lambda: call(inp), dict(rp, layout=lay))
        if ok:
            keep = canon(v)
            res[lay] = keep
            ok, w = guarded(rec, 'pure/' + name, inp, lambda: call(inp), dict(rp, layout=lay))
            if ok:
                rec.expect(same(keep, canon(w)), 'pure/' + name + '/repeat', 'the second evaluation differs', **rp)
        plt.close('all')
    for lay in res:
        if 'C' in res:
            rec.expect(same(res['C'], res[lay]), 'pure/' + name + '/layout', 'value depends on the memory layout ({})'.format(lay),
                       layout=lay, **rp)
    rec.observe((name, seed), nontrivial=has_container(base), sample=rp)


def samplers(rec, lo, step, seed, reps):
    for case in (catalog.cases() + catalog.big_cases())[lo::step]:
        for k in range(1 if case.slow else reps):
            sampler(rec, case, seed * 1000 + k)


def evaluations(rec, lo, step, seed, reps):
    for name, inputs, call in (catalog.pure() + catalog.pure_more())[lo::step]:
        for k in range(reps):
            evaluation(rec, name, inputs, call, seed * 1000 + k)


def descriptions(rec, seed, count):
    """dictionaries and tuples passed to constructors, params dicts, seeds: nothing is added, removed or replaced"""
    from dppy.finite_dpps import FiniteDPP
    r = np.random.RandomState(seed)
    for c in range(count):
        desc = ('K', 'L_eig', 'gram', 'eval', 'A_zono', 'projK_eig01')[c % 6]
        inputs, _ = catalog.fdpp(desc)
        par = {k: v for k, v in inputs(r).items() if k != 'desc'}
        kt = 'correlation' if desc.startswith(('K', 'projK', 'A_')) else 'likelihood'
        rp = dict(desc=desc, seed=seed, case=c)
        key = 'describe/' + desc

        def go():
            d = FiniteDPP(kt, desc.startswith(('proj', 'A_')), **par)
            opts = dict(random_state=np.random.RandomState(3))
            before = sorted(opts)
            d.sample_exact(mode='GS', **opts)
            return before == sorted(opts)
        ok, v = guarded(rec, key, par, go, rp)
        rec.expect(not ok or v, key + '/options', 'options dictionary modified', **rp)
        if desc == 'eval':
            opts = dict(rls_oversample_bless=5., rls_oversample_dppvfx=5., verbose=False, random_state=2)
            d = FiniteDPP(kt, False, **par)
            keep = dict(opts)
            for m in ('vfx', 'alpha'):
                o = dict(keep)
                if m == 'alpha':
                    o.pop('rls_oversample_dppvfx')
                k2 = dict(o)
                ok, v = guarded(rec, key + '/' + m, par, lambda: d.sample_exact(mode=m, **o), rp)
                rec.expect(o == k2, key + '/options', 'options dictionary modified', **rp)
        rec.observe((key, seed, c), sample=rp)


def refusals(rec, seed, count):
    """calls which fail leave arguments and settings untouched as well"""
    from checks import P15
    for kind, cs in sorted(P15.groups().items()):
        for k in range(count):
            r = np.random.RandomState(seed + k)
            case = cs[r.randint(len(cs))]
            inp = case.inputs(r)
            obj = case.new(inp)
            for label, fn in P15.refused(kind, obj, r):
                f0, s0 = fingerprint(inp), process_state()
                try:
                    fn()
                except Exception:
                    pass
                d = diff_state(s0, process_state())
                rp = dict(kind=kind, seed=seed + k, request=label)
                rec.expect(fingerprint(inp) == f0, 'refused/%s/modified' % kind, 'a refused request modified its arguments', **rp)
                if not rec.expect(not d, 'refused/%s/state' % kind, 'a refused request changed process-wide settings %s' % d, **rp):
                    np.seterr(**s0['err'])
                rec.observe(('refused', kind, label, seed + k), nontrivial=has_container(inp))


def jobs(tier, seed):
    th = tier == 'thorough'
    n = 10 if not th else 20
    out = [Job('samplers#%d' % k, samplers, timeout=880, lo=k, step=n, seed=seed, reps=1 if not th else 15)
           for k in range(n)]
    out += [Job('evaluations#%d' % k, evaluations, timeout=880, lo=k, step=6, seed=seed, reps=1 if not th else 15)
            for k in range(6)]
    out.append(Job('descriptions', descriptions, timeout=880, seed=seed, count=12 if not th else 120))
    out.append(Job('refusals', refusals, timeout=880, seed=seed, count=1 if not th else 20))
    return out
