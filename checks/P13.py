"""P13: reproducibility: results are a function of the inputs and of the random source only."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from mon import catalog, typecases
from mon.core import Job, REPO, VERIF

RULE = ('each case = one public sampling call of the catalogue (all classes and free samplers, %s) with seeded inputs; '
        'monitors: tripwire on the global generators (numpy and random) around every call, equality of outcomes across '
        'fresh objects / seed types / states of the global generator / processes with different hash seeds, advance of '
        'the passed generator, global generator used iff none is passed; non-trivial = the outcome varies with the seed')
ASSUMPTIONS = ['floating point outcomes are compared up to 1e-8 (BLAS may sum in another order), discrete ones exactly']


def gstate():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def state(rs):
    s = rs.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4])


def run(case, inp, rs):
    obj = case.new(inp)
    return catalog.canon(case.result(obj, inp, rs))


def one(rec, case, seed):
    r = np.random.RandomState(seed)
    inp = case.inputs(r)
    s = int(r.randint(2**31 - 1))
    key = case.name
    rp = dict(case=case.name, seed=seed)

    def go(rs, label, gseed):
        np.random.seed(gseed)
        random.seed(gseed)
        g0 = gstate()
        ok, v = rec.call(key, run, case, inp, rs, replay=rp)
        if ok and rs is not None and rs is not np.random:
            rec.expect(gstate() == g0, key + '/global', 'the global generator was used by a call which received '
                       'random_state={}'.format(label), **rp)
        rec.count('calls')
        return ok, v
    ok, ref = go(s, 'int', 11)
    if not ok:
        return
    alts = [(s, 'int', 12), (np.int64(s), 'np.int64', 13), (np.random.RandomState(s), 'RandomState', 14)]
    for rs, label, gs in alts:
        ok, v = go(rs, label, gs)
        if ok:
            rec.expect(catalog.same(ref, v), key + '/repeat', 'same inputs and equal random source ({}) give different '
                       'results: {} vs {}'.format(label, ref, v), **rp)
    # extreme seeds are seeds as well
    for e in (0, 2**32 - 1):
        ok, a = go(e, 'int {}'.format(e), 15)
        if ok:
            for rs, label, gs in ((e, 'int', 16), (np.random.RandomState(e), 'RandomState', 17)):
                ok, b = go(rs, '{} ({})'.format(label, e), gs)
                if ok:
                    rec.expect(catalog.same(a, b), key + '/extreme_seed', 'seed {}: same inputs and equal random source '
                               '({}) give different results: {} vs {}'.format(e, label, a, b), **rp)
    # global generator used when no source is given
    ok, a = go(None, 'None', s % 2**32)
    if ok and case.random:
        rec.expect(catalog.same(ref, a), key + '/none', 'random_state=None does not use the global numpy generator: '
                   '{} vs {}'.format(ref, a), **rp)
    # a generator in an arbitrary position, shared by consecutive calls
    base = np.random.RandomState(s + 1 if s < 2**32 - 1 else 7)
    base.rand(int(r.randint(1, 700)))
    if r.rand() < .5:
        base.randn()       # pending second gaussian
    st = base.get_state()
    seqs = []
    for rep in range(2):
        g = np.random.RandomState(0)
        g.set_state(st)
        seq, states = [], [state(g)]
        for _ in range(3):
            ok, v = go(g, 'shared', 20 + rep)
            if not ok:
                return
            seq.append(v)
            states.append(state(g))
        seqs.append(seq)
        if case.random:
            rec.expect(len(set(states)) == len(states), key + '/advance', 'the generator which was passed is not advanced '
                       'by the call', **rp)
    rec.expect(catalog.same(tuple(seqs[0]), tuple(seqs[1])), key + '/continue',
               'equal generator states give different sequences', **rp)
    # the same object, same seed (no cached random quantity)
    if not case.stateful and not case.fn:
        obj = case.new(inp)
        out = []
        for rep in range(3):
            ok, v = rec.call(key + '/again', case.result, obj, inp, s, replay=rp)
            if not ok:
                break
            out.append(catalog.canon(v))
        rec.expect(all(catalog.same(out[0], v) for v in out), key + '/again',
                   'the same object with the same seed gives different results', **rp)
    # seeds matter
    vals, differ = [], False
    for t in range(6):
        ok, v = go(s % 1000 + t, 'int', 30)
        if ok:
            vals.append(v)
            differ = differ or not catalog.same(vals[0], v)
    rec.observe((case.name, seed), nontrivial=differ, sample=dict(rp, varies_with_seed=differ))
    return differ


def many(rec, lo, step, seed, reps):
    for case in (catalog.cases() + catalog.big_cases())[lo::step]:
        differ = []
        for k in range(1 if case.slow else reps):
            differ.append(one(rec, case, seed * 1000 + k))
        if differ and None not in differ and case.random:
            rec.expect(any(differ), case.name + '/constant', 'the result never depends on the seed', case=case.name)


def displays(rec, seed, count):
    """plot of the descent processes draws Bernoulli variables from the source it is given"""
    import matplotlib.pyplot as plt
    from dppy.exotic_dpps import CarriesProcess, DescentProcess, VirtualDescentProcess
    for c in range(count):
        r = np.random.RandomState(seed + c)
        o = (CarriesProcess(3), DescentProcess(), VirtualDescentProcess(.4))[c % 3]
        key = 'plot/' + type(o).__name__
        o.sample(size=40, random_state=1)
        s = int(r.randint(2**31 - 1))

        def shown(rs, g):
            np.random.seed(g)
            g0 = gstate()
            o.plot(vs_bernoullis=True, random_state=rs)
            pts = np.concatenate([np.asarray(cc.get_offsets()) for ax in plt.gcf().axes for cc in ax.collections])
            plt.close('all')
            return pts, gstate() == g0
        a, ua = shown(s, 1)
        b, ub = shown(np.random.RandomState(s), 2)
        rec.expect(ua and ub, key + '/global', 'the global generator was used', seed=seed + c)
        rec.expect(a.shape == b.shape and np.array_equal(a, b), key + '/repeat', 'same source, different display',
                   seed=seed + c)
        rec.observe((key, seed, c), nontrivial=True)


def digest(v):
    """digest of a canonical value with rounded floats"""
    def rnd(x):
        if isinstance(x, np.ndarray):
            if x.dtype.kind in 'fc':
                return ['a', [repr(np.round(t, 6) + 0.0) for t in x.ravel()]]
            return ['a', x.ravel().tolist()]
        if isinstance(x, complex):
            return repr(np.round(x, 6) + 0.0)
        if isinstance(x, tuple):
            return [rnd(t) for t in x]
        return repr(x)
    return hashlib.sha1(json.dumps(rnd(v)).encode()).hexdigest()


def digests(seed, start, step):
    out = {}
    for case in catalog.cases()[start::step]:
        if case.slow:
            continue
        try:
            inp = case.inputs(np.random.RandomState(seed))
            out[case.name] = digest(run(case, inp, seed + 1))
        except Exception as e:
            out[case.name] = 'raises ' + type(e).__name__
    return out


SCRIPT = '''
import sys, os, json
sys.path.insert(0, {repo!r}); sys.path.insert(0, {verif!r})
import warnings; warnings.simplefilter('ignore')
import matplotlib; matplotlib.use('Agg')
import numpy as np
np.random.seed({g})
out = sys.stdout; sys.stdout = open(os.devnull, 'w')
from checks import P13
d = P13.digests({seed}, {start}, {step})
out.write(json.dumps(d)); out.flush()
'''


def processes(rec, seed, start, step, hashseeds):
    """the same calls in fresh interpreters with different hash seeds and order of objects in memory"""
    res = []
    for h in hashseeds:
        env = dict(os.environ, PYTHONHASHSEED=str(h), DPPY_REPO=REPO)
        p = subprocess.run([sys.executable, '-c', SCRIPT.format(repo=REPO, verif=VERIF, seed=seed, start=start,
                                                                step=step, g=h + 5)],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode:
            rec.undecided('subprocess failed: ' + p.stderr.decode()[-300:])
            return
        res.append(json.loads(p.stdout))
    for name in res[0]:
        vals = {d.get(name) for d in res}
        rec.observe(('process', name, seed), nontrivial=True)
        rec.expect(len(vals) == 1, name + '/process', 'same inputs and seed give different results in different '
                   'processes (hash seeds {})'.format(list(hashseeds)), case=name, seed=seed)


def types(rec, seed, part):
    """equal values of another type are equal inputs"""
    typecases.watch(rec, seed, part, 4, compare=True)


def jobs(tier, seed):
    th = tier == 'thorough'
    n = 8 if not th else 24
    out = [Job('calls#%d' % k, many, timeout=880, lo=k, step=n, seed=seed, reps=2 if not th else 25) for k in range(n)]
    out.append(Job('displays', displays, timeout=880, seed=seed, count=6 if not th else 40))
    m = 4
    for k in range(m):
        out.append(Job('process#%d' % k, processes, timeout=880, seed=seed + 17, start=k, step=m,
                       hashseeds=(0, 1) if not th else tuple(range(6))))
    for i in range(4):
        for k in range(3 if not th else 12):
            out.append(Job('types#%d/%d' % (i, k), types, seed=1000 * seed + 800 + k, part=i, timeout=600))
    return out
