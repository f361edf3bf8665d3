"""Deciding step shared by the law properties: exact-law monitor first, and a
statistical oracle when the engine abstains."""
import collections

import numpy as np

from mon import rngmon, stats
from mon.core import Stuck, cpu_budget, lib_site


def check_law(rec, key, run, ref, tol=1e-7, max_leaves=20000, replay=None,
              stat_n=3000, stat_seed=0, cpu=120.0, sample=None):
    """run(rng) -> hashable outcome.  ref: dict outcome -> probability."""
    replay = replay or {}
    try:
        with cpu_budget(cpu):
            law, leaves, crashes = rngmon.exact_law(run, max_leaves)
    except rngmon.Undecidable as e:
        rec.count('engine_abstained')
        return stat_law(rec, key, run, ref, stat_n, stat_seed, replay, why=str(e))
    except Stuck:
        return stat_law(rec, key, run, ref, stat_n, stat_seed, replay, why='cpu budget')
    rec.count('branches', leaves)
    if crashes:
        # a crash seen under scripted entropy counts only if it does not come
        # from the scripted values themselves: it must either occur on every
        # branch kind or be reproduced under ordinary entropy.
        mass = sum(c[1] for c in crashes)
        ok = confirm_crash(rec, key, run, crashes, mass, replay)
        if not ok:
            rec.count('engine_crash_unconfirmed')
            return stat_law(rec, key, run, ref, stat_n, stat_seed, replay,
                            why='scripted crash {!r}'.format(crashes[0][0]))
        return False
    total = sum(law.values())
    if abs(total - 1) > 1e-8:
        rec.count('engine_mass')
        return stat_law(rec, key, run, ref, stat_n, stat_seed, replay,
                        why='mass {}'.format(total))
    d, where = rngmon.compare_laws(law, ref, tol)
    rec.observe((key, replay, len(law), leaves), n=leaves,
                nontrivial=len(ref) > 1 and leaves > 1,
                sample=sample or dict(case=key, replay=replay, branches=leaves,
                                      outcomes=len(law), max_abs_error=d))
    rec.count('laws_exact')
    if not d <= tol:
        rec.violate(key, 'exact law differs: outcome {} observed probability {:.9g}, '
                    'specified {:.9g} (max discrepancy {:.3g} over {} outcomes, {} branches)'
                    .format(where, law.get(where, 0.0), ref.get(where, 0.0), d,
                            len(set(law) | set(ref)), leaves), **replay)
        return False
    return True


def confirm_crash(rec, key, run, crashes, mass, replay, tries=400):
    exc = crashes[0][0]
    n = int(min(4000, max(tries, 20.0 / max(mass, 1e-3))))
    for s in range(n):
        try:
            with cpu_budget(60):
                run(np.random.RandomState(1000 + s))
        except Exception as e:
            site = lib_site(e)
            if site is None:
                raise
            rec.violate('{}/raises/{}'.format(key, type(e).__name__),
                        'valid call raised {}: {} in {} (RandomState({}))'.format(
                            type(e).__name__, e, site, 1000 + s),
                        random_state=1000 + s, **replay)
            return True
    return False


def stat_law(rec, key, run, ref, n, seed, replay, why=''):
    counts = collections.Counter()
    for i in range(n):
        rng = np.random.RandomState((seed * 7919 + i) % (2**32 - 1))
        try:
            with cpu_budget(60):
                counts[run(rng)] += 1
        except Stuck:
            rec.violate(key + '/stuck', 'no termination within 60 s of CPU', draw=i, **replay)
            return False
        except Exception as e:
            site = lib_site(e)
            if site is None:
                raise
            rec.violate('{}/raises/{}'.format(key, type(e).__name__),
                        'valid call raised {}: {} in {}'.format(type(e).__name__, e, site),
                        draw=i, **replay)
            return False
    pv, desc = stats.gof(counts, ref)
    rec.observe((key, replay, 'stat'), n=n,
                sample=dict(case=key, replay=replay, statistical=desc, p=pv, why=why))
    rec.count('laws_statistical')
    if pv < stats.ALPHA:
        rec.violate(key, 'empirical law differs: {} (p={:.2g})'.format(desc, pv), **replay)
        return False
    return True
