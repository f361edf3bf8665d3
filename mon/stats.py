"""Statistical oracles (used on outputs only, fixed seeds, very small levels)."""
import numpy as np
import scipy.stats as st

ALPHA = 1e-9


def gof(counts, probs, min_exp=20.0):
    """Goodness of fit of observed counts (dict) to a finite law (dict).

    Returns (pvalue, description).  Outcomes of probability zero give 0."""
    n = sum(counts.values())
    for k, c in counts.items():
        if probs.get(k, 0.0) < 1e-14:
            return 0.0, 'outcome {} has probability 0 but was observed {} times of {}'.format(k, c, n)
    items = sorted(probs.items(), key=lambda kv: kv[1])
    obs, exp = [], []
    po = pe = 0.0
    for k, p in items:
        po += counts.get(k, 0)
        pe += n * p
        if pe >= min_exp:
            obs.append(po)
            exp.append(pe)
            po = pe = 0.0
    if exp and (pe > 0 or po > 0):
        obs[-1] += po
        exp[-1] += pe
    obs, exp = np.array(obs), np.array(exp)
    if len(exp) < 2:
        return 1.0, 'one cell'
    exp *= obs.sum() / exp.sum()
    # likelihood ratio statistic: its tail is controlled by Chernoff bounds, unlike Pearson's
    chi2 = float(2 * np.sum(np.where(obs > 0, obs * np.log(np.maximum(obs, 1e-300) / exp), 0.0)))
    pv = float(st.chi2.sf(chi2, len(exp) - 1))
    i = int(np.argmax((obs - exp)**2 / exp))
    return pv, 'G={:.1f} dof={} n={} worst cell observed {} expected {:.1f}'.format(
        chi2, len(exp) - 1, n, obs[i], exp[i])


def ks(x, cdf):
    x = np.sort(np.asarray(x, dtype=float))
    r = st.kstest(x, cdf)
    return float(r.pvalue), 'KS D={:.4f} n={}'.format(r.statistic, len(x))


def ks2(x, y):
    r = st.ks_2samp(np.asarray(x, float), np.asarray(y, float), method='asymp')
    return float(r.pvalue), 'KS2 D={:.4f} n={},{}'.format(r.statistic, len(x), len(y))


def ztest(x, mean, sd=None):
    """z-test of the mean; sd: known standard deviation, or empirical."""
    x = np.asarray(x, float)
    s = sd if sd is not None else x.std(ddof=1)
    if s <= 1e-11 * (1 + abs(mean)):             # constants up to rounding
        return (1.0 if abs(x.mean() - mean) < 1e-9 * (1 + abs(mean)) else 0.0), 'degenerate'
    z = (x.mean() - mean) / (s / np.sqrt(len(x)))
    return float(2 * st.norm.sf(abs(z))), 'mean={:.6g} expected={:.6g} z={:.2f} n={}'.format(
        x.mean(), mean, z, len(x))


def binom_test(k, n, p):
    lo = st.binom.cdf(k, n, p)
    hi = st.binom.sf(k - 1, n, p)
    return float(min(1.0, 2 * min(lo, hi)))
