"""Workload generator for finite DPPs: parametrisations, kernels, references."""
import warnings

import numpy as np

from mon import ref
from dppy.finite_dpps import FiniteDPP


def linear_eval_L(X, Y=None):
    """likelihood function L(x, y) = <x, y> (+ small scale), any-shape safe"""
    Y = X if Y is None else Y
    return X.dot(Y.T)


def build(param, kern, n, seed, rank=None):
    """Return (factory, info): factory() -> fresh FiniteDPP (same content).

    info: dict with 'L' and/or 'K' reference kernels, 'proj' rank if projection.
    """
    r = np.random.RandomState(seed)
    info = dict(param=param, kern=kern, n=n, seed=seed)
    if param in ('K', 'K_eig_dec', 'K_thin'):
        vals, vecs = next((v, u) for nm, v, u in ref.kernel_zoo_K(r, n) if nm == kern)
        if param == 'K_thin':
            m = max(1, n - 2)
            vals, vecs = vals[:m].copy(), vecs[:, :m].copy()
        K = ref.sym(vals, vecs)
        info['K'] = K
        if np.all(vals < 1 - 1e-12):
            info['L'] = ref.sym(vals / (1 - vals), vecs)
        if param == 'K':
            def factory():
                return FiniteDPP('correlation', K=K.copy())
        else:
            def factory():
                return FiniteDPP('correlation', K_eig_dec=(vals.copy(), vecs.copy()))
    elif param in ('L', 'L_eig_dec', 'L_thin', 'L_gram_factor', 'L_gram_tall',
                   'L_eval_X_data'):
        vals, vecs = next((v, u) for nm, v, u in ref.kernel_zoo_L(r, n) if nm == kern)
        if param == 'L_thin':
            m = max(1, n - 2)
            vals, vecs = vals[:m].copy(), vecs[:, :m].copy()
        if param == 'L_gram_factor':      # d < N
            d = max(1, n - 2) if rank is None else rank
            vals, vecs = vals.copy(), vecs
            Q = ref.rand_orth(r, d)
            Phi = (Q * np.sqrt(vals[-d:])).dot(vecs[:, -d:].T)
            L = Phi.T.dot(Phi)
        elif param == 'L_gram_tall':      # d >= N
            d = n + int(r.randint(0, 3))
            Q = ref.rand_orth(r, d, n)
            Phi = (Q * np.sqrt(vals)).dot(vecs.T)
            L = Phi.T.dot(Phi)
        elif param == 'L_eval_X_data':
            X = vecs * np.sqrt(vals)
            L = X.dot(X.T)
        else:
            L = ref.sym(vals, vecs)
        info['L'] = L
        w, U = np.linalg.eigh(L)
        w = np.maximum(w, 0)
        info['K'] = ref.sym(w / (1 + w), U)
        if param == 'L':
            def factory():
                return FiniteDPP('likelihood', L=L.copy())
        elif param in ('L_eig_dec', 'L_thin'):
            def factory():
                return FiniteDPP('likelihood', L_eig_dec=(vals.copy(), vecs.copy()))
        elif param in ('L_gram_factor', 'L_gram_tall'):
            def factory():
                return FiniteDPP('likelihood', L_gram_factor=Phi.copy())
        else:
            def factory():
                return FiniteDPP('likelihood', L_eval_X_data=(linear_eval_L, X.copy()))
    elif param.startswith('proj'):
        d = rank if rank is not None else max(1, n // 2)
        if kern == 'block':
            B = np.zeros((n, n))
            h = n // 2
            if h:
                B[:h, :h] = ref.rand_orth(r, h)
            B[h:, h:] = ref.rand_orth(r, n - h)
            B = B[r.permutation(n)]
            vecs = B[:, r.permutation(n)[:d]]
        elif kern == 'coord':
            vecs = np.eye(n)[:, r.permutation(n)[:d]]
        elif kern == 'parallel':         # many identical rows
            A = np.repeat(r.randn(d, d), n // d + 1, axis=1)[:, :n]
            vecs, _ = np.linalg.qr(A.T)
        elif kern == 'nearsing':         # a tiny but relevant row
            A = r.randn(n, d)
            A[0] *= 1e-6
            A[1] = A[2] + 1e-5 * r.randn(d) if n > 2 else A[1]
            vecs, _ = np.linalg.qr(A)
        else:
            vecs = ref.rand_orth(r, n, d)
        K = ref.sym(np.ones(d), vecs)
        info['K'], info['proj'] = K, d
        if param == 'proj_K':
            def factory():
                return FiniteDPP('correlation', projection=True, K=K.copy())
        elif param == 'proj_K_eig_dec':
            pad = np.linalg.svd(vecs, full_matrices=True)[0]
            full = np.concatenate([pad[:, d:], vecs], axis=1)
            ev = np.concatenate([np.zeros(n - d), np.ones(d)])
            perm = r.permutation(n)
            ev, full = ev[perm], full[:, perm]

            def factory():
                return FiniteDPP('correlation', projection=True,
                                 K_eig_dec=(ev.copy(), full.copy()))
        elif param == 'proj_K_thin':
            def factory():
                return FiniteDPP('correlation', projection=True,
                                 K_eig_dec=(np.ones(d), vecs.copy()))
        elif param == 'proj_A_zono':
            A = r.randn(d, d).dot(vecs.T)

            def factory():
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return FiniteDPP('correlation', projection=True, A_zono=A.copy())
        elif param == 'projL_L':          # projection *likelihood* kernel
            info['L'] = K
            info['K'] = 0.5 * K

            def factory():
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return FiniteDPP('likelihood', projection=True, L=K.copy())
        elif param == 'projL_L_eig_dec':
            info['L'] = K
            info['K'] = 0.5 * K

            def factory():
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return FiniteDPP('likelihood', projection=True,
                                     L_eig_dec=(np.ones(d), vecs.copy()))
        else:
            raise KeyError(param)
    else:
        raise KeyError(param)
    return factory, info


def canon(sample, n):
    """sorted tuple, or a tagged outcome when the sample is malformed."""
    try:
        lst = [int(x) for x in sample]
    except Exception:
        return ('malformed', repr(sample)[:60])
    if any(float(x) != int(x) for x in sample):
        return ('malformed', repr(sample)[:60])
    if len(set(lst)) != len(lst):
        return ('duplicates',) + tuple(lst)
    if any(x < 0 or x >= n for x in lst):
        return ('out_of_range',) + tuple(lst)
    return tuple(sorted(lst))


def well_formed(key):
    return not (len(key) and isinstance(key[0], str))


L_PARAMS = ('L', 'L_eig_dec', 'L_thin', 'L_gram_factor', 'L_gram_tall', 'L_eval_X_data')
K_PARAMS = ('K', 'K_eig_dec', 'K_thin')
PROJ_PARAMS = ('proj_K', 'proj_K_eig_dec', 'proj_K_thin', 'proj_A_zono')
L_KERNS = ('generic', 'repeated', 'identity_vecs', 'rankdef', 'two_scales', 'block', 'large')
K_KERNS = ('generic', 'repeated', 'diag', 'zero_one', 'block', 'tiny')
PROJ_KERNS = ('generic', 'block', 'coord', 'parallel', 'nearsing')

TYPES = ('int', 'float32', 'F', 'strided', 'reversed', 'readonly')


def as_type(a, typ):
    """the same values in another type or memory layout"""
    if typ == 'int':
        return np.rint(a).astype(int)
    if typ == 'float32':
        return np.asarray(a).astype(np.float32)
    a = np.array(a, dtype=float)
    if typ == 'F':
        return np.asfortranarray(a)
    if typ == 'strided':
        big = np.full(tuple(2 * s for s in a.shape), np.nan)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if typ == 'reversed':
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[rev])[rev]
    if typ == 'readonly':
        a.flags.writeable = False
        return a
    raise KeyError(typ)


def typed_params(typ):
    out = ['K', 'K_eig_dec', 'L', 'L_eig_dec', 'L_gram_factor', 'L_gram_tall', 'L_eval_X_data',
           'proj_K', 'proj_K_eig_dec', 'proj_A_zono', 'projL_L']
    if typ == 'float32':      # rounded eigenvectors, projections and null eigenvalues miss the documented tolerances
        out = ['K', 'L', 'L_gram_tall', 'L_eval_X_data']
    return out


def typed_build(param, typ, n, seed):
    """a DPP described by arrays of a given type or layout; reference laws in double precision"""
    r = np.random.RandomState(seed)
    info = {}
    integer = typ == 'int'
    d = max(1, n // 2)
    perm = np.eye(n)[:, r.permutation(n)]
    t = lambda a: as_type(a, typ)
    kw = {}
    if param in ('K', 'K_eig_dec'):
        vals, U = (np.arange(n) % 2, perm) if integer else (r.uniform(.05, .9, n), ref.rand_orth(r, n))
        desc = (t(ref.sym(vals, U)),) if param == 'K' else (t(vals), t(U))
        info['K'] = np.asarray(desc[0], float) if param == 'K' else ref.sym(np.asarray(desc[0], float), np.asarray(desc[1], float))
    elif param in ('L', 'L_eig_dec'):
        if integer:
            B = r.randint(-1, 3, (n, n)).astype(float) + np.eye(n)
            vals, U = r.randint(0, 4, n) + (np.arange(n) == 0), perm
        else:
            B = r.randn(n, n)
            vals, U = r.uniform(.2, 3, n), ref.rand_orth(r, n)
        desc = (t(B.dot(B.T)),) if param == 'L' else (t(vals), t(U))
        info['L'] = np.asarray(desc[0], float) if param == 'L' else ref.sym(np.asarray(desc[0], float), np.asarray(desc[1], float))
    elif param in ('L_gram_factor', 'L_gram_tall', 'L_eval_X_data'):
        m = {'L_gram_factor': d, 'L_gram_tall': n + 1, 'L_eval_X_data': d if typ != 'float32' else n + 1}[param]
        Phi = r.randint(-2, 3, (m, n)).astype(float) if integer else r.randn(m, n)
        if integer:
            Phi[:m, :m] += 3 * np.eye(m)[:, :min(m, n)] if m <= n else 0
        desc = (t(Phi.T if param == 'L_eval_X_data' else Phi),)
        P = np.asarray(desc[0], float)
        info['L'] = P.dot(P.T) if param == 'L_eval_X_data' else P.T.dot(P)
    else:
        U = perm[:, :d] if integer else ref.rand_orth(r, n, d)
        kw['projection'] = True
        if param == 'proj_A_zono':
            A = r.randint(-2, 3, (d, n)).astype(float) if integer else r.randn(d, d).dot(U.T)
            if integer:
                A[:, :d] += 4 * np.eye(d)
            desc = (t(A),)
            U = np.linalg.qr(np.asarray(desc[0], float).T)[0]
        elif param == 'proj_K_eig_dec':
            V = np.concatenate([U, np.linalg.svd(U)[0][:, d:]], axis=1)
            desc = (t((np.arange(n) < d) * 1.0), t(V))
        else:
            desc = (t(ref.sym(np.ones(d), U)),)
        info['proj'] = d
        info['K'] = ref.sym(np.ones(d), U)
        if param == 'projL_L':
            info['L'], info['K'] = info['K'], .5 * info['K']
    if 'K' not in info:
        w, V = np.linalg.eigh(info['L'])
        w = np.maximum(w, 0)
        info['K'] = ref.sym(w / (1 + w), V)
    if param in ('K', 'K_eig_dec') and not integer:
        info['L'] = info['K'].dot(np.linalg.inv(np.eye(n) - info['K']))
    info['rank'] = int(np.linalg.matrix_rank(info.get('L', info['K']), tol=1e-5))
    name = dict(K='K', K_eig_dec='K_eig_dec', proj_K='K', proj_K_eig_dec='K_eig_dec', proj_A_zono='A_zono',
                projL_L='L', L_gram_tall='L_gram_factor').get(param, param)
    kernel = 'correlation' if name in ('K', 'K_eig_dec', 'A_zono') else 'likelihood'
    value = (linear_eval_L, desc[0]) if name == 'L_eval_X_data' else desc if len(desc) == 2 else desc[0]

    def factory():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return FiniteDPP(kernel, **dict(kw, **{name: value}))
    return factory, info


def typed_modes(param, kdpp=False):
    if param == 'proj_K':
        return ('GS', 'Chol', 'Schur')
    if param == 'projL_L' and kdpp:
        return ('GS', 'Chol', 'Schur')
    if kdpp:
        return ('GS', 'GS_bis', 'KuTa12')
    if param.startswith('proj_'):
        return ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur')
    return ('GS', 'GS_bis', 'KuTa12', 'Chol')


def typed_cases(seed, kdpp, proj, thorough=False):
    out = []
    for typ in TYPES:
        for param in typed_params(typ):
            if param.startswith('proj_') != proj:
                continue
            for mode in typed_modes(param, kdpp):
                for n in (4,) if not thorough else (2, 3, 4, 5):
                    out.append((typ, param, mode, n, 1000 * seed + n))
    return out


def typed_law(rec, prefix, cases, kdpp):
    from mon.lawcheck import check_law
    warnings.simplefilter('ignore')
    for typ, param, mode, n, seed in cases:
        factory, info = typed_build(param, typ, n, seed)
        if not kdpp:
            sizes = (None,)
        elif 'L' in info:
            sizes = range(1, info['rank'] + 1)
        elif 'proj' in info:
            sizes = (info['proj'],)
        else:
            sizes = ()
        for k in sizes:
            law = ref.law_K(info['K']) if k is None else ref.law_kdpp(info.get('L', info['K']), k)

            def run(rng):
                dpp = factory()
                if k is None:
                    return canon(dpp.sample_exact(mode=mode, random_state=rng), n)
                return canon(dpp.sample_exact_k_dpp(size=k, mode=mode, random_state=rng), n)
            check_law(rec, '{}/{}/{}/{}'.format(prefix, typ, param, mode), run, law,
                      tol=1e-7 if typ != 'float32' else 1e-3,
                      replay=dict(typ=typ, param=param, mode=mode, n=n, seed=seed, k=k))


ILL_KINDS = ('gram_wide', 'gram_tall', 'L', 'L_eig_dec', 'K', 'K_eig_dec')


def illcond(kind, n, seed):
    """kernels with eigenvalues over many orders of magnitude, in a generic basis -> (factory, eigenvalues of L, basis)"""
    r = np.random.RandomState(seed)
    m = n - 1 if kind == 'gram_wide' else n
    U = ref.rand_orth(r, n)[:, :m]
    w = 10.0**r.uniform(-1, 1, m)
    w[r.randint(m)] = 10.0**r.uniform(5, 8)
    if kind[0] == 'K':
        w = np.minimum(w, 1e6)
        k = w / (1 + w)
        if kind == 'K_eig_dec':
            return (lambda: FiniteDPP('correlation', K_eig_dec=(k.copy(), U.copy()))), w, U
        return (lambda: FiniteDPP('correlation', K=ref.sym(k, U))), w, U
    if kind == 'L_eig_dec':
        return (lambda: FiniteDPP('likelihood', L_eig_dec=(w.copy(), U.copy()))), w, U
    if kind == 'L':
        return (lambda: FiniteDPP('likelihood', L=ref.sym(w, U))), w, U
    W = ref.rand_orth(r, m if kind == 'gram_wide' else m + 2)[:, :m]
    Phi = (W * np.sqrt(w)).dot(U.T)
    return (lambda: FiniteDPP('likelihood', L_gram_factor=Phi.copy())), w, U


def mixture_law(w, U, k):
    """law of the k-DPP as a mixture over the selected eigenvectors: accurate whatever the spread of the eigenvalues"""
    law, tot = {}, 0.0
    for T in ref.subsets(len(w)):
        if len(T) == k:
            p = np.prod(w[list(T)])
            tot += p
            for s, q in ref.law_K(ref.sym(np.ones(k), U[:, list(T)])).items():
                law[s] = law.get(s, 0.0) + p * q
    return {s: q / tot for s, q in law.items() if len(s) == k}


def illcond_law(rec, cases, kdpp):
    """exact laws for the kernels above, after other public calls on the object or not"""
    from .lawcheck import check_law
    for kind, n, mode, seed, prior in cases:
        factory, w, U = illcond(kind, n, seed)
        k = None
        if kdpp:
            k = 1 + seed % len(w)
            law = mixture_law(w, U, k)
        else:
            law = ref.law_K(ref.sym(w / (1 + w), U))

        def run(rng):
            dpp = factory()
            for p in prior:
                if p == 'K':
                    dpp.compute_K()
                elif p == 'L':
                    dpp.compute_L()
                elif p == 'S':
                    dpp.sample_exact(random_state=0)
                else:
                    dpp.sample_exact_k_dpp(size=1, random_state=0)
            if kdpp:
                return canon(dpp.sample_exact_k_dpp(size=k, mode=mode, random_state=rng), n)
            return canon(dpp.sample_exact(mode=mode, random_state=rng), n)
        check_law(rec, 'illcond/{}/{}'.format(kind, mode), run, law, tol=1e-5,
                  replay=dict(kind=kind, n=n, mode=mode, k=k, seed=seed, prior=prior, w=w))


def illcond_cases(seed, kdpp, thorough=False):
    cases = []
    for kind in ILL_KINDS:
        if kdpp and kind[0] == 'K':
            continue
        for mode in ('GS', 'GS_bis', 'KuTa12') + (() if kdpp else ('Chol',)):
            for n in (2, 3, 4):
                for j, prior in enumerate(((), ('K', 'L'), ('S',), ('L', 'k'))):
                    if kind[0] == 'K' and 'k' in prior:
                        continue
                    for rep in range(1 if not thorough else 8):
                        cases.append((kind, n, mode, 1000 * seed + 10 * n + j + 100 * rep, prior))
    return cases
