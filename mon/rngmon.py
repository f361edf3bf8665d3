"""Entropy-boundary monitors.

Every sampler of the library draws its randomness from a
``numpy.random.RandomState`` handed in through ``random_state``.  That object
is the boundary at which this module observes (and injects) entropy:

* ``ScriptedRNG`` answers every draw with a scripted outcome and reports each
  decision together with the exact probabilities of its outcomes, as requested
  by the running code (``choice(.., p=..)`` etc.).  Uniform variates are *lazy*:
  a ``LazyUniform`` only commits to an interval, when the running code compares
  it with something.  ``exact_law`` replays the code along every branch and so
  observes the exact probability law of what the real code returns.
* ``BudgetRNG`` / ``TraceRNG`` count and log the draws of ordinary executions.

The engine abstains (``Undecidable``) whenever entropy is consumed in a way it
does not model, when a replay is not deterministic, or when the tree is too
big: the caller then falls back on a statistical oracle.
"""
import math

import numpy as np

from mon.core import Stuck


class Undecidable(BaseException):
    pass


class LeafCrash(Exception):
    """the code under test raised along one branch (witness attached)."""

    def __init__(self, exc, script, concrete):
        super().__init__('{}: {}'.format(type(exc).__name__, exc))
        self.exc, self.script, self.concrete = exc, script, concrete


PRUNE = 1e-13


class Driver:
    def __init__(self, prefix, max_depth=4000):
        self.prefix = prefix          # list of (kind, idx, nopt)
        self.trace = []               # list of [kind, idx, probs]
        self.prob = 1.0
        self.max_depth = max_depth

    def decide(self, kind, probs):
        i = len(self.trace)
        if i >= self.max_depth:
            raise Undecidable('more than {} decisions'.format(self.max_depth))
        if i < len(self.prefix):
            k, idx, p = self.prefix[i]
            if k != kind or len(p) != len(probs) or \
                    any(abs(a - b) > 1e-9 for a, b in zip(p, probs)):
                raise Undecidable('replay is not deterministic')
        else:
            idx = next((j for j, p in enumerate(probs) if p > PRUNE), None)
            if idx is None:
                raise Undecidable('no branch with positive probability')
        self.trace.append((kind, idx, tuple(probs)))
        self.prob *= probs[idx]
        return idx


class Cell:
    __slots__ = ('drv', 'lo', 'hi')

    def __init__(self, drv):
        self.drv, self.lo, self.hi = drv, 0.0, 1.0

    def less(self, t):
        """decide u < t"""
        if t <= self.lo:
            return False
        if t >= self.hi:
            return True
        p = (t - self.lo) / (self.hi - self.lo)
        if self.drv.decide('u', (p, 1.0 - p)) == 0:
            self.hi = t
            return True
        self.lo = t
        return False


class LazyUniform:
    """value = fwd(u), u uniform on a yet undetermined cell, fwd monotone."""
    __array_priority__ = 1000
    __slots__ = ('cell', 'fwd', 'inv', 'inc')

    def __init__(self, cell, fwd=None, inv=None, inc=True):
        self.cell = cell
        self.fwd = fwd or (lambda u: u)
        self.inv = inv or (lambda c: c)
        self.inc = inc

    # comparisons -------------------------------------------------------
    def _lt(self, c):
        if isinstance(c, np.ndarray):
            if c.ndim == 0:
                c = c.item()
            else:
                return np.array([self._lt(x) for x in c.ravel()],
                                dtype=bool).reshape(c.shape)
        if isinstance(c, LazyUniform):
            if c.cell is self.cell:
                raise Undecidable('self comparison')
            raise Undecidable('comparison of two uniforms')
        c = float(c)
        if math.isnan(c):
            return False
        t = self.inv(c)
        if self.inc:
            return self.cell.less(t)
        return not self.cell.less(t)

    def _not(self, c, r):
        if isinstance(r, np.ndarray):
            return ~r & ~np.isnan(np.asarray(c, dtype=float))
        if isinstance(c, LazyUniform):
            return not r
        return (not r) and not math.isnan(float(c))

    def __lt__(self, c):
        return self._lt(c)

    def __le__(self, c):
        return self._lt(c)

    def __gt__(self, c):
        return self._not(c, self._lt(c))

    def __ge__(self, c):
        return self._not(c, self._lt(c))

    def __eq__(self, c):
        return False

    def __ne__(self, c):
        return True

    __hash__ = object.__hash__

    # monotone transforms -----------------------------------------------
    def _chain(self, f, finv, finc):
        fwd, inv = self.fwd, self.inv
        return LazyUniform(self.cell, lambda u: f(fwd(u)),
                           lambda c: inv(finv(c)), self.inc == finc)

    def _lin(self, a, b):
        a, b = float(a), float(b)
        if a == 0 or not math.isfinite(a) or not math.isfinite(b):
            raise Undecidable('degenerate transform')
        return self._chain(lambda v: a * v + b, lambda c: (c - b) / a, a > 0)

    def __add__(self, b):
        return self._lift(b, lambda x: self._lin(1.0, x))
    __radd__ = __add__

    def __sub__(self, b):
        return self._lift(b, lambda x: self._lin(1.0, -x))

    def __rsub__(self, b):
        return self._lift(b, lambda x: self._lin(-1.0, x))

    def __neg__(self):
        return self._lin(-1.0, 0.0)

    def __mul__(self, a):
        return self._lift(a, lambda x: self._lin(x, 0.0))
    __rmul__ = __mul__

    def __truediv__(self, a):
        return self._lift(a, lambda x: self._lin(1.0 / x, 0.0))

    def _lift(self, x, f):
        if isinstance(x, LazyUniform):
            raise Undecidable('arithmetic on two uniforms')
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return f(x.item())
            return np.array([f(y) for y in x.ravel()] + [None],
                            dtype=object)[:-1].reshape(x.shape)
        return f(x)

    def log(self):
        if self.fwd(self.cell.lo) < 0 or self.fwd(self.cell.hi) < 0:
            raise Undecidable('log of negative')
        return self._chain(lambda v: math.log(v) if v > 0 else -math.inf,
                           lambda c: math.exp(c) if c < 700 else math.inf, True)

    def exp(self):
        return self._chain(math.exp,
                           lambda c: math.log(c) if c > 0 else -math.inf, True)

    def sqrt(self):
        if min(self.fwd(self.cell.lo), self.fwd(self.cell.hi)) < 0:
            raise Undecidable('sqrt of negative')
        return self._chain(math.sqrt, lambda c: c * c if c > 0 else -math.inf, True)

    # integer part --------------------------------------------------------
    def __int__(self):
        a, b = self.fwd(self.cell.lo), self.fwd(self.cell.hi)
        lo, hi = min(a, b), max(a, b)
        if lo < -1e-12 or not math.isfinite(hi) or hi - lo > 200:
            raise Undecidable('integer part out of range')
        k = int(math.floor(lo + 1e-12))
        while k + 1 < hi - 1e-12:
            if self < k + 1:
                return k
            k += 1
        return k
    __index__ = None
    __trunc__ = __int__
    __floor__ = __int__
    floor = __int__

    def __float__(self):
        raise Undecidable('uniform variate converted to float')

    def __bool__(self):
        raise Undecidable('truth value of a uniform')

    def __pow__(self, n):
        raise Undecidable('power of a uniform')


class ScriptedRNG(np.random.RandomState):
    """RandomState whose draws are decided by a Driver."""

    def __new__(cls, drv):
        return super().__new__(cls)

    def __init__(self, drv):
        super().__init__(0)
        self._drv = drv

    # discrete ------------------------------------------------------------
    def _uniform_int(self, n, kind):
        if n <= 0:
            raise ValueError('a must be greater than 0 unless no samples are taken')
        if n == 1:
            return 0
        if n > 400:
            raise Undecidable('too many options')
        return self._drv.decide(kind, (1.0 / n,) * n)

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.asarray(a)
        if arr.ndim == 0:
            n = int(arr.item())
            if n <= 0 and size is None:
                raise ValueError('a must be greater than 0 unless no samples are taken')
            pop = np.arange(n)
        elif arr.ndim == 1:
            pop, n = arr, len(arr)
            if n == 0 and (size is None or np.prod(size) != 0):
                raise ValueError("'a' cannot be empty unless no samples are taken")
        else:
            raise ValueError("'a' must be 1-dimensional")
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.ndim != 1:
                raise ValueError("'p' must be 1-dimensional")
            if p.size != n:
                raise ValueError("'a' and 'p' must have same size")
            if np.isnan(p.sum()):
                raise ValueError('probabilities contain NaN')
            if np.any(p < 0):
                raise ValueError('probabilities are not non-negative')
            if abs(p.sum() - 1.0) > 1.5e-8:
                raise ValueError('probabilities do not sum to 1')
            # cumulative normalisation, as performed by numpy
            p = p / p.sum()

        def one():
            if p is None:
                return self._uniform_int(n, 'choice')
            if n > 400:
                raise Undecidable('too many options')
            return self._drv.decide('choicep', tuple(p.tolist()))
        if size is None:
            return pop[one()]
        shape = (size,) if np.isscalar(size) else tuple(size)
        m = int(np.prod(shape))
        if replace:
            idx = [one() for _ in range(m)]
        else:
            if m > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            if p is not None:
                raise Undecidable('weighted choice without replacement')
            left, idx = list(range(n)), []
            for _ in range(m):
                idx.append(left.pop(self._uniform_int(len(left), 'choice')))
        return pop[np.array(idx, dtype=int)].reshape(shape)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError('low >= high')
        if size is None:
            return low + self._uniform_int(high - low, 'randint')
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([low + self._uniform_int(high - low, 'randint')
                         for _ in range(int(np.prod(shape)))],
                        dtype=int).reshape(shape)

    def permutation(self, x):
        if np.ndim(x) == 0:
            arr = np.arange(int(x))
        else:
            arr = np.array(x)
        left, out = list(range(len(arr))), []
        while left:
            out.append(left.pop(self._uniform_int(len(left), 'perm')))
        return arr[np.array(out, dtype=int)]

    def shuffle(self, x):
        n = len(x)
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self._uniform_int(len(left), 'perm')))
        if isinstance(x, np.ndarray):
            x[:] = x[np.array(out, dtype=int)]
        else:
            y = [x[i] for i in out]
            for i in range(n):
                x[i] = y[i]

    def binomial(self, n, p, size=None):
        n_, p_ = np.asarray(n), np.asarray(p, dtype=float)
        if np.any((p_ < 0) | (p_ > 1) | np.isnan(p_)):
            raise ValueError('p < 0, p > 1 or p is NaN')

        def one(n, p):
            if n > 60:
                raise Undecidable('big binomial')
            w = tuple(math.comb(n, k) * p**k * (1 - p)**(n - k) for k in range(n + 1))
            return self._drv.decide('binom', w)
        if size is None and n_.ndim == 0 and p_.ndim == 0:
            return one(int(n_), float(p_))
        shape = np.broadcast(n_, p_).shape if size is None else (
            (size,) if np.isscalar(size) else tuple(size))
        nb, pb = np.broadcast_to(n_, shape), np.broadcast_to(p_, shape)
        return np.array([one(int(a), float(b)) for a, b in
                         zip(nb.ravel(), pb.ravel())], dtype=int).reshape(shape)

    def multinomial(self, n, pvals, size=None):
        pv = np.asarray(pvals, dtype=float)
        if n != 1 or size is not None:
            raise Undecidable('general multinomial')
        if np.any(pv < 0) or np.any(np.isnan(pv)) or pv[:-1].sum() > 1 + 1e-12:
            raise ValueError('sum(pvals[:-1]) > 1.0')
        pv = np.append(pv[:-1], max(0.0, 1 - pv[:-1].sum()))
        out = np.zeros(len(pv), dtype=int)
        out[self._drv.decide('multi', tuple(pv.tolist()))] = 1
        return out

    # lazy uniforms ---------------------------------------------------------
    def _lazy(self, size=None):
        if size is None or size == ():
            return LazyUniform(Cell(self._drv))
        shape = (size,) if np.isscalar(size) else tuple(size)
        m = int(np.prod(shape))
        if m > 5000:
            raise Undecidable('too many uniforms')
        out = np.empty(m, dtype=object)
        for i in range(m):
            out[i] = LazyUniform(Cell(self._drv))
        return out.reshape(shape)

    def rand(self, *shape):
        return self._lazy(shape if shape else None)

    def random_sample(self, size=None):
        return self._lazy(size)

    def random(self, size=None):
        return self._lazy(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            raise Undecidable('broadcast uniform')
        u = self._lazy(size)
        if low == 0.0 and high == 1.0:
            return u
        return u * (float(high) - float(low)) + float(low)


def _unsupported(name):
    def f(self, *a, **k):
        raise Undecidable('unmodelled draw ' + name)
    f.__name__ = name
    return f


for _name in dir(np.random.RandomState):
    if not _name.startswith('_') and _name not in ScriptedRNG.__dict__:
        setattr(ScriptedRNG, _name, _unsupported(_name))


class ReplayRNG(np.random.RandomState):
    """Plain-float replay of one scripted branch, used to confirm a crash with
    ordinary numbers."""

    def __new__(cls, script):
        return super().__new__(cls)

    def __init__(self, script):
        super().__init__(0)
        self._script, self._i = script, 0


def exact_law(run, max_leaves=20000, max_depth=4000):
    """Observe the exact law of ``run(rng) -> hashable``.

    Returns (law: dict outcome -> probability, leaves, crashes) where crashes
    is a list of (exception, probability of the branch).
    """
    law, leaves, crashes = {}, 0, []
    stack = []                    # current script: [kind, idx, probs]
    state0 = _global_state()
    while True:
        drv = Driver(stack, max_depth)
        rng = ScriptedRNG(drv)
        try:
            out = run(rng)
        except Undecidable:
            raise
        except Stuck:
            raise
        except Exception as e:    # noqa: the code under test raised
            out = None
            crashes.append((e, drv.prob, [(k, i) for k, i, _ in drv.trace]))
        else:
            law[out] = law.get(out, 0.0) + drv.prob
        if len(drv.trace) < len(stack):
            raise Undecidable('replay is not deterministic')
        leaves += 1
        if leaves > max_leaves:
            raise Undecidable('more than {} branches'.format(max_leaves))
        # advance
        stack = [list(t) for t in drv.trace]
        while stack:
            kind, idx, probs = stack[-1]
            nxt = next((j for j in range(idx + 1, len(probs)) if probs[j] > PRUNE), None)
            if nxt is None:
                stack.pop()
            else:
                stack[-1] = (kind, nxt, probs)
                break
        stack = [tuple(t) for t in stack]
        if not stack:
            break
    if _global_state() != state0:
        raise Undecidable('the global generator was consumed')
    return law, leaves, crashes


def _global_state():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4])


class BudgetRNG(np.random.RandomState):
    """Ordinary RandomState which counts draws and stops runaways: the
    *logical-step* termination monitor."""

    def __new__(cls, seed, budget=200000):
        return super().__new__(cls)

    def __init__(self, seed, budget=200000):
        super().__init__(seed)
        self._budget, self.draws, self.log = budget, 0, {}

    def _tick(self, name):
        self.draws += 1
        self.log[name] = self.log.get(name, 0) + 1
        if self.draws > self._budget:
            raise Stuck()


def _counted(name):
    base = getattr(np.random.RandomState, name)

    def f(self, *a, **k):
        self._tick(name)
        return base(self, *a, **k)
    f.__name__ = name
    return f


for _name in dir(np.random.RandomState):
    if not _name.startswith('_') and _name not in ('seed', 'get_state', 'set_state') \
            and callable(getattr(np.random.RandomState, _name)):
        setattr(BudgetRNG, _name, _counted(_name))


def compare_laws(law, ref, tol):
    """max discrepancy and its location between two laws (dicts)."""
    worst, where = 0.0, None
    for k in set(law) | set(ref):
        d = abs(law.get(k, 0.0) - ref.get(k, 0.0))
        if d > worst:
            worst, where = d, k
    return worst, where
