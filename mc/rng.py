"""Controlled random numbers: every draw of the code under test becomes an enumerated choice.

While a Controller is active, the functions of the `random` module (and of `random.Random`
instances and of `numpy.random`) ask it for a choice among a finite set of representatives of the
draw, each one with the exact probability of the cell it represents:

* randint / randrange / choice / shuffle / sample : every value, equal weights;
* uniform(a, b) with |b-a| <= 1                   : `cells` equal cells, their mid points
  (uniform(0, 1) and random() : `cells01` cells);
  the same for the intervals centered on 1, and those of a relative half width listed in `ratios`;
* uniform(a, b) with |b-a| > 1                    : the cells between consecutive multiples of 0.5,
  which makes the law of int(), floor, ceil and round of the draw exact;
* gauss / normalvariate(mu, sigma)                : the cells between consecutive multiples of 0.5
  within mu +- 4 sigma (coarser for a large sigma), weighted with the normal cdf, the tails being
  one cell each;
* `extremes=True` adds the smallest and the largest number that the generator can return, with
  weight 0 (they matter for bounds, not for laws).

seed(s) puts the generator in a state identified by s: the n-th draw after seed(s) gets the same
choice whenever s is used again in the same execution. getrandbits returns distinct numbers.
"""
import math
import random as _r
from bisect import bisect

REAL = {}
_active = None


class Horizon(BaseException):
    """too many draws in one execution: the code does not terminate under this schedule"""


class Divergence(BaseException):
    """the code did not offer the same choices while replaying a prefix"""


def _scatter(pos):
    """a fixed sequence without a short period (splitmix64): the choices of a fair default schedule"""
    z = (pos * 0x9E3779B97F4A7C15 + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
    return z ^ (z >> 31)


def _phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


class Controller:
    def __init__(
        self,
        prefix=(),
        cells=4,
        cells01=1,
        extremes=False,
        horizon=20000,
        sparse=None,
        default="first",
        gauss_cells=None,
        log=False,
        fair_after=None,
        ratios=(),
    ):
        self.ratios = tuple(ratios)  # relative half widths drawn with `cells` equal cells
        self.prefix = list(prefix)
        self.cells = cells
        self.cells01 = cells01
        self.extremes = extremes
        self.horizon = horizon
        self.sparse = sparse  # max number of alternatives offered per draw (None: all)
        self.default = default
        self.gauss_cells = gauss_cells
        self.trace = []  # (index, number of alternatives, weight)
        self.fair_after = fair_after  # draws after which the default schedule becomes "spread"
        self.kinds = [] if log else None
        self.weight = 1.0
        self.state = None  # (seed, position) when seeded
        self.memo = {}
        self.bits = 0

    # ------------------------------------------------------------------ choices
    def choose(self, weights, kind):
        """pick an alternative; weights is a list of weights"""
        n = len(weights)
        if n == 1:
            return 0
        key = None
        if self.state is not None:
            key = (self.state[0], self.state[1], n)
            self.state[1] += 1
            if key in self.memo:
                return self.memo[key]
        pos = len(self.trace)
        if pos >= self.horizon:
            raise Horizon()
        if pos < len(self.prefix):
            i = self.prefix[pos]
            if i >= n:
                raise Divergence(f"choice {pos}: alternative {i} of {n} ({kind})")
        elif self.fair_after is not None and pos >= self.fair_after:
            i = _scatter(pos) % n
        elif self.default == "first":
            i = 0
        elif self.default == "mid":
            i = n // 2
        elif self.default == "last":
            i = n - 1
        elif self.default == "spread":
            i = _scatter(pos) % n
        else:
            i = self.default(pos, n, kind)
        w = weights[i]
        self.trace.append((i, n, w))
        if self.kinds is not None:
            self.kinds.append(kind)
        self.weight *= w
        if key is not None:
            self.memo[key] = i
        return i

    def _thin(self, items):
        """reduce a long list of (value, weight) alternatives to `sparse` of them"""
        if self.sparse is None or len(items) <= self.sparse:
            return items
        k = self.sparse
        idx = sorted({round(j * (len(items) - 1) / (k - 1)) for j in range(k)})
        return [items[j] for j in idx]

    def _pick(self, items, kind):
        items = self._thin(items)
        return items[self.choose([w for _, w in items], kind)][0]

    # ------------------------------------------------------------------ distributions
    def u01(self, kind="random"):
        k = self.cells01
        items = [((i + 0.5) / k, 1.0 / k) for i in range(k)]
        if self.extremes and k > 1:
            items += [(0.0, 0.0), (1 - 2.0**-53, 0.0)]
        return self._pick(items, kind)

    def uniform(self, a, b):
        a = float(a)
        b = float(b)
        if a == b:
            return a
        width = abs(b - a)
        if a == 0.0 and b == 1.0:
            return self.u01("uniform01")
        rel = abs((b - a) / (a + b)) if a + b else None
        if width <= 1.0 + 1e-12 or abs(a + b - 2) < 1e-12 or any(
            rel is not None and abs(rel - v) < 1e-9 for v in self.ratios
        ):
            k = self.cells
            items = [((i + 0.5) / k, 1.0 / k) for i in range(k)]
        else:
            lo, hi = min(a, b), max(a, b)
            step = 0.5
            while (hi - lo) / step > 4000:
                step *= 2
            cuts = [lo]
            x = math.floor(lo / step) * step + step
            while x < hi - 1e-12:
                if x > lo + 1e-12:
                    cuts.append(x)
                x += step
            cuts.append(hi)
            items = []
            for c, d in zip(cuts[:-1], cuts[1:]):
                items.append((((c + d) / 2 - a) / (b - a), (d - c) / width))
            if b < a:
                items.reverse()
        if self.extremes:
            items = items + [(0.0, 0.0), (1 - 2.0**-53, 0.0)]
        r = self._pick(items, "uniform")
        return a + (b - a) * r

    def gauss(self, mu, sigma):
        mu = float(mu)
        sigma = abs(float(sigma))
        if sigma == 0:
            return mu
        step = 0.5
        limit = self.gauss_cells or 40
        while 8 * sigma / step > limit:
            step *= 2
        lo = math.floor((mu - 4 * sigma) / step) * step
        hi = math.ceil((mu + 4 * sigma) / step) * step
        n = int(round((hi - lo) / step))
        cuts = [lo + i * step for i in range(n + 1)]
        cdf = [_phi((c - mu) / sigma) for c in cuts]
        items = [(cuts[0] - step / 2, cdf[0])]
        for i in range(n):
            items.append(((cuts[i] + cuts[i + 1]) / 2, cdf[i + 1] - cdf[i]))
        items.append((cuts[-1] + step / 2, 1 - cdf[-1]))
        if self.extremes:
            items += [(mu - 8.5 * sigma, 0.0), (mu + 8.5 * sigma, 0.0)]
        return self._pick(items, "gauss")

    def integer(self, a, b, kind="randint"):
        """integer in [a, b]"""
        n = b - a + 1
        if n <= 0:
            raise ValueError(f"empty range for randrange() ({a}, {b + 1}, {n})")
        if n == 1:
            return a
        if self.sparse is not None and n > self.sparse:
            k = self.sparse
            idx = sorted({round(j * (n - 1) / (k - 1)) for j in range(k)})
            w = [1.0 / n] * len(idx)
            return a + idx[self.choose(w, kind)]
        if n > 20000:
            raise Divergence("randint range too large to enumerate")
        return a + self.choose([1.0 / n] * n, kind)

    def getrandbits(self, k):
        if self.state is not None:
            key = (self.state[0], self.state[1], "bits")
            self.state[1] += 1
            if key not in self.memo:
                self.bits += 1
                self.memo[key] = self.bits
            v = self.memo[key]
        else:
            self.bits += 1
            v = self.bits
        if k == 1:
            return self.integer(0, 1, "bit")
        return v * 2654435761 % (1 << k) if k < 64 else (v << 32) + v

    def seed(self, s=None):
        self.state = None if s is None else [("s", repr(s)), 0]


# ---------------------------------------------------------------------- installation
def active():
    return _active


class controlled:
    """context manager which activates a controller"""

    def __init__(self, ctl):
        self.ctl = ctl

    def __enter__(self):
        global _active
        self.prev = _active
        _active = self.ctl
        return self.ctl

    def __exit__(self, *a):
        global _active
        _active = self.prev


def _as_int(x):
    i = int(x)
    if i != x:
        raise ValueError("non-integer arg 1 for randrange()")
    return i


def _randint(a, b):
    return _active.integer(_as_int(a), _as_int(b))


def _randrange(start, stop=None, step=1):
    if stop is None:
        start, stop = 0, start
    r = range(_as_int(start), _as_int(stop), _as_int(step))
    if len(r) == 0:
        raise ValueError("empty range for randrange()")
    return r[_active.integer(0, len(r) - 1)]


def _choice(seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    return seq[_active.integer(0, len(seq) - 1, "choice")]


def _choices(population, weights=None, *, cum_weights=None, k=1):
    pop = list(population)
    if cum_weights is not None:
        weights = [c - (cum_weights[i - 1] if i else 0) for i, c in enumerate(cum_weights)]
    if weights is None:
        weights = [1.0] * len(pop)
    tot = float(sum(weights))
    return [pop[_active.choose([w / tot for w in weights], "choices")] for _ in range(k)]


def _shuffle(x, *a):
    for i in reversed(range(1, len(x))):
        j = _active.integer(0, i, "shuffle")
        x[i], x[j] = x[j], x[i]


def _sample(population, k, **kw):
    pop = list(population)
    return [pop.pop(_active.integer(0, len(pop) - 1, "sample")) for _ in range(k)]


def _triangular(low=0.0, high=1.0, mode=None):
    u = _active.u01()
    c = 0.5 if mode is None else (mode - low) / (high - low)
    if u > c:
        u, c, low, high = 1 - u, 1 - c, high, low
    return low + (high - low) * math.sqrt(u * c)


CONTROLLED = {
    "random": lambda: _active.u01(),
    "uniform": lambda a, b: _active.uniform(a, b),
    "randint": _randint,
    "randrange": _randrange,
    "choice": _choice,
    "choices": _choices,
    "shuffle": _shuffle,
    "sample": _sample,
    "gauss": lambda mu=0.0, sigma=1.0: _active.gauss(mu, sigma),
    "normalvariate": lambda mu=0.0, sigma=1.0: _active.gauss(mu, sigma),
    "triangular": _triangular,
    "getrandbits": lambda k: _active.getrandbits(k),
    "seed": lambda a=None, version=2: _active.seed(a),
}


def _hook(name, real):
    ctl = CONTROLLED[name]

    def hooked(*args, **kwargs):
        if _active is None:
            return real(*args, **kwargs)
        return ctl(*args, **kwargs)

    hooked.__name__ = name
    return hooked


def _np_hooks(np):
    nr = np.random

    def shaped(f):
        def g(size):
            if size is None:
                return f()
            return np.array([f() for _ in range(int(np.prod(size)))]).reshape(size)

        return g

    def uniform(low=0.0, high=1.0, size=None):
        return shaped(lambda: _active.uniform(low, high))(size)

    def rand(*size):
        return shaped(lambda: _active.u01())(size or None)

    def random(size=None):
        return shaped(lambda: _active.u01())(size)

    def normal(loc=0.0, scale=1.0, size=None):
        return shaped(lambda: _active.gauss(loc, scale))(size)

    def randn(*size):
        return shaped(lambda: _active.gauss(0, 1))(size or None)

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return shaped(lambda: _active.integer(int(low), int(high) - 1))(size)

    def choice(a, size=None, replace=True, p=None):
        pop = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is None:
            return shaped(lambda: pop[_active.integer(0, len(pop) - 1, "choice")])(size)
        return shaped(lambda: pop[_active.choose(list(p), "choice")])(size)

    def seed(s=None):
        return _active.seed(s)

    for name, f in dict(
        uniform=uniform, rand=rand, random=random, random_sample=random, normal=normal,
        randn=randn, randint=randint, choice=choice, seed=seed,
    ).items():
        real = getattr(nr, name)

        def hooked(*a, __f=f, __real=real, **k):
            if _active is None:
                return __real(*a, **k)
            return __f(*a, **k)

        setattr(nr, name, hooked)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name in CONTROLLED:
        REAL[name] = getattr(_r, name)
        setattr(_r, name, _hook(name, REAL[name]))
    real_cls = _r.Random

    class HookedRandom(real_cls):
        """a private generator of the code under test is controlled as well"""

    for name in CONTROLLED:
        real_method = getattr(real_cls, name)

        def method(self, *args, __n=name, __m=real_method, **kwargs):
            if _active is None:
                return __m(self, *args, **kwargs)
            # a private generator has its own state
            saved = _active.state
            _active.state = self.__dict__.get("mc_state")
            try:
                return CONTROLLED[__n](*args, **kwargs)
            finally:
                self.__dict__["mc_state"] = _active.state
                _active.state = saved

        setattr(HookedRandom, name, method)

    def _init(self, x=None):
        if _active is None:
            real_cls.__init__(self, x)
        elif x is not None:
            self.__dict__["mc_state"] = [("s", repr(x)), 0]

    HookedRandom.__init__ = _init
    _r.RealRandom = real_cls
    _r.Random = HookedRandom
    import numpy as np

    _np_hooks(np)
