"""Chance under control: every random draw of the code under test becomes a branch point, and all branches are explored."""
from __future__ import annotations

import math
import random
import sys

import numpy as np


class Unsupported(RuntimeError):
    pass


class Enumerator:
    """Depth-first enumeration of all outcomes of a program that draws from finite distributions.

    for weight, result in Enumerator().runs(program): the program is re-executed once per outcome;
    weight is the product of the probabilities of the draws made on that path."""

    def __init__(self, limit=200_000):
        self.limit = limit
        self.draws = 0

    def pick(self, weights):
        weights = [float(w) for w in weights]
        if min(weights) < -1e-12 or abs(sum(weights) - 1) > 1e-8:
            raise ValueError("probabilities do not sum to 1")
        live = [i for i, w in enumerate(weights) if w > 1e-12]  # less is rounding
        self.draws += 1
        if self.depth < len(self.path):
            slot, options = self.path[self.depth]
            i = options[slot]
        else:
            self.path.append([0, live])
            i = live[0]
        self.depth += 1
        self.weight *= weights[i]
        return i

    def runs(self, program):
        self.path = []
        n = 0
        while True:
            self.depth, self.weight = 0, 1.0
            result = program()
            n += 1
            if n > self.limit:
                raise Unsupported("too many outcomes")
            yield self.weight, result
            while self.path and self.path[-1][0] + 1 >= len(self.path[-1][1]):
                self.path.pop()
            if not self.path:
                return
            self.path[-1][0] += 1

    def generator(self, *_seed, **_kw):
        return Generator(self.pick)


class Generator:
    """Stands in for numpy.random.Generator for draws over finite sets."""

    def __init__(self, pick):
        self.pick = pick

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):  # noqa: ARG002
        options = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        p = [1 / len(options)] * len(options) if p is None else p
        if len(p) != len(options):
            raise ValueError("a and p must have same size")
        if size is None:
            return options[self.pick(p)]
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        n = int(np.prod(shape))
        if n > 1 and not replace:
            raise Unsupported("choice without replacement")
        return np.array([options[self.pick(p)] for _ in range(n)]).reshape(*shape, *options.shape[1:])

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):  # noqa: ARG002
        if high is None:
            low, high = 0, low
        return self.choice(np.arange(low, high + (1 if endpoint else 0)), size=size)

    def binomial(self, n, p, size=None):
        if n != 1:
            raise Unsupported("binomial with n > 1")
        return self.choice([0, 1], size=size, p=[1 - p, p])

    def multinomial(self, n, pvals, size=None):
        if n != 1 or size is not None:
            raise Unsupported("multinomial with n > 1")
        out = np.zeros(len(pvals), dtype=int)
        out[self.pick(pvals)] = 1
        return out

    def random(self, size=None, dtype=float, out=None):  # noqa: ARG002
        """A uniform number that is only ever compared: each comparison is a draw on the remaining interval."""
        if size is not None:
            n = int(np.prod(size))
            return np.array([Uniform(self.pick) for _ in range(n)] + [None], dtype=object)[:-1].reshape(size)
        return Uniform(self.pick)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self.random(size)
        return u * (high - low) + low

    def permutation(self, x):
        left = list(range(x)) if np.ndim(x) == 0 else list(x)
        out = []
        while left:
            out.append(left.pop(self.pick([1 / len(left)] * len(left))))
        return np.array(out)

    def shuffle(self, x):
        x[:] = list(self.permutation(x)) if isinstance(x, list) else self.permutation(x)

    def spawn(self, n):
        return [self] * n

    # the older interface (numpy.random.RandomState, the functions of numpy.random)
    random_sample = random

    def rand(self, *shape):
        return self.random(shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        return self.integers(low, high, size, dtype)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"draws with {name}")


class Plain:
    """Stands in for the module random."""

    def __init__(self, pick):
        self._gen = Generator(pick)

    def random(self):
        return self._gen.random()

    def uniform(self, a, b):
        return self._gen.uniform(a, b)

    def choice(self, seq):
        return seq[self._gen.pick([1 / len(seq)] * len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        n = len(population)
        if cum_weights is not None:
            weights = np.diff([0, *cum_weights])
        w = np.asarray([1] * n if weights is None else weights, dtype=float)
        return [population[self._gen.pick(w / w.sum())] for _ in range(k)]

    def randint(self, a, b):
        return int(self._gen.integers(a, b, endpoint=True))

    def randrange(self, start, stop=None, step=1):
        return self.choice(range(start) if stop is None else range(start, stop, step))

    def seed(self, *_a):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"draws with {name}")


class Uniform:
    """An undetermined number a * u + b, u in [lo, hi): a comparison splits the interval and picks a side."""

    def __init__(self, pick, base=None, a=1.0, b=0.0):
        self.pick, self.a, self.b = pick, float(a), float(b)
        self.base = base or self
        if base is None:
            self.lo, self.hi = 0.0, 1.0

    def _below(self, x, equal=False):
        if isinstance(x, Uniform):
            if x.base is self.base and x.a == self.a:
                return self.b <= x.b if equal else self.b < x.b
            raise Unsupported("two continuous draws are compared")
        x = (float(x) - self.b) / self.a
        below = self._split(x)
        return below if self.a > 0 else not below

    def _split(self, x):
        r = self.base
        if x <= r.lo:
            return False
        if x >= r.hi:
            return True
        w = (x - r.lo) / (r.hi - r.lo)
        if w < 1e-12 or w > 1 - 1e-12:  # rounding of a bound, not an outcome
            return w > 0.5
        if self.pick([w, 1 - w]) == 0:
            r.hi = x
            return True
        r.lo = x
        return False

    def __lt__(self, x):
        return self._below(x)

    def __le__(self, x):
        return self._below(x, True)

    def __gt__(self, x):
        return not self._below(x, True)

    def __ge__(self, x):
        return not self._below(x)

    def _view(self, a, b):
        if a == 0:
            return b
        return Uniform(self.pick, self.base, a, b)

    def __add__(self, x):
        return self._view(self.a, self.b + float(x))

    __radd__ = __add__

    def __sub__(self, x):
        return self._view(self.a, self.b - float(x))

    def __rsub__(self, x):
        return self._view(-self.a, float(x) - self.b)

    def __neg__(self):
        return self._view(-self.a, -self.b)

    def __mul__(self, x):
        return self._view(self.a * float(x), self.b * float(x))

    __rmul__ = __mul__

    def __truediv__(self, x):
        return self * (1 / float(x))

    def __floor__(self):
        r = self.base
        ends = sorted((self.a * r.lo + self.b, self.a * r.hi + self.b))
        k = math.floor(ends[0])
        while k + 1 < ends[1] and not self._below(k + 1):
            k += 1
        return k

    floor = __floor__

    def __int__(self):
        if min(self.a * self.base.lo, self.a * self.base.hi) + self.b < -1e-12:
            raise Unsupported("the value of a continuous draw was used")
        return self.__floor__()

    def __float__(self):
        raise Unsupported("the value of a continuous draw was used")


_NUMPY = ("choice", "rand", "random", "random_sample", "randint", "uniform", "binomial", "multinomial", "permutation", "shuffle")
_PLAIN = ("random", "uniform", "choice", "choices", "randint", "randrange", "seed")


class controlled:
    """While active, the sources of chance of numpy and of the standard library are the given enumerator's, also where the
    modules under test imported them by name."""

    def __init__(self, pick, generator=None, prefix="mqt.qudits.simulation"):
        self.pick, self.prefix = pick, prefix
        self.generator = generator or (lambda *_a, **_k: Generator(pick))

    def __enter__(self):
        gen, plain = Generator(self.pick), Plain(self.pick)
        new = [(np.random, "default_rng", self.generator), (np.random, "RandomState", lambda *_a: gen)]
        new += [(np.random, n, getattr(gen, n)) for n in _NUMPY] + [(random, n, getattr(plain, n)) for n in _PLAIN]
        new += [(random, n, lambda *_a: plain) for n in ("Random", "SystemRandom")]
        swap = {}
        for module, name, value in new:
            swap[id(getattr(module, name))] = value
        for name, module in list(sys.modules.items()):
            if name.startswith(self.prefix):
                new += [(module, k, swap[id(v)]) for k, v in vars(module).items() if id(v) in swap and callable(v)]
        new.append((np.random, "Generator", self.generator))
        self.keep = [(m, n, getattr(m, n)) for m, n, _ in new]
        for m, n, v in new:
            setattr(m, n, v)

    def __exit__(self, *_a):
        for m, n, v in reversed(self.keep):
            setattr(m, n, v)
