# -*- coding: utf-8 -*-
"""Puts every random choice of the code under test under the control of an
enumerator. Outside of `explore` the functions of `random` behave as always.

`explore(run)` executes `run` once for each sequence of choices it can make:
each call of a function of the random module is a branching point. A run's
weight is the product of the probabilities of its choices. A real number that is
asked for stays unknown until it is compared with something or cut to an integer:
each answer possible then is a branch, its weight the share of the interval that
is left. Where the code needs its value, and where `shift` tells where in its
interval it lies (0: on the border), it is one of `grid` numbers.
"""
from __future__ import absolute_import, division, print_function

import random
import sys
from fractions import Fraction
from numbers import Number

PY2 = sys.version_info[0] == 2


class Explorer(object):
    def __init__(self, grid, shift=None):
        self.grid, self.shift = grid, shift
        self.path = []       # [index, options] of each branching point of the current run
        self.pos = 0
        self.weight = Fraction(1)
        self.seeds = []

    def choose(self, weights):
        """index of the alternative to take, given the weight of each"""
        options = [i for i, w in enumerate(weights) if w > 0]
        if self.pos == len(self.path):
            self.path.append([0, len(options)])
        k = self.path[self.pos][0]
        if self.path[self.pos][1] != len(options):
            raise RuntimeError("the code under test is not a function of its random choices")
        self.pos += 1
        self.weight *= Fraction(weights[options[k]]) / sum(Fraction(weights[o]) for o in options)
        return options[k]

    def advance(self):
        """moves to the next sequence of choices, False after the last one"""
        while self.path and self.path[-1][0] == self.path[-1][1] - 1:
            self.path.pop()
        if not self.path:
            return False
        self.path[-1][0] += 1
        return True


ACTIVE = []


class TooMany(Exception):
    pass


def explore(run, grid=12, limit=200000, shift=None):
    """yields (result of run, weight, seeds) for each sequence of choices"""
    ex = Explorer(grid, shift)
    n = 0
    while True:
        ex.pos, ex.weight, ex.seeds = 0, Fraction(1), []
        ACTIVE.append(ex)
        try:
            res = run()
        finally:
            ACTIVE.pop()
        del ex.path[ex.pos:]
        yield res, ex.weight, list(ex.seeds)
        n += 1
        if n >= limit:
            raise TooMany("more than %d sequences of choices" % limit)
        if not ex.advance():
            return


class Fixed(object):
    """answers every choice with a fixed rule (first, last, or a rotating one)"""

    def __init__(self, rule, grid=12):
        self.rule, self.grid, self.shift, self.n, self.seeds = rule, grid, 0.5, 0, []

    def choose(self, weights):
        options = [i for i, w in enumerate(weights) if w > 0]
        self.n += 1
        if self.rule == "first":
            return options[0]
        if self.rule == "last":
            return options[-1]
        return options[(self.n * self.rule) % len(options)]


class controlled(object):
    def __init__(self, source):
        self.source = source

    def __enter__(self):
        ACTIVE.append(self.source)
        return self.source

    def __exit__(self, *args):
        ACTIVE.pop()


def _uniform(ex, n):
    return ex.choose([1] * n)


def _random(ex):
    return Unknown(ex) if ex.shift is None else (_uniform(ex, ex.grid) + ex.shift) / ex.grid


class Unknown(object):
    """scale * r + base, with r anywhere in its cell of [0, 1)"""

    def __init__(self, ex, cell=None, scale=Fraction(1), base=Fraction(0)):
        self.ex, self.cell, self.scale, self.base = ex, cell or [Fraction(0), Fraction(1)], scale, base

    def _below(self, c):
        if isinstance(c, Unknown):
            return float(self) < float(c)
        c = float(c)
        if c in (float("inf"), float("-inf")):
            return c > 0
        t = (exact(c) - self.base) / self.scale
        lo, hi = self.cell
        if lo < t < hi:
            lower = self.ex.choose([t - lo, hi - t]) == 0
            self.cell[:] = [lo, t] if lower else [t, hi]
        else:
            lower = t >= hi
        return lower == (self.scale > 0)

    __lt__ = __le__ = _below

    def __gt__(self, c):
        return not self._below(c)

    __ge__ = __gt__

    def __eq__(self, c):
        return self is c

    def __ne__(self, c):
        return self is not c

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True

    __nonzero__ = __bool__

    def __float__(self):
        lo, hi = self.cell
        k = _uniform(self.ex, self.ex.grid)
        width = (hi - lo) / self.ex.grid
        self.cell[:] = [lo + k * width, lo + (k + 1) * width]
        return float(sum(self.cell) / 2 * self.scale + self.base)

    def _floor(self):
        ends = sorted(x * self.scale + self.base for x in self.cell)
        low, high = int(ends[0] // 1), -int(-ends[1] // 1) - 1
        if low < high:
            k = low + self.ex.choose([min(ends[1], v + 1) - max(ends[0], v) for v in range(low, high + 1)])
            self.cell[:] = sorted(max(min((Fraction(x) - self.base) / self.scale, self.cell[1]), self.cell[0]) for x in (k, k + 1))
            return k
        return low

    def __int__(self):
        negative = (self.cell[0] * self.scale + self.base < 0) or (self.cell[1] * self.scale + self.base < 0)
        return int(float(self)) if negative else self._floor()

    __trunc__ = __long__ = __int__

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return self._floor() + 1

    def __round__(self, digits=None):
        return (self + 0.5)._floor() if digits is None else round(float(self), digits)

    def _linear(self, scale, base):
        return Unknown(self.ex, self.cell, self.scale * scale, self.base * scale + base) if scale else float(base)

    def __add__(self, c):
        return self._linear(1, exact(c)) if isinstance(c, Number) else float(self) + float(c)

    __radd__ = __add__

    def __sub__(self, c):
        return self._linear(1, -exact(c)) if isinstance(c, Number) else float(self) - float(c)

    def __rsub__(self, c):
        return self._linear(-1, exact(c))

    def __neg__(self):
        return self._linear(-1, 0)

    def __abs__(self):
        return abs(float(self))

    def __mul__(self, c):
        return self._linear(exact(c), 0) if isinstance(c, Number) else float(self) * float(c)

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self._linear(1 / exact(c), 0) if isinstance(c, Number) else float(self) / float(c)

    __div__ = __truediv__

    def __rtruediv__(self, c):
        return c / float(self)

    __rdiv__ = __rtruediv__

    def __floordiv__(self, c):
        return float((self / c)._floor())

    def __mod__(self, c):
        return float(self) % c

    def __pow__(self, c):
        return float(self) ** c


def _randrange(ex, start, stop=None, step=1):
    values = range(start) if stop is None else range(start, stop, step)
    if len(values) == 0:
        raise ValueError("empty range for randrange()")
    return values[_uniform(ex, len(values))]


def _choice(ex, seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    return seq[_uniform(ex, len(seq))]


def _choices(ex, population, weights=None, cum_weights=None, k=1):
    population = list(population)
    if cum_weights is not None:
        weights = [c - p for c, p in zip(cum_weights, [0] + list(cum_weights)[:-1])]
    weights = [exact(w) for w in weights] if weights is not None else [1] * len(population)
    return [population[ex.choose(weights)] for _ in range(k)]


def exact(w):
    return Fraction(w) if isinstance(w, (int, Fraction)) else Fraction(float(w)).limit_denominator(10 ** 6)


def _shuffle(ex, x, *args):
    for i in reversed(range(1, len(x))):
        j = _uniform(ex, i + 1)
        x[i], x[j] = x[j], x[i]


def _sample(ex, population, k, **kw):
    pool = list(population)
    return [pool.pop(_uniform(ex, len(pool))) for _ in range(k)]


RULES = {
    "random": _random,
    "randrange": _randrange,
    "randint": lambda ex, a, b: _randrange(ex, a, b + 1),
    "choice": _choice,
    "choices": _choices,
    "shuffle": _shuffle,
    "sample": _sample,
    "uniform": lambda ex, a, b: a + (b - a) * _random(ex),
    "seed": lambda ex, *a, **kw: ex.seeds.append(a[0] if a else kw.get("a")),
}


def _wrap(name, original):
    rule = RULES[name]

    def function(*args, **kw):
        if ACTIVE:
            return rule(ACTIVE[-1], *args, **kw)
        return original(*args, **kw)
    function.__name__ = str(name)
    return function


def _method(name, original):
    rule = RULES[name]

    def method(self, *args, **kw):
        if ACTIVE:
            return rule(ACTIVE[-1], *args, **kw)
        return original(self, *args, **kw)
    return method


def install():
    cls = random.Random
    init = cls.__init__

    def controlled_init(self, x=None):
        init(self, x)
        if ACTIVE:
            ACTIVE[-1].seeds.append(x)

    for name in RULES:
        if not hasattr(random, name):
            continue
        setattr(random, name, _wrap(name, getattr(random, name)))
        if hasattr(cls, name):
            setattr(cls, name, _method(name, getattr(cls, name)))
    cls.__init__ = controlled_init
    if not PY2:
        install_numpy()


def install_numpy():
    try:
        import numpy as np
    except ImportError:
        return
    choice, rand, randint, seed = np.random.choice, np.random.random, np.random.randint, np.random.seed

    def np_choice(a, size=None, replace=True, p=None):
        if not ACTIVE:
            return choice(a, size=size, replace=replace, p=p)
        arr = np.asarray(a)
        if arr.ndim == 0:
            arr = np.arange(int(arr))
        elif arr.ndim != 1:
            raise ValueError("a must be 1-dimensional")
        if len(arr) == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            p = [float(x) for x in p]
            if len(p) != len(arr):
                raise ValueError("'a' and 'p' must have same size")
            if any(not x >= 0 for x in p):
                raise ValueError("probabilities are not non-negative")
            if abs(sum(p) - 1) > 1e-7:
                raise ValueError("probabilities do not sum to 1")
            weights = [exact(x) for x in p]
        else:
            weights = [1] * len(arr)
        if size is None:
            return arr[ACTIVE[-1].choose(weights)]
        return np.array([arr[ACTIVE[-1].choose(weights)] for _ in range(int(np.prod(size)))]).reshape(size)

    np.random.choice = np_choice

    def np_random(size=None):
        return _random(ACTIVE[-1]) if ACTIVE and size is None else rand(size)
    np.random.random = np.random.random_sample = np_random

    def np_randint(low, high=None, size=None, **kw):
        if ACTIVE and size is None:
            return _randrange(ACTIVE[-1], low, high)
        return randint(low, high, size, **kw)
    np.random.randint = np_randint

    def np_seed(x=None):
        if ACTIVE:
            ACTIVE[-1].seeds.append(x)
        else:
            seed(x)
    np.random.seed = np_seed
