"""Enumeration of the answers of a random source: a stateless depth-first explorer.

``Chooser`` is a RandomState whose draws are decided by a script.  ``explore(fn)`` runs ``fn(chooser)``
for every sequence of answers: each discrete draw with n options branches n ways, each continuous
draw branches over a few quantiles.  Replaying a prefix with a different number of options at the
same point is an error (the run would not be a function of the answers).
"""
import copy
import itertools

import numpy as np

QUANTILES = (0.5, 0.0, 1 - 1e-9)


class Chooser(np.random.RandomState):
    def __init__(self, script=(), quantiles=QUANTILES, limit=None):
        super().__init__(0)
        self.script = list(script)
        self.points = []     # (number of options, choice taken)
        self.quantiles = quantiles
        self.limit = limit   # draws after that many points take their first option

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _pick(self, n):
        i = len(self.points)
        if i < len(self.script):
            c = self.script[i]
            if c >= n:
                raise RuntimeError("replay diverged: choice %d of %d at point %d" % (c, n, i))
        else:
            c = 0
        self.points.append((n, c))
        return c

    def _many(self, size, one):
        if size is None:
            return one()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)

    # discrete draws
    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._many(size, lambda: int(low) + self._pick(int(high - low)))

    def choice(self, a, size=None, replace=True, p=None):
        opts = list(range(a)) if np.isscalar(a) else list(a)
        if size is None:
            ids = [i for i in range(len(opts)) if p is None or p[i] > 0]
            return opts[ids[self._pick(len(ids))]]
        n = int(np.prod(size))
        if replace:
            out = [opts[self._pick(len(opts))] for _ in range(n)]
        else:
            rest, out = list(opts), []
            for _ in range(n):
                out.append(rest.pop(self._pick(len(rest))))
        return np.array(out).reshape(size)

    def permutation(self, x):
        opts = list(range(x)) if np.isscalar(x) else list(x)
        out = []
        while opts:
            out.append(opts.pop(self._pick(len(opts))))
        return np.array(out)

    def shuffle(self, x):
        y = [copy.copy(x[i]) if isinstance(x[i], np.ndarray) else x[i] for i in range(len(x))]
        for i in range(len(x)):
            x[i] = y.pop(self._pick(len(y)))

    # continuous draws
    def random_sample(self, size=None):
        return self._many(size, lambda: self.quantiles[self._pick(len(self.quantiles))])

    def random(self, size=None):
        return self.random_sample(size)

    def rand(self, *shape):
        return self.random_sample(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (np.asarray(high) - low) * self.random_sample(size) if size is not None \
            else float(low + (high - low) * self.random_sample())

    def standard_normal(self, size=None):
        return self._many(size, lambda: (self.quantiles[self._pick(len(self.quantiles))] - 0.5) * 4)

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = loc + scale * self.standard_normal(size)
        return r if size is not None else float(r)

    def randn(self, *shape):
        return self.standard_normal(shape or None)


def explore(fn, quantiles=QUANTILES, max_runs=10000, deviations=None):
    """Run fn(chooser) for every sequence of answers; yields (script, result).

    ``deviations`` bounds the number of non-first answers (None: unbounded)."""
    stack = [[]]
    runs = 0
    while stack:
        script = stack.pop()
        ch = Chooser(script, quantiles)
        res = fn(ch)
        runs += 1
        if runs > max_runs:
            raise RuntimeError("more than %d answer sequences" % max_runs)
        taken = [c for _, c in ch.points]
        yield tuple(taken), res
        used = sum(1 for c in script if c)
        if deviations is not None and used >= deviations:
            continue
        for i in range(len(ch.points) - 1, len(script) - 1, -1):
            for alt in range(ch.points[i][0] - 1, 0, -1):
                stack.append(taken[:i] + [alt])
