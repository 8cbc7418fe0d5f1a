"""A RandomState whose answers are prescribed, so that every outcome can be enumerated."""
import numpy as np


class Scripted(np.random.RandomState):
    """
    option(k, size): index of the answer to the k-th of `size` residual draws.
    z: answers of a standard normal, used with the same option function.
    modes(k, size): answer of the k-th gamma draw: 0 mean, 1 zero, 2 three times the mean, 3 the variance.
    """
    def __init__(self, option, z=None, modes=None):
        super().__init__(0)
        self.option, self.z, self.modes = option, z, modes
        self.calls = []

    def _opts(self, size, n):
        size = 1 if size is None else size
        shape = size if isinstance(size, tuple) else (size,)
        total = int(np.prod(shape))
        o = np.array([self.option(k, total) for k in range(total)], dtype=int) % n
        return o.reshape(shape)

    def choice(self, a, size=None, replace=True, p=None):
        self.calls.append("choice")
        if isinstance(a, (int, np.integer)):
            o = self._opts(size, a)
            return o if size is not None else int(o[0])
        a = np.asarray(a)
        o = a[self._opts(size, len(a))]
        return o if size is not None else o[0]

    def randint(self, low, high=None, size=None, dtype=int):
        self.calls.append("randint")
        if high is None:
            low, high = 0, low
        o = low + self._opts(size, int(high) - int(low))
        return o if size is not None else int(o[0])

    def standard_normal(self, size=None):
        self.calls.append("normal")
        o = np.asarray(self.z)[self._opts(size, len(self.z))]
        return o if size is not None else float(o[0])

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def randn(self, *size):
        return self.standard_normal(size or None)

    def _gamma(self, mean, var, size):
        self.calls.append("gamma")
        mean, var = np.broadcast_arrays(np.asarray(mean, dtype=float), np.asarray(var, dtype=float))
        if size is not None:
            mean, var = np.broadcast_to(mean, size), np.broadcast_to(var, size)
        flat = np.array([self.modes(k, mean.size) for k in range(mean.size)]).reshape(mean.shape)
        return np.choose(flat, [mean, 0.0 * mean, 3 * mean, var])

    def gamma(self, shape, scale=1.0, size=None):
        shape, scale = np.asarray(shape, dtype=float), np.asarray(scale, dtype=float)
        return self._gamma(shape * scale, shape * scale ** 2, size)

    def standard_gamma(self, shape, size=None):
        return self._gamma(shape, shape, size)


def positions(n, sims, pick):
    """
    option function from pick(sim, i, k) for cell (i, k) of an n-period triangle; draws are
    made for all cells or for the observed cells of every simulation, by origin and period.
    """
    acts = [(i, k) for i in range(n) for k in range(n - i)]
    cache = {}

    def option(pos, total):
        if total == sims * n * n:
            s, c = divmod(pos, n * n)
            i, k = divmod(c, n)
        elif total == sims * len(acts):
            s, c = divmod(pos, len(acts))
            i, k = acts[c]
        else:
            s, (i, k) = pos, acts[pos % len(acts)]
        return pick(s, i, k) if i + k < n else 0
    return option
