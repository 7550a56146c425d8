"""Random generators whose outcomes are chosen by the scenario.

Every draw is first made for real, so invalid requests raise what numpy raises; the
values returned are then replaced by admissible ones: extreme, repeated, least likely
or boundary outcomes that a friendly generator practically never produces.
"""
import numpy as np

REAL_CHOICE = np.random.choice
REAL_RNG = np.random.default_rng
MODES = ["first", "last", "least", "most", "alternate", "spread", "real"]


class Adversary:
    def __init__(self, sim, modes):
        self.sim = sim
        self.modes = list(modes) or ["real"]
        self.calls = 0

    def mode(self):
        m = self.modes[self.calls % len(self.modes)]
        self.calls += 1
        self.sim.fault("draw:" + m)
        return m

    def pick(self, real, a, size, replace, p):
        m = self.mode()
        if m == "real":
            return real
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else (a if isinstance(a, np.ndarray) else np.array(a))
        n = 1 if size is None else int(np.prod(size))
        w = np.full(len(arr), 1.0) if p is None else np.asarray(p, dtype=float)
        support = [int(i) for i in np.flatnonzero(w > 0)]
        if m == "last":
            support = support[::-1]
        elif m == "least":
            support = sorted(support, key=lambda i: w[i])
        elif m == "most":
            support = sorted(support, key=lambda i: -w[i])
        if not replace:
            idx = support[:n]
        elif m in ("alternate", "spread"):
            idx = [support[k % len(support)] for k in range(n)]
        else:
            idx = [support[0]] * n
        if size is None:
            return arr[idx[0]]
        out = arr[np.array(idx, dtype=int)] if n else real
        return out.reshape(np.shape(real))

    def uniform(self, real, size):
        m = self.mode()
        v = {"first": 0.0, "last": float(np.nextafter(1.0, 0.0)), "least": 0.5, "most": 1e-12}.get(m)
        if v is None:
            return real
        return v if size is None else np.full(np.shape(real), v)

    def multinomial(self, real, n, pvals):
        m = self.mode()
        p = np.asarray(pvals, dtype=float)
        if m == "real" or p.ndim != 1 or np.ndim(real) != 1:
            return real
        ok = np.flatnonzero(p > 0)
        i = {"first": ok[0], "last": ok[-1], "least": ok[np.argmin(p[ok])], "most": ok[np.argmax(p[ok])]}.get(m)
        if i is None:
            return real
        out = np.zeros_like(real)
        out[i] = n
        return out

    # legacy module-level functions
    def choice(self, a, size=None, replace=True, p=None):
        return self.pick(REAL_CHOICE(a, size=size, replace=replace, p=p), a, size, replace, p)

    def default_rng(self, seed=None):
        return Rng(self, REAL_RNG(seed if seed is not None else self.calls))

    def install(self, patches):
        mod = np.random
        for name, real in (("random", np.random.random), ("random_sample", np.random.random_sample)):
            patches.set(mod, name, lambda size=None, real=real: self.uniform(real(size), size))
        real_rand, real_multi = np.random.rand, np.random.multinomial
        patches.set(mod, "rand", lambda *d: self.uniform(real_rand(*d), d or None))
        patches.set(mod, "multinomial", lambda n, pvals, size=None: self.multinomial(real_multi(n, pvals, size), n, pvals))
        patches.set(mod, "choice", self.choice)
        patches.set(mod, "default_rng", self.default_rng)


class Rng:
    """numpy Generator with scripted outcomes; everything else is the real one."""

    def __init__(self, adv, real):
        self._adv, self._real = adv, real

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        return self._adv.pick(self._real.choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle), a, size, replace, p)

    def random(self, size=None, *args, **kwargs):
        return self._adv.uniform(self._real.random(size, *args, **kwargs), size)

    def multinomial(self, n, pvals, size=None):
        return self._adv.multinomial(self._real.multinomial(n, pvals, size), n, pvals)

    def __getattr__(self, name):
        return getattr(self._real, name)
