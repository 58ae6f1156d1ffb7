"""Seam for randomness: every generator the code under test asks NumPy for is ours.

``Seam`` replaces ``numpy.random``'s generator classes and global functions while it is active.  In
mode "record" streams are NumPy's own and every draw is logged.  In mode "adversary" the outcomes are
chosen by a seeded policy that only respects the support of each distribution (a draw of probability 0
never happens, one of probability 1 always does, anything else may): rare sequences of births,
separations and shocks become as likely as common ones.  In mode "perturb" the normal draws after a
given position of a period-by-agent matrix are replaced.
"""
import random

import numpy as np

GLOBAL_FUNCS = [
    "seed", "get_state", "set_state", "random", "random_sample", "rand", "randn", "randint", "normal",
    "standard_normal", "binomial", "choice", "uniform", "permutation", "shuffle", "multinomial",
    "exponential", "poisson", "beta", "gamma", "lognormal",
]
_REAL_RS = np.random.RandomState


class SimRandomState(_REAL_RS):
    """RandomState whose draws the active seam logs or replaces (NumPy's own otherwise)."""

    _seed = None

    def __init__(self, seed=None):
        super().__init__(seed)
        self._seed = seed

    def seed(self, seed=None):
        super().seed(seed)
        self._seed = seed

    def normal(self, loc=0.0, scale=1.0, size=None):
        return _through("normal", super().normal(loc, scale, size), loc, scale, self._seed)

    def standard_normal(self, size=None):
        return _through("normal", super().standard_normal(size), 0.0, 1.0, self._seed)

    def randn(self, *args):
        return self.standard_normal(args if args else None)

    def binomial(self, n, p, size=None):
        return _through("binomial", super().binomial(n, p, size), n, p)

    def choice(self, a, size=None, replace=True, p=None):
        _busy.append(1)
        try:
            real = super().choice(a, size, replace, p)
        finally:
            _busy.pop()
        return _through("choice", real, a, p, replace)


def _other(name):
    real = getattr(_REAL_RS, name)

    def draw(self, *a, **k):
        out = real(self, *a, **k)
        if _active and not _busy:
            _active[-1].log.append(("other", np.shape(out)))
        return out

    draw.__name__ = name
    return draw


_busy = []
for _name in ["random", "random_sample", "rand", "uniform", "randint", "random_integers", "permutation", "shuffle", "multinomial", "bytes",
              "exponential", "poisson", "lognormal", "multivariate_normal", "standard_exponential", "geometric", "bytes"]:
    if hasattr(_REAL_RS, _name):
        setattr(SimRandomState, _name, _other(_name))


SimRandomState.__name__ = SimRandomState.__qualname__ = "RandomState"
_active = []


def _through(kind, real, *args):
    if not _active:
        return real
    seam = _active[-1]
    out = getattr(seam, kind)(real, *args)
    seam.note(kind, (np.shape(real),), out)
    return out


def install():
    """From here on, generators that anybody creates are the simulator's."""
    np.random.RandomState = SimRandomState
    np.random.mtrand.RandomState = SimRandomState


class Seam:
    def __init__(self, mode="record", seed=0, policy=None, cut=None, spare=None):
        self.spare = spare
        self.mode, self.policy, self.cut = mode, policy or {}, cut
        self.pol = np.random.Generator(np.random.PCG64(seed))
        self.log = []
        self.fired = {}
        self.normals = []
        self._saved = {}

    # -- outcomes
    def _fire(self, k, m=1):
        self.fired[k] = self.fired.get(k, 0) + int(m)

    def normal(self, real, loc, scale, seed):
        if self.spare is not None and seed == self.spare:  # the solution's integration draws stay
            return real
        if self.mode == "adversary" and self.policy.get("normal"):
            kind = self.policy["normal"]
            shape = np.shape(real)
            if kind == "tails":
                z = self.pol.choice([-6.5, -4.0, -2.5, -0.5, 0.0, 0.5, 2.5, 4.0, 6.5], shape)
            elif kind == "distinct":
                m = int(np.prod(shape)) if shape else 1
                z = (self.pol.permutation(m) / max(m, 1) * 3 - 1.5).reshape(shape)
            else:
                return real
            self._fire("scripted_shocks", np.size(z))
            return np.asarray(loc) + np.asarray(scale) * z if shape else float(loc + scale * z)
        if self.mode == "perturb" and self.cut is not None and np.ndim(real) == 2:
            out = np.array(real, copy=True)
            k = self.cut
            if k < out.shape[0]:
                out[k:] = loc + scale * self.pol.standard_normal(out[k:].shape)
                self._fire("rewritten_future_shocks", out[k:].size)
            return out
        return real

    def binomial(self, real, n, p):
        if self.mode != "adversary" or not self.policy.get("binomial"):
            return real
        shape = np.shape(real)
        q = np.broadcast_to(np.asarray(p, dtype=float), shape)
        rate = self.policy["binomial"]  # probability of a success where both outcomes are possible
        if isinstance(rate, list):
            rate = rate[int(self.pol.integers(len(rate)))]
        hit = (self.pol.random(shape) < rate).astype(np.asarray(real).dtype)
        nn = np.broadcast_to(np.asarray(n), shape)
        out = np.where(q <= 0, 0, np.where(q >= 1, nn, hit * nn)).astype(np.asarray(real).dtype)
        self._fire("scripted_events", int(np.sum(out != np.asarray(real))))
        return out if shape else out.item()

    def choice(self, real, a, p, replace):
        if self.mode != "adversary" or not self.policy.get("choice") or not replace:
            return real
        shape = np.shape(real)
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        ok = vals if p is None else vals[np.asarray(p, dtype=float) > 0]
        if len(ok) == 0 or not shape:
            return real
        out = ok[self.pol.integers(len(ok), size=shape)]
        self._fire("scripted_initial", int(np.sum(out != np.asarray(real))))
        return out.astype(np.asarray(real).dtype)

    def note(self, kind, arg, out):
        self.log.append((kind,) + arg)
        if kind == "normal":
            self.normals.append(np.array(out, copy=True))

    # -- installation
    def __enter__(self):
        _active.append(self)
        if self.mode != "record":
            g = SimRandomState(20240229)
            for f in GLOBAL_FUNCS:
                self._saved[f] = getattr(np.random, f)
                setattr(np.random, f, getattr(g, f))
        return self

    def __exit__(self, *exc):
        _active.remove(self)
        for k, v in self._saved.items():
            setattr(np.random, k, v)
        self._saved = {}
        return False

    def shock_matrix(self, T, n):
        """The period-by-agent matrix of standard normal draws, if the code drew exactly one."""
        m = [x for x in self.normals if np.shape(x) == (T, n)]
        return m[-1] if m else None


def det(seed):
    return random.Random(seed)
