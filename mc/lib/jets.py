"""Truncated multivariate Taylor arithmetic: exact partial derivatives (to round-off) of a formula written out.

A Jet holds, for many points at once, the Taylor coefficients of a function of nv variables up to total degree deg."""
import functools
import itertools
import math

import numpy as np


@functools.lru_cache(None)
def table(nv, deg):
    mono = [m for d in range(deg + 1) for m in itertools.combinations_with_replacement(range(nv), d)]
    pos = {m: i for i, m in enumerate(mono)}
    a, b, c = zip(*[(i, j, pos[tuple(sorted(p + q))]) for i, p in enumerate(mono) for j, q in enumerate(mono) if len(p) + len(q) <= deg])
    return mono, pos, np.array(a), np.array(b), np.array(c)


class Jet:
    __array_ufunc__ = None              # arrays on the left give way

    def __init__(self, c, nv, deg):
        self.c, self.nv, self.deg = c, nv, deg

    @classmethod
    def variables(cls, x, deg):
        x = np.atleast_2d(np.asarray(x, float))
        nv = x.shape[1]
        out = []
        for i in range(nv):
            c = np.zeros((len(x), len(table(nv, deg)[0])))
            c[:, 0] = x[:, i]
            if deg:
                c[:, 1 + i] = 1.0
            out.append(cls(c, nv, deg))
        return out

    def _lift(self, o):
        if isinstance(o, Jet):
            return o.c
        c = np.zeros_like(self.c)
        c[:, 0] = o
        return c

    def __pow__(self, p):
        return self.power(p)

    def _new(self, c):
        return Jet(c, self.nv, self.deg)

    def __add__(self, o):
        return self._new(self.c + self._lift(o))
    __radd__ = __add__

    def __neg__(self):
        return self._new(-self.c)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return self._new(self.c * np.reshape(o, (-1, 1)) if np.ndim(o) else self.c * o)
        _, _, a, b, c = table(self.nv, self.deg)
        out = np.zeros_like(self.c)
        np.add.at(out.T, c, (self.c[:, a] * o.c[:, b]).T)
        return self._new(out)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (o.recip() if isinstance(o, Jet) else 1.0 / np.asarray(o))

    def compose(self, derivs):
        """f(self), derivs[k] the k-th derivative of f at the value"""
        h = self._new(self.c.copy())
        h.c[:, 0] = 0.0
        out, p = self._new(self._lift(derivs[0])), None
        for k in range(1, self.deg + 1):
            p = h if p is None else p * h
            out = out + p * (derivs[k] / math.factorial(k))
        return out

    @property
    def v(self):
        return self.c[:, 0]

    def exp(self):
        return self.compose([np.exp(self.v)] * (self.deg + 1))

    def log(self):
        return self.compose([np.log(self.v)] + [(-1.0) ** (k - 1) * math.factorial(k - 1) / self.v ** k for k in range(1, self.deg + 1)])

    def power(self, p):
        d, f = [], 1.0
        for k in range(self.deg + 1):
            d.append(f * self.v ** (p - k))
            f *= p - k
        return self.compose(d)

    def recip(self):
        return self.power(-1.0)

    def sinh(self):
        return self.compose([(np.cosh if k % 2 else np.sinh)(self.v) for k in range(self.deg + 1)])

    def cosh(self):
        return self.compose([(np.sinh if k % 2 else np.cosh)(self.v) for k in range(self.deg + 1)])

    def arcsinh(self):
        # derivative (1+x^2)^(-1/2) as a one-variable jet
        if self.deg == 0:
            return self._new(np.arcsinh(self.c))
        x, = Jet.variables(self.v[:, None], self.deg)
        g = (x * x + 1.0).power(-0.5)
        return self.compose([np.arcsinh(self.v)] + [g.c[:, k] * math.factorial(k) for k in range(self.deg)])

    def log_ndtr(self):
        from scipy.special import log_ndtr
        x, = Jet.variables(self.v[:, None], self.deg)
        r0 = np.exp(-self.v ** 2 / 2 - np.log(2 * np.pi) / 2 - log_ndtr(self.v))
        # r' = -r (x + r): Taylor coefficients by recursion
        r = [r0]
        for k in range(self.deg):
            acc = self.v * r[k] + (r[k - 1] if k else 0.0) + sum(r[i] * r[k - i] for i in range(k + 1))
            r.append(-acc / (k + 1))
        return self.compose([log_ndtr(self.v)] + [r[k] * math.factorial(k) for k in range(self.deg)])

    def partials(self, order):
        """all partial derivatives of that order, in lexicographic order of the (sorted) indices"""
        mono, pos, *_ = table(self.nv, self.deg)
        ms = list(itertools.combinations_with_replacement(range(self.nv), order))
        fac = [math.prod(math.factorial(m.count(i)) for i in range(self.nv)) for m in ms]
        return np.stack([self.c[:, pos[m]] * f for m, f in zip(ms, fac)], axis=-1)
