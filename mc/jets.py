"""
Second order jets in plain numpy: value, gradient and Hessian with respect to
P named parameters, carried through arithmetic.  This is the reference for the
values and derivatives symfit produces; it shares no code with sympy.

``v`` has shape S, ``g`` has shape (P,) + S and ``h`` has shape (P, P) + S.
"""
import numpy as np


def _up(arr, lead, shape):
    own = arr.shape[lead:]
    arr = arr.reshape(arr.shape[:lead] + (1,) * (len(shape) - len(own)) + own)
    return np.broadcast_to(arr, arr.shape[:lead] + tuple(shape))


class Jet(object):
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @classmethod
    def const(cls, v, n):
        v = np.asarray(v, dtype=float)
        return cls(v, np.zeros((n,) + v.shape), np.zeros((n, n) + v.shape))

    @classmethod
    def param(cls, v, i, n):
        j = cls.const(v, n)
        j.g[i] = 1.0
        return j

    @property
    def n(self):
        return self.g.shape[0]

    def _coerce(self, o):
        return o if isinstance(o, Jet) else Jet.const(o, self.n)

    def _pair(self, o):
        o = self._coerce(o)
        s = np.broadcast_shapes(self.v.shape, o.v.shape)
        return (Jet(_up(self.v, 0, s), _up(self.g, 1, s), _up(self.h, 2, s)),
                Jet(_up(o.v, 0, s), _up(o.g, 1, s), _up(o.h, 2, s)))

    def __add__(self, o):
        a, b = self._pair(o)
        return Jet(a.v + b.v, a.g + b.g, a.h + b.h)
    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.v, -self.g, -self.h)

    def __sub__(self, o):
        return self + (-self._coerce(o))

    def __rsub__(self, o):
        return self._coerce(o) + (-self)

    def __mul__(self, o):
        a, b = self._pair(o)
        cross = a.g[:, None] * b.g[None, :]
        return Jet(a.v * b.v, a.g * b.v + a.v * b.g,
                   a.h * b.v + a.v * b.h + cross + np.swapaxes(cross, 0, 1))
    __rmul__ = __mul__

    def unary(self, f, f1, f2):
        gg = self.g[:, None] * self.g[None, :]
        return Jet(f, f1 * self.g, f1 * self.h + f2 * gg)

    def inverse(self):
        v = self.v
        return self.unary(1 / v, -1 / v**2, 2 / v**3)

    def __truediv__(self, o):
        return self * self._coerce(o).inverse()

    def __rtruediv__(self, o):
        return self._coerce(o) * self.inverse()

    def __pow__(self, k):
        if isinstance(k, Jet):
            return exp(log(self) * k)
        v = self.v
        if k == 0:
            return self.unary(np.ones_like(v), 0 * v, 0 * v)
        if k == 1:
            return self.unary(v, np.ones_like(v), 0 * v)
        if k == 2:
            return self.unary(v**2, 2 * v, 2 * np.ones_like(v))
        return self.unary(v**k, k * v**(k - 1), k * (k - 1) * v**(k - 2))

    def __rpow__(self, k):
        return exp(np.log(k) * self)


def exp(j):
    e = np.exp(j.v)
    return j.unary(e, e, e)


def log(j):
    return j.unary(np.log(j.v), 1 / j.v, -1 / j.v**2)


def sin(j):
    return j.unary(np.sin(j.v), np.cos(j.v), -np.sin(j.v))


def cos(j):
    return j.unary(np.cos(j.v), -np.sin(j.v), -np.cos(j.v))


def sqrt(j):
    s = np.sqrt(j.v)
    return j.unary(s, 0.5 / s, -0.25 / s**3)


def tanh(j):
    t = np.tanh(j.v)
    return j.unary(t, 1 - t**2, -2 * t * (1 - t**2))


def atan(j):
    q = 1 / (1 + j.v**2)
    return j.unary(np.arctan(j.v), q, -2 * j.v * q**2)


def cosh(j):
    return j.unary(np.cosh(j.v), np.sinh(j.v), np.cosh(j.v))


def where(cond, low, high):
    """``low`` where ``cond`` (without derivatives), else ``high``."""
    j = low if isinstance(low, Jet) else high
    low, high = j._coerce(low), j._coerce(high)
    low, high = low._pair(high)
    s = np.broadcast_shapes(low.v.shape, np.shape(cond))
    cond = np.broadcast_to(cond, s)
    return Jet(*[np.where(cond, _up(a, k, s), _up(b, k, s)) for k, (a, b) in
                 enumerate(zip((low.v, low.g, low.h), (high.v, high.g, high.h)))])


class space(object):
    """The namespace handed to polymorphic formulas."""
    exp, log, sin, cos, sqrt = map(staticmethod, (exp, log, sin, cos, sqrt))
    tanh, atan, cosh = map(staticmethod, (tanh, atan, cosh))
    pi = np.pi


def total(j):
    """Sum over all data axes."""
    n = j.n
    return Jet(np.sum(j.v), j.g.reshape(n, j.v.size).sum(1),
               j.h.reshape(n, n, j.v.size).sum(2))


def reshape(j, shape):
    """Broadcast to ``shape``; sizes equal to one may change dimension."""
    n = j.n
    if j.v.size == 1:
        return Jet(np.broadcast_to(j.v.reshape(()), shape),
                   np.broadcast_to(j.g.reshape((n,) + (1,) * len(shape)), (n,) + tuple(shape)),
                   np.broadcast_to(j.h.reshape((n, n) + (1,) * len(shape)), (n, n) + tuple(shape)))
    return Jet(_up(j.v, 0, shape), _up(j.g, 1, shape), _up(j.h, 2, shape))


def trailing(j, shape):
    """With the axes ``j`` lacks, compared to ``shape``, added at the end."""
    extra = (1,) * (len(shape) - j.v.ndim)
    return Jet(*[a.reshape(a.shape + extra) for a in (j.v, j.g, j.h)])
