"""derivatives of smooth real functions by Chebyshev interpolation (about 1e-9
relative for the first four orders): independent of any closed form"""
import numpy as np
from numpy.polynomial import chebyshev as C

_DEG = 18
_T = np.cos(np.pi * (np.arange(_DEG + 1) + 0.5) / (_DEG + 1))
_V = np.linalg.inv(C.chebvander(_T, _DEG))
_D = []
for _k in range(5):
    _D.append(np.array([C.chebval(0.0, C.chebder(np.eye(_DEG + 1)[j], _k)) if _k else C.chebval(0.0, np.eye(_DEG + 1)[j])
                        for j in range(_DEG + 1)]) @ _V)


def derivs(f, x, h, order=4):
    """f elementwise on an array -> [f, f', ..., f^(order)] at x; h is the half
    width of the interpolation interval (array or scalar)"""
    x = np.asarray(x, float)
    h = np.broadcast_to(np.asarray(h, float), x.shape)
    F = np.array([np.asarray(f(x + h * t), float) for t in _T])
    return [np.tensordot(_D[k], F, (0, 0)) / h ** k for k in range(order + 1)]


def grad(f, x, h=1e-2):
    """gradient of a scalar (or array) function of a vector"""
    x = np.asarray(x, float)
    out = []
    for i in range(len(x)):
        def g(t, i=i):
            z = x.copy()
            z[i] = t
            return f(z)
        hi = h * max(1.0, abs(x[i]))
        # 6-point central differences
        c = [45.0, -9.0, 1.0]
        d = sum(cj * (np.asarray(g(x[i] + j * hi), float) - np.asarray(g(x[i] - j * hi), float)) for j, cj in zip((1, 2, 3), c))
        out.append(d / (60.0 * hi))
    return np.array(out)


def jac(f, x, h=1e-3):
    """(len(f), len(x)) jacobian"""
    return np.moveaxis(grad(f, x, h), 0, -1)
