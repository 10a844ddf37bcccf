"""C33: sinh-arcsinh and skew normal distributions: densities, derivatives to fourth order, quantiles, moments, draws."""
import itertools

import numpy as np
import scipy.special as sc
import scipy.stats as st

from mc.lib.jets import Jet


def ref_shash(y, m, s, v, t):
    """log density of m + s sinh((asinh N(0,1) + v)/t), jets"""
    z = (y - m) / s
    u = z.arcsinh() * t - v
    r = u.sinh()
    return t.log() + u.cosh().log() - s.log() - (z * z + 1.0).log() * 0.5 - r * r * 0.5 - np.log(2 * np.pi) / 2


def ref_skew(y, m, s, v):
    z = (y - m) / s
    return (v * z).log_ndtr() - s.log() - z * z * 0.5 + np.log(2 / np.pi) / 2


def run(rep, tier):
    from pystatsm.misc import sash, shash1, shashr, skewnorm_dist as sk
    big = tier == "thorough"
    PAR = dict(m=[0.0, -1.3] + [2.0] * big, s=[1.0, 0.4, 2.5], v=[0.0, 0.7, -1.1] + [0.05] * big, t=[1.0, 0.6, 1.7] + [0.9] * big)
    Y = np.r_[-3.0, -1.3, -0.55, 0.0, 0.2, 1.0, 2.6, 4.0]

    def point(ck):
        return tuple(ck.choose(k, PAR[k]) for k in "msvt")

    def sane(m, s, v, t, y):
        """keep to where the density has not underflowed"""
        return np.abs(t * np.arcsinh((y - m) / s) - v) < 3.5

    def shapes(ck, y):
        k = ck.choose("shape", ["vector", "matrix"])
        return y if k == "vector" else y[: len(y) // 2 * 2].reshape(2, -1)

    # -------------------------------------------------------------- derivatives
    def arcs(ck):
        impl = ck.choose("implementation", ["sash", "sash class", "shash1", "shashr"])
        order = ck.choose("order", [0, 1, 2, 3, 4])
        m, s, v, t = point(ck)
        y = shapes(ck, Y[sane(m, s, v, t, Y)])
        ck.require(y.size > 0)
        f, one = y.ravel(), np.ones(y.size)
        a, b = (np.log(s), np.log(t)) if impl == "shashr" else (s, t)
        # the order of the parameters: (m, s, v, t) in sash, (m, s, t, v) in the generated kernels
        arg = (m, a, v, b) if impl.startswith("sash") else (m, a, b, v)
        x = Jet.variables(np.stack([q * one for q in arg], axis=1), order)
        mm, ss, vv, tt = x if impl.startswith("sash") else (x[0], x[1], x[3], x[2])
        if impl == "shashr":
            ss, tt = ss.exp(), tt.exp()
        L = ref_shash(f, mm, ss, vv, tt)
        want = [L.partials(k).reshape(y.shape + (-1,)) for k in range(order + 1)]
        keep = y.copy()
        if impl == "sash":
            got = ck.call("derivative", getattr(sash, ["_logpdf", "_d1logpdf", "_d2logpdf", "_d3logpdf", "_d4logpdf"][order]), y, *arg)
            got = [got[..., None] if order == 0 else got]
            want = want[-1:]
        elif impl == "sash class":
            got = ck.call("derivative", getattr(sash.SASH, ["loglike", "d1loglike", "d2loglike", "d3loglike", "d4loglike"][order]), y, *arg)
            got = [got[..., None] if order == 0 else got]
            want = want[-1:]
        else:
            mod = shash1 if impl == "shash1" else shashr
            how = ck.choose("call", ["params", "keywords"])
            kw = dict(params=list(arg)) if how == "params" else dict(m=m, s=a, v=v, t=b)
            got = ck.call("derivative", mod.logpdf, y, derivs=order, **kw)
            got = list(got) if order else [got]
            got[0] = got[0][..., None]
            ck.expect("orders", len(got) == order + 1)
        for k, (g, w) in enumerate(zip(got, want)):
            ck.close(f"{impl}/order {order if len(got) == 1 else k}", g, w, 1e-7, scale=1 + np.abs(w).max())
        ck.eq("argument", y, keep)
        ck.outcome(impl, order, m, s, v, t)
    rep.explore("sinh-arcsinh", arcs)

    def skew(ck):
        order = ck.choose("order", [0, 1, 2, 3, 4])
        m, s, v = ck.choose("m", PAR["m"]), ck.choose("s", PAR["s"]), ck.choose("v", [0.0, 0.8, -2.0] + [0.1, 3.0] * big)
        y = shapes(ck, Y[np.abs(v * (Y - m) / s) < 4])
        ck.require(y.size > 0)
        f = y.ravel()
        x = Jet.variables(np.stack([q * np.ones(f.size) for q in (m, s, v)], axis=1), order)
        want = ref_skew(f, *x).partials(order).reshape(y.shape + (-1,))
        keep = y.copy()
        fn = getattr(sk, ["_logpdf", "_d1logpdf", "_d2logpdf", "_d3logpdf", "_d4logpdf"][order])
        got = ck.call("derivative", fn, y, m, s, v)
        ck.close(f"skew/order {order}", got[..., None] if order == 0 else got, want, 1e-6, scale=1 + np.abs(want).max())
        g2 = ck.call("class", getattr(sk.SkewNorm, ["loglike", "d1loglike", "d2loglike", "d3loglike", "d4loglike"][order]), y, m, s, v)
        ck.eq("class", g2, got)
        ck.eq("argument", y, keep)
        if order == 0:
            ck.close("skew/scipy", got, st.skewnorm(v, m, s).logpdf(y), 1e-9)
        ck.outcome(order, m, s, v)
    rep.explore("skew normal", skew)

    # -------------------------------------------------------------- distribution functions and moments
    X = np.linspace(-14, 14, 5601)
    WX = st.norm.pdf(X) * (X[1] - X[0])
    GX, GW = np.polynomial.legendre.leggauss(60)

    def dist(ck):
        impl = ck.choose("implementation", ["sash", "shash1", "shashr"])
        m, s, v, t = point(ck)
        a = (m, np.log(s), v, np.log(t)) if impl == "shashr" else (m, s, v, t)
        mod = dict(sash=sash, shash1=shash1, shashr=shashr)[impl]
        pdf, cdf, qtf = (sash._pdf, sash._cdf, sash._qtf) if impl == "sash" else (mod.pdf, mod.cdf, mod.inverse_cdf)
        T = lambda x: m + s * np.sinh((np.arcsinh(x) + v) / t)                # noqa: E731
        x = np.r_[-3.0, -1.1, -0.4, 0.0, 0.3, 1.2, 2.9]
        y, p = T(x), sc.ndtr(x)
        ck.close("cdf", ck.call("cdf", cdf, y, *a), p, 1e-11)
        ck.close("quantile", ck.call("quantile", qtf, p, *a), y, 1e-8)
        J = s * np.cosh((np.arcsinh(x) + v) / t) / (t * np.sqrt(1 + x * x))
        want = st.norm.pdf(x) / J
        ck.close("pdf", ck.call("pdf", pdf, y, *a), want, 1e-10)
        # the density integrates to the distribution function
        for i in range(len(y) - 1):
            h, c = (y[i + 1] - y[i]) / 2, (y[i + 1] + y[i]) / 2
            ck.close("integral", h * np.sum(GW * pdf(c + h * GX, *a)), p[i + 1] - p[i], 1e-6)
        if impl == "sash":
            ck.close("defaults", [sash._pdf(0.3), sash._cdf(0.3), sash._qtf(0.6)], [st.norm.pdf(0.3), st.norm.cdf(0.3), st.norm.ppf(0.6)], 1e-12)

            def r(k):
                return np.random.RandomState(k) if ck_legacy else np.random.default_rng(k)
            ck_legacy = ck.flag("legacy generator")
            got = ck.call("rvs", sash._rvs, r(3), *a, size=(4, 2))
            u = r(3).uniform(size=(4, 2))
        else:
            seed = ck.choose("seed", [0, 5])
            size = ck.choose("size", [3, (2, 3)])
            got = ck.call("rvs", mod.rvs, *a, size=size, rng=np.random.default_rng(seed))
            u = np.random.default_rng(seed).uniform(size=size)
            ck.eq("default size", np.shape(mod.rvs(*a)), (1,))
        ck.close("draws", got, T(sc.ndtri(u)), 1e-9)
        if impl != "sash":
            Z = np.sinh((np.arcsinh(X) + v) / t)
            raw = [np.sum(WX * (m + s * Z) ** k) for k in (1, 2, 3, 4)]
            mu = raw[0]
            c2, c3, c4 = (np.sum(WX * (m + s * Z - mu) ** k) for k in (2, 3, 4))
            ck.close("raw moments", np.array(ck.call("moments", mod.moments, *a)) / raw_scale(raw), np.array(raw) / raw_scale(raw), 1e-8)
            ck.close("mean", mod.mean(*a), mu, 1e-8)
            ck.close("variance", mod.variance(*a), c2, 1e-7)
            ck.close("median", mod.median(*a), T(0.0), 1e-10)
            ck.close("skewness", mod.skew(*a), c3 / c2 ** 1.5, 1e-6)
            ck.close("kurtosis", mod.kurt(*a), c4 / c2 ** 2, 1e-6)
            for q in (0.5, 1.0, 2.0, 4.0):
                ck.close("power moments", mod.P(q), np.sum(WX * np.cosh(q * np.arcsinh(X))), 1e-9)
            if impl == "shash1":
                ck.close("central skewness", mod.skewness(*a), c3 / c2 ** 1.5, 1e-6)
                ck.close("excess kurtosis", mod.excess_kurtosis(*a), c4 / c2 ** 2 - 3, 1e-6)
        ck.outcome(impl, m, s, v, t)
    rep.explore("distribution", dist)

    def skewd(ck):
        m, s, v = ck.choose("m", PAR["m"]), ck.choose("s", PAR["s"]), ck.choose("v", [0.6, -2.0, 5.0, -0.2])
        d = st.skewnorm(v, m, s)
        a, b, c = d.stats(moments="mvs")
        ck.close("moments", [sk._mean(m, s, v), sk._variance(m, s, v), sk._skewness(m, s, v)], [float(a), float(b), float(c)], 1e-7)
        size = ck.choose("size", [None, 5, (2, 3)])
        seed = ck.choose("seed", [1, 2])
        x = ck.call("rvs", sk._rvs, size, m, s, v, np.random.default_rng(seed))
        ck.eq("reproducible", sk._rvs(size, m, s, v, np.random.default_rng(seed)), x)
        ck.eq("size", np.shape(x), (1,) if size is None else np.shape(np.empty(size)))

        # the transform of two normal draws: |z1| and z2 weigh in with the correlation
        class Two:
            def __init__(self, *z):
                self.z = list(z)

            def normal(self, loc=0.0, scale=1.0, size=None):
                return loc + scale * self.z.pop(0)
        z1 = np.array([-1.2, 0.4, 2.0, -0.3])
        z2 = np.array([0.3, -0.8, 1.5, -2.0])
        dl = v / np.sqrt(1 + v * v)
        got = ck.call("rvs", sk._rvs, 4, m, s, v, Two(z1, z2))
        eps = np.where(z1 >= 0, 1, -1) * z2
        ck.close("draws", got, m + s * (dl * np.abs(z1) + np.sqrt(1 - dl * dl) * eps), 1e-12)
    rep.explore("skew normal distribution", skewd)


def raw_scale(raw):
    return np.array([1.0, raw[1], abs(raw[2]) + raw[1] ** 1.5, raw[3]])
