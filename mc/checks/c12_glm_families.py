"""C12: links are inverse pairs with exact derivatives and families are the
distributions they are named after, in every package, for every link, weight,
dispersion and calling convention."""
import importlib

import numpy as np
import pandas as pd
import scipy.special as scs
import scipy.stats as st

from mc.lib import numdiff

# reference links: (inverse link, domain of mu, points of mu)
POS = np.array([0.05, 0.3, 0.9, 1.0, 2.5, 7.0])
UNIT = np.array([0.02, 0.2, 0.5, 0.63, 0.9, 0.985])
REAL = np.array([-3.0, -0.4, 0.2, 1.0, 5.0])
LINKS = {
    "Identity": ((), lambda m: m, REAL, lambda m: 1.0 + 0 * m),
    "Logit": ((), lambda m: np.log(m) - np.log1p(-m), UNIT, lambda m: np.minimum(m, 1 - m)),
    "Probit": ((), lambda m: scs.ndtri(m), UNIT, lambda m: np.minimum(m, 1 - m)),
    "Log": ((), np.log, POS, lambda m: m),
    "Reciprocal": ((), lambda m: 1 / m, POS, lambda m: m),
    "Cloglog": ((), lambda m: np.log(-np.log1p(-m)), UNIT, lambda m: np.minimum(m, 1 - m)),
    "LogComplement": ((), lambda m: np.log1p(-m), UNIT, lambda m: 1 - m),
}
for a in (-2, -1, 0, 0.5, 1, 2, 3.0):
    LINKS[f"Power({a})"] = ((a,), (lambda m, a=a: np.log(m) if a == 0 else m ** float(a)), POS, lambda m: m)
for k in (0.4, 1.0, 2.5):
    LINKS[f"NegativeBinomial({k})"] = ((k,), (lambda m, k=k: np.log(m / (m + 1 / k))), POS, lambda m: m)

INV = {   # inverse links written independently
    "Identity": lambda e: e, "Logit": scs.expit, "Probit": scs.ndtr, "Log": np.exp, "Reciprocal": lambda e: 1 / e,
    "Cloglog": lambda e: -np.expm1(-np.exp(e)), "LogComplement": lambda e: -np.expm1(e),
}

FAMS = {   # family -> (links, mu points, y points for a mu, uses dispersion)
    "Gaussian": ["Identity", "Log", "Reciprocal", "Power(2)"],
    "InverseGaussian": ["Power(-2)", "Log", "Identity", "Reciprocal"],
    "Gamma": ["Reciprocal", "Log", "Identity", "Power(0.5)"],
    "NegativeBinomial": ["Log", "Identity", "Power(0.5)"],
    "Poisson": ["Log", "Identity", "Power(0.5)"],
    "Binomial": ["Logit", "Probit", "Cloglog", "LogComplement", "Log", "Identity"],
}


def make_link(mod, name):
    cls, _, arg = name.partition("(")
    c = getattr(mod, cls + "Link")
    return c(*[float(v) if "." in v else int(v) for v in arg.rstrip(")").split(",")]) if arg else c()


def grid(fam):
    mu = {"Gaussian": np.array([0.4, 1.0, 2.5])}.get(fam, np.array([0.3, 1.0, 2.7]))
    if fam == "Binomial":
        mu = np.array([0.15, 0.5, 0.82])
        y = np.array([0.0, 0.25, 0.5, 1.0])
    elif fam in ("Poisson", "NegativeBinomial"):
        y = np.array([0.0, 1.0, 2.0, 5.0])
    else:
        y = np.array([0.2, 1.0, 1.9, 4.0])
    return [v.ravel() for v in np.meshgrid(y, mu, indexing="ij")]


def refnll(fam, y, mu, w, phi, k):
    """negative log density of one observation with prior weight w"""
    if fam == "Gaussian":
        return -st.norm.logpdf(y, mu, np.sqrt(phi / w))
    if fam == "Gamma":
        return -st.gamma.logpdf(y, w / phi, scale=mu * phi / w)
    if fam == "InverseGaussian":
        lam = w / phi
        return -st.invgauss.logpdf(y, mu / lam, scale=lam)
    if fam == "Poisson":
        return -w * st.poisson.logpmf(y, mu)
    if fam == "NegativeBinomial":
        return -w * st.nbinom.logpmf(y, 1 / k, 1 / (1 + k * mu))
    return -st.binom.logpmf(np.round(w * y), w, mu)


def refvar(fam, mu, k):
    return {"Gaussian": 1 + 0 * mu, "Gamma": mu ** 2, "InverseGaussian": mu ** 3, "Poisson": mu,
            "NegativeBinomial": mu + k * mu ** 2, "Binomial": mu * (1 - mu)}[fam]


def refdev(fam, y, mu, k):
    xl = scs.xlogy
    if fam == "Gaussian":
        return (y - mu) ** 2
    if fam == "Gamma":
        return 2 * ((y - mu) / mu - np.log(y / mu))
    if fam == "InverseGaussian":
        return (y - mu) ** 2 / (y * mu ** 2)
    if fam == "Poisson":
        return 2 * (xl(y, y / mu) - (y - mu))
    if fam == "NegativeBinomial":
        return 2 * (xl(y, y / mu) - (y + 1 / k) * np.log((1 + k * y) / (1 + k * mu)))
    return 2 * (xl(y, y / mu) + xl(1 - y, (1 - y) / (1 - mu)))


def run(rep, tier):
    big = tier == "thorough"
    pk = {p: (importlib.import_module(f"pystatsm.{p}.links"), importlib.import_module(f"pystatsm.{p}.families"))
          for p in ("pyglm", "pyglm2", "pylmm")}
    rep.assumptions += [
        "links are judged at means inside their domain; |eta| where exp overflows is out of scope",
        "weights follow the exponential-family convention: phi is divided by the weight (counts of trials for Binomial)",
        "pylmm.families keeps deviance-scaled likelihoods and is judged on variances, deviances and score/curvature consistency",
    ]

    def links(ck):
        p = ck.choose("package", list(pk))
        name = ck.choose("link", list(LINKS))
        form = ck.choose("payload", ["array", "scalar", "column", "series"])
        L = ck.must("construct", make_link, pk[p][0], name)
        _, f, mus, dist = LINKS[name]
        extra = np.exp(np.linspace(-6, 4, 11)) if mus is POS else np.linspace(.003, .997, 15) if mus is UNIT else np.linspace(-30, 30, 11)
        if big:
            mus = np.concatenate([mus, extra])
        if form == "scalar":
            i = ck.choose("point", range(len(mus)))
            mu = mus[i]
            d = numdiff.derivs(f, mus[i:i + 1], 0.35 * dist(mus[i:i + 1]))
            d = [v[0] for v in d]
        else:
            mu = mus.reshape(-1, 1) if form == "column" else pd.Series(mus, index=np.arange(len(mus))[::-1] + 3) if form == "series" else mus
            d = numdiff.derivs(f, mus, 0.35 * dist(mus))
            d = [v.reshape(mu.shape) for v in d]
        keep = np.array(mu)
        eta = d[0]
        e = pd.Series(eta, index=mu.index) if form == "series" else eta
        k = f"{name}/"
        ck.close(k + "link", ck.call(k + "link", L.link, mu), eta, 1e-9)
        ck.close(k + "inv_link", ck.call(k + "inv_link", L.inv_link, e), keep, 1e-9)
        if mus is UNIT or mus is REAL or "Log" in name:      # every real eta is admissible
            if name not in ("LogComplement",):
                ee = np.array([-8.0, -2.0, 0.0, 1.5, 3.0])
                ck.close(k + "link(inv_link)", ck.call(k + "inv_link", lambda v: L.link(L.inv_link(v)), ee), ee, 1e-6)
                if name in INV:
                    ck.close(k + "inv_link values", ck.call(k + "inv_link", L.inv_link, ee), INV[name](ee), 1e-10)
        rel = lambda want: 1e-6   # noqa: E731
        for j, nm in ((1, "dlink"), (2, "d2link"), (3, "d3link"), (4, "d4link")):
            if not hasattr(L, nm) or (p == "pylmm" and j > 1):
                continue
            got = ck.call(k + nm, getattr(L, nm), mu)
            if got is None:
                continue
            if p == "pylmm" and name == "Identity":
                got = got * np.ones_like(keep)
            got = np.asarray(got, float)
            if ck.eq(k + nm + " shape", got.shape, np.shape(keep)):
                sc = np.asarray(dist(keep)) ** j if name != "Identity" else 1.0
                ref = np.maximum(np.abs(d[j]) * sc, 1.0) if name != "Identity" else 1.0
                ck.close(k + nm, got * sc / ref, d[j] * sc / ref, 2e-6)
        # inverse-link derivatives through the inverse function theorem
        g1, g2 = d[1], d[2]
        for nm, want in (("dinv_link", 1 / g1), ("d2inv_link", -g2 / g1 ** 3)):
            got = ck.call(k + nm, getattr(L, nm), e)
            if got is not None:
                got = np.asarray(got, float) * np.ones_like(keep)
                ref = 1 + np.abs(want)
                ck.close(k + nm, got / ref, want / ref, 1e-6)
        ck.eq(k + "argument unchanged", np.array(mu), keep)
        ck.outcome(p, name, form)

    rep.explore("links", links)

    combos = [(f, l) for f, ls in FAMS.items() for l in ls]

    def families(ck):
        p = ck.choose("package", ["pyglm", "pyglm2"])
        fam, link = ck.choose("family/link", combos)
        wkind = ck.choose("weights", ["unit", "scalar", "vector"])
        phi = ck.choose("phi", [1.0, 0.45, 2.2] if not big else [1.0, 0.1, 0.45, 2.2, 6.0])
        disp = ck.choose("dispersion", [1.0, 0.4, 2.5]) if fam == "NegativeBinomial" else 1.0
        if fam == "NegativeBinomial":
            ck.require(phi == 1.0)
        y, mu = grid(fam)
        n = len(y)
        if wkind == "unit":
            w = np.ones(n)
        elif wkind == "scalar":
            w = np.full(n, 4.0)
        else:
            w = np.tile([4.0, 8.0, 12.0], n)[:n]
        warg = w if wkind == "vector" else float(w[0])
        if fam == "Binomial":       # y must be a proportion of w trials
            y = np.round(y * w) / w
        layout = ck.choose("layout", ["array", "series", "column"] if p == "pyglm" else ["array"])
        where = ck.choose("weights given", ["argument", "constructor"]) if p == "pyglm" and wkind != "unit" else "argument"
        L = make_link(pk[p][0], link)
        cls = getattr(pk[p][1], fam)
        F = ck.must("construct", cls, link=L, weights=warg) if where == "constructor" else ck.must("construct", cls, link=L)
        f0 = LINKS[link][1]
        y0, mu0 = y.copy(), mu.copy()
        yy, mm = y, mu
        if layout == "series":
            yy, mm = pd.Series(y, index=np.arange(n)[::-1]), pd.Series(mu, index=np.arange(n)[::-1])
        elif layout == "column":
            yy, mm = y[:, None], mu[:, None]
        K = dict(phi=phi, dispersion=disp)
        W = dict(weights=warg) if where == "argument" and wkind != "unit" else {}
        k = fam + "/"
        V = refvar(fam, mu, disp)
        quasi = fam in ("Poisson", "Binomial") and phi != 1.0

        def per(m):         # per-observation reference nll, as a function of the mean
            r = refnll(fam, y, m, w, phi, disp)
            return r

        # density
        if not quasi:
            ref = per(mu)
            ck.close(k + "full_loglike", ck.call(k + "full_loglike", F.full_loglike, yy, mu=mm, **K, **W), ref.sum(), 1e-9)
            got = ck.call(k + "_full_loglike", F._full_loglike, yy if fam == "Gaussian" and False else y, mu=mu, **K, **W)
            if got is not None:
                ck.close(k + "_full_loglike", np.broadcast_to(got, ref.shape), ref, 1e-9)
            a = ck.call(k + "loglike", F.loglike, yy, mu=mm, **K, **W)
            b = ck.call(k + "loglike", F.loglike, y, mu=mu * 0 + mu[::-1], **K, **W)
            if a is not None and b is not None:
                ck.close(k + "loglike differs from full by a constant in mu", a - b, (per(mu) - per(mu[::-1])).sum(), 1e-8)
        # score and curvature in eta
        h = 0.3 * np.minimum(mu, 1 - mu) if fam == "Binomial" else 0.3 * mu
        g = numdiff.derivs(f0, mu, h)
        eta = g[0]
        wphi = w / phi if fam != "NegativeBinomial" else w
        # d nll / d mu in closed form of an exponential family (all families here)
        gw = -wphi * (y - mu) / V / g[1]
        dV = {"Gaussian": 0 * mu, "Gamma": 2 * mu, "InverseGaussian": 3 * mu ** 2, "Poisson": 1 + 0 * mu,
              "NegativeBinomial": 1 + 2 * disp * mu, "Binomial": 1 - 2 * mu}[fam]
        hw = wphi / (V * g[1] ** 2) * (1 + (y - mu) * (dV / V + g[2] / g[1]))
        ck.close(k + "reference score", numdiff.derivs(per, mu, 0.3 * h, 1)[1] if not quasi else gw * g[1], gw * g[1], 1e-6)
        for nm, want in (("gw", gw), ("hw", hw)):
            ck.close(k + nm, ck.call(k + nm, getattr(F, nm), yy, mm, **K, **W), want.reshape(-1, 1) if False else _sh(want, p, yy), 1e-7)
        r = ck.call(k + "get_ghw", F.get_ghw, yy, mm, **K, **W)
        if r is not None:
            ck.close(k + "get_ghw g", r[0], gw, 1e-7)
            ck.close(k + "get_ghw h", r[1], hw, 1e-7)
        if layout == "array":
            ck.close(k + "get_ehw", ck.call(k + "get_ehw", F.get_ehw, yy, mm, **K, **W), wphi / (V * g[1] ** 2), 1e-7)
        # working weight chain (unit weights, phi 1)
        a0 = lambda m: 1 + (y - m) * (_dvar(fam, m, disp) / refvar(fam, m, disp) + _d(f0, m, h, 2) / _d(f0, m, h, 1))   # noqa: E731
        w0 = lambda m: a0(m) / (refvar(fam, m, disp) * _d(f0, m, h, 1) ** 2)   # noqa: E731
        inv = lambda e: make_inv(link)(e)   # noqa: E731
        if wkind == "unit" and phi == 1.0:
            wt = dict(dispersion=disp)
            ck.close(k + "get_a", ck.call(k + "get_a", F.get_a, yy, mm, **wt), a0(mu), 1e-7)
            ck.close(k + "get_w", ck.call(k + "get_w", F.get_w, yy, mm, **wt), w0(mu), 1e-7)
            ok = np.abs(a0(mu)) > 0.05
            ck.close(k + "get_g", np.asarray(ck.call(k + "get_g", F.get_g, yy, mm, **wt))[ok], (g[1] / a0(mu))[ok], 1e-6)
            da = numdiff.derivs(a0, mu, 0.25 * h, 2)
            ck.close(k + "da_dmu", ck.call(k + "da_dmu", F.da_dmu, yy, mm, **wt), da[1], 2e-5)
            ck.close(k + "d2a_dmu2", ck.call(k + "d2a_dmu2", F.d2a_dmu2, yy, mm, **wt), da[2], 2e-4)
            dm = numdiff.derivs(w0, mu, 0.25 * h, 2)
            m1 = 1 / g[1]
            m2 = -g[2] / g[1] ** 3
            w1, w2 = dm[1] * m1, dm[2] * m1 ** 2 + dm[1] * m2
            for nm, want, tol in (("dw_deta", w1, 2e-5), ("d2w_deta2", w2, 5e-4)):
                got = ck.call(k + nm, getattr(F, nm), yy, mm, **wt)
                if got is not None:
                    ck.close(k + nm, np.asarray(got)[ok], want[ok], tol)
        # variance function and its derivatives
        ck.close(k + "var_func", ck.call(k + "var_func", F.var_func, mu=mu, dispersion=disp), V, 1e-10)
        dv = numdiff.derivs(lambda m: refvar(fam, m, disp), mu, 0.5 * h)
        for j, nm in enumerate(("dvar_dmu", "d2var_dmu2", "d3var_dmu3", "d4var_dmu4"), 1):
            got = ck.call(k + nm, getattr(F, nm), mu, dispersion=disp)
            if got is not None:
                ck.close(k + nm, np.broadcast_to(got, mu.shape), dv[j], 1e-4 if j < 4 else 1e-2)
        if p == "pyglm2":
            for o in range(5):
                t = ck.call(k + "var_derivs", F.var_derivs, mu, disp, o)
                if t is not None:
                    t = (t,) if o == 0 else t
                    ck.eq(k + "var_derivs length", len(t), o + 1)
                    for j in range(min(o + 1, len(t))):
                        ck.close(k + "var_derivs", t[j], dv[j], 1e-4 if j < 4 else 1e-2)
            ck.close(k + "variance", ck.call(k + "variance", F.variance, mu, weights=warg, **K), V * phi / w, 1e-9)
        else:
            ck.close(k + "variance", ck.call(k + "variance", F.variance, mu=mu, **K), V * phi, 1e-9)
        # residuals and deviance
        D = w * refdev(fam, y, mu, disp)
        got = ck.call(k + "deviance", F.deviance, yy, mu=mm, **K, **W)
        ck.close(k + "deviance", got, D, 1e-9)
        ck.close(k + "pearson_resid", ck.call(k + "pearson_resid", F.pearson_resid, yy, mu=mm, **K, **W), _sh(np.sqrt(w / V) * (y - mu), p, yy), 1e-9)
        ck.close(k + "pearson_chi2", ck.call(k + "pearson_chi2", F.pearson_chi2, yy, mu=mm, **K, **W), np.sum(w * (y - mu) ** 2 / V), 1e-9)
        ck.close(k + "deviance_resid", ck.call(k + "deviance_resid", F.deviance_resid, y, mu=mu, **K, **W), np.sign(y - mu) * np.sqrt(np.abs(D)), 1e-6)
        if wkind == "unit":
            ck.close(k + "signed_resid", ck.call(k + "signed_resid", F.signed_resid, y, mu=mu, **K), np.sign(y - mu) * np.sqrt(np.abs(D)), 1e-6)
        # dispersion derivatives (log scale)
        if fam in ("Gaussian", "Gamma", "InverseGaussian", "NegativeBinomial"):
            t0 = np.log(disp if fam == "NegativeBinomial" else phi)
            ft = (lambda t: refnll(fam, y, mu, w, phi, np.exp(t))) if fam == "NegativeBinomial" else (lambda t: refnll(fam, y, mu, w, np.exp(t), disp))
            dt = numdiff.derivs(ft, np.full(n, t0), 0.3, 2)
            for nm, want in (("dtau", dt[1]), ("d2tau", dt[2])):
                ck.close(k + nm, ck.call(k + nm, getattr(F, nm), t0, yy, mm, reduce=False, **W), _sh(want, p, yy), 1e-6)
                ck.close(k + nm + " reduced", ck.call(k + nm, getattr(F, nm), t0, y, mu, **W), want.sum(), 1e-6)
        if fam in ("Gaussian", "Gamma", "InverseGaussian") and wkind == "unit":
            ls = lambda q: np.array([refnll(fam, y, mu, 1.0, v, 1.0).sum() - refdev(fam, y, mu, 1.0).sum() / (2 * v) for v in np.ravel(q)])   # noqa: E731
            dl = numdiff.derivs(ls, np.array([phi]), 0.3 * phi, 2)
            for nm, want in (("llscale", dl[0]), ("dllscale", dl[1]), ("d2llscale", dl[2])):
                ck.close(k + nm, ck.call(k + nm, getattr(F, nm), phi, y), want[0], 1e-6)
        # the same mean through other parameterisations
        if p == "pyglm":
            e = pd.Series(eta, index=yy.index) if layout == "series" else eta.reshape(mm.shape)
            ck.close(k + "by eta", ck.call(k + "by eta", F.deviance, yy, eta=e, **K, **W), D, 1e-8)
            T = ck.call(k + "canonical_parameter", F.canonical_parameter, mu, dispersion=disp)
            if T is not None:
                ck.close(k + "mean_func", ck.call(k + "mean_func", F.mean_func, T, dispersion=disp), mu, 1e-9)
                cp = numdiff.derivs(lambda m: F.canonical_parameter(m, dispersion=disp), mu, h, 2)
                ck.close(k + "canonical derivative is 1/V", cp[1], 1 / V, 1e-6)
                ck.close(k + "d2canonical", ck.call(k + "d2canonical", F.d2canonical, mu, dispersion=disp), cp[2], 1e-5)
                cb = numdiff.derivs(lambda t: F.cumulant(t, dispersion=disp), T, 0.3 * np.abs(T) if fam in ("Gamma", "InverseGaussian", "NegativeBinomial") else 0.3, 2)
                ck.close(k + "cumulant gives mean and variance", np.array(cb[1:]), np.array([mu, V]), 1e-6)
        # quantiles
        if wkind == "unit" and p == "pyglm2" or (p == "pyglm" and layout == "array" and wkind == "unit"):
            qs = np.tile([0.1, 0.35, 0.5, 0.77, 0.93], n)[:n]
            dist = {"Gaussian": lambda: st.norm(mu, np.sqrt(phi)), "Gamma": lambda: st.gamma(1 / phi, scale=mu * phi),
                    "InverseGaussian": lambda: st.invgauss(mu * phi, scale=1 / phi), "Poisson": lambda: st.poisson(mu),
                    "NegativeBinomial": lambda: st.nbinom(1 / disp, 1 / (1 + disp * mu)), "Binomial": lambda: st.binom(1, mu)}[fam]()
            kw = dict(phi=phi) if fam in ("Gaussian", "Gamma", "InverseGaussian") else dict(dispersion=disp) if fam == "NegativeBinomial" else {}
            ck.close(k + "ppf", ck.call(k + "ppf", F.ppf, qs, mu, **kw), dist.ppf(qs), 1e-7)
        ck.eq(k + "arguments unchanged", np.r_[np.ravel(yy), np.ravel(mm)], np.r_[y0, mu0])
        ck.outcome(p, fam, link, wkind, phi, disp, layout, where)

    rep.explore("families", families)

    def legacy(ck):
        fam, link = ck.choose("family/link", combos)
        wkind = ck.choose("weights", ["unit", "vector"])
        phi = ck.choose("phi", [1.0, 2.2])
        y, mu = grid(fam)
        n = len(y)
        w = np.ones(n) if wkind == "unit" else np.tile([4.0, 8.0, 12.0], n)[:n]
        if fam == "Binomial":
            y = np.round(y * w) / w
        F = ck.must("construct", getattr(pk["pylmm"][1], fam), link=make_link(pk["pylmm"][0], link), weights=w)
        f0 = LINKS[link][1]
        h = 0.3 * np.minimum(mu, 1 - mu) if fam == "Binomial" else 0.3 * mu
        g = numdiff.derivs(f0, mu, h)
        V, k = refvar(fam, mu, 1.0), fam + "/"
        dV = _dvar(fam, mu, 1.0)
        ck.close(k + "var_func", ck.call(k + "var_func", F.var_func, mu=mu), V, 1e-10)
        ck.close(k + "deviance", ck.call(k + "deviance", F.deviance, y, mu=mu), w * refdev(fam, y, mu, 1.0), 1e-9)
        ck.close(k + "gw", ck.call(k + "gw", F.gw, y, mu, phi=phi), -w / phi * (y - mu) / V / g[1], 1e-7)
        ck.close(k + "hw", ck.call(k + "hw", F.hw, y, mu, phi=phi), w / phi / (V * g[1] ** 2) * (1 + (y - mu) * (dV / V + g[2] / g[1])), 1e-7)
        ck.close(k + "dlink", ck.call(k + "dlink", F.dlink, mu) * np.ones(n), g[1], 1e-7)
        ck.close(k + "d2link", ck.call(k + "d2link", F.d2link, mu), g[2], 1e-6)
        ck.close(k + "mean_func", ck.call(k + "mean_func", lambda: F.mean_func(F.canonical_parameter(mu))), mu, 1e-9)
        ck.close(k + "pearson_resid", ck.call(k + "pearson_resid", F.pearson_resid, y, mu=mu), (y - mu) / np.sqrt(V), 1e-9)
        c = 2.0 if fam in ("Gaussian", "InverseGaussian") else 1.0       # deviance scale of the two normal-like families
        if not (fam in ("Poisson", "Binomial") and phi != 1.0) and not (fam == "NegativeBinomial" and phi != 1.0):
            for how in ("mu", "eta", "T"):
                kw = {how: mu if how == "mu" else g[0] if how == "eta" else F.canonical_parameter(mu)}
                ref = c * refnll(fam, y, mu, w, phi, 1.0)
                ck.close(k + "_full_loglike", ck.call(k + "_full_loglike", F._full_loglike, y, scale=phi, **kw), ref, 1e-8)
                ck.close(k + "full_loglike", ck.call(k + "full_loglike", F.full_loglike, y, scale=phi, **kw), ref.sum(), 1e-8)
            ck.close(k + "loglike", F.loglike(y, mu=mu, scale=phi) - F.loglike(y, mu=mu[::-1], scale=phi),
                     c * (refnll(fam, y, mu, w, phi, 1.0) - refnll(fam, y, mu[::-1], w, phi, 1.0)).sum(), 1e-8)
        T = F.canonical_parameter(mu)
        cb = numdiff.derivs(F.cumulant, T, 0.3 * np.abs(T) if fam in ("Gamma", "InverseGaussian", "NegativeBinomial") else 0.3, 2)
        ck.close(k + "cumulant", np.array(cb[1:]), np.array([mu, V]), 1e-6)
        ck.close(k + "d2canonical", ck.call(k + "d2canonical", F.d2canonical, mu) * np.ones(n), numdiff.derivs(F.canonical_parameter, mu, h, 2)[2], 1e-5)
        ck.close(k + "signed_resid", ck.call(k + "signed_resid", F.signed_resid, y, mu=mu), np.sign(y - mu) * np.sqrt(np.abs(w * refdev(fam, y, mu, 1.0))), 1e-6)
        for how in ("eta", "T"):
            kw = {how: g[0] if how == "eta" else T}
            ck.close(k + "var_func/" + how, F.var_func(**kw), V, 1e-8)
            ck.close(k + "deviance/" + how, F.deviance(y, **kw), w * refdev(fam, y, mu, 1.0), 1e-7)
            ck.close(k + "pearson/" + how, F.pearson_resid(y, **kw), (y - mu) / np.sqrt(V), 1e-8)
        ck.outcome(fam, link)

    rep.explore("legacy", legacy)

    class Source:
        """records the laws asked for; moments of each law by its textbook formula"""

        def __init__(self):
            self.laws = []

        def _give(self, kind, mean, var, size):
            mean, var = np.broadcast_arrays(np.asarray(mean, float), np.asarray(var, float))
            self.laws.append((kind, mean, var))
            return np.full(mean.shape if size is None else size, 3.0) * (1 + np.arange(mean.size).reshape(mean.shape))

        def normal(self, loc=0.0, scale=1.0, size=None):
            return self._give("Gaussian", loc, np.asarray(scale) ** 2, size)

        def wald(self, mean, scale, size=None):
            return self._give("InverseGaussian", mean, np.asarray(mean) ** 3 / scale, size)

        def gamma(self, shape, scale=1.0, size=None):
            return self._give("Gamma", np.asarray(shape) * scale, np.asarray(shape) * np.asarray(scale) ** 2, size)

        def negative_binomial(self, n, p, size=None):
            n, p = np.asarray(n, float), np.asarray(p, float)
            return self._give("NegativeBinomial", n * (1 - p) / p, n * (1 - p) / p ** 2, size)

        def poisson(self, lam=1.0, size=None):
            return self._give("Poisson", lam, lam, size)

        def binomial(self, n, p, size=None):
            self.n = n
            return self._give("Binomial", np.asarray(n) * p, np.asarray(n) * p * (1 - np.asarray(p)), size)

    def variates(ck):
        p = ck.choose("package", ["pyglm", "pyglm2"])
        fam = ck.choose("family", list(FAMS))
        phi = ck.choose("phi", [1.0, 0.45, 2.2] if fam in ("Gaussian", "InverseGaussian", "Gamma") else [1.0])
        disp = ck.choose("dispersion", [1.0, 0.4, 2.5]) if fam == "NegativeBinomial" else 1.0
        _, mu = grid(fam)
        mu = np.asarray(mu, float)
        n = len(mu)
        w = np.tile([1, 4, 9], n)[:n] if fam == "Binomial" and ck.flag("trials vary") else np.full(n, 5) if fam == "Binomial" else None
        F = ck.must("construct", getattr(pk[p][1], fam), **({} if w is None else dict(weights=w)))
        kw = dict(phi=phi) if fam in ("Gaussian", "InverseGaussian", "Gamma") else dict(dispersion=disp) if fam == "NegativeBinomial" else {}
        keep = mu.copy()
        src = Source()
        y = ck.must("variates", F.rvs, mu, rng=src, **kw)
        c = 1.0 if w is None else w
        if ck.eq("one law", [l[0] for l in src.laws], [fam]):
            _, m, v = src.laws[0]
            ck.close("mean", m / c, mu, 1e-10)
            ck.close("variance", v / c ** 2, refvar(fam, mu, disp) * phi / c, 1e-10)
            ck.close("value", y * c, 3.0 * (1 + np.arange(n)), 1e-12)
        ck.eq("same seed", F.rvs(mu, seed=4, **kw), F.rvs(mu, rng=np.random.default_rng(4), **kw))
        ck.expect("other seed", not np.array_equal(F.rvs(mu, seed=4, **kw), F.rvs(mu, seed=5, **kw)))
        ck.eq("argument unchanged", mu, keep)
        ck.outcome(p, fam, phi, disp)

    rep.explore("variates", variates)


def _sh(v, p, yy):
    """pyglm flattens columns"""
    return v


def _d(f, m, h, j):
    return numdiff.derivs(f, m, 0.5 * h, j)[j]


def _dvar(fam, mu, k):
    return {"Gaussian": 0 * mu, "Gamma": 2 * mu, "InverseGaussian": 3 * mu ** 2, "Poisson": 1 + 0 * mu,
            "NegativeBinomial": 1 + 2 * k * mu, "Binomial": 1 - 2 * mu}[fam]


def make_inv(link):
    return INV.get(link)
