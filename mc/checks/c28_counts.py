"""C28: zero-inflated, negative binomial and beta regressions against their own densities."""
import contextlib
import io

import numpy as np
import pandas as pd
import scipy.stats as st
from scipy.special import gammaln, expit, ndtr

from mc.lib import fitstats, numdiff

MEAN = {"Log": np.exp, "Identity": lambda e: e, "Sqrt": lambda e: e ** 2}
UNIT = {"Logit": expit, "Probit": ndtr, "Cloglog": lambda e: -np.expm1(-np.exp(e))}


PSEUDO = dict(PseudoR2_CS="R2_CS", PseudoR2_N="R2_NK", PseudoR2_MCF="R2_MC", PseudoR2_MCFA="R2_MB", PseudoR2_MFA="R2_AN")


def _design(kind):
    x = np.array([-0.8, 0.3, 1.1, 0.4, -0.5, 0.9])
    z = np.array([0.5, -1.0, 0.2, 1.2, -0.3, 0.7])
    o = np.ones(6)
    return {"1/1": (o[:, None], o[:, None]), "x/1": (np.c_[o, x], o[:, None]), "1/z": (o[:, None], np.c_[o, z]),
            "xz/z": (np.c_[o, x, z], np.c_[o, z]), "x/z": (np.c_[o, x], np.c_[o, z])}[kind]


def zip_ll(par, X, Z, y, w, f, g):
    mu, om = f(X @ par[:X.shape[1]]), g(Z @ par[X.shape[1]:])
    lp = y * np.log(mu) - mu - gammaln(y + 1)
    return w * np.where(y == 0, np.log(om + (1 - om) * np.exp(-mu)), np.log1p(-om) + lp)


def nb_lpmf(y, mu, k):
    a = 1 / k
    return gammaln(y + a) - gammaln(a) - gammaln(y + 1) + y * np.log(k * mu) - (y + a) * np.log1p(k * mu)


def zinb_ll(par, X, Z, y, w, f, g):
    p = X.shape[1]
    mu, om, k = f(X @ par[:p]), g(Z @ par[p:-1]), np.exp(par[-1]) / w
    lp = nb_lpmf(y, mu, k)
    return np.where(y == 0, np.log(om + (1 - om) * np.exp(lp)), np.log1p(-om) + lp)


def beta_ll(par, X, Z, y, f, g):
    mu, ph = f(X @ par[:X.shape[1]]), g(Z @ par[X.shape[1]:])
    a, b = mu * ph, (1 - mu) * ph
    return gammaln(ph) - gammaln(a) - gammaln(b) + (a - 1) * np.log(y) + (b - 1) * np.log1p(-y)


def hess(f, x, h=6e-3):
    """second derivatives of a scalar function through sixth-order differences"""
    return numdiff.grad(lambda t: numdiff.grad(f, t, h), x, h)


def run(rep, tier):
    from pystatsm.pyglm.zimodels import ZIP
    from pystatsm.pyglm.betareg import BetaReg
    from pystatsm.pyglm.nb2 import NegativeBinomial as NB2
    from pystatsm.pyglm import links as l1
    from pystatsm.pyglm2 import links as l2
    from pystatsm.pyglm2.zinf import ZeroInflatedPoisson, ZeroInflatedNBinom

    big = tier == "thorough"
    vals = [0, 1, 4] if big else [0, 3]
    nrow = 6 if big else 5
    rep.assumptions += ["derivatives from sixth-order differences of the densities written out here",
                        f"counts: every vector over {vals} of length {nrow}; linear predictors of moderate size"]

    def link(mod, nm):
        return mod.PowerLink(0.5) if nm == "Sqrt" else getattr(mod, nm + "Link")()

    def counts(ck):
        y = np.array([ck.choose(f"y{i}", vals) for i in range(nrow)], float)
        return y

    def weights(ck, n):
        k = ck.choose("weights", ["none", "integers", "fractions"])
        return k, {"none": np.ones(n), "integers": np.arange(n) % 3 + 1.0, "fractions": 0.4 + 0.35 * (np.arange(n) % 4)}[k]

    def point(ck, X, Z, extra=0, pos=False):
        s = ck.choose("point", [0, 1, 2] if big else [0, 1])
        b = np.array([[1.2, 0.3, -0.2], [0.8, 0.2, 0.15], [2.4, -0.5, 0.4]][s][:X.shape[1]]) if pos else \
            np.array([[0.0, 0.0, 0.0], [0.7, -0.4, 0.3], [2.2, 0.6, -0.5]][s][:X.shape[1]])
        a = np.array([[0.0, 0.0], [-0.8, 0.5], [1.1, -0.9]][s][:Z.shape[1]])
        e = np.array([[-0.6], [0.4], [-2.0]][s][:extra])
        return np.r_[b, a, e]

    def zip1(ck):
        d = ck.choose("design", ["1/1", "x/z", "x/1", "xz/z"])
        X, Z = (A[:nrow] for A in _design(d))
        y = counts(ck)
        par = point(ck, X, Z)
        cont = ck.choose("container", ["array", "frame"])
        kw = (X, y, None if d.endswith("/1") else Z)
        if cont == "frame":
            kw = (pd.DataFrame(X, columns=[f"c{i}" for i in range(X.shape[1])]), pd.DataFrame({"y": y}),
                  None if d.endswith("/1") else pd.DataFrame(Z, columns=[f"d{i}" for i in range(Z.shape[1])]))
        m = ck.call("init", ZIP, *kw)
        f = lambda t: -zip_ll(t, X, Z, y, np.ones(nrow), np.exp, expit).sum()
        ck.close("zip1/loglike", ck.call("loglike", m.loglike, par), f(par), 1e-11)
        ck.close("zip1/gradient", ck.call("gradient", m.gradient, par), numdiff.grad(f, par), 1e-7)
        ck.close("zip1/hessian", ck.call("hessian", m.hessian, par), hess(f, par), 1e-5)
        mean, var = ck.call("predict", m.predict, par)
        k = np.arange(200.0)
        mu, om = np.exp(X @ par[:X.shape[1]]), expit(Z @ par[X.shape[1]:])
        pm = (1 - om[:, None]) * st.poisson(mu[:, None]).pmf(k)
        pm[:, 0] += om
        ck.close("zip1/mean", mean, pm @ k, 1e-9)
        ck.close("zip1/variance", var, pm @ k ** 2 - (pm @ k) ** 2, 1e-8)
        new = ck.call("predict", m.predict, par, X[:2] * 0.5, Z[:2] * 0.5)
        ck.close("zip1/new rows", new[0], np.exp(X[:2] @ par[:X.shape[1]] / 2) * (1 - expit(Z[:2] @ par[X.shape[1]:] / 2)), 1e-11)

    def large1(ck):
        """derivatives of the legacy model at large means"""
        y = np.array([ck.choose(f"y{i}", [0, 900]) for i in range(4)], float)
        X, Z = (A[:4] for A in _design(ck.choose("design", ["1/1", "x/z"])))
        par = np.r_[[6.8, 0.1][:X.shape[1]], [-0.5, 0.8][:Z.shape[1]]]
        m = ZIP(X, y, Z)
        f = lambda t: -zip_ll(t, X, Z, y, np.ones(4), np.exp, expit).sum()
        ck.close("large/loglike", ck.call("loglike", m.loglike, par), f(par), 1e-10)
        ck.close("large/gradient", ck.call("gradient", m.gradient, par), numdiff.grad(f, par, 1e-3), 1e-6)
        ck.close("large/hessian", ck.call("hessian", m.hessian, par), hess(f, par, 2e-3), 1e-5)

    def second(cls, tag, ll, extra):
        def body(ck):
            fl = ck.choose("link", list(MEAN))
            gl = ck.choose("zero link", list(UNIT))
            d = ck.choose("design", ["x/z", "1/z"] if (fl, gl) != ("Log", "Logit") else ["1/1", "x/1", "1/z", "xz/z"])
            X, Z = (A[:nrow] for A in _design(d))
            y = counts(ck)
            wk, w = weights(ck, nrow)
            par = point(ck, X, Z, extra, fl != "Log")
            F, G = MEAN[fl], UNIT[gl]
            kw = dict(weights=None if wk == "none" else w)
            kw["link" if tag == "zip" else "nonzero_link"] = link(l2, fl)
            m = ck.call("init", cls, X=X, Z=Z, y=y, zero_link=link(l2, gl), **kw)
            f = lambda t: -ll(t, X, Z, y, w, F, G)
            want = f(par)
            ck.close(f"{tag}/loglike_i", ck.call("loglike_i", m.loglike_i, par), want, 1e-10)
            ck.close(f"{tag}/loglike", ck.call("loglike", m.loglike, par), want.sum(), 1e-10)
            gi = numdiff.grad(f, par)
            ck.close(f"{tag}/gradient_i", ck.call("gradient_i", m.gradient_i, par), gi.T, 1e-7)
            ck.close(f"{tag}/gradient", ck.call("gradient", m.gradient, par), gi.sum(1), 1e-7)
            Hi = hess(f, par)
            ck.close(f"{tag}/hessian", ck.call("hessian", m.hessian, par), Hi.sum(-1), 1e-5)
            if tag == "zinb":
                ck.close("zinb/hessian_i", ck.call("hessian_i", m.hessian_i, par), np.moveaxis(Hi, -1, 0), 1e-5)
            else:
                we, wp, wep = ck.call("hessian weights", m._hessian_weights, par, m.model_data, m.link, m.zero_link)
                p = X.shape[1]
                ck.close("zip/weights", np.block([[(X.T * we) @ X, (X.T * wep) @ Z], [(Z.T * wep) @ X, (Z.T * wp) @ Z]]), Hi.sum(-1), 1e-5)
        return body

    def beta(ck):
        fl = ck.choose("link", list(UNIT))
        gl = ck.choose("scale link", ["Log", "Identity", "Sqrt"])
        d = ck.choose("design", ["1/1", "x/1", "1/z", "xz/z"])
        X, Z = (A[:4] for A in _design(d))
        y = np.array([ck.choose(f"y{i}", [0.02, 0.4, 0.97] if big else [0.1, 0.8]) for i in range(4)])
        s = ck.choose("point", [0, 1])
        par = np.r_[np.array([[0.0, 0.0, 0.0], [0.6, -0.3, 0.2]][s][:X.shape[1]]), np.array([[1.5, 0.2], [2.3, -0.4]][s][:Z.shape[1]])]
        cont = ck.choose("container", ["array", "frame", "series"])
        a = (X, Z, y)
        if cont != "array":
            a = (pd.DataFrame(X), pd.DataFrame(Z), pd.Series(y, name="r") if cont == "series" else pd.DataFrame({"r": y}))
        m = ck.call("init", BetaReg, *a, m_link=link(l1, fl), s_link=link(l1, gl))
        F, G = UNIT[fl], MEAN[gl]
        f = lambda t: -beta_ll(t, X, Z, y, F, G).sum()
        ck.close("beta/loglike_i", ck.call("loglike", m.loglike_elementwise, par), -beta_ll(par, X, Z, y, F, G), 1e-10)
        ck.close("beta/loglike", ck.call("loglike", m.loglike, par), f(par), 1e-10)
        ck.close("beta/gradient", ck.call("gradient", m.gradient, par), numdiff.grad(f, par), 1e-7)
        ck.close("beta/hessian", ck.call("hessian", m.hessian, par), hess(f, par), 1e-5)
        mu, ph = ck.call("predict", m.predict, par)
        ck.close("beta/mean", mu, F(X @ par[:X.shape[1]]), 1e-12)
        ck.close("beta/scale", ph, G(Z @ par[X.shape[1]:]), 1e-12)
        mu, ph = ck.call("predict", m.predict, par, X[:3] * 0.5, Z[:3] * 0.9)
        ck.close("beta/new", [mu, ph], [F(X[:3] @ par[:X.shape[1]] / 2), G(Z[:3] @ par[X.shape[1]:] * 0.9)], 1e-12)

    def nb2(ck):
        d = ck.choose("design", ["1", "x", "x+z"])
        X0, _ = _design({"1": "1/1", "x": "x/1", "x+z": "xz/z"}[d])
        X = X0[:nrow]
        y = counts(ck)
        df = pd.DataFrame(dict(y=y, x=_design("x/1")[0][:nrow, 1], z=_design("1/z")[1][:nrow, 1]))
        m = ck.call("init", NB2, "y ~ " + d.replace("x+z", "x + z"), df)
        par = np.r_[point(ck, X, X[:, :0]), [ck.choose("kappa", [-1.5, 0.0, 1.2])]]
        f = lambda t: -nb_lpmf(y, np.exp(X @ t[:-1]), np.exp(t[-1])).sum()
        ck.close("nb2/loglike", ck.call("loglike", m.loglike, par), f(par), 1e-11)
        ck.close("nb2/gradient", ck.call("gradient", m.gradient, par), numdiff.grad(f, par), 1e-7)
        ck.close("nb2/hessian", ck.call("hessian", m.hessian, par), hess(f, par), 1e-5)
        mu, k = np.exp(X @ par[:-1]), np.exp(par[-1])
        sat = nb_lpmf(y, np.where(y > 0, y, 1e-300), k)
        ck.close("nb2/deviance", ck.call("deviance", m.deviance, par), 2 * (np.where(y > 0, sat, 0.0) - nb_lpmf(y, mu, k)).sum(), 1e-10)
        ck.close("nb2/predict", ck.call("predict", m.predict, None, par), mu, 1e-12)
        ck.close("nb2/new", ck.call("predict", m.predict, X[:2] * 0.5, par), np.sqrt(mu[:2]), 1e-12)

    # ---------------------------------------------------------------- fits
    def data(ck, kind, n, s):
        r = ck.rng("zi", kind, n, s)
        d = pd.DataFrame(dict(x=np.round(r.normal(size=n), 2), z=np.round(r.uniform(-1, 1, n), 2), g=np.tile(list("ab"), n)[:n]))
        mu = np.exp(0.9 + 0.5 * d.x - 0.3 * (d.g == "b"))
        if kind == "beta":
            m = expit(0.3 + 0.8 * d.x)
            ph = np.exp(1.5 + 0.7 * d.z)
            d["y"] = np.clip(np.round(r.beta(m * ph, (1 - m) * ph), 3), 0.004, 0.996)
        else:
            y = r.negative_binomial(1.2, 1.2 / (1.2 + mu)) if kind == "nb" else r.poisson(mu)
            d["y"] = y * (r.random(n) > (0.25 if kind != "plain" else 0)) if kind != "nb" or True else y
        d["w"] = np.tile([1.0, 2.0, 0.5], n)[:n]
        return d

    FORM = {"x": (lambda d: np.c_[np.ones(len(d)), d.x], ["Intercept", "x"]),
            "1": (lambda d: np.ones((len(d), 1)), ["Intercept"]),
            "g + x": (lambda d: np.c_[np.ones(len(d)), d.g == "b", d.x].astype(float), ["Intercept", "g[T.b]", "x"]),
            "z": (lambda d: np.c_[np.ones(len(d)), d.z], ["Intercept", "z"])}

    def information(ck, tag, got, nll, k, n):
        want = dict(aic=2 * nll + 2 * k, aicc=2 * nll + 2 * k * n / (n - k - 1), bic=2 * nll + k * np.log(n), caic=2 * nll + k * (np.log(n) + 1))
        for nm, v in got.items():
            ck.close(f"{tag}/{nm}", v, want[nm], 1e-9)

    def stationary(ck, tag, f, par, cov):
        g = numdiff.grad(f, par, 1e-3)
        ck.close(f"{tag}/optimum", np.sqrt(abs(g @ cov @ g)), 0.0, 2e-3)

    def fit2(ck):
        kind = ck.choose("model", ["zip", "zinb"])
        s = ck.choose("data", list(range(12 if big else 4)))
        n = ck.choose("n", [60, 35] if big else [60])
        a = ck.choose("formula", ["x", "g + x", "1"])
        b = ck.choose("zero formula", ["1", "z"])
        wt = ck.flag("weights")
        d = data(ck, "nb" if kind == "zinb" else "zip", n, s)
        X, Z, y = FORM[a][0](d), FORM[b][0](d), d.y.values.astype(float)
        w = d.w.values if wt else np.ones(n)
        cls, ll = (ZeroInflatedPoisson, zip_ll) if kind == "zip" else (ZeroInflatedNBinom, zinb_ll)
        keep = d.copy()
        m = ck.call("init", cls, "y ~ " + a, "~ " + b, data=d, weights=d.w if wt and ck.flag("series") else (w if wt else None))
        ck.do("fit", m.fit)
        ck.expect("data", keep.equals(d))
        f = lambda t: -ll(t, X, Z, y, w, np.exp, expit).sum()
        par = np.asarray(m.params)
        ck.require(np.abs(par).max() < 6)          # boundary estimates (no zero inflation) have no quadratic optimum
        H = hess(f, par, 3e-3)
        ck.require(np.linalg.eigvalsh(H).min() > 1e-3)
        cov = np.linalg.inv(H)
        stationary(ck, kind, f, par, cov)
        se = np.sqrt(np.diag(cov))
        ck.close(f"{kind}/se", m.params_se, se, 1e-3)
        t = par / se
        ck.close(f"{kind}/table", m.res.values[:, :3], np.c_[par, se, t], 2e-3)
        ck.close(f"{kind}/p", m.res.values[:, 3], 2 * st.t(n - len(par)).sf(abs(par / m.params_se)), 1e-8)
        nm = "Poiss" if kind == "zip" else "NegativeBinomial"
        ck.eq(f"{kind}/labels", list(m.res.index), [(nm, v) for v in FORM[a][1]] + [("Binom", v) for v in FORM[b][1]] + ([(nm, "Scale")] if kind == "zinb" else []))
        ck.close(f"{kind}/llf", m.llf, f(par), 1e-9)
        o = np.ones((n, 1))
        f0 = lambda t: -ll(t, o, o, y, w, np.exp, expit).sum()
        ck.close(f"{kind}/lln", m.lln, f0(np.asarray(m.null_params)), 1e-9)
        ck.close(f"{kind}/null optimum", numdiff.grad(f0, np.asarray(m.null_params), 1e-3), np.zeros(2 + (kind == "zinb")), 2e-2)
        ck.close(f"{kind}/llr", m.llr, 2 * (m.lln - m.llf), 1e-9)
        information(ck, kind, dict(aic=m.aic, aicc=m.aicc, bic=m.bic, caic=m.caic), f(par), len(par), n)
        fitstats.table(ck, f"{kind}/", m.sumstats.iloc[:, 0], -f(par), -m.lln, len(par), n, names={q: q for q in m.sumstats.index if q in fitstats.NAMES})
        if kind == "zinb":
            pr = ck.call("predict", m.predict)
            p = X.shape[1]
            mu, om = np.exp(X @ par[:p]), expit(Z @ par[p:-1])
            ck.close("zinb/mean", pr["mean"], np.c_[mu, om], 1e-9)
            s1 = np.sqrt(np.einsum("ij,jk,ik->i", X, m.params_cov[:p, :p], X))
            s2 = np.sqrt(np.einsum("ij,jk,ik->i", Z, m.params_cov[p:-1, p:-1], Z))
            ck.close("zinb/lp_se", pr["lp_se"], np.c_[s1, s2], 1e-9)
            q = st.norm.ppf(0.975)
            ck.close("zinb/mean ci", np.c_[pr["mu_lower_ci"], pr["mu_upper_ci"]],
                     np.c_[np.exp(X @ par[:p] - q * s1), expit(Z @ par[p:-1] - q * s2), np.exp(X @ par[:p] + q * s1), expit(Z @ par[p:-1] + q * s2)], 1e-8)
            k = np.exp(par[-1])
            nb = st.nbinom(1 / k, 1 / (1 + k * mu))
            ck.close("zinb/interval", np.c_[pr["predicted_lower_ci"], pr["predicted_upper_ci"]], np.c_[nb.ppf(1 - 0.975), nb.ppf(0.975)], 1e-9)

    def fit1(ck):
        s = ck.choose("data", list(range(12 if big else 5)))
        n = ck.choose("n", [60, 35])
        a, b = ck.choose("X", ["x", "g + x", "1"]), ck.choose("Z", ["none", "z"])
        frame = ck.flag("frame")
        d = data(ck, "zip", n, s)
        X, y = FORM[a][0](d), d.y.values.astype(float)
        Z = FORM["1" if b == "none" else b][0](d)
        args = [X, y, None if b == "none" else Z]
        xl = [f"x{i + 1}" for i in range(X.shape[1])]
        zl = ["z"] if b == "none" else ["z1", "z2"]
        if frame:
            xl = list(FORM[a][1])
            args = [pd.DataFrame(X, columns=xl), pd.DataFrame({"y": y}), None if b == "none" else pd.DataFrame(Z, columns=["one", "zz"])]
            zl = ["z"] if b == "none" else ["one", "zz"]
        m = ck.call("init", ZIP, *args)
        opt = dict(gtol=1e-7)
        ck.do("fit", m.fit, opt)
        ck.eq("options", opt, dict(gtol=1e-7))
        f = lambda t: -zip_ll(t, X, Z, y, np.ones(n), np.exp, expit).sum()
        par = np.asarray(m.params)
        ck.require(np.abs(par).max() < 6)
        H = hess(f, par, 3e-3)
        ck.require(np.linalg.eigvalsh(H).min() > 1e-3)
        cov = np.linalg.inv(H)
        stationary(ck, "zip1", f, par, cov)
        se = np.sqrt(np.diag(cov))
        ck.close("zip1/table", m.res.values, np.c_[par, se, par / se, 2 * st.t(n - len(par)).sf(abs(par / se))], 2e-3)
        ck.eq("zip1/labels", list(m.res.index), xl + zl)
        ck.close("zip1/ll", m.ll_model, -f(par), 1e-9)
        information(ck, "zip1", dict(aic=m.aic, aicc=m.aicc, bic=m.bic), f(par), len(par), n)
        o = np.ones((n, 1))
        f0 = lambda t: -zip_ll(t, o, o, y, np.ones(n), np.exp, expit).sum()
        ck.close("zip1/null", m.ll_null, -f0(m.opt_null.x), 1e-9)
        ck.close("zip1/ratio", m.ll_ratio, 2 * (f0(m.opt_null.x) - f(par)), 1e-8)
        fitstats.table(ck, "zip1/", m.sumstats.iloc[:, 0], -f(par), m.ll_null, len(par), n, names=PSEUDO)
        if len(par) > 2:
            ck.close("zip1/ratio p", m.ll_rpval, st.chi2(len(par) - 2).sf(m.ll_ratio), 1e-9)
        mu, om = np.exp(X @ par[:X.shape[1]]), expit(Z @ par[X.shape[1]:])
        yh = mu * (1 - om)
        ck.close("zip1/residuals", [m.resids, m.pearson_resids], [y - yh, (y - yh) / np.sqrt(yh * (1 + mu * om))], 1e-9)

    def fitnb(ck):
        s = ck.choose("data", list(range(12 if big else 5)))
        n = ck.choose("n", [60, 35])
        a = ck.choose("formula", ["x", "g + x", "1"])
        d = data(ck, "nb", n, s)
        X, y = FORM[a][0](d), d.y.values.astype(float)
        keep = d.copy()
        m = ck.call("init", NB2, "y ~ " + a, d)
        opt = {} if ck.flag("options") else None
        ck.do("fit", m.fit, *([] if opt is None else [opt]))
        ck.expect("options", not opt)
        ck.expect("data", keep.equals(d))
        f = lambda t: -nb_lpmf(y, np.exp(X @ t[:-1]), np.exp(t[-1])).sum()
        par = np.asarray(m.params)
        ck.require(np.abs(par).max() < 6)
        cov = np.linalg.inv(hess(f, par, 3e-3))
        stationary(ck, "nb2", f, par, cov)
        se = np.sqrt(np.diag(cov))
        ck.close("nb2/table", m.res.values, np.c_[par, se, par / se, 2 * st.t(n - len(par)).sf(abs(par / se))], 2e-3)
        ck.eq("nb2/labels", list(m.res.index), FORM[a][1] + ["variance"])
        ck.close("nb2/ll", [m.ll_full, m.AIC, m.BIC], [-f(par), 2 * f(par) + 2 * len(par), 2 * f(par) + len(par) * np.log(n)], 1e-8)
        f0 = lambda t: -nb_lpmf(y, np.exp(t[0] + 0 * y), np.exp(t[1])).sum()
        ck.close("nb2/null", m.ll_null, -f0(m.opt_mean.x), 1e-8)
        ck.close("nb2/null optimum", numdiff.grad(f0, m.opt_mean.x, 1e-3), np.zeros(2), 1e-2)
        ck.close("nb2/llr", m.LLR, 2 * (m.ll_full - m.ll_null), 1e-9)
        mu, k, p = np.exp(X @ par[:-1]), np.exp(par[-1]), X.shape[1]
        chi = ((y - mu) ** 2 / (mu + k * mu ** 2)).sum()
        ck.close("nb2/chi2", [m.chi2, m.scchi2, m.chi2_p, m.dev_p], [chi, chi / (n - p), st.chi2(n - p).sf(chi), st.chi2(n - p).sf(m.dev)], 1e-9)
        fitstats.table(ck, "nb2/", m.sumstats["Test_stat"], -f(par), m.ll_null, p, n,
                       names=dict(R2_Cox_Snell="R2_CS", R2_Nagelkerke="R2_NK", R2_McFadden="R2_MC", R2_McFaddenAdj="R2_MB", R2_Aldrich="R2_AN"))
        if p > 1:
            ck.close("nb2/llr p", m.LLRp, st.chi2(p - 1).sf(m.LLR), 1e-9)

    def boot(ck):
        """refitting resampled data leaves the model as fitted"""
        s = ck.choose("data", [0, 1])
        nb = ck.choose("n_boot", [1, 2, 3])
        d = data(ck, "nb", 30, s)
        m = NB2("y ~ x", d)
        X, y, Y = m.X.copy(), m.y.copy(), np.array(m.Y, float)
        np.random.seed(ck.choose("seed", [1, 2]))
        ck.do("bootstrap", m.bootstrap, nb)
        ck.eq("boot/X", m.X, X)
        ck.eq("boot/y", m.y, y)
        ck.eq("boot/Y", np.array(m.Y, float), Y)
        ck.eq("boot/shape", m.beta_samples.shape, (nb, 3))
        ck.close("boot/mean", m.boot_res["mean"].values, m.beta_samples.mean(0), 1e-9)
        f = NB2("y ~ x", d)
        f.fit()
        ck.close("boot/params", m.params, f.params, 1e-12)
        ck.close("boot/loglike", m.loglike(m.params), f.loglike(f.params), 1e-12)

    def fitbeta(ck):
        s = ck.choose("data", list(range(12 if big else 5)))
        n = ck.choose("n", [60, 30])
        a, b = ck.choose("mean", ["x", "g + x", "1"]), ck.choose("scale", ["1", "z"])
        how = ck.choose("input", ["formula", "array"])
        d = data(ck, "beta", n, s)
        X, Z, y = FORM[a][0](d), FORM[b][0](d), d.y.values
        keep = d.copy()
        kw = dict(m_formula="y ~ " + a, s_formula="y ~ " + b, data=d) if how == "formula" else dict(X=X, Z=Z, y=y)
        m = ck.call("init", BetaReg, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            ck.do("fit", m.fit)
        ck.expect("data", keep.equals(d))
        f = lambda t: -beta_ll(t, X, Z, y, expit, np.exp).sum()
        par = np.asarray(m.theta)
        cov = np.linalg.inv(hess(f, par, 3e-3))
        stationary(ck, "beta", f, par, cov)
        se = np.sqrt(np.diag(cov))
        ck.close("beta/table", m.res.values, np.c_[par, se, par / se, 2 * st.t(n - len(par)).sf(abs(par / se))], 2e-3)
        ck.eq("beta/labels", list(m.res.index), FORM[a][1] + FORM[b][1] if how == "formula" else
              [f"x{i + 1}" for i in range(X.shape[1])] + [f"z{i + 1}" for i in range(Z.shape[1])])
        ck.close("beta/llf", m.llf, f(par), 1e-9)
        o = np.ones((n, 1))
        f0 = lambda t: -beta_ll(t, o, o, y, expit, np.exp).sum()
        ck.close("beta/lln", m.lln, f0(m.theta_null), 1e-9)
        ck.close("beta/null optimum", numdiff.grad(f0, m.theta_null, 1e-3), np.zeros(2), 1e-2)
        ck.close("beta/llr", m.llr, 2 * (m.lln - m.llf), 1e-9)
        information(ck, "beta", {q: m.sumstats[q] for q in ("aic", "aicc", "bic", "caic")}, f(par), len(par), n)
        fitstats.table(ck, "beta/", m.sumstats, -f(par), -m.lln, len(par), n, names=PSEUDO)

    rep.explore("zip1", zip1)
    rep.explore("large1", large1)
    rep.explore("zip", second(ZeroInflatedPoisson, "zip", zip_ll, 0))
    rep.explore("zinb", second(ZeroInflatedNBinom, "zinb", zinb_ll, 1))
    rep.explore("beta", beta)
    rep.explore("nb2", nb2)
    rep.explore("fit2", fit2)
    rep.explore("fit1", fit1)
    rep.explore("fitnb", fitnb)
    rep.explore("boot", boot)
    rep.explore("fitbeta", fitbeta)
