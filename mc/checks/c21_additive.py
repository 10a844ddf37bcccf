"""C21: additive models: penalised fits, REML criteria, their derivatives and the reported uncertainty."""
import zlib

import numpy as np
import pandas as pd
import scipy.stats as st

from mc.lib import numdiff

STRUCT = {"one": "s(x, df=5, kind='cr')",
          "two": "u + s(x, df=5, kind='bs') + s(z, df=5, kind='cc')",
          "by": "g + s(x, df=4, kind='cr', by=g)"}
V = {"Gaussian": lambda m: 1 + 0 * m, "Gamma": lambda m: m ** 2, "InverseGaussian": lambda m: m ** 3}
DEV = {"Gaussian": lambda y, m: (y - m) ** 2, "Gamma": lambda y, m: 2 * ((y - m) / m - np.log(y / m)),
       "InverseGaussian": lambda y, m: (y - m) ** 2 / (m ** 2 * y)}
LOGPDF = {"Gaussian": lambda y, m, f: st.norm.logpdf(y, m, np.sqrt(f)),
          "Gamma": lambda y, m, f: st.gamma.logpdf(y, 1 / f, scale=f * m),
          "InverseGaussian": lambda y, m, f: st.invgauss.logpdf(y, m * f, scale=1 / f)}
INV = {"IdentityLink": lambda e: e, "LogLink": np.exp, "ReciprocalLink": lambda e: 1 / e}
PAIRS = [("Gaussian", "IdentityLink"), ("Gamma", "LogLink"), ("InverseGaussian", "LogLink"), ("Gaussian", "LogLink"), ("Gamma", "ReciprocalLink")]


def frame(rng, fam, link, n=36):
    d = pd.DataFrame({"x": np.round(rng.uniform(0, 4, n), 2), "z": np.round(np.linspace(-1, 2, n)[rng.permutation(n)], 3),
                      "u": np.round(rng.normal(size=n), 2), "g": np.array(["b", "a", "a"])[np.arange(n) % 3]})
    e = 0.6 * np.sin(1.5 * d["x"]) + 0.3 * d["z"] + 0.2 * (d["g"] == "b")
    m = 1.4 + e.values * 0.7 if link != "LogLink" else np.exp(0.5 + 0.5 * e.values)
    if link == "ReciprocalLink":
        m = 1 / (1.5 + 0.35 * e.values)
    k = rng.gamma(9, 1 / 9, n)
    d["y"] = np.round(m + 0.3 * rng.normal(size=n), 3) if fam == "Gaussian" else np.round(m * k, 4) + 0.01
    if fam == "Gaussian" and link == "LogLink":
        d["y"] = np.abs(d["y"]) + 0.3
    return d


def fixed(*tag):
    """the data do not follow VERIF_SEED: the smoothing criterion of arbitrary data may have its optimum at infinity or several optima"""
    return np.random.default_rng(zlib.crc32(repr(tag).encode()))


class Ref:
    """penalised likelihood of a design by dense algebra"""

    def __init__(self, fam, link, X, y, S):
        self.fam, self.link, self.X, self.y, self.S = fam, link, X, y, S
        self.ld = []

    def wd(self, eta):
        _, d1, d2 = numdiff.derivs(lambda e: DEV[self.fam](self.y, INV[self.link](e)) / 2, eta, 0.05, 2)
        return d1, d2

    def fit(self, rho, beta):
        P = np.einsum("i,ijk->jk", np.exp(rho), self.S)
        for _ in range(60):
            d1, d2 = self.wd(self.X @ beta)
            g = self.X.T @ d1 + P @ beta
            H = self.X.T @ (d2[:, None] * self.X) + P
            s = np.linalg.solve(H, g)
            beta = beta - s
            if np.abs(s).max() < 1e-12 * (1 + np.abs(beta).max()):
                break
        return beta, g, H, P

    def reml(self, theta, beta0):
        """up to a constant that does not depend on theta"""
        rho, phi = theta[:-1], np.exp(theta[-1])
        beta, _, H, P = self.fit(rho, beta0)
        nll = -LOGPDF[self.fam](self.y, INV[self.link](self.X @ beta), phi).sum()
        lds = 0.0
        for r, Si in zip(rho, self.S):
            w = np.linalg.eigvalsh(Si)
            w = w[w > 1e-9 * w.max()]
            lds += np.sum(np.log(w) + r - np.log(phi))
        return nll + beta @ P @ beta / (2 * phi) + np.linalg.slogdet(H / phi)[1] / 2 - lds / 2


def run(rep, tier):
    from pystatsm.pygam.gam import GAM
    from pystatsm.pygam.gaussian_additive_model import GaussianAdditiveModel
    from pystatsm.pygam.gauls import GauLS, LogbLink
    from pystatsm.pygam.transforms import diagonalize_smooth
    from pystatsm.pyglm import families as F, links as L
    from pystatsm.utilities.optimizer_utils import MemoizeGradHess, MemoizeJac
    big = tier == "thorough"
    rep.assumptions += ["GAM families with a scale parameter (Gaussian, Gamma, inverse Gaussian): the others define no scale likelihood",
                        "criteria are compared up to a constant that does not depend on the smoothing parameters or the scale"]
    rep.warm(lambda: GAM("y ~ " + STRUCT["one"], frame(np.random.default_rng(0), "Gamma", "LogLink"), F.Gamma(link=L.LogLink)))

    def reorder(d, how):
        if how == "reversed":
            return d.iloc[::-1]
        if how == "relabelled":
            return d.iloc[np.argsort(np.arange(len(d)) % 5, kind="stable")].set_axis(np.arange(len(d)) % 4, axis=0)
        return d

    GRID = [-2.0, 1.0, 4.0] if big else [-1.5, 3.0]

    def criteria(ck):
        fam, link = ck.choose("family", PAIRS)
        cls = ck.choose("class", ["GAM", "gaussian"] if fam == "Gaussian" and link == "IdentityLink" else ["GAM"])
        s = ck.choose("smooths", list(STRUCT))
        rows = ck.choose("rows", ["given", "reversed", "relabelled"])
        ns = 1 if s == "one" else 2
        rho = np.array([ck.choose(f"log smoothing {i}", GRID) for i in range(ns)])
        lphi = ck.choose("log scale", [-2.0, 0.3])
        d = reorder(frame(fixed(fam, link), fam, link), rows)
        mod = ck.must("model", lambda: GaussianAdditiveModel("y ~ " + STRUCT[s], d) if cls == "gaussian" else
                      GAM("y ~ " + STRUCT[s], d, getattr(F, fam)(link=getattr(L, link))))
        theta = np.append(rho, lphi)
        lam, phi = np.exp(rho), np.exp(lphi)
        ck.eq("design rows", mod.y, d["y"].values)
        ref = Ref(fam, link, mod.X, mod.y, mod.S)
        out = ck.must("pirls", mod.pirls, lam)
        b0 = out[0]
        beta, g, H, P = ref.fit(rho, b0)
        ck.close("penalised fit is a minimum of the penalised deviance", b0, beta, 1e-5)
        ck.expect("penalised Hessian is positive definite", np.linalg.eigvalsh(H)[0] > 0)
        eta = mod.X @ beta
        ck.close("linear predictor", out[1], eta, 1e-5)
        th0 = np.zeros(ns + 1)
        ck.close("criterion", mod.reml(theta) - mod.reml(th0), ref.reml(theta, beta) - ref.reml(th0, beta), 1e-6)
        ck.close("criterion gradient", mod.gradient(theta), numdiff.grad(lambda t: ref.reml(t, beta), theta, 1e-2), 1e-5)
        ck.close("criterion Hessian", mod.hessian(theta), numdiff.jac(mod.gradient, theta, 1e-2), 2e-4)
        ck.close("Hessian is symmetric", mod.hessian(theta), mod.hessian(theta).T, 1e-7)
        bof = lambda r: ref.fit(r, beta)[0]
        b1 = mod.grad_beta_rho(beta, lam)
        ck.close("coefficient path", b1, numdiff.jac(bof, rho, 1e-2), 1e-6)
        if cls == "GAM":
            ck.close("penalised score", mod.grad_dev_beta(beta * 0.9, P), numdiff.grad(
                lambda b: np.sum(DEV[fam](mod.y, INV[link](mod.X @ b))) / 2 + b @ P @ b / 2, beta * 0.9, 1e-3), 1e-6)
            D2, Dp2 = mod.hess_dev_beta(beta, P)
            ck.close("penalised Hessian", Dp2, H, 1e-6)
            ck.close("unpenalised Hessian", D2, H - P, 1e-6)
            ck.close("second-order coefficient path", np.moveaxis(mod.hess_beta_rho(beta, lam), -1, 0),
                     numdiff.jac(lambda r: mod.grad_beta_rho(bof(r), np.exp(r)), rho, 1e-2), 1e-5)
            ck.close("third-order coefficient path", np.moveaxis(mod.dhess_beta_rho(beta, lam), -1, 2),
                     numdiff.jac(lambda r: mod.hess_beta_rho(bof(r), np.exp(r)), rho, 1e-2), 1e-5)
        else:
            D2 = mod.hess_dev_beta(beta, P)
            ck.close("penalised Hessian", D2, 2 * H, 1e-8)
        ck.outcome(fam, link, cls, s)

    rep.explore("criteria", criteria)

    def fitted(ck):
        fam, link = ck.choose("family", PAIRS)
        cls = ck.choose("class", ["GAM", "gaussian"] if fam == "Gaussian" and link == "IdentityLink" else ["GAM"])
        s = ck.choose("smooths", list(STRUCT))
        approx = ck.choose("approx_hess", [False, True] if cls == "GAM" else [False])
        conf = ck.choose("confint", [95, 80])
        ck.require(big or not (approx and conf == 80))
        d = frame(fixed(fam, link), fam, link)
        mod = ck.must("model", lambda: GaussianAdditiveModel("y ~ " + STRUCT[s], d) if cls == "gaussian" else
                      GAM("y ~ " + STRUCT[s], d, getattr(F, fam)(link=getattr(L, link))))
        ck.must("fit", mod.fit, confint=conf, **(dict(approx_hess=True) if approx else {}))
        th = mod.theta
        rho, phi = th[:-1], np.exp(th[-1])
        lam = np.exp(rho)
        inside = np.append((rho > -8) & (rho < 12), True)
        gr = mod.gradient(th)
        ck.expect("criterion is stationary", np.abs(gr[inside]).max() < 2e-3, lambda: f"gradient {gr} at {th}")
        ref = Ref(fam, link, mod.X, mod.y, mod.S)
        beta, _, H, P = ref.fit(rho, mod.beta)
        ck.close("coefficients", mod.beta, beta, 1e-5)
        ck.close("scale", mod.scale, phi, 1e-12)
        ck.close("penalty", mod.Slambda, P, 1e-9)
        D = H - P
        Vb = np.linalg.inv(H / phi)
        Fm = np.linalg.solve(H, D)
        ck.close("Bayesian covariance", mod.Vb, Vb, 1e-5)
        ck.close("effective degrees of freedom", mod.edf, np.trace(Fm), 1e-5)
        Hs = numdiff.jac(mod.gradient, th, 1e-2)
        if np.linalg.cond(Hs) < 1e5:
            Vp = np.linalg.inv(Hs)
            ck.close("smoothing parameter covariance", mod.Vp, Vp, 1e-3)
        J = mod.grad_beta_rho(beta, lam)
        C = J @ mod.Vp[:-1, :-1] @ J.T
        ck.close("corrected covariance", mod.Vc, Vb + C, 1e-5)
        Vs = np.linalg.solve(H, D) @ np.linalg.inv(H) * phi
        ck.close("frequentist covariance", mod.Vf, Vs + C, 1e-5)
        z = st.norm.ppf(0.5 + conf / 200)
        b = np.concatenate([mod.beta, th])
        se = np.sqrt(np.concatenate([np.diag(mod.Vc), np.diag(mod.Vp)]))
        ck.close("table: estimate", mod.res["param"], b, 1e-9)
        ck.close("table: lower", mod.res[f"CI{conf}-"], b - z * se, 1e-7)
        ck.close("table: upper", mod.res[f"CI{conf}+"], b + z * se, 1e-7)
        ck.close("table: se", mod.res["SE"], se, 1e-7)
        ck.close("table: t", mod.res["t"], b / se, 1e-6)
        ck.close("table: p", mod.res["p"], 2 * st.t(len(mod.y) - mod.edf).sf(np.abs(b / se)), 1e-6)
        ck.eq("table: one row per parameter", len(mod.res), len(b))
        if cls == "GAM":
            ck.close("frequentist covariance at fixed smoothing", mod.Vs, Vs, 1e-5)
            ck.close("influence", mod.F, Fm, 1e-5)
            ck.close("likelihood Hessian", mod.Hbeta, D, 1e-5)
            mu = INV[link](mod.X @ beta)
            ck.close("fitted mean", mod.mu, mu, 1e-6)
            dv, d0 = DEV[fam](mod.y, mu).sum(), DEV[fam](mod.y, mod.y.mean() + 0 * mu).sum()
            ck.close("explained deviance", mod.deviance_explained, 1 - dv / d0, 1e-6)
            ck.close("r squared", mod.rsquared, 1 - np.sum((mod.y - mu) ** 2) / np.sum((mod.y - mod.y.mean()) ** 2), 1e-6)
            nll = -LOGPDF[fam](mod.y, mu, dv / len(mu)).sum()
            ck.close("log-likelihood", mod.ll_model, nll, 1e-6)
            ck.close("aic", mod.aic, 2 * nll + 2 * np.trace(Fm) + 2, 1e-5)
            for k, t in mod.smooths.items():
                ix = t["ix"]
                f = mod.X[:, ix] @ mod.beta[ix]
                Vf_ = mod.X[:, ix] @ Vb[np.ix_(ix, ix)] @ mod.X[:, ix].T
                ck.close("smooth table: edf", mod.res_smooths.loc[k, "edf"], np.trace(Fm[np.ix_(ix, ix)]), 1e-5)
                w = np.linalg.svd(Vf_, compute_uv=False)
                if w[len(ix) - 1] > 1e-7 * w[0]:
                    ck.close("smooth table: chi-square", mod.res_smooths.loc[k, "chisq"], f @ np.linalg.pinv(Vf_, rcond=1e-9) @ f, 1e-4)
                ck.expect("smooth table: rank", abs(mod.res_smooths.loc[k, "rdf"] - mod.res_smooths.loc[k, "edf"]) <= 1)
                ck.close("smooth table: p value", mod.res_smooths.loc[k, "p_approx"],
                         st.chi2.sf(mod.res_smooths.loc[k, "chisq"], mod.res_smooths.loc[k, "rdf"]), 1e-9)
        curves = mod.get_smooth_comps(beta=mod.beta, ci=conf)
        ck.eq("curves", list(curves), list(mod.smooths))
        for k, t in mod.smooths.items():
            x, f, e = curves[k].T
            ck.close("curve range", [x[0], x[-1]], [t["knots"].min(), t["knots"].max()], 1e-12)
            # through the data points: interpolate the column of the design belonging to an equal x
            on = np.flatnonzero(mod.X[:, t["ix"]].any(axis=1))
            ix = t["ix"]
            fx = mod.X[on][:, ix] @ mod.beta[ix]
            ex = z * np.sqrt(np.einsum("ij,jk,ik->i", mod.X[on][:, ix], mod.Vc[np.ix_(ix, ix)], mod.X[on][:, ix]))
            xd = d["z" if k.startswith("z") else "x"].values[on]
            inn = (xd >= x[0]) & (xd <= x[-1])
            sc = np.abs(f).max() + np.abs(e).max()
            ck.close("curve passes through the fitted component", np.interp(xd[inn], x, f), fx[inn], 2e-3, scale=1 + 5 * sc)
            ck.close("band matches the component's uncertainty", np.interp(xd[inn], x, e), ex[inn], 5e-3, scale=1 + 5 * sc)
            if cls == "GAM" and s != "by":
                c2 = mod.get_smooth_comps([k], data=d, ci=conf)[k]
                ck.close("curve at given data", c2[:, 1], mod.X[:, ix] @ mod.beta[ix], 1e-8)
                ck.close("curve at given data: x", c2[:, 0], d[k].values, 0)
                ck.close("band at given data", c2[:, 2][on], ex, 1e-8)
        ck.outcome(fam, link, cls, s)

    rep.explore("fitted additive models", fitted)

    def history(ck):
        """every sequence of queries gives the answers of a fresh model"""
        cls = ck.choose("class", ["GAM", "gaussian", "GauLS"])
        d = frame(fixed("hist"), "Gaussian", "IdentityLink", 24)

        def make():
            if cls == "GAM":
                return GAM("y ~ s(x, df=4)", d, F.Gamma(link=L.LogLink))
            if cls == "gaussian":
                return GaussianAdditiveModel("y ~ s(x, df=4)", d)
            return GauLS("y ~ s(x, df=4)", "y ~ s(z, df=4)", d, weights=np.arange(24) % 3 + 1.0)
        d["y"] = np.round(2 + np.sin(1.8 * d["x"]) + 0.6 * np.exp(-2 * (d["z"] - 0.6) ** 2) * fixed("noise").choice([-1, 1], 24), 3)
        T = [np.array([0.5, -1.0]), np.array([2.5, 0.4])][:2]
        ops = {"reml": lambda m, t: m.reml(t), "gradient": lambda m, t: m.gradient(t), "hessian": lambda m, t: m.hessian(t),
               "beta": lambda m, t: m.beta_rho(t) if cls == "GauLS" else m.pirls(np.exp(t[:-1]))[0],
               "fit": lambda m, t: (m.fit(), np.append(m.beta, m.theta))[1]}
        m = ck.must("model", make)
        for i in range(3):
            o = ck.choose(f"op{i}", list(ops))
            t = T[ck.choose(f"at{i}", [0, 1] if o != "fit" else [0])]
            keep = t.copy()
            got = ops[o](m, t)
            ck.eq("arguments unchanged", t, keep)
            key = (rep.driver_cache if hasattr(rep, "driver_cache") else CACHE)
            k = (cls, o, tuple(t))
            if k not in key:
                key[k] = ops[o](make(), t)
            ck.close(o, got, key[k], 1e-6 if o != "fit" else 2e-2)
        ck.outcome(cls)

    CACHE = {}
    rep.explore("query histories", history)

    # ---- location-scale -------------------------------------------------
    LS = {"plain": ("y ~ s(x, df=4)", "y ~ s(z, df=4)"), "parametric": ("y ~ u + s(x, df=4, kind='bs')", "y ~ u + s(x, df=4)"),
          "two": ("y ~ s(x, df=4) + s(z, df=4, kind='cc')", "y ~ g + s(z, df=4)"), "by": ("y ~ s(x, df=4, by=g)", "y ~ s(x, df=4)")}
    LINKS = {"logb": LogbLink, "log": L.LogLink, "logb1": lambda: LogbLink(0.1)}

    def gls(ck, d, w="w", normalize=True):
        s = ck.choose("formulas", list(LS))
        ml = ck.choose("location link", ["IdentityLink", "LogLink"])
        sl = ck.choose("scale link", list(LINKS))
        ck.require(big or ml == "IdentityLink" or (s == "plain" and sl != "logb"))
        return (lambda data, **k: GauLS(*LS[s], data, m_link=getattr(L, ml), s_link=LINKS[sl]() if sl == "logb1" else LINKS[sl], **k)), ml, sl, s

    minv = {"IdentityLink": lambda e: e, "LogLink": np.exp}
    sinv = {"logb": lambda e: 1 / (np.exp(e) + 0.01), "log": np.exp, "logb1": lambda e: 1 / (np.exp(e) + 0.1)}

    def polish(mod, rho, b):
        P = np.einsum("i,ijk->jk", np.exp(rho), mod.S)
        val = mod.loglike(b) + b @ P @ b / 2
        for _ in range(100):
            H, g = mod.hess_ll_beta(b) + P, mod.grad_ll_beta(b) + P @ b
            u, W = np.linalg.eigh(H)
            step = W @ ((W.T @ g) / np.maximum(np.abs(u), 1e-8))
            t = 1.0
            while True:
                new = b - t * step
                v = mod.loglike(new) + new @ P @ new / 2
                if v <= val + 1e-12 * abs(val):
                    break
                if t < 1e-9:
                    return b
                t /= 2
            b, val = new, v
            if np.abs(step).max() < 1e-11 * (1 + np.abs(b).max()):
                break
        return b

    def locscale(ck):
        d = frame(fixed("ls"), "Gaussian", "IdentityLink", 60)
        d["w"] = np.array([1.0, 2.0, 0.5, 3.0, 0.0])[np.arange(60) % 5]
        make, ml, sl, s = gls(ck, d)
        wt = ck.choose("weights", ["none", "array", "column", "raw"])
        ck.require(big or sl == "logb" or wt in ("none", "column"))
        d = d.copy()
        if ml == "LogLink":
            d["y"] = np.abs(d["y"]) + 0.2
        d.index = np.arange(60)[::-1]
        mod = ck.must("model", make, d, **{"none": {}, "array": dict(weights=d["w"].values.copy()), "column": dict(weights="w"),
                                            "raw": dict(weights=d["w"], weights_normalize=False)}[wt])
        w = {"none": np.ones(60), "raw": d["w"].values}.get(wt, d["w"].values / d["w"].mean())
        nm = mod.m.X.shape[1]
        r = ck.rng("b")
        b = np.concatenate([r.normal(size=nm) * 0.1, r.normal(size=mod.nx - nm) * 0.2])
        b[0] += 0.8

        def nll(b):
            return -np.sum(w * st.norm.logpdf(mod.y, minv[ml](mod.m.X @ b[:nm]), 1 / sinv[sl](mod.s.X @ b[nm:])))
        ck.close("negative log-likelihood", mod.loglike(b), nll(b), 1e-9)
        ck.close("score", mod.grad_ll_beta(b), numdiff.grad(nll, b, 1e-3), 1e-6)
        ck.close("observed information", mod.hess_ll_beta(b), numdiff.jac(mod.grad_ll_beta, b, 1e-3), 1e-6)
        Ls = mod.ll_eta_derivs(b[:nm], b[nm:])
        e = np.eye(mod.nx)
        for k in range(1, 4):
            got = Ls[k]
            for j, col in ((0, 0), (1, nm)):
                def lower(t, k=k, col=col):
                    bb = b + t[0] * e[col]
                    return mod.ll_eta_derivs(bb[:nm], bb[nm:], deriv_order=k)[k - 1]
                nd = numdiff.grad(lower, np.zeros(1), 1e-2)[0]
                ck.close(f"derivatives of order {k + 1}", got[:, j:j + k + 1], nd, 1e-6)
        rho = np.array([ck.choose(f"log smoothing {i}", [1.0, 3.5] if i < 2 else [1.5]) for i in range(mod.ns)])
        lam = np.exp(rho)
        P = mod.get_penalty_mat(lam)
        ck.close("penalty", P, np.einsum("i,ijk->jk", lam, mod.S), 1e-10)
        ck.close("penalised likelihood", mod.penalized_loglike(b, P), nll(b) + b @ P @ b / 2, 1e-9)
        ck.close("penalised score", mod.grad_pll_beta(b, P), mod.grad_ll_beta(b) + P @ b, 1e-9)
        ck.close("penalised information", mod.hess_pll_beta(b, P), mod.hess_ll_beta(b) + P, 1e-9)
        bh = ck.must("beta_rho", mod.beta_rho, rho)
        bs = polish(mod, rho, bh)
        ck.close("penalised fit is stationary", bh, bs, 1e-5)
        ck.expect("penalised fit is a minimum", np.linalg.eigvalsh(mod.hess_ll_beta(bs) + P)[0] > 0)
        bof = lambda r: polish(mod, r, bs)

        def reml(r, start=None):
            bb = bof(r) if start is None else polish(mod, r, start)
            Pr = np.einsum("i,ijk->jk", np.exp(r), mod.S)
            lds = 0
            for ri, Si in zip(r, mod.S):
                ev = np.linalg.eigvalsh(Si)
                lds += ri * (ev > 1e-9 * ev.max()).sum()
            return nll(bb) + bb @ Pr @ bb / 2 + np.linalg.slogdet(mod.hess_ll_beta(bb) + Pr)[1] / 2 - lds / 2
        r0 = np.full(mod.ns, 1.7)
        b0 = mod.beta_rho(r0)
        ck.close("criterion", mod.reml(rho) - mod.reml(r0), reml(rho) - reml(r0, b0), 1e-6)
        ck.close("criterion gradient", mod.gradient(rho), numdiff.grad(reml, rho, 1e-2), 1e-5)
        ck.close("criterion Hessian", mod.hessian(rho), numdiff.jac(mod.gradient, rho, 1e-2), 2e-4)
        f, g, h = mod._f_grad_hess(rho)
        ck.close("joint evaluation: value", f, mod.reml(rho), 1e-9)
        ck.close("joint evaluation: gradient", g, mod.gradient(rho), 1e-9)
        ck.close("joint evaluation: Hessian", h, mod.hessian(rho), 1e-9)
        ck.close("coefficient path", mod.grad_beta_rho(bs, lam), numdiff.jac(bof, rho, 1e-2), 1e-6)
        ck.close("second-order coefficient path", np.moveaxis(mod.hess_beta_rho(bs, lam), -1, 0),
                 numdiff.jac(lambda q: mod.grad_beta_rho(bof(q), np.exp(q)), rho, 1e-2), 1e-5)
        ck.close("information path", mod.dhess(bs, lam), numdiff.grad(lambda q: mod.hess_ll_beta(bof(q)), rho, 1e-2), 1e-5)
        ck.close("second-order information path", mod.d2hess(bs, lam),
                 numdiff.grad(lambda q: mod.dhess(bof(q), np.exp(q)), rho, 1e-2), 1e-5)
        ck.outcome(s, ml, sl, wt)

    rep.explore("location-scale criteria", locscale)

    def locscale_fit(ck):
        d = frame(fixed("ls"), "Gaussian", "IdentityLink", 40)
        make, ml, sl, s = gls(ck, d)
        ck.require(big or sl == "logb" or s == "plain")
        wt = ck.choose("weights", ["none", "array"])
        conf = ck.choose("confint", [95, 80])
        ck.require(big or conf == 95 or s == "two")
        w = np.ones(40) if wt == "none" else 0.5 + np.arange(40) % 4
        if ml == "LogLink":
            d["y"] = np.abs(d["y"]) + 0.2
        mod = ck.must("model", make, d, **({} if wt == "none" else dict(weights=w)))
        ck.must("fit", mod.fit, confint=conf)
        w = w / w.mean()
        rho, lam = mod.theta, np.exp(mod.theta)
        gr = mod.gradient(rho)
        ck.expect("criterion is stationary", np.abs(gr[(rho > -8) & (rho < 12)]).max(initial=0) < 2e-3, lambda: f"gradient {gr} at {rho}")
        b = polish(mod, rho, mod.beta)
        ck.close("coefficients", mod.beta, b, 1e-5)
        nm = mod.m.X.shape[1]
        H = mod.hess_ll_beta(b)
        P = mod.get_penalty_mat(lam)
        Vb = np.linalg.inv(H + P)
        ck.close("Bayesian covariance", mod.Vb, Vb, 1e-5)
        Fm = Vb @ H
        ck.close("effective degrees of freedom", mod.edf, np.trace(Fm), 1e-5)
        J = mod.grad_beta_rho(b, lam)
        Hs = numdiff.jac(mod.gradient, rho, 1e-2)
        if np.linalg.cond(Hs) < 1e5 and np.linalg.norm(np.linalg.inv(Hs)) < 1e5:
            ck.close("smoothing parameter covariance", mod.Vp, np.linalg.inv(Hs), 1e-3)
        C = J @ mod.Vp @ J.T
        ck.close("corrected covariance", mod.Vc, Vb + C, 1e-5)
        ck.close("frequentist covariance", mod.Vf, Vb @ H @ Vb + C, 1e-5)
        mu, tau = minv[ml](mod.m.X @ b[:nm]), sinv[sl](mod.s.X @ b[nm:])
        ck.close("fitted mean", mod.mu, mu, 1e-5)
        ck.close("fitted precision", mod.tau, tau, 1e-5)
        ck.close("residuals", mod.resids, mod.y - mu, 1e-5)
        ck.close("Pearson residuals", mod.pearson_resids, (mod.y - mu) * tau, 1e-5)
        ck.close("r squared", mod.rsquared, 1 - np.sum((mod.y - mu) ** 2) / np.sum((mod.y - mod.y.mean()) ** 2), 1e-5)
        nll = -np.sum(w * st.norm.logpdf(mod.y, mu, 1 / tau))
        ck.close("log-likelihood", mod.ll_model, nll, 1e-6)
        ck.close("aic", mod.aic, 2 * nll + 2 + 2 * np.trace(Fm), 1e-5)
        z = st.norm.ppf(0.5 + conf / 200)
        est = np.append(mod.beta, rho)
        se = np.sqrt(np.append(np.diag(mod.Vc), np.diag(mod.Vp)))
        ck.close("table: estimate", mod.res["param"], est, 1e-9)
        ck.close("table: lower", mod.res[f"CI{conf}-"], est - z * se, 1e-7)
        ck.close("table: upper", mod.res[f"CI{conf}+"], est + z * se, 1e-7)
        ck.close("table: se", mod.res["SE"], se, 1e-7)
        ck.close("table: t", mod.res["t"], est / se, 1e-6)
        ck.close("table: p", mod.res["p"], 2 * st.t(len(mod.y) - mod.edf).sf(np.abs(est / se)), 1e-6)
        curves = mod.get_smooth_comps(mod.beta, ci=conf)
        Xall = np.zeros((40, mod.nx))
        for part, off in ((mod.m, 0), (mod.s, nm)):
            for k, t in part.smooths.items():
                key = ("m" if part is mod.m else "s") + f"({k})"
                ix = t["ix"] + off
                Xk = part.X[:, t["ix"]]
                x, f, e = curves[key].T
                on = np.flatnonzero(Xk.any(axis=1))
                xd = d["z" if k.startswith("z") else "x"].values[on]
                inn = (xd >= x[0]) & (xd <= x[-1])
                sc = 1 + 5 * (np.abs(f).max() + np.abs(e).max())
                ck.close("curve passes through the fitted component", np.interp(xd[inn], x, f), (Xk[on] @ mod.beta[ix])[inn], 2e-3, scale=sc)
                ex = z * np.sqrt(np.einsum("ij,jk,ik->i", Xk[on], mod.Vc[np.ix_(ix, ix)], Xk[on]))
                ck.close("band matches the component's uncertainty", np.interp(xd[inn], x, e), ex[inn], 5e-3, scale=sc)
                ck.close("smooth table: edf", mod.res_smooths.loc[key, "edf"], np.trace(Fm[np.ix_(ix, ix)]), 1e-5)
                fk = Xk @ mod.beta[ix]
                Vk = Xk @ mod.Vb[np.ix_(ix, ix)] @ Xk.T
                wv = np.linalg.svd(Vk, compute_uv=False)
                if wv[len(ix) - 1] > 1e-7 * wv[0]:
                    ck.close("smooth table: chi-square", mod.res_smooths.loc[key, "chisq"], fk @ np.linalg.pinv(Vk, rcond=1e-9) @ fk, 1e-4)
                r_ = mod.res_smooths.loc[key]
                ck.expect("smooth table: rank", abs(r_["rdf"] - r_["edf"]) <= 1)
                ck.close("smooth table: p value", r_["p_approx"], st.chi2.sf(r_["chisq"], r_["rdf"]), 1e-9)
        if s == "plain":
            pts = d["x"].values
            pc = mod.predict_component("x", pts)
            t = mod.m.smooths["x"]
            em = mod.m.X[:, t["ix"]] @ mod.beta[t["ix"]] + mod.beta[0]
            ck.close("component prediction: mean", pc["mu"], minv[ml](em), 1e-7)
            ck.close("component prediction: sd", pc["sd"], 1 / sinv[sl](np.full(40, mod.beta[nm])), 1e-7)
            pts = d["z"].values
            pc = mod.predict_component("z", pts)
            t = mod.s.smooths["z"]
            ck.close("component prediction: scale part", pc["sd"], 1 / sinv[sl](mod.s.X[:, t["ix"]] @ mod.beta[nm + t["ix"]] + mod.beta[nm]), 1e-7)
            ck.close("component prediction: constant mean", pc["mu"], minv[ml](np.full(40, mod.beta[0])), 1e-7)
        ck.outcome(s, ml, sl, wt)

    rep.explore("location-scale fits", locscale_fit)

    def replication(ck):
        s = ck.choose("formulas", ["plain", "parametric", "two"])
        pat = ck.choose("counts", [(1, 2), (2, 1, 1), (3, 1, 2, 1)])
        d = frame(fixed("ls"), "Gaussian", "IdentityLink", 48)
        c = np.array(pat)[np.arange(48) % len(pat)]
        a = ck.must("weighted", GauLS, *LS[s], d, weights=c.astype(float), weights_normalize=False)
        k = GauLS(*LS[s], d.loc[d.index.repeat(c)])
        r1, r2 = np.full(a.ns, 3.0), np.linspace(4, 5, a.ns)
        ck.close("integer weights act as replication", a.reml(r1) - a.reml(r2), k.reml(r1) - k.reml(r2), 1e-6)
        ba, bk = a.beta_rho(r2), k.beta_rho(r2)
        ck.close("same fit", np.repeat(a.m.X @ ba[a.ixm], c), k.m.X @ bk[k.ixm], 1e-5)
        ck.close("same scale", np.repeat(a.s.X @ ba[a.ixs], c), k.s.X @ bk[k.ixs], 1e-5)
        # averaging the weights to one leaves relative information unchanged
        m1 = GauLS(*LS[s], d, weights=c.astype(float))
        m2 = GauLS(*LS[s], d, weights=7.0 * c)
        ck.close("normalised weights are scale free", m1.reml(r2), m2.reml(r2), 1e-9)

    rep.explore("replication", replication)

    def memo(ck):
        kind = ck.choose("kind", ["jac", "hess"])
        calls = []

        def f(x, *a):
            calls.append(x.copy())
            k = a[0] if a else 1.0
            out = (k * np.sum(x ** 3), k * 3 * x ** 2, k * np.diag(6 * x))
            return out if kind == "hess" else out[:2]
        m = (MemoizeGradHess if kind == "hess" else MemoizeJac)(f)
        pts = [np.array([1.0, 2.0]), np.array([1.0, -1.0]), np.array([0.0, 0.0])]
        x = np.zeros(2)
        for i in range(4):
            k = ck.choose(f"point {i}", [0, 1, 2])
            how = ck.choose(f"how {i}", ["same buffer", "new array"])
            q = ck.choose(f"query {i}", ["value", "derivative"] + (["hessian"] if kind == "hess" else []))
            if how == "same buffer":
                x[:] = pts[k]
                z = x
            else:
                z = pts[k].copy()
            got = m(z) if q == "value" else getattr(m, q)(z)
            p = pts[k]
            ck.eq(q, got, {"value": np.sum(p ** 3), "derivative": 3 * p ** 2, "hessian": np.diag(6 * p)}[q])

    rep.explore("memoised evaluation", memo)

    def diagonal(ck):
        s = ck.choose("smooths", [("cr",), ("bs",), ("cr", "bs"), ("bs", "cr", "bs")])
        df = ck.choose("df", [4, 5, 6])
        npar = ck.choose("parametric columns", [1, 2])
        n = 20
        d = pd.DataFrame(ck.rng("d").uniform(0, 2, (n, 4)), columns=list("xzuv"))
        d["y"] = d["x"] + 1
        mod = GAM("y ~ " + " + ".join(["1", "v"][:npar] + [f"s({v}, df={df}, kind='{k}')" for v, k in zip("xzu", s)]), d)
        rp, mats, ixp, ixf, ixl = ck.must("diagonalize", diagonalize_smooth, mod.nx, mod.smooths)
        T, Ti = mats["T"], mats["Ti"]
        ck.close("transform and its inverse", T @ Ti.T if np.allclose(T @ Ti.T, np.eye(mod.nx), atol=1e-6) else Ti @ T, np.eye(mod.nx), 1e-7)
        for i, t in enumerate(mod.smooths.values()):
            V = rp[list(mod.smooths)[i]]["V"]
            W = V.T @ t["S"] @ V
            r = np.ones(len(V))
            r[-1] = W[-1, -1]
            ck.close("penalty becomes a unit ridge", W, np.diag(r), 1e-6)
            if t["kind"] == "cr":
                ck.close("unpenalised direction", W[-1, -1], 0.0, 1e-8)
        ck.eq("positions", np.sort(np.concatenate([ixp, ixf])), np.arange(1, mod.nx + 1))
        ck.eq("penalised positions", ixp, np.concatenate([t["ix"][:-1] for t in mod.smooths.values()]) + 1)
        ck.eq("penalty labels", ixl, np.concatenate([np.full(len(t["ix"]) - 1, i + 1) for i, t in enumerate(mod.smooths.values())]))

    rep.explore("diagonalised smooths", diagonal)
