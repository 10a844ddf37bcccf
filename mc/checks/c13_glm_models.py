"""C13: generalised linear models: likelihood, score and information are those of
the family for every weighting, scale handling and way of supplying the data;
weights mean replication; estimates do not depend on row order or labels."""
import importlib

import numpy as np
import pandas as pd

from mc.lib import fitstats, numdiff
from mc.checks.c12_glm_families import make_link, refdev, refnll, refvar

N = 14


def base(ck, fam, n=N):
    r = ck.rng("glm", fam)
    d = pd.DataFrame(dict(x=np.round(r.normal(size=n), 2), g=np.tile(list("bac"), n)[:n]))
    d["z"] = np.round(r.uniform(-1, 1, n), 2)
    eta = 0.3 + 0.2 * d.x - 0.1 * d.z
    mu = np.exp(eta)
    w = np.tile([1.0, 2.0, 3.0, 1.0], n)[:n]
    if fam == "Gaussian":
        d["y"] = np.round(eta + 2 + r.normal(size=n) * 0.6, 2)
    elif fam in ("Gamma", "InverseGaussian"):
        d["y"] = np.round(mu * r.gamma(4, 0.25, size=n) + 0.2, 2)
    elif fam == "Binomial":
        tot = w
        d["y"] = np.minimum(np.round(r.uniform(size=n) * tot), tot) / tot
    else:
        d["y"] = r.poisson(mu * 1.7).astype(float)
        if fam == "NegativeBinomial":
            d["y"] = np.where(np.arange(n) % 5 == 0, d.y * 3 + 1, d.y)
    d["w"] = w
    return d


MODELS = [("Gaussian", "Identity"), ("Gaussian", "Log"), ("Gamma", "Log"), ("Gamma", "Reciprocal"), ("InverseGaussian", "Log"),
          ("Poisson", "Log"), ("Poisson", "Power(0.5)"), ("NegativeBinomial", "Log"), ("Binomial", "Logit"), ("Binomial", "Probit"), ("Binomial", "Cloglog")]
FORMS = {"x": "y~1+x", "x+g": "y~x+g", "0": "y~x*z"}


def design(d, form):
    o = np.ones(len(d))
    x, z = d.x.values, d.z.values
    if form == "x":
        return np.column_stack([o, x])
    if form == "x+g":
        return np.column_stack([o, (d.g == "b") * 1.0, (d.g == "c") * 1.0, x])
    return np.column_stack([o, x, z, x * z])


def nll(fam, link, X, y, w, beta, phi, disp):
    mu = invlink(link)(X @ beta)
    return refnll(fam, y, mu, w, phi, disp).sum()


def invlink(link):
    from pystatsm.pyglm import links as L
    return {"Identity": lambda e: e, "Log": np.exp, "Reciprocal": lambda e: 1 / e, "Power(0.5)": lambda e: e ** 2,
            "Logit": lambda e: 1 / (1 + np.exp(-e)), "Probit": L.ProbitLink().inv_link, "Cloglog": lambda e: 1 - np.exp(-np.exp(e))}[link]


def start(X, fam, link, y):
    """an admissible coefficient vector, not at the optimum"""
    m = {"Identity": 2.0, "Log": 0.3, "Reciprocal": 0.8, "Power(0.5)": 1.4, "Logit": 0.2, "Probit": 0.1, "Cloglog": -0.3}[link]
    b = np.zeros(X.shape[1])
    b[0] = m
    return b + 0.03 * np.cos(np.arange(len(b)) + 1)


def run(rep, tier):
    from pystatsm.pyglm2.glm import GLM as GLM2
    from pystatsm.pyglm.linear_model import GLM as GLMlm
    from pystatsm.pyglm.glm import GLM as GLM1
    big = tier == "thorough"
    fam_mod = {m: importlib.import_module(f"pystatsm.{m}.families") for m in ("pyglm", "pyglm2")}
    link_mod = {m: importlib.import_module(f"pystatsm.{m}.links") for m in ("pyglm", "pyglm2")}
    rep.assumptions += [
        "Binomial responses are proportions and the weights are the trial counts",
        "for the moment estimate of scale, score and information are judged at the estimated scale held fixed",
    ]

    def family(pkg, fam, link, weights=None):
        kw = {} if weights is None else dict(weights=weights)
        return getattr(fam_mod[pkg], fam)(link=make_link(link_mod[pkg], link), **kw)

    def scales(fam):
        return {"Poisson": ["fixed"], "Binomial": ["fixed"], "NegativeBinomial": ["NR"]}.get(fam, ["fixed", "M", "NR"])

    def derivs(ck):
        impl = ck.choose("implementation", ["pyglm2", "linear_model", "pyglm"])
        fam, link = ck.choose("family/link", MODELS)
        if impl == "pyglm":
            ck.require(fam != "NegativeBinomial")
        scale = ck.choose("scale", scales(fam))
        wk = ck.choose("weights", ["none", "vector"])
        form = ck.choose("formula", list(FORMS))
        d = base(ck, fam)
        if fam == "Binomial" and wk == "none":
            d["y"] = np.round(d.y)
        order = ck.choose("rows", ["sorted", "reversed", "relabelled"])
        if order == "reversed":
            d = d.iloc[::-1]
        elif order == "relabelled":
            d = d.rename(index={i: f"r{(7 * i) % N}" for i in range(N)})
        how = ck.choose("supplied as", ["formula", "X/y arrays", "X frame, y series"]) if impl != "pyglm" else ck.choose("supplied as", ["formula", "X/y arrays"])
        X, y = design(d, form), d.y.values
        w = d.w.values if wk == "vector" else np.ones(N)
        keep = d.copy()
        wa = d.w.values.copy() if wk == "vector" else None
        if impl == "pyglm":
            cons = dict(fam=family("pyglm", fam, link, weights=wa), scale_estimator=scale)
            if how == "formula":
                m = ck.must("construct", GLM1, formula=FORMS[form], data=d, **cons)
            else:
                m = ck.must("construct", GLM1, X=X, Y=y[:, None], **cons)
        else:
            C = GLM2 if impl == "pyglm2" else GLMlm
            cons = dict(family=family("pyglm2" if impl == "pyglm2" else "pyglm", fam, link), scale_estimator=scale)
            if wa is not None:
                cons["weights"] = wa
            if how == "formula":
                m = ck.must("construct", C, formula=FORMS[form], data=d, **cons)
            elif how == "X/y arrays":
                m = ck.must("construct", C, X=X, y=y, **cons)
            else:
                m = ck.must("construct", C, X=pd.DataFrame(X, index=d.index, columns=[f"c{i}" for i in range(X.shape[1])]),
                            y=pd.Series(y, index=d.index, name="y"), **cons)
        k = f"{impl}/"
        ck.close(k + "X", m.X, X, 1e-12)
        b = start(X, fam, link, y)
        tau = np.log(0.7)
        mu = invlink(link)(X @ b)
        par = np.r_[b, tau] if scale == "NR" else b
        nb = fam == "NegativeBinomial"

        def ref(p):
            if scale == "NR":
                s = np.exp(p[-1])
                return nll(fam, link, X, y, w, p[:-1], 1.0 if nb else s, s if nb else 1.0)
            phi = phi0 if scale == "M" else 1.0
            return nll(fam, link, X, y, w, p, phi, 1.0)
        phi0 = np.sum(w * (y - mu) ** 2 / refvar(fam, mu, 1.0)) / (N - X.shape[1])
        ll = ck.call(k + "full_loglike", m.full_loglike, par.copy())
        if ll is not None:
            ck.close(k + f"full_loglike {scale}", ll, ref(par), 1e-8)
        par2 = par * 1.01
        if scale != "M":
            l1, l2 = ck.call(k + "loglike", m.loglike, par.copy()), ck.call(k + "loglike", m.loglike, par2.copy())
            if l1 is not None and l2 is not None and not (nb or scale == "NR"):
                ck.close(k + "loglike differs by a constant", l1 - l2, ref(par) - ref(par2), 1e-8)
            elif l1 is not None and l2 is not None:
                q = np.r_[par[:-1] * 1.01, par[-1]]
                ck.close(k + "loglike differs by a constant", l1 - ck.call(k + "ll", m.loglike, q), ref(par) - ref(q), 1e-8)
        G = numdiff.grad(ref, par, 2e-3)
        H = numdiff.jac(lambda p: numdiff.grad(ref, p, 4e-3), par, 4e-3)
        g = ck.call(k + "gradient", m.gradient, par.copy())
        ck.close(k + f"gradient {scale}", g, G, 1e-5)
        ck.close(k + f"hessian {scale}", ck.call(k + "hessian", m.hessian, par.copy()), H, 2e-4)
        if impl != "pyglm":
            gi = ck.call(k + "gradient_i", m.gradient_i, par.copy())
            if gi is not None:
                ck.close(k + "gradient_i sums to gradient", gi.sum(0), g, 1e-9)
                one = numdiff.grad(lambda p: refnll(fam, y[:1], invlink(link)(X[:1] @ (p[:-1] if scale == "NR" else p)), w[:1],
                                                    1.0 if nb else np.exp(p[-1]) if scale == "NR" else phi0 if scale == "M" else 1.0,
                                                    np.exp(p[-1]) if nb else 1.0)[0], par, 2e-3)
                ck.close(k + "gradient_i rows", gi[0], one, 1e-5)
            # evaluation on other data = a model of those data
            ii = np.arange(N) % 4 != 1
            if scale != "M":
                sub = (X[ii], y[ii], w[ii])
                gs = numdiff.grad(lambda p: refnll(fam, y[ii], invlink(link)(X[ii] @ (p[:-1] if scale == "NR" else p)), w[ii],
                                                   1.0 if nb else np.exp(p[-1]) if scale == "NR" else 1.0, np.exp(p[-1]) if nb else 1.0).sum(), par, 2e-3)
                ck.close(k + "gradient on given data", ck.call(k + "gradient", m.gradient, par.copy(), data=sub), gs, 1e-5)
        else:
            ii = np.arange(N) % 4 != 1
            if wk == "none" and scale != "M":
                gs = ck.call(k + "gradient", m.gradient, par.copy(), X=X[ii], Y=y[ii][:, None])
                hs = ck.call(k + "hessian", m.hessian, par.copy(), X=X[ii], Y=y[ii][:, None])
                f2 = lambda p: refnll(fam, y[ii], invlink(link)(X[ii] @ (p[:-1] if scale == "NR" else p)), w[ii], np.exp(p[-1]) if scale == "NR" else 1.0, 1.0).sum()   # noqa: E731
                ck.close(k + "gradient on given data", gs, numdiff.grad(f2, par, 2e-3), 1e-5)
                ck.close(k + "hessian on given data", hs, numdiff.jac(lambda p: numdiff.grad(f2, p, 4e-3), par, 4e-3), 2e-4)
        ck.expect(k + "data unchanged", d.equals(keep))
        ck.outcome(impl, fam, link, scale, wk, form, order, how)

    rep.explore("derivatives", derivs)

    def fits(ck):
        fam, link = ck.choose("family/link", MODELS if big else [m for m in MODELS if m not in (("Gaussian", "Log"), ("Gamma", "Reciprocal"), ("Binomial", "Cloglog"))])
        scale = ck.choose("scale", scales(fam))
        wk = ck.choose("weights", ["none", "vector"])
        form = ck.choose("formula", ["x", "x+g"])
        d = base(ck, fam, 21)
        n = len(d)
        if fam == "Binomial" and wk == "none":
            d["y"] = np.round(d.y)
        perm = ck.choose("rows", ["sorted", "shuffled"])
        if perm == "shuffled":
            d = d.iloc[ck.rng("perm").permutation(n)]
        X, y = design(d, form), d.y.values
        w = d.w.values if wk == "vector" else np.ones(n)
        kw = dict(weights=w) if wk == "vector" else {}
        impl = ck.choose("implementation", ["pyglm2", "linear_model"])
        pk_ = "pyglm2" if impl == "pyglm2" else "pyglm"
        GLMc = GLM2 if impl == "pyglm2" else GLMlm
        m = ck.must("construct", GLMc, formula=FORMS[form], data=d, family=family(pk_, fam, link), scale_estimator=scale, **kw)
        opt = dict(options=dict(gtol=1e-9, xtol=1e-14, maxiter=2000))
        ck.must("fit", m.fit, opt_kws=opt)
        nb, k = fam == "NegativeBinomial", "fit/"
        p = np.asarray(m.params, float)
        beta = p[:-1] if scale == "NR" else p
        mu = invlink(link)(X @ beta)
        s = np.exp(p[-1]) if scale == "NR" else 1.0
        disp = s if nb else 1.0
        if nb and s < 1e-3:
            ck.outcome("boundary")
            return
        V = refvar(fam, mu, disp)
        chi2 = np.sum(w * (y - mu) ** 2 / V)
        phi = 1.0 if nb or scale == "fixed" else s if scale == "NR" else chi2 / (n - X.shape[1])
        r = lambda q, ph=phi: nll(fam, link, X, y, w, q[:-1] if scale == "NR" else q, 1.0 if nb else np.exp(q[-1]) if scale == "NR" else ph, np.exp(q[-1]) if nb else 1.0)   # noqa: E731
        ck.close(k + "stationary", numdiff.grad(r, p, 2e-3) * (phi if scale == "M" else 1.0), 0 * p, 2e-4)
        H = numdiff.jac(lambda q: numdiff.grad(r, q, 4e-3), p, 4e-3)
        cov = np.linalg.inv(H)
        ck.close(k + "covariance", m.params_cov, cov, 2e-3)
        ck.close(k + "standard errors", m.params_se, np.sqrt(np.diag(cov)), 2e-3)
        ck.close(k + "coefficients", m.beta, beta, 1e-12)
        ck.close(k + "coefficient covariance", m.beta_cov, cov[:len(beta), :len(beta)], 2e-3)
        ck.close(k + "phi", m.phi, phi, 1e-8)
        ck.close(k + "dispersion", m.dispersion, disp, 1e-8)
        ck.close(k + "mu", m.mu, mu, 1e-9)
        ck.close(k + "chi2", m.chi2, chi2, 1e-9)
        ll = r(p)
        ck.close(k + "llf", m.llf, ll, 1e-8)
        npar = len(p)
        ck.close(k + "aic", m.aic, 2 * ll + 2 * npar, 1e-8)
        ck.close(k + "bic", m.bic, 2 * ll + npar * np.log(n), 1e-8)
        ck.close(k + "caic", m.caic, 2 * ll + npar * (np.log(n) + 1), 1e-8)
        ck.close(k + "aicc", m.aicc, 2 * ll + 2 * npar * n / (n - npar - 1), 1e-8)
        if not nb:      # the null model of the same scale: a constant mean (its estimate is the weighted mean)
            nullmu = np.ones(n) * np.average(y, weights=w)
            l0 = -nll(fam, "Identity", nullmu[:, None], y, w, np.ones(1), phi, disp)
            fitstats.table(ck, k, m.sumstats["Statistic"], -ll, l0, npar, n, names={q: q for q in m.sumstats.index if q in fitstats.NAMES})
            ck.close(k + "null log-likelihood", m.sumstats.loc["LLN"].iloc[0], -l0, 1e-8)
        ck.close(k + "fitted log-likelihood", m.sumstats.loc["LLF"].iloc[0], ll, 1e-8)
        if wk == "none":
            ck.close(k + "r-squared", m.sumstats.loc["R2_SS"].iloc[0], 1 - np.sum((y - mu) ** 2) / np.sum((y - y.mean()) ** 2), 1e-8)
        D = w * refdev(fam, y, mu, disp)
        ck.close(k + "deviance", m.sumstats.loc["Deviance"].iloc[0], D.sum(), 1e-9)
        # hat values, residuals
        g1 = numdiff.derivs(lambda e: invlink(link)(e), X @ beta, 0.05 * (1 + 0 * mu), 1)[1]
        W = w * g1 ** 2 / V
        WX = X * np.sqrt(W)[:, None]
        h = np.diag(WX @ np.linalg.solve(WX.T @ WX, WX.T))
        if fam == "Binomial" and (np.min(mu) < 1e-3 or np.max(mu) > 1 - 1e-3):
            ck.outcome("nearly separated")
            return
        ck.close(k + "leverage", m.h, h, 1e-6)
        rp = np.sqrt(w / V) * (y - mu)
        ck.close(k + "pearson residuals", m.resid_pearson, rp, 1e-8)
        ck.close(k + "deviance residuals", m.resid_deviance, np.sign(y - mu) * np.sqrt(np.abs(D)), 1e-6)
        ck.close(k + "raw residuals", m.resid_raw, y - mu, 1e-9)
        sst = rp / np.sqrt(phi) / np.sqrt(1 - h)
        ck.close(k + "standardised residuals", m.resid_pearson_sst, sst, 1e-6)
        ck.close(k + "Cook's distance", m.cooks_distance, h * sst ** 2 / (X.shape[1] * (1 - h)), 1e-6)
        # robust covariance
        rr = ck.call(k + "get_robust_res", m.get_robust_res)
        if rr is not None:
            gi = m.gradient_i(p)
            A = np.linalg.inv(m.hessian(p))
            ck.close(k + "robust SE", np.asarray(rr)[:, 1], np.sqrt(np.diag(A @ gi.T @ gi @ A)), 1e-7)
        # queries after the fit see the same estimate
        ck.close(k + "gradient after fit", m.gradient(p), numdiff.grad(r, p, 2e-3), 1e-4)
        # weights are replication (scale fixed); row order irrelevant
        if wk == "vector" and fam != "Binomial":
            rep_ = d.loc[d.index.repeat(d.w.astype(int))]
            m2 = GLMc(formula=FORMS[form], data=rep_.reset_index(drop=True), family=family(pk_, fam, link), scale_estimator=scale)
            q = p.copy()
            if scale != "NR" or nb:
                c = 1.0 if scale == "fixed" or nb else m2._unpack_params_data(p, m2.model_data, scale, m2.f)[5] / phi
                ck.close(k + "weights as replicates: score", m2.gradient(q) * c, m.gradient(q), 1e-7)
                ck.close(k + "weights as replicates: information", m2.hessian(q) * c, m.hessian(q), 1e-7)
        # leave-one-out, one step from the estimate, is exact for Gaussian identity
        if fam == "Gaussian" and link == "Identity" and scale != "NR":
            js = ck.call(k + "one-step jackknife", m._jacknife, method="one-step", verbose=False)
            if js is not None:
                ex = []
                for i in range(n):
                    ii = np.arange(n) != i
                    Xi, yi, wi = X[ii], y[ii], w[ii]
                    ex.append(np.linalg.solve((Xi.T * wi) @ Xi, (Xi.T * wi) @ yi))
                ck.close(k + "one-step jackknife", js.values, np.array(ex), 1e-6)
        pr = ck.call(k + "predict", m._predict, m.beta, X, m.f, phi=m.phi, dispersion=m.dispersion, coefs_cov=m.beta_cov, predicted_ci=False)
        if pr is not None:
            se = np.sqrt(np.einsum("ij,jk,ik->i", X, m.beta_cov, X))
            ck.close(k + "predict eta", pr["eta"], X @ beta, 1e-9)
            ck.close(k + "predict mu", pr["mu"], mu, 1e-9)
            ck.close(k + "predict se", pr["eta_se"], se, 1e-8)
            ck.close(k + "predict ci", pr["eta_upper_ci"] - pr["eta_lower_ci"], 2 * 1.959963984540054 * se, 1e-6)
        ck.outcome(fam, link, scale, wk, form, perm)

    rep.explore("fits", fits)

    def oldfits(ck):
        fam, link = ck.choose("family/link", [m for m in MODELS if m[0] != "NegativeBinomial"])
        scale = ck.choose("scale", ["fixed", "NR"] if fam in ("Gaussian", "Gamma", "InverseGaussian") else ["fixed"])
        method = ck.choose("method", [None, "sp", "mn"] if not big else [None, "sp", "mn", "ee"])
        wk = ck.choose("weights", ["none", "vector"])
        ck.require(link != "Reciprocal")       # the default start may leave the admissible region
        if method is None and fam == "Gamma" or method in ("mn", "ee"):     # plain Newton steps: promised only where the likelihood is convex
            ck.require((fam, link) in (("Gaussian", "Identity"), ("Gamma", "Log"), ("Poisson", "Log"), ("Binomial", "Logit"), ("Binomial", "Probit"), ("Binomial", "Cloglog")))
            ck.require(scale != "NR" or fam == "Gamma" and method != "ee")
        form = "x"
        d = base(ck, fam, 21)
        n = len(d)
        if fam == "Binomial" and wk == "none":
            d["y"] = np.round(d.y)
        X, y = design(d, form), d.y.values
        w = d.w.values if wk == "vector" else np.ones(n)
        ck.require(not (link in ("Log", "Reciprocal", "Power(0.5)") and fam in ("Gaussian", "Poisson") and link != "Log"))
        m = ck.must("construct", GLM1, formula=FORMS[form], data=d, fam=family("pyglm", fam, link, weights=w if wk == "vector" else None), scale_estimator=scale)
        ck.must("fit", m.fit, method=method, opt_kws=dict(options=dict(gtol=1e-9, xtol=1e-14, maxiter=3000)) if method == "sp" or (method is None and fam != "Gamma") else None)
        p, k = np.asarray(m.params, float), "fit/"
        r = lambda q: nll(fam, link, X, y, w, q[:-1] if scale == "NR" else q, np.exp(q[-1]) if scale == "NR" else 1.0, 1.0)   # noqa: E731
        ck.close(k + "stationary", numdiff.grad(r, p, 2e-3), 0 * p, 1e-3)
        beta = p[:-1] if scale == "NR" else p
        mu = invlink(link)(X @ beta)
        phi = np.exp(p[-1]) if scale == "NR" else 1.0
        ck.close(k + "phi", m.phi, phi, 1e-9)
        ck.close(k + "mu", m.mu, mu, 1e-9)
        ck.close(k + "predict", m.predict(), mu, 1e-9)
        ck.close(k + "predict linear", m.predict(kind="eta"), X @ beta, 1e-9)
        ll, npar = r(p), len(p)
        st_ = m.sumstats["Fit Statistic"]
        ck.close(k + "aic", st_["aic"], 2 * ll + 2 * npar, 1e-7)
        ck.close(k + "bic", st_["bic"], 2 * ll + npar * np.log(n), 1e-7)
        ck.close(k + "caic", st_["caic"], 2 * ll + npar * (np.log(n) + 1), 1e-7)
        ck.close(k + "aicc", st_["aicc"], 2 * ll + 2 * npar * n / (n - npar - 1), 1e-7)
        l0 = -nll(fam, "Identity", np.ones((n, 1)) * np.average(y, weights=w), y, w, np.ones(1), phi, 1.0)
        fitstats.table(ck, k, st_, -ll, l0, npar, n, names=dict(LLR="LLR", PseudoR2_CS="R2_CS", PseudoR2_N="R2_NK", PseudoR2_MCF="R2_MC", PseudoR2_MCFA="R2_MB", PseudoR2_MFA="R2_AN"))
        ck.close(k + "deviance", st_["deviance"], (w * refdev(fam, y, mu, 1.0)).sum(), 1e-8)
        ck.close(k + "chi2", st_["pearson_chi2"], np.sum(w * (y - mu) ** 2 / refvar(fam, mu, 1.0)), 1e-8)
        H = numdiff.jac(lambda q: numdiff.grad(r, q, 4e-3), p, 4e-3)
        ck.close(k + "se", m.se_theta, np.sqrt(np.diag(np.linalg.inv(H))), 2e-3)
        ck.close(k + "pearson residuals", m.pearson_resid, np.sqrt(w / refvar(fam, mu, 1.0)) * (y - mu), 1e-7)
        ck.outcome(fam, link, scale, method, wk)

    rep.explore("first-generation fits", oldfits)
    inference(rep, big)


def inference(rep, big):
    from pystatsm.pyglm2.likelihood_model import LikelihoodModel as L2
    from pystatsm.pyglm.linear_model import LikelihoodModel as L1

    def body(ck):
        """quadratic log-likelihood: every test and profile has a closed form"""
        LM = ck.choose("implementation", [L2, L1])
        p = ck.choose("parameters", [2, 3, 4])
        idx = ck.choose("constrained", [list(c) for m in range(1, p) for c in __import__("itertools").permutations(range(p), m)])
        form = ck.choose("indices as", ["list", "array", "mask"])
        if form == "mask":
            ck.require(idx == sorted(idx))
        r = ck.rng("quad", p)
        A = r.normal(size=(p, p))
        A = A @ A.T + p * np.eye(p)
        t = r.normal(size=p)
        f = lambda x: 0.5 * (x - t) @ A @ (x - t)   # noqa: E731
        g = lambda x: A @ (x - t)   # noqa: E731
        h = lambda x: A   # noqa: E731
        vals = np.round(r.normal(size=len(idx)), 2)
        ind = np.array(idx) if form == "array" else list(idx) if form == "list" else np.isin(np.arange(p), idx)
        cons = ck.call("constraints", LM._make_constraints, ind, vals)
        if cons is not None:
            ck.eq("constraints/one per index", len(cons), len(idx))
            for c, i, v in zip(cons, idx, vals):
                x = r.normal(size=p)
                ck.close("constraints/value", float(np.squeeze(c["fun"](x))), x[i] - v, 1e-12)
        if form == "mask":
            return
        free = [i for i in range(p) if i not in idx]
        x = t.copy()
        x[idx] = vals
        x[free] = t[free] - np.linalg.solve(A[np.ix_(free, free)], A[np.ix_(free, idx)] @ (vals - t[idx]))
        want = f(x)
        kw = dict(options=dict(gtol=1e-10, xtol=1e-12, maxiter=500))
        start = t + 0.1
        s0 = start.copy()
        ck.close("profile restricted", ck.call("profile restricted", LM._profile_loglike_restricted, vals, ind, start, f, g, h, minimize_kws=kw), want, 1e-6)
        ck.close("profile constrained", ck.call("profile constrained", LM._profile_loglike_constrained, vals, ind, start, f, g, h, minimize_kws=kw), want, 1e-4)
        ck.eq("start unchanged", start, s0)
        C = np.zeros((len(idx), p))
        C[np.arange(len(idx)), idx] = 1
        Ai = np.linalg.inv(A)
        # information equality: covariance of the gradient = Hessian
        W = ck.call("wald", LM._wald_test, t, x, C, Ai, A, return_dataframe=False)
        S = ck.call("score", LM._score_test, g(x), C, Ai, A, return_dataframe=False)
        T = ck.call("lr", LM._lr_test, -f(t), -want, len(idx), return_dataframe=False)
        import scipy.stats as st
        for nm, res in (("wald", W), ("score", S), ("lr", T)):
            if res is not None:
                ck.close(nm + " statistic", res["Stat"], 2 * want, 1e-8)
                ck.eq(nm + " df", res["df"], len(idx))
                ck.close(nm + " p", res["P Value"], st.chi2.sf(2 * want, len(idx)), 1e-8)
        if len(idx) == 1:
            se = np.sqrt(Ai[idx[0], idx[0]])
            prof = lambda v: LM._profile_loglike_restricted(v, idx, t, f, g, h, minimize_kws=kw)   # noqa: E731
            ci = ck.call("interval", LM._solve_interval, prof, t[idx[0]], se, 0.5 * 3.841458820694124)
            if ci is not None:
                ck.close("interval", np.ravel(ci), t[idx[0]] + se * np.array([-1, 1]) * 1.959963984540054, 1e-4)
        ck.outcome(LM.__module__, p, idx, form)

    rep.explore("tests and profiles", body)
