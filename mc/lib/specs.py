"""The estimators of the package as small state machines: how to make one, how to fit it,
what to ask it, which attributes it reports (used by C37 and C38)."""
import numpy as np
import pandas as pd
import scipy.stats as st


def flat(o, depth=0):
    """the numbers in a result, in a canonical order"""
    if o is None or isinstance(o, (str, bytes)) or depth > 6:
        return []
    if isinstance(o, dict):
        return [a for k in sorted(o, key=str) for a in flat(o[k], depth + 1)]
    if isinstance(o, (list, tuple)):
        return [a for x in o for a in flat(x, depth + 1)]
    if isinstance(o, pd.DataFrame):
        return [a for c in range(o.shape[1]) for a in flat(o.iloc[:, c], depth + 1)]
    if isinstance(o, pd.Series):
        o = o.values
    if hasattr(o, "toarray"):
        o = o.toarray()
    try:
        a = np.asarray(o)
        if a.dtype == object:
            return [z for x in a.ravel() for z in flat(x, depth + 1)]
        return [np.atleast_1d(a.astype(float))]
    except (TypeError, ValueError):
        return []


class Spec:
    """make(k): object k of two; ops: name -> function of (object, k); fits: those that set the
    reported state; free: the queries allowed on an object that was never fitted"""

    def __init__(self, make, fits, queries, attrs, free=(), tol=1e-6, fittol=2e-5, frames=(), args=()):
        self.make, self.fits, self.queries, self.attrs = make, fits, queries, attrs
        self.free, self.tol, self.fittol, self.frames, self.args = set(free), tol, fittol, frames, args


def pick(*names):
    return lambda o: {n: getattr(o, n) for n in names}


def frame(r, n=48):
    x, z = r.normal(size=(2, n))
    g = np.array(list("abc") * n)[:n]
    u = r.normal(size=n)
    c = np.digitize(0.8 * x + r.logistic(size=n), [-1, 0.6])
    d = pd.DataFrame(dict(x=x, z=z, g=g, c=c, c2=np.digitize(0.5 * z + r.logistic(size=n), [-0.8, 0.9]), w=r.uniform(0.5, 2, n), y=1 + 0.5 * x - 0.4 * z + u,
                          y2=0.3 * x + 0.6 * z + r.normal(size=n) + 0.4 * u,
                          pos=r.gamma(3, np.exp(0.2 + 0.2 * x) / 3), pos2=r.gamma(3, np.exp(0.2 - 0.2 * z) / 3),
                          cnt=r.negative_binomial(3, 3 / (3 + np.exp(1 + 0.4 * x))).astype(float), cnt2=r.negative_binomial(3, 3 / (3 + np.exp(1.2 - 0.4 * z))).astype(float),
                          bin=(r.uniform(size=n) < 1 / (1 + np.exp(-0.6 * x))).astype(float), bin2=(r.uniform(size=n) < 1 / (1 + np.exp(0.6 * z))).astype(float),
                          prop=np.clip(r.beta(3, 3 + x - x.min()), 0.02, 0.98)))
    d["zi"] = np.where(r.uniform(size=n) < 0.35, 0.0, d.cnt)
    d["zi2"] = np.where(r.uniform(size=n) < 0.3, 0.0, d.cnt2)
    return d


def each(names, arg):
    return {n: (lambda m, k, n=n: getattr(m, n)(*([arg[k]] if arg is not None else []))) for n in names}


def regression(ck, name, present=lambda d: d):
    r = ck.rng("frame")
    d = present(frame(r))
    if name.startswith("pyglm2.GLM") or name.startswith("linear_model.GLM") or name.startswith("pyglm.GLM"):
        pkg, rest = name.split(".", 1)
        fam = rest.split("/")[1]
        if pkg == "pyglm2":
            from pystatsm.pyglm2.glm import GLM
            from pystatsm.pyglm2 import families as F, links as L
        else:
            from pystatsm.pyglm import families as F, links as L
            if pkg == "pyglm":
                from pystatsm.pyglm.glm import GLM
            else:
                from pystatsm.pyglm.linear_model import GLM
        link = {"Gaussian": L.IdentityLink, "Binomial": L.LogitLink}.get(fam, L.LogLink)
        f = getattr(F, fam)(link=link)
        ys = {"Gaussian": ("y", "y2"), "Gamma": ("pos", "pos2"), "InverseGaussian": ("pos", "pos2"), "Binomial": ("bin", "bin2")}.get(fam, ("cnt", "cnt2"))
        sc = "NR" if fam in ("Gamma", "NegativeBinomial", "InverseGaussian") else ("fixed" if fam in ("Poisson", "Binomial") else "M")
        forms = (f"{ys[0]}~x", f"{ys[1]}~z+g")
        w = d.w.values.copy()
        if pkg == "pyglm":
            def make(k):
                return GLM(formula=forms[k], data=d, fam=f, scale_estimator=sc)
        else:
            def make(k):
                return GLM(formula=forms[k], data=d, family=f, scale_estimator=sc, **(dict(weights=w) if k else {}))
        nb = [2, 4]
        t = [np.r_[r.normal(size=nb[k]) * 0.2, [0.1] if sc == "NR" else []] for k in (0, 1)]
        q = {"loglike": lambda m, k: m.loglike(t[k]), "gradient": lambda m, k: m.gradient(t[k]), "hessian": lambda m, k: m.hessian(t[k])}
        if pkg == "pyglm":
            fits = {"fit": lambda m, k: m.fit(), "fit-sp": lambda m, k: m.fit(method="sp")}
            q.update({"predict": lambda m, k: m.predict(), "full": lambda m, k: m.full_loglike(t[k])})
            return Spec(make, fits, q, ["params", "res", "sumstats", "X", "Y"], ["loglike", "gradient", "hessian", "full"], fittol=1e-4, frames=[d])
        opt = dict(options=dict(gtol=1e-9, xtol=1e-12, maxiter=500))
        fits = {"fit": lambda m, k: m.fit(opt_kws=opt)}
        q.update({"full": lambda m, k: m.full_loglike(t[k]), "gradient_i": lambda m, k: m.gradient_i(t[k])})
        if pkg == "pyglm2":
            q.update({"jack": lambda m, k: m._jacknife("one-step", verbose=False)} if sc != "NR" else {})
            q.update({"boot": lambda m, k: m._bootstrap(2, verbose=False, rng=np.random.default_rng(1)),
                      "tests": lambda m, k: m.get_robust_res(), "predict": lambda m, k: m._predict(m.coefs, m.X, m.f, coefs_cov=np.eye(nb[k]) * 0.02)})
        return Spec(make, fits, q, ["params", "params_se", "res", "llf", "lln", "llr", "sumstats", "coefs", "mu", "params_cov", "X", "y", "weights"], ["loglike", "gradient", "hessian", "full", "gradient_i"], frames=[d])
    if name == "pyglm.OLS":
        from pystatsm.pyglm.ols import OLS

        def make(k):
            return OLS(formula=("y~x", "y2~z+g")[k], data=d)
        b = [r.normal(size=2), r.normal(size=4)]
        return Spec(make, {"fit": lambda m, k: m.fit(), "fit-hc": lambda m, k: m.fit(["HC0", "HC2"])},
                    {"predict": lambda m, k: m.predict(), "predict-b": lambda m, k: m.predict(b[k]), "jack": lambda m, k: (m._compute_jackknife_coefs(), m.beta_jackknife, m.beta_jackknife_z),
                     "influence": lambda m, k: m.get_influence(), "rcov": lambda m, k: m.robust_rcov("HC3"), "loglike": lambda m, k: m.loglike(np.r_[b[k], 1.3])},
                    ["beta", "beta_se", "res", "sumstats", "Vbeta", "X", "y", "h", "cond"], ["loglike"], frames=[d])
    if name == "pyglm2.OLS":
        from pystatsm.pyglm2.ols import OLS

        def make(k):
            return OLS(formula=("y~x", "y2~z+g")[k], data=d, **(dict(weights=d.w.values.copy()) if k else {}))
        b = [np.r_[r.normal(size=2), 1.2], np.r_[r.normal(size=4), 0.8]]
        return Spec(make, {"fit": lambda m, k: m.fit(), "fit-ml": lambda m, k: m.fit(reml=False)},
                    {"loglike": lambda m, k: m.loglike(b[k]), "loglike-ml": lambda m, k: m.loglike(b[k], reml=False), "gradient": lambda m, k: m.gradient(b[k]), "hessian": lambda m, k: m.hessian(b[k]),
                     "predict": lambda m, k: m.predict(), "constrained": lambda m, k: m._get_coef_constrained(m.params, m.sse, (m.X, m.y), np.eye(len(b[k]) - 1)[1:])},
                    ["params", "params_se", "res", "beta", "sumstats", "ssq", "scale", "X", "y", "weights"], ["loglike", "loglike-ml", "gradient", "hessian"], frames=[d])
    if name in ("pyglm.CLM", "pyglm2.CLM"):
        if name == "pyglm.CLM":
            from pystatsm.pyglm.clm import CLM

            def make(k):
                return CLM(("c ~ -1 + x", "c2 ~ -1 + x + z")[k], d)
            t = [np.r_[-1, 0.3, 0.4], np.r_[-1, 0.5, 0.1, 0.3]]
            return Spec(make, {"fit": lambda m, k: m.fit()}, {"loglike": lambda m, k: m.loglike(t[k]), "gradient": lambda m, k: m.gradient(t[k]), "hessian": lambda m, k: m.hessian(t[k]), "predict": lambda m, k: m.predict()},
                        ["res", "params", "sumstats", "beta", "theta", "X", "Y", "W"], ["loglike", "gradient", "hessian"], fittol=1e-4, frames=[d])
        from pystatsm.pyglm2.clm import CLM

        def make(k):
            return CLM(("c ~ x", "c2 ~ x + z")[k], d, **(dict(weights=d.w.values.copy()) if k else {}))
        t = [np.r_[-1, 0.3, 0.4], np.r_[-1, 0.5, 0.1, 0.3]]
        q = {n: (lambda m, k, n=n: getattr(m, n)(t[k])) for n in ("loglike", "gradient", "hessian", "gradient_i", "hessian_unconstrained")}
        free = list(q)
        q.update({"predict": lambda m, k: m.predict(), "boot": lambda m, k: m._bootstrap(2, verbose=False, rng=np.random.default_rng(1))})
        return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["params", "params_se", "res", "llf", "llr", "sumstats", "X", "weights"], free, fittol=1e-4, frames=[d])
    if name == "pyglm.NB2":
        from pystatsm.pyglm.nb2 import NegativeBinomial

        def make(k):
            return NegativeBinomial(("cnt~x", "cnt2~z+g")[k], d)
        t = [np.r_[0.8, 0.2, -0.5], np.r_[0.9, 0.1, 0.1, 0.2, -0.6]]
        return Spec(make, {"fit": lambda m, k: m.fit()}, {"loglike": lambda m, k: m.loglike(t[k]), "gradient": lambda m, k: m.gradient(t[k]), "hessian": lambda m, k: m.hessian(t[k]),
                                                         "deviance": lambda m, k: m.deviance(t[k]), "predict": lambda m, k: m.predict()},
                    ["res", "params", "se_params", "sumstats", "X", "y"], ["loglike", "gradient", "hessian", "deviance"], fittol=1e-4, frames=[d])
    if name == "pyglm.ZIP":
        from pystatsm.pyglm.zimodels import ZIP
        X = [pd.DataFrame(dict(const=1.0, x=d.x)), pd.DataFrame(dict(const=1.0, z=d.z))]

        def make(k):
            return ZIP(X[k], d[[["zi", "zi2"][k]]], X[1 - k] if k else None)
        t = [r.normal(size=3) * 0.3, r.normal(size=4) * 0.3]
        return Spec(make, {"fit": lambda m, k: m.fit()}, {"loglike": lambda m, k: m.loglike(t[k]), "gradient": lambda m, k: m.gradient(t[k]), "hessian": lambda m, k: m.hessian(t[k]), "predict": lambda m, k: m.predict(t[k])},
                    ["params", "se_params", "res", "sumstats", "yhat", "X", "y", "Z"], ["loglike", "gradient", "hessian", "predict"], fittol=1e-4, frames=[d] + X)
    if name == "pyglm.BetaReg":
        from pystatsm.pyglm.betareg import BetaReg

        def make(k):
            return BetaReg(m_formula=("prop~x", "prop~z+x")[k], s_formula=("prop~1", "prop~x")[k], data=d)
        t = [np.r_[0.1, 0.2, 1.2], np.r_[0.1, 0.2, -0.1, 1.2, 0.1]]
        return Spec(make, {"fit": lambda m, k: m.fit()}, {"loglike": lambda m, k: m.loglike(t[k]), "gradient": lambda m, k: m.gradient(t[k]), "hessian": lambda m, k: m.hessian(t[k]), "elements": lambda m, k: m.loglike_elementwise(t[k]), "predict": lambda m, k: m.predict(t[k])},
                    ["res", "theta", "sumstats", "X", "y", "Z"], ["loglike", "gradient", "hessian", "elements", "predict"], fittol=1e-4, frames=[d])
    if name == "pyglm2.ZIP":
        from pystatsm.pyglm2.zinf import ZeroInflatedPoisson

        def make(k):
            return ZeroInflatedPoisson(("zi~x", "zi2~z")[k], ("~1", "~x")[k], d)
        t = [r.normal(size=3) * 0.3, r.normal(size=4) * 0.3]
        q = {n: (lambda m, k, n=n: getattr(m, n)(t[k])) for n in ("loglike", "gradient", "hessian", "gradient_i", "loglike_i")}
        return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["params", "params_se", "res", "sumstats", "llf", "X", "y", "Z", "weights"], list(q), fittol=1e-4, frames=[d])
    if name == "pyglm2.ZINB":
        from pystatsm.pyglm2.zinf import ZeroInflatedNBinom

        def make(k):
            return ZeroInflatedNBinom(("zi~x", "zi2~z")[k], ("~1", "~x")[k], d)
        t = [np.r_[r.normal(size=3) * 0.3, 0.2], np.r_[r.normal(size=4) * 0.3, 0.1]]
        q = {n: (lambda m, k, n=n: getattr(m, n)(t[k])) for n in ("loglike", "gradient", "hessian", "gradient_i", "hessian_i")}
        return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["params", "params_se", "res", "sumstats", "llf", "X", "y", "Z", "weights"], list(q), fittol=1e-4, frames=[d])
    if name == "pyglm2.MVOLS":
        from pystatsm.pyglm2.mvols import MVOLS

        def make(k):
            return MVOLS(("y + y2 ~ x", "y + pos ~ z + g")[k], d, **(dict(weights=d.w.values.copy()) if k else {}))
        t = [np.r_[r.normal(size=4), 0.8, 0.1, 1.1], np.r_[r.normal(size=8), 0.8, 0.1, 1.1]]
        q = {n: (lambda m, k, n=n: getattr(m, n)(t[k])) for n in ("loglike", "gradient", "hessian", "gradient_i")}
        free = list(q)
        q.update({"tests": lambda m, k: m.multivariate_tests(), "predict": lambda m, k: m.predict(), "hypothesis": lambda m, k: m.test_hypothesis(np.eye(2 if k == 0 else 4)[1:2])})
        return Spec(make, {"fit": lambda m, k: m.fit(), "fit-mle": lambda m, k: m.fit(method="mle")}, q, ["params", "params_se", "res", "beta", "sigma_mle", "sigma_unbiased", "sumstats", "mv_tests", "rsquared", "X", "Y", "weights"], free, fittol=1e-4, frames=[d])
    raise KeyError(name)


REG = (["pyglm2.GLM/" + f for f in ("Gaussian", "Gamma", "Poisson", "Binomial", "NegativeBinomial")] + ["linear_model.GLM/" + f for f in ("Gaussian", "Gamma", "NegativeBinomial")] +
       ["pyglm.GLM/" + f for f in ("Gaussian", "Gamma", "Poisson", "Binomial")] +
       ["pyglm.OLS", "pyglm2.OLS", "pyglm.CLM", "pyglm2.CLM", "pyglm.NB2", "pyglm.ZIP", "pyglm.BetaReg", "pyglm2.ZIP", "pyglm2.ZINB", "pyglm2.MVOLS"])


def structured(ck, name, present=lambda d: d):
    r = ck.rng("structured", name)
    if name in ("GAM", "GaussianAdditiveModel", "GauLS"):
        n = 36
        x, z = np.linspace(0, 1, n), r.permutation(np.linspace(0, 1, n))
        d = pd.DataFrame(dict(x=x, z=z, y=2 + np.sin(6 * x) + (0.1 + 0.3 * np.abs(np.sin(5 * x))) * r.normal(size=n), y2=1 + np.cos(7 * z) + 0.3 * x + (0.05 + 0.4 * x * x) * r.normal(size=n), w=r.uniform(0.5, 2, n)))
        if name != "GAM":
            d = present(d)
        if name == "GAM":
            from pystatsm.pygam.gam import GAM
            from pystatsm.pyglm.families import Gamma
            from pystatsm.pyglm.links import LogLink
            d[["y", "y2"]] = np.exp(0.5 * d[["y", "y2"]])
            d = present(d)
            f = Gamma(link=LogLink)

            def make(k):
                return GAM(("y ~ s(x, df=5)", "y2 ~ x + s(z, df=6)")[k], d, f)
        elif name == "GauLS":
            from pystatsm.pygam.gauls import GauLS

            def make(k):
                return GauLS(("y ~ s(x, df=4)", "y2 ~ s(z, df=5)")[k], ("y ~ 1 + x", "y2 ~ s(x, df=4)")[k], d, **(dict(weights="w") if k else {}))
        else:
            from pystatsm.pygam.gaussian_additive_model import GaussianAdditiveModel

            def make(k):
                return GaussianAdditiveModel(("y ~ s(x, df=5)", "y2 ~ x + s(z, df=6)")[k], d)
        t = [np.array([0.5, -1.0]), np.array([1.5, -0.5])]
        if name == "GauLS":
            t = [np.array([0.5]), np.array([1.0, -0.3])]
        q = each(["reml", "gradient", "hessian"], t)
        free = list(q)
        q["comps"] = lambda m, k: m.get_smooth_comps(*([] if name == "GAM" else [m.beta]))
        if name == "GauLS":
            q["component"] = lambda m, k: m.predict_component(m.m.component_varnames[0] if hasattr(m.m, "component_varnames") else "s(x, df=4)")
            q.pop("component")
        fits = {"fit": lambda m, k: m.fit(), "fit-90": lambda m, k: m.fit(confint=90)}
        return Spec(make, fits, q, ["beta", "edf", "sumstats", "Vb", "Vf", "X", "y", "scale", "mu"], free, fittol=2e-4, frames=[d])
    if name in ("GLMEN/gaussian", "GLMEN/binomial"):
        from pystatsm.pyglmnet.glmen import GLMEN
        fam = name.split("/")[1]
        X = r.normal(size=(24, 3))
        X = (X - X.mean(0)) / X.std(0)
        d = pd.DataFrame(X, columns=list("abc")).assign(y=X @ [1, -0.5, 0] + r.normal(size=24), y2=X @ [0, 0.5, 1] + r.normal(size=24))
        if fam == "binomial":
            d[["y", "y2"]] = (d[["y", "y2"]] > 0).astype(float)
        d = present(d)

        def make(k):
            return GLMEN(formula=("y ~ a + b + c - 1", "y2 ~ b + c - 1")[k], data=d, family=fam)
        kw = dict(n_iters=20000, dtol=1e-15, **(dict(btol=1e-20) if fam == "binomial" else {}))
        la = np.array([0.3, 0.1, 0.03])
        fits = {"fit": lambda m, k: m.fit(0.05, 0.5, **kw), "fit-strong": lambda m, k: m.fit(0.2, 1.0, **kw), "cv": lambda m, k: m.fit_cv(cv=3, alpha=0.5, lambdas=la, **kw)}
        return Spec(make, fits, {"predict": lambda m, k: m.predict()}, ["beta", "X", "y", "Xinter", "lambda_min", "bfits"], [], fittol=1e-5, frames=[d])
    if name == "ElasticNetGLM":
        from pystatsm.pyglmnet.glmen2 import ElasticNetGLM
        from pystatsm.pyglm.families import Poisson
        X = r.normal(size=(24, 3))
        y = [r.poisson(np.exp(0.3 + X @ b)).astype(float) for b in ([0.5, -0.3, 0], [0, 0.3, 0.4])]
        f = Poisson()
        keep = [pd.DataFrame(X), pd.DataFrame(np.array(y))]

        def make(k):
            return ElasticNetGLM(X, y[k], f, alpha=(0.5, 0.9)[k])
        b = [np.array([0.2, 0.3, -0.2, 0.1]), np.array([0.1, 0.0, 0.2, 0.2])]
        q = {"objective": lambda m, k: m.obj_func(b[k], 0.1), "gradient": lambda m, k: m.obj_grad(b[k], 0.1), "hessian": lambda m, k: m.obj_hess(b[k], 0.1), "path": lambda m, k: m.get_start_param(n_lambdas=4)}
        return Spec(make, {"fit": lambda m, k: m.fit(n_lambdas=5, cv=3)}, q, ["beta", "betas", "lambdas", "f_paths", "dev_ratios", "mu", "X", "y"], list(q), fittol=1e-6, frames=[])
    if name in ("LMM", "LMM2", "MLMM", "GLMM_LAP", "GLMM_AGQ"):
        n = 48
        g = np.arange(n) % 8
        h = np.arange(n) // 8
        x = r.normal(size=n)
        u, v = 1.3 * st.norm.ppf((r.permutation(8) + 0.5) / 8)[g], st.norm.ppf((r.permutation(6) + 0.5) / 6)[h]
        d = pd.DataFrame(dict(x=x, g=g, h=h, y=1 + 0.5 * x + u + r.normal(size=n), y2=0.3 * x + 1.3 * st.norm.ppf((r.permutation(8) + 0.5) / 8)[g] + v * 0.3 + 0.5 * r.normal(size=n)))
        d["b"] = (r.uniform(size=n) < 1 / (1 + np.exp(-x - 0.7 * u))).astype(float)
        d["b2"] = (r.uniform(size=n) < 1 / (1 + np.exp(x - 0.7 * v))).astype(float)
        d["y3"] = 0.3 * x + 1.5 * u + 1.6 * v + r.normal(size=n)
        d = present(d)
        if name in ("LMM", "LMM2"):
            from pystatsm.pylmm.lmm import LMM
            from pystatsm.pylmm.re_mod import LMM2
            C = LMM if name == "LMM" else LMM2

            def make(k):
                return C(("y~1+x+(1|g)", "y3~1+x+(1|g)+(1|h)")[k], d)
            t = [np.array([0.8, 1.2]), np.array([0.8, 0.3, 0.9])]
            q = each(["loglike", "gradient"], t)
            q["loglike-ml"] = lambda m, k: m.loglike(t[k], False)
            q["gradient-ml"] = lambda m, k: m.gradient(t[k], False)
            if name == "LMM":
                q["hessian"] = lambda m, k: m.hessian(t[k], k == 0)
                q["effects"] = lambda m, k: m._compute_effects(t[k])
            else:
                q["effects"] = lambda m, k: m.compute_effects(t[k])
                q["gradient-v2"] = lambda m, k: m.gradient_v2(t[k])
            free = list(q)
            q["tests"] = lambda m, k: m.approx_degfree([np.eye(2)[[1]]])
            q["predict"] = lambda m, k: m.predict()
            if name == "LMM2":
                q["ranef"] = lambda m, k: m.random_effects("long")
                q["r2"] = lambda m, k: m.r_squared()
                q["interval"] = lambda m, k: m.confint()
            opts = dict(gtol=1e-8, xtol=1e-10)
            fits = {"fit": lambda m, k: m.fit(opt_kws=opts), "fit-ml": lambda m, k: m.fit(reml=False, opt_kws=opts)}
            return Spec(make, fits, q, ["theta", "beta", "u", "se_beta", "se_theta", "ll", "sumstats", "res", "re_covs", "X", "y"], free, fittol=2e-3, frames=[d], args=[opts])
        if name == "MLMM":
            from pystatsm.pylmm.mlmm import MLMM

            def make(k):
                return MLMM(("y~1+x+(1|g)", "(y,y2)~1+(1|g)")[k], d)
            t = [np.array([0.8, 1.2]), np.array([0.8, 0.2, 0.9, 1.1, 1.3])]
            q = each(["loglike", "gradient", "hessian"], t)
            q["loglike-ml"] = lambda m, k: m.loglike(t[k], True, False)
            q["gradient-ml"] = lambda m, k: m.gradient(t[k], False)
            q["effects"] = lambda m, k: m._compute_effects(t[k])
            free = list(q)
            q["predict"] = lambda m, k: m.predict()
            return Spec(make, {"fit": lambda m, k: m.fit(), "fit-ml": lambda m, k: m.fit(reml=False)}, q, ["theta", "beta", "u", "se_beta", "se_theta", "ll", "sumstats", "res", "X", "y"], free, fittol=2e-3, frames=[d])
        from pystatsm.pylmm.glmm import GLMM_LAP, GLMM_AGQ
        from pystatsm.pyglm.families import Binomial
        f = Binomial()
        C = GLMM_LAP if name == "GLMM_LAP" else GLMM_AGQ

        def make(k):
            return C(("b~1+x+(1|g)", "b2~1+(1|h)")[k], d, f)
        t = [np.array([0.1, 0.4, 0.7]), np.array([-0.2, 1.3])]
        q = each(["loglike"], t)
        t2 = [np.array([0.3, -0.4, 1.7]), np.array([0.2, 0.3])]
        q["loglike-2"] = lambda m, k: m.loglike(t2[k])
        if name == "GLMM_AGQ":
            q["loglike-5"] = lambda m, k: m.loglike(t[k], 5)
        q["modes"] = lambda m, k: m.pirls(np.r_[t[k], 1.0])
        return Spec(make, {}, q, ["params", "X", "y"], list(q), tol=1e-6, frames=[d])
    if name == "pysem.SEM":
        from pystatsm.pysem.sem import SEM
        n = 60
        e = r.normal(size=(n, 6))
        f1 = r.normal(size=n)
        f2 = 0.6 * f1 + r.normal(size=n)
        d = pd.DataFrame(np.c_[f1[:, None] * [1, .8, .9], f2[:, None] * [1, .7, 1.1]] + e * 0.7, columns=list("abcdef"))
        d = present(d)
        L = pd.DataFrame(0.0, list("abcdef"), ["f", "g"])
        L.iloc[:3, 0] = 1
        L.iloc[3:, 1] = 1
        B = [pd.DataFrame([[0., 0.], [1., 0.]], ["f", "g"], ["f", "g"]), pd.DataFrame(np.zeros((2, 2)), ["f", "g"], ["f", "g"])]
        P = [pd.DataFrame(np.eye(2), ["f", "g"], ["f", "g"]), pd.DataFrame(np.eye(2) + 0.1 * (1 - np.eye(2)), ["f", "g"], ["f", "g"])]
        Y = pd.DataFrame(np.eye(6), list("abcdef"), list("abcdef"))

        def make(k):
            return SEM(L, B[k], P[k], Y, data=d)
        t = [make(k).theta + 0.07 * np.arange(len(make(k).theta)) / 10 for k in (0, 1)]
        q = each(["loglike", "gradient", "hessian", "implied_cov", "dsigma"], t)
        opt = dict(options=dict(gtol=1e-9, xtol=1e-12, maxiter=600))
        return Spec(make, {"fit": lambda m, k: m.fit(opt_kws=opt)}, q, ["theta", "theta_se", "res", "sumstats", "Sigma"], list(q), fittol=1e-4, frames=[d, L, Y] + B + P)
    if name == "pysem2.SEM":
        from pystatsm.pysem2.sem import SEM
        n = 80
        f1 = r.normal(size=n)
        f2 = 0.6 * f1 + r.normal(size=n)
        d = pd.DataFrame(np.c_[f1[:, None] * [1, .8, .9], f2[:, None] * [1, .7, 1.1]] + r.normal(size=(n, 6)) * 0.7, columns=list("abcdef"))
        d["grp"] = np.arange(n) % 2
        d = present(d)

        def make(k):
            return SEM(("f =~ a + b + c\ng =~ d + e + f1\ng ~ f".replace("f1", "f0"), "f =~ a + b + c")[k], d.rename(columns={"f": "f0"}),
                       model_spec_kws=dict(group_col="grp", shared=[bool(k)] * 6))
        t = [make(k).theta + 0.05 for k in (0, 1)]
        q = each(["loglike", "gradient", "hessian", "gradient_obs", "dsigma_mu"], t)
        q["errors"] = lambda m, k: m.get_standard_errors(t[k], robust=True)
        q["fit_func"] = lambda m, k: m.fit_func(t[k], per_group=True)
        opt = dict(gtol=1e-8, xtol=1e-12, maxiter=1500)
        return Spec(make, {"fit": lambda m, k: m.fit(minimize_options=dict(opt))}, q, ["theta", "res", "res_free", "mats", "free"], list(q), fittol=1e-4, frames=[d])
    if name.startswith("efa/") or name.startswith("factor_analysis/"):
        mod, rot = name.split("/")
        n = 90
        F = r.normal(size=(n, 2))
        W = np.array([[.9, .8, .7, .6, 0.1, 0], [0, .1, 0, .5, .8, .7]])
        d = pd.DataFrame(F @ W + 0.6 * r.normal(size=(n, 6)), columns=list("abcdef"))
        d = present(d)
        if mod == "efa":
            from pystatsm.pyfa.efa import FactorAnalysis
        else:
            from pystatsm.pyfa.factor_analysis import FactorAnalysis

        def make(k):
            kw = {} if rot == "none" else dict(rotation_method="varimax" if rot == "ortho" else "quartimax", rotation_type=rot)
            return FactorAnalysis(X=d if k == 0 else d[list("fedcba")], n_factors=2, **kw)
        psi = r.uniform(0.3, 0.8, 6)
        if mod == "efa":
            q = each(["loglike", "gradient", "hessian", "loglike_exp", "gradient_exp", "hessian_exp", "loadings_from_psi"], [psi, psi])
            free = list(q)
            q["factors"] = lambda m, k: m.estimate_factors()
            q["indices"] = lambda m, k: m.fit_indices()
            return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["params", "se_params", "res", "Loadings", "FactorCorr", "ResidualCov", "Sigma", "chi2_table", "incrimental_fit_indices", "misc_fit_indices"], free, fittol=1e-4, frames=[d])
        th = np.r_[r.normal(size=12) * 0.4, psi]
        q = each(["loglike", "gradient", "hessian", "implied_cov", "dsigma"], [th, th])
        q.update(each(["loglike_canonical", "gradient_canonical", "hessian_canonical"], [psi, psi]))
        free = list(q)
        return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["Sigma", "sumstats", "Psi"], free, fittol=1e-4, frames=[d])
    if name == "MLEstimator":
        from pystatsm.pyfa2.likelihood import MLEstimator
        F = r.normal(size=(90, 2))
        W = np.array([[.9, .8, .7, .6, 0.1, 0], [0, .1, 0, .5, .8, .7]])
        Xs = [F @ W + 0.6 * r.normal(size=(90, 6)) for _ in (0, 1)]
        S = [np.cov(X.T) for X in Xs]

        def make(k):
            return MLEstimator(S[k], 2)
        psi = [r.uniform(0.3, 0.8, 6) for _ in (0, 1)]
        th = [np.r_[r.normal(size=12) * 0.4, 0.2, p] for p in psi]
        q = each(["loglike_psi", "grad_psi", "hess_psi", "loglike_exp", "grad_exp", "hess_exp", "loadings_from_psi"], psi)
        q.update(each(["sigma", "F", "grad", "hessian", "dsigma", "score_jacobian"], th))
        q["fit"] = lambda m, k: [m.fit_psi()["psi"]]
        return Spec(make, {}, q, ["S"], list(q), fittol=1e-5)
    if name == "RobustLM":
        from pystatsm.pyrobust.rls import RobustLM
        x, z = r.normal(size=(2, 24))
        d = pd.DataFrame(dict(x=x, z=z, y=1 + x + r.standard_t(2, size=24), y2=z - x + r.standard_t(2, size=24)))
        d = present(d)

        def make(k):
            return RobustLM(("y~x", "y2~x+z")[k], d)
        t = [np.array([0.5, 0.5, 0.2]), np.array([0.1, -0.5, 0.6, 0.1])]
        q = each(["rho", "grad", "hessian"], t)
        q["irwls"] = lambda m, k: m.irwls()
        opt = dict(method="trust-constr", options=dict(xtol=1e-13, gtol=1e-10, maxiter=2000))
        return Spec(make, {"fit": lambda m, k: m.fit(dict(opt))}, q, ["theta", "beta", "scale", "res", "sumstats", "X", "y"], list(q), fittol=1e-5, frames=[d])
    if name.startswith("lvcorr/"):
        from pystatsm.pylvcorr import lvcorr, polychoric, polychoric2
        mod, cls = name.split("/")[1].split(".")
        C = getattr({"lvcorr": lvcorr, "polychoric": polychoric, "polychoric2": polychoric2}[mod], cls)
        Z = r.normal(size=(60, 3)) @ np.array([[1, .5, .3], [0, .8, .2], [0, 0, .9]])
        d = pd.DataFrame({c: np.digitize(Z[:, j], [[-.4, .5], [0.], [-.6, 0.1, .7]][j]) for j, c in enumerate("abc")})
        if cls == "Polyserial":
            d["z0"], d["z1"] = Z[:, 0], Z[:, 1]
        d = present(d)
        if cls == "_Polychor":
            def make(k):
                return C(d.a.values, d[["b", "c"][k]].values)
            q = {n: (lambda m, k, n=n: getattr(m, n)(0.3 - 0.5 * k)) for n in ("loglike", "gradient", "hessian", "prob", "dprob", "gfunc")}
            return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["rho_hat", "se_rho", "a", "b"], list(q), fittol=1e-4, frames=[d])
        if cls == "Polyserial":
            def make(k):
                return C(d[["z0", "z1"][k]].values, d[["b", "c"][k]].values)
            q = {n: (lambda m, k, n=n: getattr(m, n)(0.3 - 0.5 * k)) for n in ("loglike", "gradient", "hessian", "prob")}
            return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["rho_hat", "se_rho", "x", "y"], list(q), fittol=1e-4, frames=[d])

        def make(k):
            return C(d if k == 0 else d[["c", "a"]])
        if mod == "lvcorr":
            q = {n: (lambda m, k, n=n: getattr(m, n)(0.3, 1, 0)) for n in ("loglike", "gradient", "hessian", "prob", "dprob", "loglike_tanh", "gradient_tanh", "hessian_tanh")}
            return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["R", "R_se", "rhos", "rhos_se"], list(q), fittol=1e-4, frames=[d])
        q = {n: (lambda m, k, n=n: getattr(m, n)(0.3, *m.inds1[0])) for n in ("qloglike", "qgradient", "qhessian")}
        t = [np.asarray(make(k).params[0]).copy() for k in (0, 1)]
        for n in ("loglike", "gradient", "hessian"):
            q[n] = lambda m, k, n=n: getattr(m, n)(t[k], *m.inds1[0])
        free = list(q)
        q["acov"] = lambda m, k: m.get_acov()
        fits = {"fit": lambda m, k: m.fit()}
        return Spec(make, fits, q, ["rhos", "rho_hat", "rho_se", "acov", "X", "R_hat", "res"], free, fittol=2e-4, frames=[d])
    if name in ("CCA", "SCCA"):
        from pystatsm.pyscca.base_cca import CCA
        from pystatsm.pyscca.scca import SCCA
        X = pd.DataFrame(r.normal(size=(30, 4)), columns=list("abcd"))
        Y = pd.DataFrame(X.values[:, :3] * 0.6 + r.normal(size=(30, 3)), columns=list("uvw"))
        X, Y = present(X), present(Y)

        def make(k):
            return (CCA if name == "CCA" else SCCA)(*((X, Y) if k == 0 else (X[["b", "c"]], Y)))
        if name == "CCA":
            fits = {"fit": lambda m, k: m._fit(), "fit-1": lambda m, k: m._fit(1)}
            return Spec(make, fits, {"predict": lambda m, k: m.predict(m.X, m.Y)}, ["Wx", "Wy", "rhos", "x_coefs", "y_loadings", "canvar", "PWx", "X", "Y", "Sxy"], [], frames=[X, Y], fittol=1e-8)
        q = {"fit-07": lambda m, k: m._fit(0.7, 0.7, 2, ortho=False), "fit-ortho": lambda m, k: m._fit(0.8, 0.6, 2, ortho=True), "fit-1": lambda m, k: m._fit(0.9, 0.9, 1, ortho=False)}
        return Spec(make, {}, q, ["X", "Y", "Sxx", "Sxy"], list(q), tol=1e-8, frames=[X, Y])
    if name.startswith("rotation/"):
        from pystatsm.pyfa.rotation import GeneralizedCrawfordFerguson
        kind = name.split("/")[1]
        A = [r.normal(size=(6, 2)), r.normal(size=(6, 2))]

        def make(k):
            return GeneralizedCrawfordFerguson(A=A[k], rotation_method="varimax" if k == 0 else "quartimax", rotation_type=kind)
        T = [np.linalg.qr(r.normal(size=(2, 2)))[0] for _ in (0, 1)]
        q = {"Q": lambda m, k: m.f(T[k]) if hasattr(m, "f") else None, "rotate": lambda m, k: m.rotate(T[k])}
        return Spec(make, {"fit": lambda m, k: m.fit()}, q, ["T", "A"], list(q), fittol=1e-5)
    raise KeyError(name)


STR = ["GAM", "GaussianAdditiveModel", "GauLS", "GLMEN/gaussian", "GLMEN/binomial", "ElasticNetGLM", "LMM", "LMM2", "MLMM", "GLMM_LAP", "GLMM_AGQ", "pysem.SEM", "pysem2.SEM",
       "efa/none", "efa/ortho", "efa/oblique", "factor_analysis/none", "factor_analysis/ortho", "MLEstimator", "RobustLM", "lvcorr/lvcorr._Polychor", "lvcorr/lvcorr.Polyserial",
       "lvcorr/lvcorr.Polychoric", "lvcorr/lvcorr.PolychoricCorr", "lvcorr/polychoric.Polychor", "lvcorr/polychoric2.Polychor", "CCA", "SCCA", "rotation/ortho", "rotation/oblique"]
