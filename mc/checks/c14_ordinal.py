"""C14: cumulative-link models: likelihood, fits, predictions, transforms."""
import itertools

import numpy as np
import pandas as pd
import scipy.stats as st

from mc.lib import fitstats, numdiff
from mc.checks.c12_glm_families import INV

FORMS = {"x": "x", "x+g": "g + x", "x*z": "x * z"}
LINK = ["Logit", "Probit", "Cloglog"]


def base(ck, K, n, tag="", labels=None):
    r = ck.rng("clm", K, n, tag)
    d = pd.DataFrame(dict(x=np.round(r.normal(size=n), 2), g=np.tile(list("bac"), n)[:n], z=np.round(r.uniform(-1, 1, n), 2)))
    lat = 0.6 * d.x - 0.4 * d.z + 0.5 * (d.g == "b") + r.logistic(size=n) * 0.8
    code = np.clip(np.searchsorted(np.quantile(lat, np.arange(1, K) / K), lat, side="left"), 0, K - 1)
    code[:K] = np.arange(K)
    d["y"] = np.asarray(labels if labels is not None else np.arange(K))[code]
    d["w"] = np.tile([1.0, 2.0, 3.0, 1.0, 2.0], n)[:n]
    return d


def design(d, form):
    x, z = d.x.values, d.z.values
    return {"x": lambda: x[:, None], "x+g": lambda: np.column_stack([(d.g == "b") * 1.0, (d.g == "c") * 1.0, x]),
            "x*z": lambda: np.column_stack([x, z, x * z])}[form]()


def names(form):
    return {"x": ["x"], "x+g": ["g[T.b]", "g[T.c]", "x"], "x*z": ["x", "z", "x:z"]}[form]


def probs(par, X, K, link):
    """category probabilities: F(tau_k - x'b) - F(tau_{k-1} - x'b)"""
    tau, b = par[:K - 1], par[K - 1:]
    F = INV[link](tau[None, :] - (X @ b)[:, None])
    return np.diff(np.column_stack([np.zeros(len(X)), F, np.ones(len(X))]), axis=1)


def nll_i(par, X, code, K, link):
    return -np.log(probs(par, X, K, link)[np.arange(len(X)), code])


def run(rep, tier):
    from pystatsm.pyglm import links as L1
    from pystatsm.pyglm2 import links as L2
    from pystatsm.pyglm.clm import CLM as CLM1
    from pystatsm.pyglm2.clm import CLM as CLM2, OrderedTransform as OT
    big = tier == "thorough"
    rep.assumptions += ["every category occurs; category probabilities bounded away from zero; no separation",
                        "bootstrap resamples in which a category disappears are not judged"]

    def transform(ck):
        q = ck.choose("thresholds", [1, 2, 3, 4, 5])
        extra = ck.choose("coefficients", [0, 1, 3])
        gaps = [ck.choose("gap", [0.05, 1.0, 3.0]) for _ in range(min(q - 1, 4 if big else 3))] + [0.7] * (q - 1 - min(q - 1, 4 if big else 3))
        x = np.r_[np.cumsum(np.r_[ck.choose("first", [-2.0, 0.3]), gaps]), np.linspace(-1, 2, extra)]
        keep = x.copy()
        y = ck.must("forward", OT._fwd, x, q)
        ck.eq("argument untouched", x, keep)
        ck.close("forward", y, np.r_[x[:1], np.log(np.array(gaps)), x[q:]], 1e-11)
        ck.close("round trip", ck.must("reverse", OT._rvs, y, q), x, 1e-12)
        ck.eq("argument untouched", x, keep)
        t = x[:q]
        s = y[:q]
        ck.close("Jacobian of the reverse", OT._jac_rvs(s, q), numdiff.jac(lambda v: OT._rvs(v, q), s), 1e-6)
        ck.close("Hessian of the reverse", OT._hess_rvs(s, q), np.moveaxis(numdiff.jac(lambda v: OT._jac_rvs(v, q).ravel(), s).reshape(q, q, q), 2, 2), 1e-6)
        if min([1] + gaps) >= 1:
            ck.close("Jacobian of the forward", OT._jac_fwd(t, q), numdiff.jac(lambda v: OT._fwd(v, q), t, 1e-3), 1e-6)
            ck.close("Hessian of the forward", OT._hess_fwd(t, q), numdiff.jac(lambda v: OT._jac_fwd(v, q).ravel(), t, 1e-3).reshape(q, q, q), 1e-6)
        ck.close("Jacobians are inverse", OT._jac_fwd(t, q) @ OT._jac_rvs(s, q), np.eye(q), 1e-9)

    def pick(ck, n, impls=("pyglm2", "pyglm")):
        impl = ck.choose("implementation", list(impls))
        K = ck.choose("categories", [2, 3, 4] + [6] * big)
        link = ck.choose("link", LINK)
        form = ck.choose("formula", list(FORMS))
        return impl, K, link, form

    def make(ck, impl, d, form, link, how, wk):
        w = d.w.values.copy() if wk == "vector" else d.w.copy() if wk == "series" else None
        X = design(d, form)
        if impl == "pyglm":
            return ck.must("model", CLM1, "y ~ -1 + " + FORMS[form] if form != "x+g" else "y ~ -1 + I((g == 'b') * 1) + I((g == 'c') * 1) + x", d, link=getattr(L1, link + "Link"))
        lk = getattr(L2, link + "Link")
        if how == "formula":
            return ck.must("model", CLM2, "y ~ " + FORMS[form], d, weights=w, link=lk)
        if how == "formula, no intercept stated":
            return ck.must("model", CLM2, "y ~ -1 + " + FORMS[form], d, weights=w, link=lk())
        if how == "X/y arrays":
            return ck.must("model", CLM2, None, None, X=X, y=d.y.values, weights=w, link=lk)
        return ck.must("model", CLM2, None, None, X=pd.DataFrame(X, index=d.index, columns=names(form)), y=d.y, weights=w, link=lk)

    def likelihood(ck):
        impl, K, link, form = pick(ck, 16)
        lab = {"0..": None, "1.5, 10, ..": [1.5, 10.0, 11.0, 40.0, 41.0, 90.0][:K], "-3..": [-3, -1, 0, 7, 8, 9][:K]}[ck.choose("labels", ["0..", "1.5, 10, ..", "-3.."])]
        d = base(ck, K, 16, labels=lab)
        if ck.choose("rows", ["as is", "reversed, relabelled"]) != "as is":
            d = d.iloc[::-1].rename(index={i: f"r{(7 * i) % 16}" for i in range(16)})
        how = ck.choose("supplied as", ["formula", "formula, no intercept stated", "X/y arrays", "X frame, y series"]) if impl == "pyglm2" else "formula"
        ck.require(not (how == "formula, no intercept stated" and form == "x+g"))
        wk = ck.choose("weights", ["none", "vector"]) if impl == "pyglm2" else "none"
        keep = d.copy()
        m = make(ck, impl, d, form, link, how, wk)
        ck.expect("caller's data untouched", d.equals(keep))
        X = design(d, form)
        u = np.unique(d.y)
        code = np.searchsorted(u, d.y.values)
        w = d.w.values if wk == "vector" else np.ones(len(d))
        q, p = K - 1, X.shape[1]
        if impl == "pyglm2":
            ck.eq("number of thresholds", m.q, q)
            ck.expect("threshold labels", list(m.tau_labels) == [f"{a}|{b}" for a, b in zip(m.model_data.unique[:-1], m.model_data.unique[1:])])
            ck.eq("categories", m.model_data.unique, u)
            ck.eq("category counts", m.model_data.counts, [np.sum(code == k) for k in range(K)])
            if how != "X/y arrays":
                ck.expect("coefficient labels", list(m.beta_labels) == names(form))
            ck.close("starting thresholds", m.params_init, np.r_[OT._fwd(st.norm.ppf(np.cumsum(np.bincount(code))[:-1] / len(d)), q), np.zeros(p)], 1e-12)
        for t in range(2 if big else 1):
            par = np.r_[np.linspace(-0.7, 0.9, q) + 0.1 * t if q > 1 else [0.2 + t * 0.3], 0.3 * np.cos(np.arange(p) + 1 + t)]
            f = lambda v, ii=slice(None): np.sum((w * nll_i(v, X, code, K, link))[ii])
            G = numdiff.jac(lambda v: w * nll_i(v, X, code, K, link), par, 1e-2)
            H = numdiff.jac(lambda v: numdiff.grad(f, v, 1e-2), par, 1e-2)
            kp = par.copy()
            ck.close("log-likelihood", ck.must("loglike", m.loglike, par), f(par), 1e-9)
            ck.close("gradient", ck.must("gradient", m.gradient, par), G.sum(0), 1e-7)
            ck.close("Hessian", ck.must("hessian", m.hessian, par), H, 1e-6)
            ck.eq("argument untouched", par, kp)
            if impl == "pyglm":
                continue
            ck.close("gradient per observation", m.gradient_i(par), G, 1e-7)
            s = OT._fwd(par, q)
            fu = lambda v: f(OT._rvs(v, q))
            ck.close("unconstrained log-likelihood", m.loglike_unconstrained(s), f(par), 1e-9)
            ck.close("unconstrained gradient", ck.must("unconstrained gradient", m.gradient_unconstrained, s), numdiff.grad(fu, s, 1e-2), 1e-7)
            ck.close("unconstrained gradient per observation", ck.must("unconstrained gradient per observation", m.gradient_unconstrained_i, s),
                     numdiff.jac(lambda v: w * nll_i(OT._rvs(v, q), X, code, K, link), s, 1e-2), 1e-7)
            ck.close("unconstrained Hessian", ck.must("unconstrained Hessian", m.hessian_unconstrained, s),
                     numdiff.jac(lambda v: numdiff.grad(fu, v, 1e-2), s, 1e-2), 1e-6)
            ck.eq("argument untouched", s, OT._fwd(par, q))
            ii = np.array([3, 1, 1, 5, 12])
            ck.close("log-likelihood of other data", m.loglike(par, data=m.model_data[ii]), f(par, ii), 1e-9)
            ck.close("gradient of other data", m.gradient(par, data=m.model_data[ii]), G[ii].sum(0), 1e-7)

    def newton(X, code, w, K, link, par):
        """is par the maximum?  Newton decrement, Hessian"""
        f = lambda v: np.sum(w * nll_i(v, X, code, K, link))
        g = numdiff.grad(f, par, 1e-2)
        H = numdiff.jac(lambda v: numdiff.grad(f, v, 1e-2), par, 1e-2)
        return g @ np.linalg.solve(H, g) / 2, H, f(par)

    def fits(ck):
        impl, K, link, form = pick(ck, 45)
        how = ck.choose("supplied as", ["formula", "X frame, y series"]) if impl == "pyglm2" else "formula"
        wk = ck.choose("weights", ["none", "vector"]) if impl == "pyglm2" else "none"
        d = base(ck, K, 45, "fit")
        X, code = design(d, form), d.y.values
        w = d.w.values if wk == "vector" else np.ones(len(d))
        q, p = K - 1, X.shape[1]
        m = make(ck, impl, d, form, link, how, wk)
        ck.must("fit", m.fit)
        par = m.params
        dec, H, ll = newton(X, code, w, K, link, par)
        ck.expect("the estimate maximises the likelihood", dec < 1e-7, f"Newton decrement {dec}")
        se = np.sqrt(np.diag(np.linalg.inv(H)))
        t = par / se
        T = st.t(len(d) - q - p)
        ck.close("estimates table", m.res.iloc[:, 0], par, 1e-12)
        ck.close("standard errors", m.res["SE"].values / se, np.ones(q + p), 1e-4)
        ck.close("test statistics", m.res["t"].values, t, 1e-4)
        ck.close("p values", m.res["p"].values, 2 * T.sf(np.abs(t)), 1e-4)
        if impl == "pyglm":
            ck.eq("thresholds and coefficients", np.r_[m.theta, m.beta], par)
            ck.expect("labels", list(m.res.index)[:q] == [f"threshold {i}|{i + 1}" for i in range(1, K)])
            null = np.bincount(code) / len(d)
            llr = 2 * (-np.sum(np.log(null[code])) - ll)
            ck.close("likelihood-ratio statistic", m.sumstats.loc["LLR", "statistic"], llr, 1e-5)
            ck.close("likelihood-ratio p value", float(m.sumstats.loc["LLR", "pvalue"]), st.chi2(p).sf(llr), 1e-5)
            fitstats.table(ck, "statistic ", m.sumstats["statistic"], -ll, np.sum(np.log(null[code])), p, len(d), tol=1e-5,
                           names=dict(r2_coxsnell="R2_CS", r2_mcfadden="R2_MC", r2_mcfadden_adj="R2_MB", r2_nagelkerke="R2_NK"))
            ck.eq("predicted category", ck.must("predict", m.predict), np.sum((X @ par[q:])[:, None] > par[:q], axis=1))
            return
        ck.expect("labels", list(m.res.index) == [f"{m.model_data.unique[i]}|{m.model_data.unique[i + 1]}" for i in range(q)] + names(form))
        ck.close("intervals", m.res.iloc[:, -2:], np.column_stack([par - T.ppf(0.975) * se, par + T.ppf(0.975) * se]), 1e-4)
        ck.close("coefficient covariance", m.coefs_cov, np.linalg.inv(H)[q:, q:], 1e-4)
        ck.close("coefficients", np.r_[m.coefs, m.beta], np.r_[par[q:], par[q:]], 0)
        n, k = len(d), q + p
        ck.close("maximised likelihood", m.llf, ll, 1e-9)
        ck.close("information criteria", [m.aic, m.aicc, m.bic, m.caic], [2 * ll + 2 * k, 2 * ll + 2 * k * n / (n - k - 1), 2 * ll + k * np.log(n), 2 * ll + k * (np.log(n) + 1)], 1e-9)
        null = np.bincount(code, weights=w) / w.sum()
        ck.close("null likelihood", m.lln, -np.sum(w * np.log(null[code])), 1e-7)
        fitstats.table(ck, "statistic ", m.sumstats.iloc[:, 0], -ll, np.sum(w * np.log(null[code])), k, n, tol=1e-5, names={s: s for s in m.sumstats.index if s in fitstats.NAMES})
        # predictions
        level = ck.choose("level", [0.95, 0.8])
        lin, pr, cum = ck.must("predict", m.predict, ci_level=level)
        P = probs(par, X, K, link)
        ck.close("predicted probabilities", pr["mean"], P, 1e-10)
        ck.close("probabilities add to one", pr["mean"].sum(axis=1), np.ones(n), 1e-12)
        ck.close("cumulative probabilities", cum["mean"], np.cumsum(P, axis=1)[:, :-1], 1e-10)
        eta = par[:q] - (X @ par[q:])[:, None]
        V = np.linalg.inv(H)
        D = np.stack([np.column_stack([np.tile(np.eye(q)[i], (n, 1)), -X]) for i in range(q)], axis=1)
        es = np.sqrt(np.einsum("nij,jk,nik->ni", D, V, D))
        z = st.norm.ppf(0.5 + level / 2)
        ck.close("linear predictor", lin["mean"], eta, 1e-10)
        ck.close("standard error of the linear predictor", lin["se"], es, 1e-4)
        ck.close("interval of the linear predictor", np.hstack([lin["lower"], lin["upper"]]), np.hstack([eta - z * es, eta + z * es]), 1e-4)
        ck.close("interval of the cumulative probability", cum["lower"], INV[link](eta - z * es), 1e-4)
        ck.expect("rows of predictions", list(pr["mean"].index) == list(d.index))
        new = X[[4, 0, 9]] + 0.25
        l2, p2, _ = ck.must("predict new", m.predict, X=new)
        ck.close("predictions at new points", p2["mean"], probs(par, new, K, link), 1e-10)
        l3, p3, _ = ck.must("predict frame", m.predict, X=pd.DataFrame(new, index=["u", "v", "w"], columns=names(form)), se=False)
        ck.close("predictions at new points", p3["mean"], probs(par, new, K, link), 1e-10)
        ck.expect("rows of predictions", list(p3["mean"].index) == ["u", "v", "w"])
        ck.outcome(link, K, np.round(par, 3).tolist())

    def relations(ck):
        """estimates do not depend on how the same data are presented"""
        impl, K, link, form = pick(ck, 45)
        d = base(ck, K, 45, "fit")
        q = K - 1
        rel = ck.choose("relation", ["row order", "labels", "reflection", "replication", "scaling of a predictor"] + ["binary regression"] * (K == 2))
        ck.require(not (rel == "replication" and impl == "pyglm"))
        ck.require(not (rel == "reflection" and link == "Cloglog"))

        def fit(dd, wk="none"):
            m = make(ck, impl, dd, form, link, "formula", wk)
            ck.must("fit", m.fit)
            return np.asarray(m.params), np.asarray(m.res["SE"]), m
        if rel == "replication":
            a, sa, _ = fit(d, "vector")
            b, sb, mb = fit(d.loc[np.repeat(d.index, d.w.astype(int))].reset_index(drop=True))
        else:
            a, sa, _ = fit(d)
            if rel == "row order":
                b, sb, _ = fit(d.iloc[np.argsort(d.x.values)])
            elif rel == "labels":
                b, sb, _ = fit(d.assign(y=np.array([-2.0, 0.5, 3.0, 100.0, 101.0, 102.0])[d.y.values]).rename(index=lambda i: f"k{i}"))
            elif rel == "reflection":
                b, sb, _ = fit(d.assign(y=K - 1 - d.y))
                b = np.r_[-b[:q][::-1], -b[q:]]
                sb = np.r_[sb[:q][::-1], sb[q:]]
            elif rel == "scaling of a predictor":
                ck.require(form != "x*z")
                b, sb, _ = fit(d.assign(x=d.x * 4))
                b = np.r_[b[:-1], b[-1] * 4]
                sb = np.r_[sb[:-1], sb[-1] * 4]
            else:
                from pystatsm.pyglm2.families import Binomial
                from pystatsm.pyglm2.glm import GLM
                ck.require(link != "Cloglog")
                g = GLM("y ~ " + FORMS[form], d, family=Binomial(link=getattr(L2, link + "Link")))
                g.fit()
                b, sb = np.asarray(g.params)[:len(a)], np.asarray(g.res["SE"])[:len(a)]
                b = np.r_[-b[0], b[1:]]
        ck.close(rel, a, b, 2e-4)
        ck.close(rel + ": standard errors", sa, sb, 2e-4)

    def bootstrap(ck):
        K = ck.choose("categories", [2, 3])
        link = ck.choose("link", LINK)
        form = ck.choose("formula", ["x", "x*z"])
        wk = ck.choose("weights", ["none", "vector"])
        info = ck.flag("return_info")
        d = base(ck, K, 45, "fit")
        X, code = design(d, form), d.y.values
        w = d.w.values if wk == "vector" else np.ones(len(d))
        m = make(ck, "pyglm2", d, form, link, "formula", wk)
        ck.must("fit", m.fit)
        keep = m.params.copy()
        b, inf = ck.must("bootstrap", m._bootstrap, n_boot=3, verbose=False, return_info=info, rng=np.random.default_rng(4))
        ck.eq("the model is untouched", m.params, keep)
        ck.expect("columns", list(b.columns) == list(m.param_labels))
        r = np.random.default_rng(4)
        for i in range(3):
            ii = r.choice(len(d), size=len(d), replace=True)
            if len(np.unique(code[ii])) < K:
                continue
            dec, H, ll = newton(X[ii], code[ii], w[ii], K, link, b.values[i])
            ck.expect("bootstrap estimates fit their resample", dec < 1e-6, f"Newton decrement {dec}")
        if info:
            ck.expect("fit information", inf.shape == (3, 10) and np.isfinite(inf.values.astype(float)).all())

    rep.explore("transform", transform)
    rep.explore("likelihood", likelihood)
    rep.explore("fits", fits)
    rep.explore("relations", relations)
    rep.explore("bootstrap", bootstrap)
