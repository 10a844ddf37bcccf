"""C15: least squares: univariate and multivariate linear models, their
inference, constraints, resampling, and the data containers they share."""
import itertools

import numpy as np
import pandas as pd
import scipy.linalg as sl
import scipy.stats as st

from mc.lib import numdiff

FORMS = {"x": (lambda d: [d.x], ["Intercept", "x"]),
         "x + g": (lambda d: [(d.g == "b") * 1.0, (d.g == "c") * 1.0, d.x], ["Intercept", "g[T.b]", "g[T.c]", "x"]),
         "x * z": (lambda d: [d.x, d.z, d.x * d.z], ["Intercept", "x", "z", "x:z"]),
         "g * z": (lambda d: [(d.g == "b") * 1.0, (d.g == "c") * 1.0, d.z, (d.g == "b") * d.z, (d.g == "c") * d.z],
                   ["Intercept", "g[T.b]", "g[T.c]", "z", "g[T.b]:z", "g[T.c]:z"])}
TERMS = {"x": {"x": [1]}, "x + g": {"g": [1, 2], "x": [3]}, "x * z": {"x": [1], "z": [2], "x:z": [3]}, "g * z": {"g": [1, 2], "z": [3], "g:z": [4, 5]}}


def base(ck, n=18, q=1):
    r = ck.rng("ls", n, q)
    d = pd.DataFrame(dict(x=np.round(r.normal(size=n), 2), g=np.tile(list("bac"), n)[:n], z=np.round(r.uniform(-1, 1, n), 2)))
    for j in range(q):
        d[f"y{j + 1}" if q > 1 else "y"] = np.round(1 + 0.4 * (j + 1) * d.x - 0.3 * d.z + 0.5 * (d.g == "c") * (j != 1) + r.normal(size=n) * (0.5 + 0.2 * j), 2)
    if q > 1:
        d["y2"] += 0.5 * d["y1"]
    return d


def design(d, form):
    return np.column_stack([np.ones(len(d))] + [np.asarray(v, float) for v in FORMS[form][0](d)])


def arrange(d, order):
    if order == "reversed":
        return d.iloc[::-1]
    if order == "relabelled":
        return d.rename(index={i: f"r{(5 * i) % len(d)}" for i in range(len(d))})
    return d


def sse(X, Y):
    """residual cross products of the least-squares fit of Y on X"""
    R = Y - X @ np.linalg.lstsq(X, Y, rcond=None)[0]
    return R.T @ R


def omega(kind, r2, h, n, p):
    return {"HC0": r2, "HC1": r2 * n / (n - p), "HC2": r2 / (1 - h), "HC3": r2 / (1 - h) ** 2, "HC4": r2 / (1 - h) ** np.minimum(4, h / h.mean())}[kind]


def run(rep, tier):
    from pystatsm.pyglm.linear_model import LinearModel, ModelData as MD1, RegressionMixin as RM1
    from pystatsm.pyglm.ols import OLS as OLS1
    from pystatsm.pyglm2.mvols import MVOLS, MMRParameterPacker
    from pystatsm.pyglm2.ols import OLS as OLS2
    from pystatsm.pyglm2.regression_model import ModelData as MD2, RegressionMixin as RM2
    from pystatsm.pyglm2 import sim_mvols
    big = tier == "thorough"
    rep.assumptions += ["univariate least squares is unweighted", "designs of full column rank with an intercept", "more residual degrees of freedom than responses"]
    CLS = {"pyglm2.OLS": OLS2, "LinearModel": LinearModel, "pyglm.OLS": OLS1}

    def build(ck, impls=tuple(CLS)):
        impl = ck.choose("implementation", impls)
        form = ck.choose("formula", list(FORMS))
        order = ck.choose("rows", ["sorted", "reversed", "relabelled"])
        how = ck.choose("supplied as", ["formula", "X/y arrays", "X frame, y series", "X, y frames"])
        d = arrange(base(ck), order)
        keep = d.copy()
        X = design(d, form)
        y = d.y.values
        C = CLS[impl]
        if how == "formula":
            m = ck.must("model", C, formula="y ~ " + form, data=d)
        elif how == "X/y arrays":
            m = ck.must("model", C, X=X.copy(), y=y.copy())
        else:
            m = ck.must("model", C, X=pd.DataFrame(X, index=d.index, columns=FORMS[form][1]), y=d.y if "series" in how else d[["y"]])
        ck.expect("caller's data untouched", d.equals(keep))
        return impl, form, how, d, X, y, m

    def univariate(ck):
        impl, form, how, d, X, y, m = build(ck)
        n, p = X.shape
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        r = y - X @ b
        S = r @ r
        s2 = S / (n - p)
        Gi = np.linalg.inv(X.T @ X)
        se = np.sqrt(np.diag(Gi) * s2)
        names = FORMS[form][1]
        T = st.t(n - p)
        sst = np.sum((y - y.mean()) ** 2)
        F = (sst - S) / (p - 1) / s2
        ssq = [[S, n - p, s2], [sst - S, p - 1, (sst - S) / (p - 1)], [sst, n - 1, sst / (n - 1)]]
        stats = [1 - S / sst, 1 - s2 / (sst / (n - 1)), F]
        H = X @ Gi @ X.T
        h = np.diag(H)
        if impl == "pyglm.OLS":
            kinds = ck.choose("robust", [None, "HC0", ["HC1", "HC4"], ["HC2", "HC3"]])
            ck.must("fit", m.fit, kinds)
            ck.close("coefficients", m.beta, b, 1e-9)
            ck.close("table", m.res[["beta", "SE", "t", "p"]], np.column_stack([b, se, b / se, 2 * T.sf(np.abs(b / se))]), 1e-8)
            if how != "X/y arrays":
                ck.expect("labels", list(m.res.index) == names)
            for k in ([kinds] if isinstance(kinds, str) else kinds or []):
                V = Gi @ (X.T * omega(k, r ** 2, h, n, p)) @ X @ Gi
                sk = np.sqrt(np.diag(V))
                ck.close("robust table", m.res[["SE_" + k, "t_" + k, "p_" + k]], np.column_stack([sk, b / sk, 2 * T.sf(np.abs(b / sk))]), 1e-8, msg=k)
                ck.close("robust standard errors", m.robust_rcov(k)[2], sk, 1e-8, msg=k)
            ck.close("coefficient covariance", m.Vbeta, Gi * s2, 1e-9)
            ck.close("leverage", m.h, h, 1e-10)
            par = np.r_[b * 0.9 + 0.1, 0.2]
            e = y - X @ par[:-1]
            ck.close("log-likelihood", m.loglike(par), st.norm(0, np.exp(0.2)).logpdf(e).sum(), 1e-10)
            ck.close("profiled log-likelihood", m.loglike(par[:-1]), st.norm(0, np.sqrt(np.mean(e ** 2))).logpdf(e).sum(), 1e-10)
            ii = np.arange(3, n)
            ck.close("log-likelihood of other data", m.loglike(par, X[ii], y[ii]), st.norm(0, np.exp(0.2)).logpdf(e[ii]).sum(), 1e-10)
            ck.must("jackknife", m._compute_jackknife_coefs)
            loo = np.array([np.linalg.lstsq(np.delete(X, i, 0), np.delete(y, i), rcond=None)[0] for i in range(n)])
            ck.close("jackknife coefficients", m.beta_jackknife, loo, 1e-8)
            ck.close("centred jackknife coefficients", m.beta_jackknife_z, loo - loo.mean(0), 1e-8)
            ck.close("condition indices", np.sort(m.condition_indices), np.sort(np.linalg.eigvalsh(X.T @ X)[-1] / np.linalg.eigvalsh(X.T @ X)), 1e-8)
        else:
            reml = ck.flag("reml")
            ck.must("fit", m._fit, reml=reml)
            k = n - p if reml else n
            ck.close("coefficients", m.beta, b, 1e-9)
            ck.close("residual sum of squares", m.sse, S, 1e-9)
            ck.close("scales", [m.scale, m.scale_ml, m.scale_unbiased], np.sqrt([S / k, S / n, s2]), 1e-9)
            ck.close("parameters", m.params, np.r_[b, np.log(S / k)], 1e-9)
            ck.close("alternative solution", ck.must("fit1", m._fit1, None, (m.X, m.y), reml=reml)[-1], m.params, 1e-9)
            for par in (m.params, np.r_[b * 0.8 + 0.2, 0.3]):
                for rl in (True, False):
                    kk = n - p if rl else n
                    f = lambda v: kk / 2 * (np.log(2 * np.pi) + v[-1]) + np.sum((y - X @ v[:-1]) ** 2) * np.exp(-v[-1]) / 2
                    ck.close("log-likelihood", m.loglike(par, reml=rl), f(par), 1e-10)
                    ck.close("gradient", m.gradient(par, reml=rl), numdiff.grad(f, par), 1e-6)
                    ck.close("Hessian", m.hessian(par, reml=rl), numdiff.jac(lambda v: numdiff.grad(f, v), par), 1e-5)
            # the scale divisor of the fit: REML and ML agree with their own likelihood
            V = sl.block_diag(Gi * S / k, np.array([[2.0 / k]]))
            V2 = np.linalg.inv(sl.block_diag(X.T @ X * k / S, np.array([[S / (S / k) / 2]])))
            ck.close("parameter covariance", m.params_cov, V2, 1e-8)
            ck.close("parameter covariance", m.params_cov, V, 1e-8)
            sp_ = np.sqrt(np.diag(V))
            t = m.params / sp_
            ck.close("table", m.res.iloc[:, :4], np.column_stack([m.params, sp_, t, 2 * T.sf(np.abs(t))]), 1e-8)
            ck.close("intervals", m.res.iloc[:, -2:], np.column_stack([m.params - T.ppf(0.975) * sp_, m.params + T.ppf(0.975) * sp_]), 1e-8)
            if how != "X/y arrays":
                ck.expect("labels", list(m.res.index) == names + ["log_scale"])
        if impl != "LinearModel":
            if impl == "pyglm2.OLS":
                ck.must("fit", m.fit, reml=ck.flag("reml of fit"))
            ck.close("sums of squares", m.ssq, ssq, 1e-9)
            ck.close("R squared and F", m.sumstats["Statistic"].astype(float), stats, 1e-8)
            ck.close("F test", float(m.sumstats["P"].iloc[2]), st.f(p - 1, n - p).sf(F), 1e-8)
            ck.close("predictions", m.predict(), X @ b, 1e-9)
            ck.close("predictions", m.predict(X=X[:3] + 1, beta=b + 1), (X[:3] + 1) @ (b + 1), 1e-9)
        ck.outcome(impl, form, how)

    def constrained(ck):
        """least squares under every small system of linear constraints"""
        impl = ck.choose("implementation", ["pyglm2.OLS", "LinearModel"])
        d = base(ck)
        X, y = design(d, "x * z")[:, :3] if not big else design(d, "x * z"), d.y.values
        m = CLS[impl](X=X, y=y)
        m._fit()
        p = X.shape[1]
        k = ck.choose("constraints", [1, 2])
        C = []
        for i in range(k):
            C.append([ck.choose("coefficient", [0.0, 1.0, -1.0]) for _ in range(p)])
        C = np.array(C)
        ck.require(np.linalg.matrix_rank(C) == k)
        dv = {"none": None, "zero": np.zeros(k), "values": np.array([0.7, -0.4])[:k]}[ck.choose("right-hand side", ["none", "zero", "values"])]
        kw = {"Linv": dict(Linv=m.Linv), "L": dict(L=m.L), "neither": {}}[ck.choose("factor", ["Linv", "L", "neither"])]
        keep = (m.params.copy(), C.copy())
        bc, sc = ck.must("constrained", m._get_coef_constrained, m.params, m.sse, (X, y), C, d=dv, **kw)
        rhs = np.zeros(k) if dv is None else dv
        K = np.block([[X.T @ X, C.T], [C, np.zeros((k, k))]])
        want = np.linalg.solve(K, np.r_[X.T @ y, rhs])[:p]
        ck.close("constraints hold", C @ bc, rhs, 1e-9)
        ck.close("constrained coefficients", bc, want, 1e-8)
        ck.close("constrained residual sum of squares", sc, np.sum((y - X @ want) ** 2), 1e-8)
        ck.expect("arguments untouched", np.array_equal(keep[0], m.params) and np.array_equal(keep[1], C))

    def sandwich(ck):
        RM = ck.choose("implementation", [("pyglm", RM1), ("pyglm2", RM2)])[1]
        n = 6
        pat = [ck.choose("group", [0, 1, 2]) for _ in range(n)] if big else [0, 1] + [ck.choose("group", [0, 1, 2]) for _ in range(n - 2)]
        form = ck.choose("columns", ["group and line", "line"])
        X = np.column_stack([np.ones(n), np.array([0.3, -1, 2, 0.5, 1.5, -0.2])] + ([np.array(pat) == 1, np.array(pat) == 2] if form == "group and line" else [np.array(pat, float)]))
        ck.require(np.linalg.matrix_rank(X) == X.shape[1] and X.shape[1] < n)
        w = np.sqrt(1.0 + np.arange(n) % 3)
        WX = X * w[:, None]
        h = np.diag(WX @ np.linalg.solve(WX.T @ WX, WX.T))
        ck.close("leverage by Cholesky", RM._compute_leverage_cholesky(WX), h, 1e-8)
        ck.close("leverage by QR", RM._compute_leverage_qr(WX), h, 1e-8)
        L = np.linalg.cholesky(WX.T @ WX)
        ck.close("leverage by Cholesky", RM._compute_leverage_cholesky(WX, Linv=np.linalg.inv(L)), h, 1e-8)
        ck.close("leverage by QR", RM._compute_leverage_qr(Q=np.linalg.qr(WX)[0]), h, 1e-8)
        g = np.array([0.5, -1.2, 0.3, 2.0, -0.7, 0.1])
        for kind in ("HC0", "HC1", "HC2", "HC3", "HC4"):
            if h.max() > 1 - 1e-9 and kind not in ("HC0", "HC1"):
                continue
            want = sum(o * np.outer(x, x) for o, x in zip(omega(kind, g ** 2, h, n, X.shape[1]), X))
            ck.close("sandwich", ck.must("sandwich", RM.sandwich_cov, g, X, h, kind), want, 1e-8, msg=kind)
        y, yh = g + 1, g * 0.5 + 1.1
        ck.close("R squared", RM._rsquared(y, yh), 1 - np.sum((y - yh) ** 2) / np.sum((y - y.mean()) ** 2), 1e-12)

    def resampling(ck):
        """permutation and bootstrap procedures are those of the stated random numbers"""
        form = ck.choose("formula", ["x", "x + g", "x * z"])
        what = ck.choose("procedure", ["permutation", "permutation, samples kept", "freedman-lane", "bootstrap", "bootstrap with sums of squares", "pyglm2 permutation", "pyglm2 bootstrap",
                                       "linear_model permutation", "linear_model bootstrap"])
        seed = ck.choose("seed", [1, 2])
        d = base(ck)
        X, y = design(d, form), d.y.values
        n, p = X.shape

        def tval(X, y):
            b = np.linalg.lstsq(X, y, rcond=None)[0]
            r = y - X @ b
            se = np.sqrt(np.diag(np.linalg.inv(X.T @ X)) * (r @ r) / (len(y) - X.shape[1]))
            return b, se, b / se
        t0 = np.abs(tval(X, y)[2])
        N = 7
        ck_ = (lambda m, *a, **k: ck.must("run", m, *a, **k))
        np.random.seed(seed)
        if what.startswith(("pyglm2", "linear_model")):
            m = (OLS2 if what.startswith("pyglm2") else LinearModel)(formula="y ~ " + form, data=d)
            m._fit()
            if what.endswith("bootstrap"):
                got = ck_(m._bootstrap, N, verbose=False)
                np.random.seed(seed)
                for i in range(N):
                    ix = np.random.choice(n, n)
                    ck.require(np.linalg.matrix_rank(X[ix]) == p)
                    b = np.linalg.lstsq(X[ix], y[ix], rcond=None)[0]
                    ck.close("bootstrap estimates", got[i], np.r_[b, np.sum((y[ix] - X[ix] @ b) ** 2)], 1e-7)
                return
            voi = ck.choose("variables", [[1], list(range(1, p))])
            pf, pv = ck_(m._permutation_test, voi, N, verbose=False, rng=np.random.default_rng(seed))
            r = np.random.default_rng(seed)
            draw = lambda: r.permutation(n)
        else:
            m = OLS1("y ~ " + form, d)
            m.fit()
            if what.startswith("bootstrap"):
                ck_(m.bootstrap, N, ssq="sums" in what)
                np.random.seed(seed)
                bs = []
                for i in range(N):
                    ix = np.random.choice(n, n)
                    ck.require(np.linalg.matrix_rank(X[ix]) == p)
                    b, se, _ = tval(X[ix], y[ix])
                    ck.close("bootstrap estimates", np.r_[m.beta_samples[i], m.beta_se_samples[i]], np.r_[b, se], 1e-7)
                    bs.append(b)
                    if "sums" in what:
                        yb, fit = y[ix], X[ix] @ b
                        a, t = np.sum((yb - fit) ** 2), np.sum((yb - yb.mean()) ** 2)
                        F = (t - a) / (p - 1) / (a / (n - p))
                        ck.close("bootstrap sums of squares", m.ssq_samples.iloc[i],
                                 [a, t - a, t, n - p, p - 1, n - 1, a / (n - p), (t - a) / (p - 1), t / (n - 1), 1 - a / t, 1 - a / (n - p) / (t / (n - 1)), F, st.f(p - 1, n - p).sf(F)], 1e-6)
                s = np.std(bs, axis=0)
                ck.close("bootstrap table", m.res[["SE_boot", "t_boot", "p_boot"]].astype(float), np.column_stack([s, m.beta / s, 2 * st.t(n - p).sf(np.abs(m.beta / s))]), 1e-7)
                ck.close("table kept", m.res[["beta", "SE"]], np.column_stack([tval(X, y)[0], tval(X, y)[1]]), 1e-8)
                return
            draw = lambda: np.random.permutation(n)
            if what == "freedman-lane":
                voi = ck.choose("variables", [None, [1], list(range(1, p))])
                ck_(m.freedman_lane, voi, N, verbose=False)
                voi = list(range(1, p)) if voi is None else voi
                pf, pv = m.res["freedman_lane_p_fwer"].values[voi].astype(float), m.res["freedman_lane_p"].values[voi].astype(float)
                ck.expect("other rows have no p value", all(v == "-" for i, v in enumerate(m.res["freedman_lane_p"]) if i not in voi))
            else:
                ck_(m.permutation_test, N, store_samples="kept" in what, verbose=False)
                pf, pv = m.res["permutation_p_fwer"].values, m.res["permutation_p"].values
                voi = list(range(p))
            np.random.seed(seed)
        other = [j for j in range(p) if j not in voi] if "freedman" in what or "_" in what or what.startswith("pyglm2") else []
        u = X[:, other] @ np.linalg.lstsq(X[:, other], y, rcond=None)[0] if other else np.zeros(n)
        ts = []
        for i in range(N):
            ts.append(tval(X, u + (y - u)[draw()])[2])
        ts = np.array(ts)
        ta = np.abs(ts)[:, voi]
        ck.close("permutation p values", pv, (ta > t0[voi]).mean(0), 1e-12)
        ck.close("family-wise p values", pf, (ta.max(1)[:, None] > t0[voi]).mean(0), 1e-12)
        if what.endswith("kept"):
            ck.close("permutation samples", m.permutation_t_samples, ts, 1e-7)

    def containers(ck):
        """the shared data container keeps every block aligned"""
        which = ck.choose("implementation", ["pyglm", "pyglm2"])
        MD = {"pyglm": MD1, "pyglm2": MD2}[which]
        n = 5
        kinds = [ck.choose("block", ["frame", "series", "array", "vector"]) for _ in range(ck.choose("blocks", [1, 2, 3]))]
        wk = ck.choose("weights", [None, "none", "vector"])
        raw, args = [], []
        for i, k in enumerate(kinds):
            a = np.arange(n * 2.0).reshape(n, 2) + 10 * i
            if k == "frame":
                args.append(pd.DataFrame(a, index=list("edcba"), columns=["p", f"q{i}"]))
            elif k == "series":
                a = a[:, :1]
                args.append(pd.Series(a[:, 0], index=list("edcba"), name=f"s{i}"))
            elif k == "array":
                args.append(a.copy())
            else:
                a = a[:, 0]
                args.append(a.copy())
            raw.append(a)
        md = ck.must("container", MD, *args)
        w = None
        if wk is not None:
            w = np.ones(n) if wk == "none" else np.array([1.0, 2, 0.5, 4, 3])
            ck.must("weights", md.add_weights, None if wk == "none" else w.copy())
        ck.eq("has weights", md.has_weights, w is not None)
        op = ck.choose("operation", ["iterate", "index", "slice", "mask", "flatten"] + ["missing"] * (which == "pyglm2"))
        if op == "flatten":
            ck.must("flatten", md.flatten_y)
            raw[-1] = raw[-1].reshape(-1)
        if op == "missing":
            where = [(ck.choose("block with a gap", list(range(len(raw)))), ck.choose("row", [0, 2, 4])), (0, 2)]
            if raw[-1].size == n and ck.flag("flattened"):
                md.flatten_y()
                raw[-1] = raw[-1].reshape(-1)
            for b, i in where:
                md.data[b] = md.data[b].copy()
                md.data[b][i] = np.nan
            keep = np.array([i not in [j for _, j in where] for i in range(n)])
            ck.must("drop missing", md.drop_missing)
            for i, k in enumerate(kinds):
                ck.expect("labels of kept rows", list(md.indexes[i]) == list(np.array(list("edcba") if k in ("frame", "series") else np.arange(n))[keep]))
            raw = [a[keep] for a in raw]
            w = None if w is None else w[keep]
            got = list(md)
        elif op in ("index", "slice", "mask"):
            ix = {"index": np.array([3, 0, 0]), "slice": slice(1, 4), "mask": np.array([True, False, True, True, False])}[op]
            got = list(ck.must("select", md.__getitem__, ix))
            raw = [a[ix] for a in raw]
            w = None if w is None else w[ix]
        else:
            got = list(md)
        want = raw + ([w] if w is not None else [])
        ck.eq("number of blocks", len(got), len(want))
        ck.eq("length", len(md), len(want))
        for g, a in zip(got, want):
            ck.eq("block", g, a)
        for i, k in enumerate(kinds):
            c = list(md.columns[i])
            ck.expect("column labels", c == {"frame": ["p", f"q{i}"], "series": [f"s{i}"], "array": ["x0", "x1"], "vector": ["x0"]}[k])
        ck.must("representation", repr, md)

    # ---- multivariate -------------------------------------------------------
    def packer(ck):
        p = ck.choose("terms", [1, 2, 4])
        q = ck.choose("responses", [1, 2, 3] + [4] * big)
        P = MMRParameterPacker(p, q)
        B = np.arange(1.0, p * q + 1).reshape(p, q)
        L = np.tril(np.arange(1.0, q * q + 1).reshape(q, q)) / 5
        th = P.pack(B, L)
        ck.eq("size", len(th), p * q + q * (q + 1) // 2)
        ck.eq("size", [P.n_params, P.n_beta, P.n_cov], [len(th), p * q, q * (q + 1) // 2])
        B2, L2 = P.unpack(th)
        ck.close("round trip", B2, B, 1e-14)
        ck.close("round trip", L2, L, 1e-14)
        ck.close("coefficients column by column", th[:p * q], [B[i, j] for j in range(q) for i in range(p)], 0)
        ck.close("factor row by row", th[p * q:], [np.log(L[i, i]) if i == j else L[i, j] for i in range(q) for j in range(i + 1)], 1e-14)
        v = np.cos(np.arange(len(th)))
        ck.close("round trip", P.pack(*P.unpack(v)), v, 1e-12)
        lab = P.theta_labels()
        ck.expect("labels", len(set(lab)) == len(th) and lab[:p * q] == [f"y{j + 1}~x{i}" for j in range(q) for i in range(p)])
        ck.expect("labels", lab[p * q:] == [f"{'log_chol_prec' if i == j else 'chol_prec'}[y{i + 1},y{j + 1}]" for i in range(q) for j in range(i + 1)])

    def mv(ck, n=18):
        form = ck.choose("formula", list(FORMS))
        q = ck.choose("responses", [1, 2, 3])
        order = ck.choose("rows", ["sorted", "relabelled"])
        wk = ck.choose("weights", ["none", "integers", "reals"])
        how = ck.choose("supplied as", ["formula", "arrays", "frames"])
        d = arrange(base(ck, n, q), order)
        ys = [f"y{j + 1}" for j in range(q)] if q > 1 else ["y"]
        X, Y = design(d, form), d[ys].values
        w = {"none": np.ones(n), "integers": 1.0 + np.arange(n) % 3, "reals": 0.5 + (np.arange(n) % 4) * 0.4}[wk]
        wa = None if wk == "none" else w.copy()
        if how == "formula":
            m = ck.must("model", MVOLS, " + ".join(ys) + " ~ " + form, d, weights=wa)
        elif how == "arrays":
            m = ck.must("model", MVOLS, X=X.copy(), y=Y.copy(), weights=wa)
        else:
            m = ck.must("model", MVOLS, X=pd.DataFrame(X, index=d.index, columns=FORMS[form][1]), y=d[ys], weights=wa)
        return form, q, how, d, ys, X, Y, w, m

    def mv_nll(par, X, Y, w, q):
        """density by density, with the covariance formed explicitly"""
        p = X.shape[1]
        B = np.array(par[:p * q]).reshape(q, p).T
        L = np.zeros((q, q), dtype=np.result_type(par, float))
        k = p * q
        for i in range(q):
            for j in range(i + 1):
                L[i, j] = np.exp(par[k]) if i == j else par[k]
                k += 1
        Om = L @ L.T
        E = Y - X @ B
        return w * (0.5 * np.einsum("ni,ij,nj->n", E, Om, E) - 0.5 * np.log(np.linalg.det(Om)) + q / 2 * np.log(2 * np.pi))

    def mv_likelihood(ck):
        form, q, how, d, ys, X, Y, w, m = mv(ck)
        p = X.shape[1]
        k = p * q + q * (q + 1) // 2
        for t in range(2):
            par = np.r_[0.4 * np.cos(np.arange(p * q) + t), 0.3 * np.sin(np.arange(k - p * q) + 1 + t)]
            kp = par.copy()
            G = np.array([np.imag(mv_nll(par + 1e-20j * e, X, Y, w, q)) / 1e-20 for e in np.eye(k)]).T
            ck.close("log-likelihood", m.loglike(par), mv_nll(par, X, Y, w, q).sum(), 1e-10)
            ck.close("gradient", m.gradient(par), G.sum(0), 1e-9)
            ck.close("gradient per observation", m.gradient_i(par), G, 1e-9)
            Hs = np.array([(np.array([np.imag(mv_nll(par + 1e-5 * e + 1e-20j * f, X, Y, w, q).sum()) / 1e-20 for f in np.eye(k)]) -
                            np.array([np.imag(mv_nll(par - 1e-5 * e + 1e-20j * f, X, Y, w, q).sum()) / 1e-20 for f in np.eye(k)])) / 2e-5 for e in np.eye(k)])
            ck.close("Hessian", m.hessian(par), Hs, 1e-6)
            ck.eq("argument untouched", par, kp)
            ii = np.array([4, 4, 1, 9])
            ck.close("log-likelihood of other data", m.loglike(par, data=(X[ii], Y[ii], w[ii])), mv_nll(par, X[ii], Y[ii], w[ii], q).sum(), 1e-10)

    def manova(H, E, dfh, dfe):
        """statistics and F approximations of the textbooks"""
        q = len(E)
        lam = np.sort(np.real(np.linalg.eigvals(np.linalg.solve(E, H))))[::-1][:min(q, dfh)]
        s, mm, nn = min(q, dfh), (abs(q - dfh) - 1) / 2, (dfe - q - 1) / 2
        W, V, U, R = np.prod(1 / (1 + lam)), np.sum(lam / (1 + lam)), lam.sum(), lam.max()
        t = np.sqrt((q ** 2 * dfh ** 2 - 4) / (q ** 2 + dfh ** 2 - 5)) if q ** 2 + dfh ** 2 - 5 > 0 else 1
        d2 = (dfe - (q - dfh + 1) / 2) * t - (q * dfh - 2) / 2
        rows = [[W, q * dfh, d2, (1 - W ** (1 / t)) / W ** (1 / t) * d2 / (q * dfh)],
                [V, s * (2 * mm + s + 1), s * (2 * nn + s + 1), (2 * nn + s + 1) / (2 * mm + s + 1) * V / (s - V)]]
        if nn > 0:
            D = 2 * (2 * nn + 1) * (nn - 1)
            d4 = 4 + (q * dfh + 2) * D / ((q + 2 * nn) * (dfh + 2 * nn) - D)
            rows.append([U, q * dfh, d4, d4 / (q * dfh) * U * 2 * nn / (d4 - 2)])
        else:
            rows.append([U, s * (2 * mm + s + 1), 2 * (s * nn + 1), 2 * (s * nn + 1) * U / (s ** 2 * (2 * mm + s + 1))])
        r = max(q, dfh)
        rows.append([R, r, dfe - r + dfh, (dfe - r + dfh) / r * R])
        rows = np.array(rows)
        return np.column_stack([rows, st.f.sf(rows[:, 3], rows[:, 1], rows[:, 2])]), lam

    def hyp(X, Y, w, L, M=None):
        """hypothesis and error cross products by refitting under L B M = 0"""
        s = np.sqrt(w)[:, None]
        Z = (Y if M is None else Y @ M) * s
        N = sl.null_space(L)
        E = sse(X * s, Z)
        return sse(X @ N * s, Z) - E, E

    def mv_fit(ck):
        n = ck.choose("rows of data", [18, 9])
        form, q, how, d, ys, X, Y, w, m = mv(ck, n)
        p = X.shape[1]
        dfe = n - p
        ck.require(dfe > q)
        ck.must("fit", m.fit)
        s = np.sqrt(w)[:, None]
        B = np.linalg.lstsq(X * s, Y * s, rcond=None)[0]
        R = Y - X @ B
        E = R.T @ (R * w[:, None])
        Sg = E / w.sum()
        ck.close("coefficients", m.beta, B, 1e-8)
        ck.close("covariance", m.sigma_mle, Sg, 1e-8)
        ck.close("precision", m.precision, np.linalg.inv(Sg), 1e-7)
        ck.close("unbiased covariance", m.sigma_unbiased, E / dfe, 1e-8)
        ck.close("fitted values and residuals", np.c_[m.fitted_values, m.residuals], np.c_[X @ B, R], 1e-8)
        ck.close("maximised log-likelihood", m.llf, -mv_nll(m.params, X, Y, w, q).sum(), 1e-9)
        G = np.array([np.imag(mv_nll(m.params + 1e-20j * e, X, Y, w, q).sum()) / 1e-20 for e in np.eye(len(m.params))])
        ck.close("the estimate is stationary", G, 0 * G, 1e-7, scale=1 + w.sum())
        ck.close("coefficient covariance", m.beta_cov, np.kron(Sg, np.linalg.inv(X.T @ (X * w[:, None]))), 1e-7)
        k = len(m.params)
        T = st.t(n - k) if n > k else None
        se = np.sqrt(np.diag(np.linalg.inv(m.hessian(m.params))))
        ck.close("standard errors", m.res["SE"], se, 1e-7)
        if T is not None:
            t = m.params / se
            ck.close("table", m.res.iloc[:, :4], np.column_stack([m.params, se, t, 2 * T.sf(np.abs(t))]), 1e-7)
        ck.expect("labels", list(m.res.index) == list(m.param_labels))
        if how != "arrays":
            ck.expect("labels", m.param_labels[:p * q] == [f"{b}~{a}" for b in ys for a in FORMS[form][1]])
        c = Y - np.average(Y, axis=0, weights=w)
        tot = c.T @ (c * w[:, None])
        r2 = 1 - np.diag(E) / np.diag(tot)
        ck.close("R squared", m.rsquared, np.column_stack([r2, 1 - (1 - r2) * (n - 1) / dfe]), 1e-8)
        ck.close("trace R squared", m.r2_trace, 1 - np.trace(E) / np.trace(tot), 1e-8)
        ck.close("determinant R squared", m.r2_det, 1 - np.linalg.det(E) / np.linalg.det(tot), 1e-7)
        ll = m.llf
        ck.close("information criteria", [m.aic, m.bic, m.caic], [-2 * ll + 2 * k, -2 * ll + k * np.log(n), -2 * ll + k * (np.log(n) + 1)], 1e-9)
        # tests of terms
        terms = TERMS[form] if how == "formula" else {c_: [i] for i, c_ in enumerate(m.xcols) if i}
        allrows = {k_: np.eye(p)[v] for k_, v in terms.items()}
        if len(allrows) > 1:
            allrows["Regression"] = np.eye(p)[1:]
        ck.expect("tested terms", list(dict.fromkeys(m.mv_tests.index.get_level_values(0))) == list(allrows))
        for k_, L in allrows.items():
            want, lam = manova(*hyp(X, Y, w, L), len(L), dfe)
            ck.close("multivariate tests", m.mv_tests.loc[k_][["Value", "Num DF", "Den DF", "F Value", "P Value"]], want, 1e-6, msg=k_)
            if min(q, len(L)) == 1:
                ck.close("one-dimensional tests coincide", np.ptp(m.mv_tests.loc[k_][["F Value", "P Value"]].values, axis=0), [0, 0], 1e-6, scale=1 + np.abs(want[:, 3]).max())
        H_, E_ = hyp(X, Y, w, np.eye(p)[1:])
        lam = np.sort(np.real(np.linalg.eigvals(np.linalg.solve(E_, H_))))[::-1][:min(q, p - 1)]
        rho = lam / (1 + lam)
        ck.close("canonical correlations", m.canonical_corr, np.sqrt(rho), 1e-6)
        a, sdim = m.assoc["Value"], min(q, p - 1)
        W, V, U, Rt = np.prod(1 - rho), rho.sum(), lam.sum(), lam.max()
        ck.close("measures of association", a, [W, V, U, Rt, 1 - W, 1 - W ** (1 / sdim), V / sdim, U / sdim / (1 + U / sdim), Rt / (1 + Rt), rho.mean()], 1e-6)
        ck.close("predictions", m.predict(X=X[:2] * 2), X[:2] * 2 @ B, 1e-8)
        if q > 1:
            M = np.array([[1.0, 0], [-1, 1], [0, -1]])[:q, :q - 1]
            L = np.eye(p)[[1]] - (np.eye(p)[[2]] if p > 2 else 0)
            want, _ = manova(*hyp(X, Y, w, L, M), 1, dfe)
            ck.close("general hypothesis", ck.must("hypothesis", m.test_hypothesis, L[0], M), want, 1e-6)
        if wk_integers(w) and n == 18:
            r = np.repeat(np.arange(n), w.astype(int))
            m2 = MVOLS(X=X[r], y=Y[r])
            m2.fit()
            ck.close("integer weights replicate", np.r_[m.params, m.llf, m.params_se], np.r_[m2.params, m2.llf, m2.params_se], 1e-7)

    def wk_integers(w):
        return w.max() > 1 and np.all(w == np.round(w))

    def mv_mle(ck):
        form, q, how, d, ys, X, Y, w, m = mv(ck)
        ck.require(how == "formula")
        m.params_init = m.params_init + 0.2 * np.cos(np.arange(len(m.params_init)))
        ck.must("fit", m.fit, method="mle")
        par = m.params
        want = m._closed_form_theta()
        ck.close("numerical and closed-form estimates agree", par, want, 1e-4)

    def mv_simulated(ck):
        p, q = ck.choose("predictors", [1, 3]), ck.choose("responses", [1, 2, 3])
        fi = ck.flag("intercept")
        bs = ck.choose("coefficients", ["low_rank_plus_sparse", "sparse", "dense"])
        xc, ec = ck.choose("x correlation", ["toeplitz", "identity"]), ck.choose("error correlation", ["toeplitz", "identity"])
        noise = ck.choose("noise", ["normal", "t"])
        r2 = ck.choose("R squared", [0.3, 0.8])
        kw = dict(n=40, p=p, q=q, fit_intercept=fi, beta_structure=bs, x_correlation=xc, error_correlation=ec, noise=noise, target_r2=r2, beta_sparsity=0.9)
        o = ck.must("simulate", sim_mvols.generate_mmr_data, random_state=3, **kw)
        np.random.seed(7)
        o2 = sim_mvols.generate_mmr_data(random_state=3, **kw)
        ck.expect("the same seed gives the same data", np.array_equal(o["X"], o2["X"]) and np.array_equal(o["Y"], o2["Y"]))
        Xd = o["X"] if not fi else np.column_stack([np.ones(40), o["X"]])
        ck.eq("design", o["X_design"], Xd)
        ck.close("data are signal plus noise", o["Y"], Xd @ o["B"] + o["E"], 1e-10)
        P = MMRParameterPacker(Xd.shape[1], q)
        B, L = P.unpack(o["theta_true"])
        ck.close("true parameters", B, o["B"], 1e-12)
        ck.close("true parameters", L @ L.T @ o["Sigma"], np.eye(q), 1e-8)
        ck.close("coefficients", o["B"][1:] if fi else o["B"], o["coef"], 0)
        rho = 0.4 if ec == "toeplitz" else 0.0
        S = o["Sigma"]
        ck.close("error correlation", S / S[0, 0], np.array([[rho ** abs(i - j) for j in range(q)] for i in range(q)]), 1e-10)
        M = Xd @ o["B"]
        v = np.trace(np.cov(M.T, ddof=0).reshape(q, q))
        if v > 0:
            ck.close("share of variance explained", v / (v + np.trace(S)), r2, 1e-9)
        df = sim_mvols.generate_mmr_data(random_state=3, return_dataframe=True, **kw)
        ck.eq("frames hold the same data", np.c_[df["X"], df["Y"]], np.c_[o["X"], o["Y"]])

    rep.explore("univariate", univariate)
    rep.explore("constrained", constrained)
    rep.explore("sandwich", sandwich)
    rep.explore("resampling", resampling)
    rep.explore("containers", containers)
    rep.explore("packer", packer)
    rep.explore("multivariate likelihood", mv_likelihood)
    rep.explore("multivariate fits", mv_fit)
    rep.explore("multivariate maximisation", mv_mle)
    rep.explore("multivariate simulation", mv_simulated)
