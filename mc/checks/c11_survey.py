"""C11: survey designs, design-based covariances and the replication harness."""
import itertools

import numpy as np
import pandas as pd
import scipy.stats as st

STYLES = {"int": ([0, 1, 2], [0, 1, 2]), "text": (["s9", "s10", "a"], ["q", "b", "c"]), "float": ([2.5, -1.0, 0.0], [10.0, 2.0, 7.5]),
          "categorical": (["u", "t", "s"], [3, 1, 2]), "bool-object": ([True, False, True], ["z", "y", "x"])}


def frame(assign, style, ck):
    s_lab, p_lab = STYLES[style]
    n = len(assign)
    r = ck.rng("frame", n)
    d = pd.DataFrame(dict(s=[s_lab[a] for a, _ in assign], p=[p_lab[b] for _, b in assign], id=np.arange(n), w=np.round(r.uniform(0.5, 3, n), 2)))
    if style == "categorical":
        d["s"] = pd.Categorical(d["s"], categories=["t", "s", "unused", "u"])
        d["p"] = pd.Categorical(d["p"], categories=[4, 3, 2, 1])
    return d


def meat_ref(strata, psu, U, fpc=None, pool=False):
    """sum over strata of (1-f) n/(n-1) sum_k (t_k - tbar)(t_k - tbar)'; strata with one PSU contribute
    nothing, or are pooled into one stratum"""
    groups = {}
    for s, p, u in zip(strata, psu, U):
        groups.setdefault(s, {}).setdefault(p, np.zeros(U.shape[1]))
        groups[s][p] = groups[s][p] + u
    if pool:
        single = [s for s, g in groups.items() if len(g) == 1]
        pooled = {s: next(iter(groups.pop(s).values())) for s in single}
        if pooled:
            groups[("pooled",)] = pooled
    M = np.zeros((U.shape[1],) * 2)
    for s, g in groups.items():
        T = np.array(list(g.values()))
        if len(T) > 1:
            T = T - T.mean(0)
            M += (1 - (0.0 if fpc is None else fpc[s])) * len(T) / (len(T) - 1) * T.T @ T
    return M, sorted(len(g) for g in groups.values())


def check_layout(ck, D, sizes):
    L = D.layout
    ck.eq("strata", sorted(np.asarray(L.n_psu_per_str).tolist()), sizes)
    ck.eq("n-strata", (D.n_str, D.n_grp, L.n_str, L.n_grp), (len(sizes), sum(sizes)) * 2)
    ck.eq("ptr", (L.ind_str[0], L.ind_str[-1], L.ind_psu[0], L.ind_psu[-1]), (0, D.n_grp, 0, D.n))
    ck.eq("ptr-str", np.diff(L.ind_str), L.n_psu_per_str)
    ck.expect("ptr-psu", np.all(np.diff(L.ind_psu) > 0))


def run(rep, tier):
    from pystatsm.utilities.complexdesign import (SampleDesign, design_sandwich, LinearPopulation, BinomialPopulation,
                                                  WLSAdapter, GLMAdapter, replicate, ReplicationResult)
    from pystatsm.pyglm2 import families as F
    big = tier == "thorough"
    rep.assumptions += ["strata and PSU labels are not missing", "GLM adapters: fits that converge"]
    D0 = SampleDesign(pd.DataFrame(dict(x=np.arange(4.0))))
    D0.meat(np.ones((4, 2)))

    def meat(ck):
        """every assignment of rows to strata and PSUs, in every row order it implies"""
        shape = ck.choose("rows, strata, psus", [(1, 1, 1), (2, 2, 2), (3, 3, 2), (4, 3, 2)] + ([(5, 2, 3), (5, 3, 2)] if big else [(5, 2, 2)]))
        n, ns, npsu = shape
        style = ck.choose("labels", list(STYLES) if n < 5 else ["text"])
        cells = list(itertools.product(range(ns), range(npsu)))
        assign = [ck.choose(f"row {i}", cells) for i in range(n)]
        d = frame(assign, style, ck)
        if n == 3:
            d.index = ck.choose("index", [[0, 1, 2], [7, 7, 7], ["b", "a", "b"]])
        keep = d.copy()
        U0 = ck.rng("U", n).integers(-3, 4, (n, 2)).astype(float) + np.arange(n)[:, None] * 0.25
        s_of, p_of = list(d["s"]), list(d["p"])
        singles = [s for s in set(s_of) if len({p for t, p in zip(s_of, p_of) if t == s}) == 1]
        for policy in ("aggregate", "none", "error"):
            if policy == "error" and singles:
                try:
                    SampleDesign(d, "s", "p", "w", singleton=policy)
                    ck.fail("error-policy", "strata with one PSU were accepted")
                except ValueError:
                    ck.outcome("singletons rejected")
                continue
            D = SampleDesign(d, "s", "p", "w", singleton=policy)
            ck.eq("rows", sorted(D.df["id"]), list(range(n)), policy)
            ids = D.df["id"].to_numpy()
            ck.eq("weights", D.w, keep["w"].to_numpy()[ids], policy)
            ck.expect("columns", D.df.astype(object).values.tolist() == keep.iloc[ids].astype(object).values.tolist(), lambda: f"{policy}: the rows of the data changed: {D.df}")
            U = U0[ids]
            want, sizes = meat_ref([s_of[i] for i in ids], [p_of[i] for i in ids], U, pool=policy == "aggregate")
            check_layout(ck, D, sizes)
            ck.close("meat", D.meat(U), want, 1e-10, f"{policy} {assign}")
            ck.close("meat-again", D.meat(U), want, 1e-10, f"{policy} {assign}")
            ck.eq("scores-untouched", U, U0[ids])
            ck.close("one-column", D.meat(np.asfortranarray(U)[:, 1:]), want[1:, 1:], 1e-10)
            ck.outcome((policy, tuple(sizes)))
        ck.eq("caller-frame", d.astype(object).values.tolist(), keep.astype(object).values.tolist())
        ck.expect("caller-columns", list(d) == list(keep) and d.index.equals(keep.index))

    rep.explore("meat", meat)

    def corrections(ck):
        """finite population corrections, and designs without strata or without PSUs"""
        n = 5 if big else 4
        kind = ck.choose("design", ["strata and psu", "strata", "psu", "neither"])
        cells = list(itertools.product(range(2), range(2)))
        assign = [ck.choose(f"row {i}", cells) for i in range(n)]
        d = frame(assign, "text", ck)
        s = "s" if "strata" in kind else None
        p = "p" if "psu" in kind else None
        s_of = list(d["s"]) if s else [0] * n
        p_of = list(d["p"]) if p else list(range(n))
        labels = sorted(set(s_of))
        f = {lab: [0.25, 0.6][i] for i, lab in enumerate(labels)}
        D = SampleDesign(d, s, p, fpc=np.array([f[k] for k in labels]), singleton="none")
        ids = D.df["id"].to_numpy()
        U = (ck.rng("U").integers(-3, 4, (n, 2)) + 0.5)[ids]
        sid, pid = [s_of[i] for i in ids], [p_of[i] for i in ids]
        want, sizes = meat_ref(sid, pid, U, f)
        check_layout(ck, D, sizes)
        ck.close("meat", D.meat(U), want, 1e-10)
        ck.eq("unit-weights", D.w, np.ones(n))
        ck.expect("caller-columns", list(d) == ["s", "p", "id", "w"])
        for fpc in ([0.1] * (len(labels) + 1), 0.1):
            try:
                SampleDesign(d, s, p, fpc=fpc, singleton="none")
                ck.fail("fpc-shape", f"fpc {fpc} accepted for {len(labels)} strata")
            except ValueError:
                ck.outcome("fpc shape rejected")
        for bad in (U[:-1], U[:, 0]):
            try:
                D.meat(bad)
                ck.fail("score-shape", f"scores of shape {bad.shape} accepted")
            except ValueError:
                pass

    rep.explore("corrections", corrections)

    def subsets(ck):
        """every sequence of up to two subpopulations"""
        n = 6
        d = frame([(0, 0), (1, 1), (0, 1), (1, 0), (1, 1), (2, 0)], "int", ck)
        r = ck.rng("sub")
        d["x"] = [1.0, 2.0, 4.0, 3.0, 7.0, 5.0]
        d["y"] = np.round(r.normal(size=n), 2)
        D = SampleDesign(d, "s", "p", ck.choose("weight", ["w", None]))
        m1 = np.array([ck.flag(f"row {i}") for i in range(n)])
        m2 = np.roll(m1, 2) | m1 if ck.flag("second subset is larger") else np.arange(n) % 2 == 0
        w0, layout, df0 = D.w.copy(), D.layout, D.df.copy()
        forms = [list, lambda m: m, lambda m: m.astype(int)]
        as_form = ck.choose("mask form", [0, 1, 2])
        S = D.subset(forms[as_form](m1))
        SS = S.subset(m2)
        ck.eq("weights", S.w, w0 * m1)
        ck.eq("weights-chain", SS.w, w0 * (m1 & m2))
        ck.eq("parent-weights", D.w, w0)
        ck.expect("layout", S.layout is layout and SS.layout is layout and S.n == n and (S.n_str, S.n_grp) == (D.n_str, D.n_grp))
        ck.expect("data", S.df.equals(df0) and (S.strata, S.psuind, S.weight) == (D.strata, D.psuind, D.weight))
        if m1.sum() < 3:
            return ck.outcome("empty domain")
        fit = WLSAdapter("y ~ x").fit(S)
        X = np.column_stack([np.ones(n), S.df["x"]])
        Xd, yd, wd = X[m1], S.df["y"].to_numpy()[m1], w0[m1]
        b = np.linalg.lstsq(Xd * np.sqrt(wd)[:, None], yd * np.sqrt(wd), rcond=None)[0]
        ck.close("domain-fit", fit.params, b, 1e-7)
        A = np.linalg.inv(Xd.T @ (Xd * wd[:, None]))
        U = np.zeros((n, 2))
        U[m1] = Xd * (wd * (yd - Xd @ b))[:, None]
        M, _ = meat_ref(list(S.df["s"]), list(S.df["p"]), U, pool=True)
        ck.close("domain-covariance", design_sandwich(fit.bread, fit.score_i, S), A @ M @ A, 1e-7)

    rep.explore("subsets", subsets)

    FAM = {"Gaussian": (F.Gaussian, lambda e: e, lambda m: np.ones_like(m)), "Poisson": (F.Poisson, np.exp, lambda m: m),
           "Binomial": (F.Binomial, lambda e: 1 / (1 + np.exp(-e)), lambda m: m * (1 - m))}

    def adapters(ck):
        fam = ck.choose("model", ["WLS"] + list(FAM))
        form = ck.choose("formula", ["y ~ x", "y ~ x + g", "y ~ 1"])
        design = ck.choose("design", ["strata and psu", "psu", "neither", "singletons", "domain"])
        weight = ck.choose("weight", ["w", None])
        n = 24
        r = ck.rng("adapt")
        d = pd.DataFrame(dict(x=np.round(r.normal(size=n), 2), g=np.tile(list("bab"), n // 3), s=np.tile([2, 0, 1], n // 3), p=r.permutation(np.repeat(np.arange(4), n // 4)),
                              w=np.round(r.uniform(0.5, 3, n), 2)))
        eta = 0.3 + 0.4 * d.x
        d["y"] = {"WLS": eta + r.normal(size=n), "Gaussian": eta + r.normal(size=n), "Poisson": r.poisson(np.exp(eta)), "Binomial": r.binomial(1, 1 / (1 + np.exp(-eta)))}[fam].astype(float).round(2)
        if design == "singletons":
            d.loc[d.s > 0, "p"] = d.s
        perm = ck.choose("row order", [np.arange(n), np.arange(n)[::-1], r.permutation(n)] if big else [np.arange(n), r.permutation(n)])
        strata = "s" if design in ("strata and psu", "singletons") else None
        psu = None if design == "neither" else "p"
        pool = True

        def fitted(d, weight):
            D = SampleDesign(d, strata, psu, weight)
            if design == "domain":
                D = D.subset(D.df["x"] > -0.8)
            model = WLSAdapter(form) if fam == "WLS" else GLMAdapter(form, *([FAM[fam][0]] if fam != "Gaussian" else []))
            return D, model.fit(D)

        D, fit = fitted(d.iloc[perm], weight)
        X = np.column_stack([np.ones(n)] + ([(D.df.g == "b") * 1.0, D.df.x] if form.endswith("g") else [D.df.x] if "x" in form else []))
        y, w = D.df.y.to_numpy(), D.w
        _, mean, var = FAM["Gaussian" if fam == "WLS" else fam]
        b = fit.params[:X.shape[1]]
        mu = mean(X @ b)
        U = X * (w * (y - mu))[:, None]
        ck.close("estimating-equations", U.sum(0), np.zeros(X.shape[1]), 2e-4, f"{fam} {form}")
        ck.eq("shapes", (np.shape(fit.score_i), np.shape(fit.bread)), ((n, X.shape[1]), (X.shape[1],) * 2))
        A = np.linalg.inv(X.T @ (X * (w * var(mu))[:, None]))
        sid = list(D.df["s"]) if strata else [0] * n
        pid = list(D.df["p"]) if psu else list(range(n))
        M, _ = meat_ref(sid, pid, U, pool=pool)
        V = design_sandwich(fit.bread, fit.score_i, D)
        ck.close("design-covariance", V, A @ M @ A, 1e-4, f"{fam} {form} {design}", scale=np.abs(A @ M @ A).max())
        if fam != "Gaussian":
            ck.close("bread", fit.bread, A, 1e-5, f"{fam} {form} {design}", scale=np.abs(A).max())
        if weight and design != "domain":
            _, f2 = fitted(d.assign(w=2 * d.w), weight)
            D3, f3 = fitted(d, weight)
            ck.close("weight-scale-params", f2.params, fit.params, 1e-4)
            ck.close("weight-scale-covariance", design_sandwich(f2.bread, f2.score_i, D3), V, 1e-3, scale=np.abs(V).max())
            ck.close("order-covariance", design_sandwich(f3.bread, f3.score_i, D3), V, 1e-3, scale=np.abs(V).max())

    rep.explore("adapters", adapters)

    def population(ck):
        cls = ck.choose("population", [LinearPopulation, BinomialPopulation])
        ns, npsu, nobs = ck.choose("strata", [1, 2, 3]), ck.choose("psus", [1, 2, 3]), ck.choose("rows per psu", [1, 2])
        form, beta, terms = ck.choose("formula", [("x1 + x2", [0.5, 1.0, -2.0], lambda d: [1 + 0 * d.x1, d.x1, d.x2]), ("1", [0.7], lambda d: [1 + 0 * d.x1]),
                                                  ("0 + x2 + x1:x2", [2.0, -1.0], lambda d: [d.x2, d.x1 * d.x2])])
        icv = ck.choose("between-psu variance", [0.0, 0.5])
        weighted = ck.flag("weights")
        kw = dict(intra_cluster_var=icv, x_mean=[1.0, -2.0], x_cov=[[2.0, 0.5], [0.5, 1.0]])
        if weighted:
            kw["weight_fn"] = lambda d: 1 + d["psu"] + d["x1"] ** 2
        if cls is LinearPopulation:
            kw["resid_var"] = 0.0
        own = np.random.default_rng(3)
        P = cls("resp", ["x1", "x2"], form, beta, ns, npsu, nobs, rng=own, **kw)
        n = ns * npsu * nobs
        d = P.draw(np.random.default_rng(11))
        ck.eq("own-generator", own.bit_generator.state["state"]["state"], np.random.default_rng(3).bit_generator.state["state"]["state"])
        ck.expect("reproducible", d.equals(P.draw(np.random.default_rng(11))))
        h = [P.draw(), P.draw(np.random.default_rng(4)), P.draw()]
        g = np.random.default_rng(3)
        ck.expect("history", h[0].equals(P.draw(g)) and h[2].equals(P.draw(g)))
        ck.expect("different-draws", not h[0].equals(h[2]))
        ck.eq("n", (P.n_obs, len(d)), (n, n))
        ck.eq("theta", P.theta_true, np.array(beta))
        ck.eq("strata", d["strata"], np.repeat(np.arange(ns), npsu * nobs))
        ck.eq("psu", d["psu"], np.repeat(np.arange(ns * npsu), nobs))
        ck.close("weights", d["w"], 1 + d["psu"] + d["x1"] ** 2 if weighted else np.ones(n))
        eta = np.column_stack(terms(d)) @ beta
        y = d["resp"].to_numpy()
        if cls is LinearPopulation:
            u = y - eta
            if icv == 0:
                ck.close("response", y, eta, 1e-10)
            else:
                m = u.reshape(-1, nobs)
                ck.close("psu-effect", m, np.repeat(m[:, :1], nobs, axis=1), 1e-10)
                ck.expect("psu-effects-differ", len(np.unique(m[:, 0].round(8))) == ns * npsu and np.all(m != 0))
        else:
            ck.expect("binary", np.isin(y, [0.0, 1.0]))
            S = cls("resp", ["x1", "x2"], form, np.multiply(beta, 1e6), ns, npsu, nobs, **kw)
            ds = S.draw(np.random.default_rng(5))
            e = np.column_stack(terms(ds)) @ beta
            sure = np.abs(e) > 1e-2
            ck.eq("sure-outcomes", ds["resp"].to_numpy()[sure], (e > 0)[sure] * 1.0)
        for bad in (beta + [1.0], beta[1:]):
            try:
                cls("resp", ["x1", "x2"], form, bad, ns, npsu, nobs)
                ck.fail("beta-size", "coefficients that do not match the formula were accepted")
            except ValueError:
                pass

    rep.explore("population", population)

    def moments(ck):
        """the simulated quantities have the variances asked for (fixed seed, large designs)"""
        icv, rv = ck.choose("between-psu variance", [0.0, 2.0]), ck.choose("residual variance", [0.25, 4.0])
        P = LinearPopulation("y", ["a", "b"], "a + b", [0.0, 0.0, 0.0], 2, 2000, 5, x_cov=[[4.0, 1.0], [1.0, 0.5]], x_mean=[3.0, -1.0], intra_cluster_var=icv, resid_var=rv)
        d = P.draw(np.random.default_rng(7))
        m = d["y"].to_numpy().reshape(-1, 5)
        within = m.var(axis=1, ddof=1).mean()
        between = m.mean(axis=1).var(ddof=1) - within / 5
        ck.expect("within", abs(within / rv - 1) < 0.08, f"within {within} want {rv}")
        ck.expect("between", abs(between - icv) < 0.25 * (icv > 0) + 0.06, f"between {between} want {icv}")
        ck.expect("x-cov", np.abs(np.cov(d[["a", "b"]].T) - [[4, 1], [1, 0.5]]).max() < 0.2 and np.abs(d[["a", "b"]].mean() - [3, -1]).max() < 0.08, "moments of the covariates")
        Q = BinomialPopulation("y", ["a"], "a", [0.4, 0.0], 2, 2000, 5)
        ck.expect("rate", abs(Q.draw(np.random.default_rng(8))["y"].mean() - 1 / (1 + np.exp(-0.4))) < 0.02, "event rate")

    rep.explore("moments", moments)

    def harness(ck):
        form = ck.choose("formula", ["x1 + x2", "1", "0 + x1"])
        n_rep = ck.choose("replicates", [2, 5])
        model = ck.choose("adapter", ["WLS", "GLM"])
        progress = ck.flag("progress bar")
        q = len({"x1 + x2": "abc", "1": "a", "0 + x1": "a"}[form])
        names = {"x1 + x2": ["Intercept", "x1", "x2"], "1": ["Intercept"], "0 + x1": ["x1"]}[form]
        P = LinearPopulation("y", ["x1", "x2"], form, np.arange(1.0, q + 1), 2, 3, 4, intra_cluster_var=0.3, weight_fn=lambda d: 1 + (d["x1"] > 0))
        factory = lambda d: SampleDesign(d, "strata", "psu", "w")  # noqa: E731
        A = WLSAdapter(P.formula) if model == "WLS" else GLMAdapter(P.formula)
        R = replicate(P, factory, A, n_rep, rng=np.random.default_rng(2), progress=progress)
        g = np.random.default_rng(2)
        B, V = [], []
        for _ in range(n_rep):
            d = P.draw(g)
            D = factory(d)
            X = np.column_stack([np.ones(len(d))] * (form != "0 + x1") + [D.df[v] for v in ("x1", "x2") if v in form])
            y, w = D.df["y"].to_numpy(), D.w
            H = np.linalg.inv(X.T @ (X * w[:, None]))
            b = H @ (X.T @ (w * y))
            M, _ = meat_ref(list(D.df["strata"]), list(D.df["psu"]), X * (w * (y - X @ b))[:, None])
            B.append(b)
            V.append(H @ M @ H)
        B, V = np.array(B), np.array(V)
        ck.close("params", R.params, B, 1e-5)
        ck.close("covariances", R.Vs, V, 1e-4)
        theta = np.arange(1.0, q + 1)
        ck.expect("sizes", (R.n_rep, R.p, list(R.parameter_names)) == (n_rep, q, names))
        B, V = R.params, R.Vs
        emp = np.atleast_2d(np.cov(B.T))
        ck.close("bias", R.bias(), B.mean(0) - theta, 1e-10)
        ck.close("empirical-cov", R.empirical_cov(), emp, 1e-10)
        ck.close("mean-cov", R.mean_analytical_cov(), V.mean(0), 1e-10)
        se, sa = np.sqrt(np.diag(emp)), np.sqrt(np.diag(V.mean(0)))
        z = np.array([[(B[r, j] - theta[j]) / np.sqrt(V[r, j, j]) for j in range(q)] for r in range(n_rep)])
        ck.close("z", R.z_scores(), z, 1e-10)
        for alpha in (0.05, 0.3):
            cover = (np.abs(z) < st.norm.isf(alpha / 2)).mean(0)
            ck.close("coverage", R.coverage(alpha), cover, 1e-12)
            T = R.summary(alpha)
            ck.eq("summary-names", list(T.index), names)
            ck.close("summary", T[["true", "mean", "bias", "se_emp", "se_ana", "ratio", "coverage"]], np.column_stack([theta, B.mean(0), B.mean(0) - theta, se, sa, se / sa, cover]), 1e-10)
        R.parameter_names = None
        ck.eq("default-names", list(R.summary().index), [f"theta_{i}" for i in range(q)])

    rep.explore("harness", harness)
