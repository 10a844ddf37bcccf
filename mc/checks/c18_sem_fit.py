"""C18: fitted structural equation models, their data and simulated data."""
import warnings

import numpy as np
import pandas as pd
import scipy.stats as st

from mc.lib import numdiff, semref as R
from mc.checks.c17_sem_likelihood import PATTERNS, Ref


def sample(rng, sp, th, sh, G, n, obs):
    """rows with the moments of the model, exactly in every group for the exogenous variables"""
    out = []
    for g in range(G):
        m = pd.Series(0.0, index=obs)
        c = pd.DataFrame(np.eye(len(obs)) + 0.3, index=obs, columns=obs)
        S, mu = sp.group_moments(th, g, sh, m, c, obs)
        x = pd.DataFrame(rng.multivariate_normal(mu, S, size=n + 7 * g), columns=obs)
        x["grp"] = ["b", "a"][1 - g]
        out.append(x)
    d = pd.concat(out, ignore_index=True)
    return d.iloc[rng.permutation(len(d))]


def run(rep, tier):
    warnings.filterwarnings("ignore")
    from pystatsm.pysem2.model_data import ModelData
    from pystatsm.pysem2.model_simulator import SimulatedSEM
    from pystatsm.pysem2.sem import SEM
    big = tier == "thorough"
    rep.assumptions += ["data drawn from the model itself, 90 or more rows per group, so that the likelihood has an interior maximum near the generating point"]
    IDENT = ["two factors", "latent regression", "tied loadings", "path", "path tied", "mimic", "outcome", "second order", "growth"] + \
        (["factor", "latent mean", "tied variances", "factor residuals", "two factors uncorrelated", "feedback"] if big else [])

    def compile_all():
        for text in ["f =~ x1 + x2\ng =~ x3 + x4"] + ["f =~ x1 + x2 + x3 + x4"] * big:
            d = pd.DataFrame(np.random.default_rng(0).normal(size=(30, 4)), columns=["x1", "x2", "x3", "x4"])
            m = SEM(text, d)
            for f in (m.gradient, m.hessian, m.gradient_obs):
                f(m.theta + 0.3)
        SimulatedSEM(R.render(R.STRUCT["path tied"]), 1, n_obs_min=20, n_obs_max=21, rng=np.random.default_rng(1)).simulate()
    rep.warm(compile_all)

    def build(ck, name, G, sh, n=90, **kw):
        sp = R.Spec(R.STRUCT[name])
        obs = sp.obs_order()
        keys = sp.theta_keys(G, sh)
        rng = np.random.default_rng([7, len(name), G, sum(sh)])
        th = R.point(rng, sp, keys)
        d = sample(rng, sp, th, sh, G, n, obs)
        mod = ck.must("model", SEM, R.render(R.STRUCT[name]), d, model_spec_kws=dict(group_col="grp", shared=sh, **kw))
        return sp, obs, d, mod, [R.parse_name(x) for x in mod.theta_names], th

    ARGS = {"no arguments": {}, "tnc": dict(minimize_kws=dict(method="tnc"), minimize_options=dict(maxfun=4000)),
            "l-bfgs-b": dict(minimize_kws=dict(method="L-BFGS-B"), minimize_options=dict(maxiter=3000, maxfun=30000, ftol=1e-14, gtol=1e-7)),
            "trust-constr with Hessian": dict(use_hess=True)}

    def fits(ck):
        name = ck.choose("structure", IDENT)
        G = ck.choose("groups", [1, 2])
        sh = PATTERNS[ck.choose("shared", ["all", "none", "loadings and latent covariances"] if G > 1 else ["all"])]
        robust = ck.flag("robust")
        how = ck.choose("arguments", list(ARGS) if not robust and (big or name in ("latent regression", "path tied", "growth")) else ["no arguments"])
        sp, obs, d, mod, keys, th = build(ck, name, G, sh)
        ck.must("fit", mod.fit, robust_se=robust, theta_init=np.array([th[k] for k in keys]), **{k: (dict(v) if isinstance(v, dict) else v) for k, v in ARGS[how].items()})
        t = mod.theta
        ref = Ref(sp, keys, sh, d, obs)
        f = lambda x: sum(ref.fit(x, g) for g in range(G))
        g = ref.cs(lambda x: np.array([f(x)]), t)[0]
        at = np.array([b[0] == 0 and x < 1e-3 for b, x in zip(mod.bounds, t)])
        ck.require(not at.any())
        H = numdiff.jac(lambda x: ref.cs(lambda z: np.array([f(z)]), x)[0], t, 1e-3)
        ck.expect("interior minimum", np.linalg.eigvalsh(H)[0] > 0)
        ck.expect("estimates maximise the likelihood", g @ np.linalg.solve(H, g) / 2 < (1e-5 if "trust" in how or how == "no arguments" else 1e-3),
                  lambda: f"Newton decrement {g @ np.linalg.solve(H, g) / 2}")
        ck.expect("no worse than the generating point", f(t) <= f(np.array([th[k] for k in keys])) + 1e-6)
        C = np.linalg.inv(H)
        if robust:
            Go = np.zeros((len(d), len(t)))
            for k in range(G):
                Go[ref.rows[k]] = ref.cs(lambda x: ref.nll_rows(x, k), t)
            C = C @ (Go.T @ Go) @ C
        se = np.sqrt(np.diag(C))
        res = mod.res
        ck.expect("table rows", [R.parse_name(x) for x in res.index] == keys)
        ck.eq("table estimates", res["parameter"].values, t)
        ck.close("standard errors", res["SE"].values / se, np.ones(len(se)), 1e-5)
        tv = t / res["SE"].values
        df = len(d) - 2
        ck.close("test statistics", res["t"], tv, 1e-10)
        ck.close("p values", res["p"], 2 * st.t(df).sf(np.abs(tv)), 1e-10)
        q = st.t(df).ppf(0.975) * res["SE"].values
        ck.close("intervals", res[["LowerCI95", "UpperCI95"]], np.column_stack([t - q, t + q]), 1e-9)
        pos = {k: i for i, k in enumerate(keys)}
        ck.eq("expanded table", mod.res_free.values, res.values[[pos[R.parse_name(x)] for x in mod.res_free.index]])
        ck.eq("expanded parameters", mod.free, t[[pos[R.parse_name(x)] for x in mod.free_names]])
        for k in range(G):
            L, B, F, P, a, b = [mod.mats[k][j] for j in range(6)]
            val = dict(zip(keys, t))
            for key, p in sp.P.items():
                w = val[sp.theta_key(key, k, sh)] if p["fixed"] is None else sp.fixed_value(key, *ref.stats[k])
                M, r, c = {"L": (L, p["rhs"], p["lhs"]), "B": (B, p["rhs"], p["lhs"]) if p["rel"] == "=~" else (B, p["lhs"], p["rhs"]), "F": (F, p["lhs"], p["rhs"]),
                           "P": (P, p["lhs"], p["rhs"]), "a": (a, "0", p["lhs"]), "b": (b, "0", p["lhs"])}[p["mat"]]
                ck.close("reported matrices", M.loc[r, c], w, 1e-12, msg=str(key))
                if p["mat"] in "FP":
                    ck.close("reported matrices", M.loc[c, r], w, 1e-12, msg=str(key))
        ck.outcome(name, np.round(t, 2).tolist())

    def closed_forms(ck):
        """models whose maximum is known"""
        kind = ck.choose("model", ["recursive path", "saturated factor", "two indicators of one regression"])
        G = ck.choose("groups", [1, 2])
        shared = ck.flag("shared") if G > 1 else True
        rng = ck.rng(kind)
        n = 80
        x = rng.normal(size=(n, 2))
        m = 0.5 * x[:, 0] - 0.3 * x[:, 1] + 0.4 * rng.normal(size=n) + 2
        y = 0.6 * m + 0.2 * x[:, 0] + 0.3 * rng.normal(size=n) - 1
        d = pd.DataFrame(dict(x1=x[:, 0], x2=x[:, 1], m=m, y=y, grp=np.where(np.arange(n) % 2, "u", "v") if G > 1 else "u"))
        if kind == "saturated factor":
            f = rng.normal(size=n)
            d = pd.DataFrame(dict(x1=f + rng.normal(size=n) * 0.6, x2=0.8 * f + rng.normal(size=n) * 0.6, x3=-f * 1.1 + rng.normal(size=n) * 0.6, grp=d["grp"]))
            text = "f =~ x1 + x2 + x3"
        elif kind == "recursive path":
            text = "m ~ x1 + x2\ny ~ m + x1"
        else:
            text = "m ~ x1 + x2\ny ~ x1 + x2"
        sh = [shared] * 6
        mod = ck.must("model", SEM, text, d, model_spec_kws=dict(group_col="grp", shared=sh))
        t0 = mod.theta.copy()
        if kind == "saturated factor":
            t0 = np.array([{"=~": 0.8 if "x2" in s else -0.8, "~~": 0.5}.get(s.split()[-2], 0.0) for s in mod.theta_names])
        ck.must("fit", mod.fit, theta_init=t0)
        est = {R.parse_name(k): v for k, v in zip(mod.theta_names, mod.theta)}
        groups = [v for _, v in sorted(d.groupby("grp"))]
        if kind == "saturated factor":
            if not shared or G == 1:
                ck.close("a saturated model reproduces the sample", mod.fit_func(mod.theta), 0.0, 1e-4)
            return
        eqs = {"m": ["x1", "x2"], "y": ["m", "x1"]} if kind == "recursive path" else {"m": ["x1", "x2"], "y": ["x1", "x2"]}
        for g, dg in enumerate(groups if not shared else [d]):
            tag = () if shared else (g,)
            r = {}
            for lhs, rhs in eqs.items():
                X = np.column_stack([np.ones(len(dg))] + [dg[v] for v in rhs])
                b = np.linalg.lstsq(X, dg[lhs].values, rcond=None)[0]
                r[lhs] = dg[lhs].values - X @ b
                got = [est[("own", "~", lhs, v) + tag] for v in ["1"] + rhs]
                ck.close("path coefficients are those of least squares", got, b, 2e-4)
                ck.close("residual variances are those of least squares", est[("own", "~~", lhs, lhs) + tag], np.mean(r[lhs] ** 2), 1e-3)
            if kind != "recursive path":
                ck.close("residual covariance", est[("own", "~~", "m", "y") + tag], np.mean(r["m"] * r["y"]), 1e-3)

    def statistics(ck):
        """models from sample statistics are the models of the data they summarise"""
        name = ck.choose("structure", ["two factors", "outcome", "path tied", "growth"])
        G = ck.choose("groups", [1, 2])
        sh = PATTERNS[ck.choose("shared", ["all", "none"])]
        form = ck.choose("form", ["frames", "arrays", "mean frame"])
        order = ck.choose("columns", ["model order", "reversed"])
        ddof = ck.choose("ddof", [0, 1])
        st_ = R.STRUCT[name]
        sp = R.Spec(st_)
        obs = sp.obs_order()
        rng = np.random.default_rng([8, len(name), G])
        d = sample(rng, sp, R.point(rng, sp, sp.theta_keys(G, sh)), sh, G, 20, obs)
        use = obs if order == "model order" else obs[::-1]
        if form == "arrays":       # arrays carry no names: the variables are called x1, x2, ... by position
            ren = {v: f"x{i + 1}" for i, v in enumerate(use)}
            st_ = [(ren.get(l, l), r, ren.get(h, h), m) for l, r, h, m in st_]
            d = d.rename(columns=ren)
            use = [ren[v] for v in use]
            sp = R.Spec(st_)
        th = R.point(np.random.default_rng(9), sp, sp.theta_keys(G, sh))
        grp = [v[use] for _, v in sorted(d.groupby("grp"))]
        md = ck.must("data", ModelData.from_dataframe, d, "grp", ddof)
        for g, v in enumerate(grp):
            o = [list(d.columns.drop("grp")).index(c) for c in use]
            ck.close("sample covariance", md.sample_cov[g][np.ix_(o, o)], np.cov(v.T.values, ddof=ddof), 1e-12)
            ck.close("sample mean", np.ravel(md.sample_mean[g])[o], v.mean().values, 1e-12)
            ck.eq("group size", md.n_obs[g], len(v))
        m0 = ck.must("model", SEM, R.render(st_), None, model_spec_kws=dict(model_data=md, shared=sh))
        cov, mean, n = {}, {}, {}
        for g, v in enumerate(grp):
            c = pd.DataFrame(np.cov(v.T.values, ddof=ddof), index=use, columns=use)
            m = v.mean()
            cov[g] = c if form != "arrays" else c.values
            mean[g] = m if form == "frames" else (m.to_frame().T[use[::-1]] if form == "mean frame" else m.values)
            n[g] = len(v)
        k0 = {k: id(v) for k, v in cov.items()}
        args = (cov, mean, n) if G > 1 or ck.flag("dictionaries") else (cov[0], mean[0], n[0])
        ms = ck.must("statistics", ModelData.from_samplestats, *args, ddof=ddof)
        ck.expect("caller's statistics untouched", {k: id(v) for k, v in cov.items()} == k0)
        ck.eq("number of groups", ms.n_groups, G)
        m1 = ck.must("model from statistics", SEM, R.render(st_), None, model_spec_kws=dict(model_data=ms, shared=sh))
        ck.expect("parameters", list(m1.theta_names) == list(m0.theta_names))
        t = np.array([th[R.parse_name(k)] for k in m0.theta_names])
        ck.close("discrepancy", m1.fit_func(t), m0.fit_func(t), 1e-9)
        ck.close("gradient", m1.gradient(t), m0.gradient(t), 1e-9)
        ck.close("Hessian", m1.hessian(t), m0.hessian(t), 1e-9)

    def simulated(ck):
        """simulated data follow the generator, the sizes and the model"""
        name = ck.choose("structure", ["two factors", "outcome", "path tied", "mimic", "growth", "path"])
        G = ck.choose("groups", [1, 2, 3])
        lo, hi = ck.choose("sizes", [(20, 21), (30, 40)])
        text = R.render(R.STRUCT[name])
        sims, outs = [], []
        for state in (1, 2):
            np.random.seed(state)
            s = ck.must("simulator", SimulatedSEM, text, G, n_obs_min=lo, n_obs_max=hi, rng=np.random.default_rng(5))
            outs.append(ck.must("simulate", s.simulate))
            sims.append(s)
        ck.expect("the same generator gives the same data", outs[0].equals(outs[1]))
        d, s = outs[0], sims[0]
        sp = R.Spec(R.STRUCT[name])
        ck.eq("columns", sorted(d.columns), sorted(sp.obs | {"group"}))
        sizes = d.groupby("group").size()
        ck.eq("groups", list(sizes.index), list(range(G)))
        ck.expect("group sizes", all(lo <= x < hi for x in sizes))
        ck.eq("group sizes", sizes.values, s.n_obs)
        ck.expect("data are finite", np.isfinite(d.values.astype(float)).all())
        par = s.param_df
        rg = {"L": (0.8, 0.9), "B": (0.5, 0.9), "F": (2.0, 3.0), "P": (0.5, 0.9)}
        for l, r, h, m, fx, v in zip(*[par[c] for c in ("lhs", "rel", "rhs", "mat", "fixed", "start")]):
            m = "LBFPab"[m]
            if not fx and m in rg and (m in "LB" or l == h):
                ck.expect("simulation parameters", rg[m][0] <= v <= rg[m][1], lambda: f"{l}{r}{h} {v}")
        mod = ck.must("model of simulated data", SEM, text, d, model_spec_kws=dict(group_col="group", shared=[True, False, True, False, False, False]))
        ck.expect("model of simulated data", np.isfinite(mod.loglike(mod.theta * 0 + np.array([0.1 if "=~" in n or "~~" not in n else (1.0 if n.split()[-1] == n.split()[-3] else 0.0) for n in mod.theta_names]))))

    def moments_of_simulation(ck):
        """large simulated samples have the implied moments"""
        name = ck.choose("structure", ["two factors", "outcome", "path tied"])
        s = ck.must("simulator", SimulatedSEM, R.render(R.STRUCT[name]), 2, n_obs_min=40000, n_obs_max=40001, rng=np.random.default_rng(3))
        d = ck.must("simulate", s.simulate)
        sp = R.Spec(R.STRUCT[name])
        obs = sp.obs_order()
        par = s.model_spec.get_table()
        first = {}
        sh = [True, False, True, False, False, False]
        for l, r, h, g, free, fx, v in zip(*[par[c] for c in ("lhs", "rel", "rhs", "group", "free", "fixed", "start")]):
            k = R.canon(l, r, h)
            if k in sp.P and sp.P[k]["fixed"] is None:
                first.setdefault(sp.theta_key(k, g, sh), 0.0 if v != v else v)
        for g in range(2):
            sub = par.loc[par["group"] == g]
            val = {R.canon(l, r, h): v for l, r, h, v in zip(sub["lhs"], sub["rel"], sub["rhs"], sub["fixedval"])}
            S, mu = sp.moments(lambda k: first[sp.theta_key(k, g, sh)] if sp.P[k]["fixed"] is None else val[k], obs)
            x = d.loc[d["group"] == g, obs].values
            sd = np.sqrt(np.diag(S))
            ck.expect("simulated means", np.all(np.abs(x.mean(0) - mu) < 6 * sd / 200), lambda: f"{x.mean(0)} {mu}")
            ck.expect("simulated covariances", np.all(np.abs(np.cov(x.T) - S) < 6 * 1.5 * np.outer(sd, sd) / 200), lambda: f"{np.cov(x.T) - S}")

    rep.explore("fits", fits)
    rep.explore("closed forms", closed_forms)
    rep.explore("sample statistics", statistics)
    rep.explore("simulated data", simulated)
    rep.explore("simulated moments", moments_of_simulation)
