"""C17: the likelihood of a structural equation model and its derivatives."""
import warnings

import numpy as np
import pandas as pd

from mc.lib import numdiff, semref as R

PATTERNS = {"all": [True] * 6, "none": [False] * 6, "loadings and latent covariances": [True, False, True, False, False, False],
            "not regressions": [True, False, True, True, True, True]}
EPS = 1e-30


def data(rng, sp, obs, G, shuffled=True, sizes=(13, 17, 9)):
    out = []
    for g in range(G):
        x = rng.normal(size=(sizes[g], len(obs))) @ (np.eye(len(obs)) + 0.25) + rng.normal(size=len(obs))
        x = pd.DataFrame(x, columns=obs)
        x["grp"] = ["b", "a", "c"][g]
        out.append(x)
    d = pd.concat(out, ignore_index=True)
    return d.iloc[rng.permutation(len(d))] if shuffled else d


class Ref:
    def __init__(self, sp, keys, sh, d, obs):
        self.sp, self.keys, self.sh, self.obs = sp, keys, sh, obs
        self.ids = sorted(d["grp"].unique())
        self.rows = [np.where(d["grp"].values == i)[0] for i in self.ids]
        self.Y = [d[obs].values[r] for r in self.rows]
        self.n = len(d)
        self.stats = []
        for y in self.Y:
            m = pd.Series(y.mean(0), index=obs)
            c = pd.DataFrame(np.cov(y.T, ddof=0).reshape(len(obs), -1), index=obs, columns=obs)
            self.stats.append((m, c))

    def mom(self, t, g):
        return self.sp.group_moments(dict(zip(self.keys, t)), g, self.sh, *self.stats[g], self.obs)

    def nll_rows(self, t, g):
        S, m = self.mom(t, g)
        r = self.Y[g] - m
        return 0.5 * (np.log(np.linalg.det(S)) + np.einsum("ij,jk,ik->i", r, np.linalg.inv(S), r) + len(m) * np.log(2 * np.pi))

    def fit(self, t, g):
        """discrepancy of a group times n_g / 2"""
        C = self.stats[g][1].values
        return self.nll_rows(t, g).sum() - len(self.Y[g]) / 2 * (np.linalg.slogdet(C)[1] + len(C) + len(C) * np.log(2 * np.pi))

    def cs(self, f, t):
        """complex-step jacobian, last axis = parameter"""
        return np.stack([np.imag(f(t + 1j * EPS * e)) / EPS for e in np.eye(len(t))], axis=-1)


def run(rep, tier):
    warnings.filterwarnings("ignore")
    from pystatsm.pysem2.sem import SEM
    big = tier == "thorough"
    rep.assumptions += ["parameter points whose implied covariance is positive definite"]

    OPS = {"f": lambda m, t: m.fit_func(t), "f groups": lambda m, t: m.fit_func(t, per_group=True), "g": lambda m, t: m.gradient(t),
           "g alt": lambda m, t: m.gradient(t, method=1), "g obs": lambda m, t: m.gradient_obs(t), "h": lambda m, t: m.hessian(t),
           "ll": lambda m, t: m.loglike(t, level="observation"), "ds": lambda m, t: m.dsigma_mu(t), "d2s": lambda m, t: m.d2sigma_mu(t),
           "stats": lambda m, t: m.implied_sample_stats(t), "mom": lambda m, t: m.implied_cov_mean(t)}

    def compile_all():
        for text in ["f =~ x1 + x2\ng =~ x3 + x4"] + ["f =~ x1 + x2 + x3 + x4"] * big:
            m = SEM(text, data(np.random.default_rng(0), None, ["x1", "x2", "x3", "x4"], 1), model_spec_kws=dict(group_col="grp"))
            for f in OPS.values():
                f(m, m.theta + 0.3)

    rep.warm(compile_all)

    def make(ck, name, G, sh, key=0, **kw):
        st = R.STRUCT[name]
        sp = R.Spec(st)
        obs = sp.obs_order()
        d = data(ck.rng(name, G), sp, obs, G)
        mod = ck.must("model", SEM, R.render(st, "joined"), d, model_spec_kws=dict(group_col="grp", shared=sh, **kw))
        keys = [R.parse_name(x) for x in mod.theta_names]
        th = R.point(ck.rng(name, "point", key), sp, sorted(keys, key=str))
        return sp, obs, d, mod, keys, np.array([th[k] for k in keys])

    def likelihood(ck):
        name = ck.choose("structure", [k for k, v in R.STRUCT.items() if big or len(R.Spec(v).lav) > 1])
        G = ck.choose("groups", [1, 2, 3] if big else [1, 2])
        sh = PATTERNS[ck.choose("shared", list(PATTERNS) if G > 1 else ["all", "none"])]
        sp, obs, d, mod, keys, t = make(ck, name, G, sh, ck.choose("point", range(3 if big else 1)))
        ref = Ref(sp, keys, sh, d, obs)
        f = np.array([ref.fit(t, g) for g in range(G)])
        ck.close("discrepancy", mod.fit_func(t), f.sum(), 1e-9)
        ck.close("discrepancy per group", mod.fit_func(t, per_group=True), f, 1e-9)
        rows = np.zeros(len(d))
        for g in range(G):
            rows[ref.rows[g]] = ref.nll_rows(t, g)
        ck.close("log-likelihood per observation", mod.loglike(t, level="observation"), rows, 1e-9)
        ck.close("log-likelihood per group", mod.loglike(t, level="group"), [rows[r].sum() for r in ref.rows], 1e-9)
        ck.close("log-likelihood", mod.loglike(t, level="sample"), rows.sum(), 1e-9)
        S, mu = mod.implied_cov_mean(t)
        sm = mod.implied_sample_stats(t)
        p = len(obs)
        il = np.array([(r, c) for c in range(p) for r in range(c, p)])
        for g in range(G):
            S0, m0 = ref.mom(t, g)
            ck.close("implied moments", S[g], S0, 1e-10)
            ck.close("implied moments", mu[g], m0, 1e-10)
            ck.close("implied moments, stacked", sm[g], np.r_[S0[il[:, 0], il[:, 1]], m0], 1e-10)
        # derivatives with respect to the reduced parameters
        J = ref.cs(lambda x: np.array([ref.fit(x, g) for g in range(G)]), t)
        for meth in (0, 1):
            ck.close("gradient", ck.call("gradient", mod.gradient, t, method=meth), J.sum(0), 1e-8, msg=f"method {meth}")
            ck.close("gradient per group", ck.call("gradient per group", mod.gradient, t, per_group=True, method=meth), J, 1e-8, msg=f"method {meth}")
        Go = np.zeros((len(d), len(t)))
        for g in range(G):
            Go[ref.rows[g]] = ref.cs(lambda x: ref.nll_rows(x, g), t)
        ck.close("gradient per observation", ck.call("gradient per observation", mod.gradient_obs, t), Go, 1e-8)
        H = numdiff.jac(lambda x: mod.gradient(x, per_group=True), t, 2e-3)
        ck.close("Hessian", ck.call("Hessian", mod.hessian, t), H.sum(0), 1e-6)
        ck.close("Hessian per group", ck.call("Hessian per group", mod.hessian, t, per_group=True), H, 1e-6)
        # derivatives of the moments with respect to the parameters of the group
        dS, d2S = mod.dsigma_mu(t), mod.d2sigma_mu(t)
        for g in range(G):
            sub = mod.free_df.loc[mod.free_df["group"] == g]
            own = [R.canon(a, b, c) for a, b, c in zip(sub["lhs"], sub["rel"], sub["rhs"])]
            x0 = np.array([dict(zip(keys, t))[sp.theta_key(k, g, sh)] for k in own])

            def stacked(x):
                v = dict(zip(own, x))
                S0, m0 = sp.moments(lambda k: v[k] if k in v else sp.fixed_value(k, *ref.stats[g]), obs)
                return np.r_[S0[il[:, 0], il[:, 1]], m0]
            ck.close("moment derivatives", dS[g], ref.cs(stacked, x0), 1e-9)
            ck.close("second moment derivatives", d2S[g], numdiff.jac(lambda x: ref.cs(stacked, x), x0, 2e-3), 1e-7)
        mod._check_complex = True
        ck.close("complex arguments", ref.cs(mod.fit_func, t), J.sum(0), 1e-8)

    def histories(ck):
        """queries are functions of the parameter only: any order, any point, repeated"""
        name = ck.choose("structure", ["outcome", "tied loadings"] if big else ["outcome"])
        sh = PATTERNS["loadings and latent covariances"]
        sp, obs, d, mod, keys, t = make(ck, name, 2, sh)
        pts = [t, t * 0.9 + 0.01]
        fresh = cache.setdefault((ck.driver, name), {})
        for step in range(3 if big else 2):
            op, i = ck.choose(f"op {step}", list(OPS)), ck.choose(f"point {step}", [0, 1])
            if (op, i) not in fresh:
                fresh[op, i] = OPS[op](make(ck, name, 2, sh)[3], pts[i].copy())
            x = pts[i].copy()
            got = OPS[op](mod, x)
            ck.eq("the argument is not modified", x, pts[i])
            for a, b in zip(*[(v if isinstance(v, tuple) else (v,)) for v in (got, fresh[op, i])]):
                ck.close("repeatable", a, b, 1e-12, msg=op)

    cache = {}

    def presentations(ck):
        """row order, column order, index labels, extra columns and group labels do not matter"""
        name = ck.choose("structure", ["outcome", "growth", "path tied", "two factors"])
        G = ck.choose("groups", [1, 2, 3])
        sh = PATTERNS[ck.choose("shared", list(PATTERNS))]
        sp, obs, d, mod, keys, t = make(ck, name, G, sh)
        how = ck.choose("presentation", ["reversed rows", "sorted by group", "duplicate index", "columns", "extra column", "numeric groups", "boolean groups", "no group column", "orders"])
        e, kw = d.copy(), {}
        perm = np.arange(len(d))
        if how == "reversed rows":
            perm = perm[::-1]
        elif how == "sorted by group":
            perm = np.argsort(d["grp"].values, kind="stable")
        e = e.iloc[perm]
        if how == "duplicate index":
            e.index = np.arange(len(e)) % 4
        elif how == "columns":
            e = e[list(e.columns[::-1])]
        elif how == "extra column":
            e.insert(1, "other", np.arange(len(e)) * 1.0)
        elif how == "numeric groups":
            e["grp"] = e["grp"].map({"a": 3, "b": 7, "c": 12})
        elif how == "boolean groups":
            ck.require(G == 2)
            e["grp"] = e["grp"].map({"a": False, "b": True})
        elif how == "orders":
            kw = dict(obs_order=obs[::-1], lav_order=sp.lav_order()[::-1])
        gc = "grp"
        if how == "no group column":
            ck.require(G == 1)
            e, gc = e.drop(columns="grp"), None
        m2 = ck.must("model", SEM, R.render(R.STRUCT[name]), e, model_spec_kws=dict(group_col=gc, shared=sh, **kw))
        k2 = [R.parse_name(x) for x in m2.theta_names]
        ck.eq("parameters", sorted(map(str, k2)), sorted(map(str, keys)))
        if ck.fails:
            return
        ix = [keys.index(k) for k in k2]
        x = t[ix]
        ck.close("discrepancy", m2.fit_func(x), mod.fit_func(t), 1e-9)
        ck.close("gradient", m2.gradient(x), mod.gradient(t)[ix], 1e-9)
        ck.close("Hessian", m2.hessian(x), mod.hessian(t)[np.ix_(ix, ix)], 1e-8)
        ck.close("log-likelihood per observation", m2.loglike(x, level="observation"), mod.loglike(t, level="observation")[perm], 1e-9)
        ck.close("gradient per observation", m2.gradient_obs(x), mod.gradient_obs(t)[np.ix_(perm, ix)], 1e-8)

    rep.explore("likelihood", likelihood)
    rep.explore("histories", histories)
    rep.explore("presentations", presentations)
