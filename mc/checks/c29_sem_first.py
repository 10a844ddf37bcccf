"""C29: the first-generation structural models: formulas with groups (pysem.sem2) and matrix patterns (pysem.sem)."""
import itertools
import warnings

import numpy as np
import pandas as pd
import scipy as sp
import scipy.stats as st

from mc.lib import semref as R
from mc.lib import numdiff as nd
from mc.checks.c17_sem_likelihood import Ref


def frame(rng, obs, G, n=14):
    d = pd.DataFrame(rng.normal(size=(n * G, len(obs))) @ (np.eye(len(obs)) + 0.3) + 0.5, columns=obs)
    d["grp"] = np.array(["b", "a", "c"])[np.arange(n * G) % G]
    return d


def vech(S):
    return np.concatenate([S[j:, j] for j in range(len(S))])


def run(rep, tier):
    warnings.filterwarnings("ignore")
    from pystatsm.pysem.sem2 import SEM
    from pystatsm.pysem.formula_parser import FormulaParser
    big = tier == "thorough"
    drop = [] if big else ["three factors", "growth", "second order", "two factors uncorrelated", "everything stated"]

    def warm():
        sp_ = R.STRUCT["outcome"]
        d = frame(np.random.default_rng(0), R.Spec(sp_).obs_order(), 1)
        m = SEM(R.render(sp_), d, group_col="grp")
        t = m.theta + 0.1
        m.gradient(t), m.gradient(t, method=1), m.hessian(t), m.dsigma_mu(t), m.d2sigma_mu(t)
    rep.warm(warm)

    def formula(ck):
        name = ck.choose("structure", [s for s in R.STRUCT if s not in drop])
        stt = R.STRUCT[name]
        style = ck.choose("spelling", ["plain", "joined", "noise", "lhsjoin"]) if big else ["plain", "joined", "noise", "lhsjoin"][list(R.STRUCT).index(name) % 4]
        G = ck.choose("groups", [1, 2, 3] if big else [1, 2])
        how = ck.choose("sharing", ["all"] if G == 1 else ["all", "none", "loadings", "covariances"])
        sh = {"all": [True] * 6, "none": [False] * 6, "loadings": [True, True, False, False, False, False], "covariances": [False, False, True, True, True, False]}[how]
        spec = R.Spec(stt)
        rng = ck.rng(name)
        obs = spec.obs_order()
        d = frame(rng, obs, G)
        if G == 1:
            d["grp"] = "a"
        keep = d.copy()
        text = R.render(stt, style)
        gc = None if G == 1 and ck.flag("no group column") else "grp"
        kw = {} if how == "all" and style == "plain" else dict(group_kws=dict(shared=list(sh)))
        m = ck.must("model", SEM, text, d if gc else d[obs], group_col=gc, **kw)
        ck.expect("caller's data untouched", d.equals(keep))
        keys = [R.parse_name(t) for t in m.theta_names]
        want = spec.theta_keys(G, sh)
        ck.expect("free parameters", len(keys) == len(set(keys)) and set(keys) == set(want), lambda: f"{set(keys) ^ set(want)} {len(keys)}")
        if ck.fails:
            return
        th = R.point(rng, spec, sorted(want, key=str))
        t = np.array([th[k] for k in keys])
        ref = Ref(spec, keys, sh, d, obs)
        f0 = np.array([ref.fit(t, g) for g in range(G)])
        ck.close("objective", ck.must("objective", m.func, t), f0.sum(), 1e-9)
        ck.close("objective by group", m.func(t, per_group=True), f0, 1e-9)
        rows = np.zeros(len(d))
        for g in range(G):
            rows[ref.rows[g]] = ref.nll_rows(t, g)
        ck.close("case log likelihood", ck.must("log likelihood", m.loglike, t, level="observation"), rows, 1e-9)
        ck.close("group log likelihood", m.loglike(t, level="group"), [rows[r].sum() for r in ref.rows], 1e-9)
        ck.close("log likelihood", m.loglike(t), rows.sum(), 1e-9)
        C, mu = ck.must("moments", m.implied_cov_mean, t)
        sm = m.implied_sample_stats(t)
        for g in range(G):
            S0, m0 = ref.mom(t, g)
            ck.close("implied covariance", C[g], S0, 1e-10)
            ck.close("implied mean", mu[g], m0, 1e-10)
            ck.close("implied sample statistics", sm[g], np.r_[vech(S0), m0], 1e-10)
        ck.eq("observed order", list(m.obs_order), obs)
        J = ref.cs(lambda x: np.array([ref.fit(x, g) for g in range(G)]), t)
        for meth in (0, 1):
            ck.close("gradient", ck.call("gradient", m.gradient, t, method=meth), J.sum(0), 1e-8, msg=f"method {meth}")
            ck.close("gradient by group", ck.call("gradient by group", m.gradient, t, per_group=True, method=meth), J, 1e-8, msg=f"method {meth}")
        Go = np.zeros((len(d), len(t)))
        for g in range(G):
            Go[ref.rows[g]] = ref.cs(lambda x: ref.nll_rows(x, g), t)
        ck.close("case gradients", ck.call("case gradients", m.gradient_obs, t), Go, 1e-8)
        gr = lambda x: ref.cs(lambda y: np.array([ref.fit(y, g) for g in range(G)]), x)
        H = nd.jac(gr, t, 2e-3)
        Hh = ck.must("Hessian", m.hessian, t)
        ck.close("Hessian", Hh, H.sum(0), 1e-6)
        ck.close("Hessian by group", ck.call("Hessian by group", m.hessian, t, per_group=True), H, 1e-6)
        V = np.linalg.inv(H.sum(0))
        if np.all(np.diag(V) > 0) and np.linalg.cond(V) < 1e8:
            ck.close("standard errors", m.get_standard_errors(t), np.sqrt(np.diag(V)), 1e-4)
            ck.close("robust standard errors", m.get_standard_errors(t, robust=True), np.sqrt(np.diag(V @ Go.T @ Go @ V)), 1e-4)
        # moment derivatives, in the group's expanded parameters
        fr = m.transform_theta_to_free(t)
        ds, d2 = m.dsigma_mu(t), m.d2sigma_mu(t)
        for g in range(G):
            sub = m.free_df.loc[m.free_df["group"] == g]
            fk = [R.canon(a, b, c) for a, b, c in zip(sub["lhs"], sub["rel"], sub["rhs"])]
            x0 = np.array([th[spec.theta_key(k, g, sh)] for k in fk])
            ck.eq("group parameters", m.transform_free_to_group_free(fr, g), x0)

            def stacked(x):
                v = dict(zip(fk, x))
                c, b = spec.moments(lambda k: v[k] if k in v else spec.fixed_value(k, *ref.stats[g]), obs)
                return np.r_[vech(c), b]
            ck.close("moment derivatives", ds[g], ref.cs(stacked, x0), 1e-9)
            ck.close("second moment derivatives", d2[g], nd.jac(lambda x: ref.cs(stacked, x), x0, 2e-3), 1e-7)
        ck.eq("reduced parameters survive expansion", m.transform_free_to_theta(fr), t)
        lo = [0 if k[0] == "own" and k[1] == "~~" and k[2] == k[3] or k[0] == "label" and any(
            p["label"] == k[1] and p["rel"] == "~~" and p["lhs"] == p["rhs"] for p in spec.P.values()) else None for k in keys]
        ck.expect("bounds", [None if b[0] is None or b[0] != b[0] else b[0] for b in m.bounds_theta] == lo, lambda: f"{m.bounds_theta}")
        ck.outcome(name, len(keys))

    def fits(ck):
        name = ck.choose("structure", ["factor", "mimic", "path", "latent regression"] + (["outcome", "two factors", "tied variances"] if big else []))
        G = ck.choose("groups", [1, 2])
        how = "all" if G == 1 else ck.choose("sharing", ["all", "loadings"])
        sh = [True] * 6 if how == "all" else [True, True, False, False, False, False]
        robust, use = ck.flag("robust"), ck.flag("second derivatives")
        stt = R.STRUCT[name]
        spec = R.Spec(stt)
        rng = ck.rng(name)
        obs = spec.obs_order()
        want = spec.theta_keys(G, sh)
        th0 = R.point(rng, spec, sorted(want, key=str))
        th0 = {k: abs(v) for k, v in th0.items()}
        n0 = 60
        parts = []
        for g in range(G):
            zero = {k: (0.0 if k[0] == "~" else 1.0 if k[1] == k[2] else 0.2) for k in spec.P}
            val = lambda k: th0[spec.theta_key(k, g, sh)] if spec.P[k]["fixed"] is None else zero[k] if spec.P[k]["fixed"] == "sample" else spec.P[k]["fixed"]
            C, mu = spec.moments(val, obs)
            z = rng.normal(size=(n0 + 10 * g, len(obs)))
            parts.append(pd.DataFrame(z @ np.linalg.cholesky(C).T + mu, columns=obs).assign(grp="ab"[g]))
        d = pd.concat(parts, ignore_index=True)
        d = d.iloc[rng.permutation(len(d))].reset_index(drop=True)
        m = ck.must("model", SEM, R.render(stt), d, group_col="grp", group_kws=dict(shared=list(sh)))
        keys = [R.parse_name(x) for x in m.theta_names]
        ref = Ref(spec, keys, sh, d, obs)
        ck.must("fit", m.fit, robust_se=robust, use_hess=use, minimize_options=dict(verbose=0, gtol=1e-9, xtol=1e-14, maxiter=2000))
        t = m.theta
        one = [i for i, k in enumerate(keys) if k[0] == "own" and k[1] == "~~" and k[2] == k[3]]
        if np.any(t[one] < 1e-3):
            return ck.outcome("boundary")
        f = lambda x: sum(ref.fit(x, g) for g in range(G))
        gr = lambda x: ref.cs(f, x)
        ck.expect("the fit is stationary", np.abs(gr(t)).max() < 1e-4 * len(d), lambda: str(gr(t)))
        H = nd.jac(gr, t, 2e-3)
        if np.linalg.cond(H) > 1e6:
            return ck.outcome("unidentified")
        V = np.linalg.inv(H)
        if robust:
            Go = np.zeros((len(d), len(t)))
            for g in range(G):
                Go[ref.rows[g]] = ref.cs(lambda x: ref.nll_rows(x, g), t)
            V = V @ Go.T @ Go @ V
        se = np.sqrt(np.diag(V))
        ck.eq("row names", [R.parse_name(x) for x in m.res.index], keys)
        r = m.res
        ck.close("estimates", r["parameter"].values, t, 1e-12)
        ck.close("standard errors", r["SE"].values, se, 1e-5)
        ck.close("t values", r["t"].values, t / r["SE"].values, 1e-9)
        ck.close("p values", r["p"].values, 2 * st.t.sf(np.abs(t / r["SE"].values), len(d) - 2), 1e-9)
        q = st.t.ppf(0.975, len(d) - 2)
        ck.close("intervals", r.iloc[:, 4:6].values, np.c_[t - q * r["SE"], t + q * r["SE"]], 1e-9)
        ck.eq("table of every free position", m.res_free.values, r.values[[keys.index(R.parse_name(x)) for x in m.free_names]])
        th = dict(zip(keys, t))
        for g in range(G):
            L, B, F, P, a, b = [m.mats[g][i] for i in range(6)]
            A = L.values @ np.linalg.inv(np.eye(len(B)) - B.values)
            C, mu = ref.mom(t, g)
            ck.eq("matrix names", list(L.index), obs)
            ck.close("fitted matrices", A @ F.values @ A.T + P.values, C, 1e-9)
            ck.close("fitted matrices", a.values[0] + A @ b.values[0], mu, 1e-9)
            for k, pr in spec.P.items():
                if pr["fixed"] is None:
                    M = m.mats[g]["LBFPab".index(pr["mat"])]
                    l, h = pr["lhs"], pr["rhs"]
                    got = M.loc[h, l] if pr["rel"] == "=~" else M.iloc[0][l] if h == "1" else M.loc[l, h]
                    ck.close("fitted matrix entries", got, th[spec.theta_key(k, g, sh)], 1e-12, msg=str(k))
        ck.outcome(name, len(keys))

    # ---- models given as matrices ----------------------------------------
    from pystatsm.pysem.sem import SEM as MSEM

    def patterns():
        """name -> (observed, latent, loadings, regressions, latent covariances, residual covariances)"""
        X = ["x1", "x2", "x3", "x4"]
        one = lambda v: {(a, a): 1.0 for a in v}
        return {
            "one factor": (X[:3], ["f"], {(x, "f"): 1.0 for x in X[:3]}, {}, one(["f"]), one(X[:3])),
            "interleaved factors": (X, ["f", "g"], {("x1", "f"): 1.0, ("x2", "g"): 1.0, ("x3", "f"): 1.0, ("x4", "g"): 1.0}, {}, {**one("fg"), ("f", "g"): 0.1}, one(X)),
            "cross loading": (X, ["f", "g"], {("x1", "f"): 1.0, ("x2", "f"): 1.0, ("x3", "g"): 1.0, ("x4", "g"): 1.0, ("x4", "f"): 0.4}, {}, one("fg"), {**one(X), ("x1", "x3"): 0.1}),
            "latent regression": (X, ["g", "f"], {("x1", "f"): 1.0, ("x2", "f"): 1.0, ("x3", "g"): 1.0, ("x4", "g"): 1.0}, {("g", "f"): 0.5}, one("fg"), one(X)),
            "path": (["m", "x", "y"], ["m", "x", "y"], one("mxy"), {("m", "x"): 0.5, ("y", "x"): 0.2, ("y", "m"): 0.4}, one("mxy"), {}),
            "path residuals": (["x", "m", "y"], ["x", "m", "y"], one("mxy"), {("m", "x"): 0.5, ("y", "m"): 0.4}, one("x"), one("my")),
            "two outcomes": (["a", "b", "x", "z"], ["x", "z", "a", "b"], one("abxz"), {("b", "z"): 0.3, ("a", "x"): 0.5, ("b", "x"): 0.2}, {**one("abxz"), ("x", "z"): 0.1, ("a", "b"): 0.1}, {}),
            "first loading smaller": (X[:3], ["f"], {("x1", "f"): 0.5, ("x2", "f"): 1.0, ("x3", "f"): -0.8}, {}, one(["f"]), one(X[:3])),
            "first loading negative": (X[:3], ["f"], {("x2", "f"): -1.0, ("x1", "f"): -0.5}, {}, one(["f"]), {**one(X[:3]), ("x3", "x1"): 0.2}),
        }
    PAT = patterns()

    def matrix(rows, cols, entries, sym=False):
        A = pd.DataFrame(0.0, index=rows, columns=cols)
        for (a, b), v in entries.items():
            A.loc[a, b] = v
            if sym:
                A.loc[b, a] = v
        return A

    def build(ck, fit=False):
        name = ck.choose("pattern", list(PAT))
        obs, lat, la, be, ph, ps = PAT[name]
        order = ck.choose("order", ["as data", "reversed", "every matrix its own"] if not fit else ["as data", "every matrix its own"])
        turn = (lambda v, k: v) if order == "as data" else (lambda v, k: v[::-1]) if order == "reversed" else (lambda v, k: v[k % len(v):] + v[:k % len(v)])
        M = [matrix(turn(obs, 1), turn(lat, 0), la), matrix(turn(lat, 1), turn(lat, 2), be), matrix(turn(lat, 2), turn(lat, 1), ph, True), matrix(turn(obs, 2), turn(obs, 3), ps, True)]
        rng = ck.rng(name, order)
        n = 30
        d = pd.DataFrame(rng.normal(size=(n, len(obs))) @ (np.eye(len(obs)) + 0.4) + 0.3, columns=obs)
        src = ck.choose("given", ["data", "covariance", "both"] if not fit else ["data", "covariance"])
        S = d.cov(ddof=0)
        kw = dict(data=d) if src == "data" else dict(S=S, n_obs=n) if src == "covariance" else dict(S=S, data=d)
        ref = None
        fixed = {}
        if not fit and ck.flag("indicators named"):
            # hold the last loading of every latent variable instead of the first
            ref = matrix(turn(obs, 3), turn(lat, 1), {})
            for v in lat:
                x = [o for o in obs if (o, v) in la][-1]
                ref.loc[x, v] = la[x, v]
                fixed[(x, v)] = la[x, v]
            kw["indicator_vars"] = ref
        else:
            for v in lat:
                k = [o for o in obs if (o, v) in la]
                if (v, v) in ph or len(k) == 1:
                    fixed[(k[0], v)] = la[k[0], v]
        keep = [x.copy() for x in M]
        m = ck.must("model", MSEM, *M, **kw)
        ck.expect("the given matrices are left alone", all(a.equals(b) for a, b in zip(M, keep)))
        pat = lambda A, B: [(b, a) for a in A for b in B]
        want = {f"{x}<-{v}": ("L", x, v) for x, v in la if (x, v) not in fixed}
        want.update({f"{a}~{b}": ("B", a, b) for a, b in be})
        names = {}
        for l in m.labels:
            if l in want:
                names[l] = want[l]
                continue
            k, inner = ("P", l[len("residual cov("):-1]) if l.startswith("residual cov(") else ("F", l[len("cov("):-1])
            a, b = inner.split(", ")
            E = ps if k == "P" else ph
            names[l] = (k,) + ((a, b) if (a, b) in E else (b, a))
        total = set(want.values()) | {("F",) + k for k in ph} | {("P",) + k for k in ps}
        ck.expect("every free parameter is labelled once", len(m.labels) == len(total) and set(names.values()) == total, lambda: str(m.labels))
        if ck.fails:
            return None
        keys = [names[l] for l in m.labels]
        start = {("L",) + k: v for k, v in la.items()} | {("B",) + k: v for k, v in be.items()} | {("F",) + k: v for k, v in ph.items()} | {("P",) + k: v for k, v in ps.items()}
        ck.eq("starting values", m.theta, [start[k] for k in keys])

        def sigma(t):
            v = dict(zip(keys, t))
            dt = complex if np.iscomplexobj(t) else float
            ix, jx = {x: i for i, x in enumerate(obs)}, {x: i for i, x in enumerate(lat)}
            L, B, F, P = np.zeros((len(obs), len(lat)), dt), np.zeros((len(lat),) * 2, dt), np.zeros((len(lat),) * 2, dt), np.zeros((len(obs),) * 2, dt)
            for (x, f), w in fixed.items():
                L[ix[x], jx[f]] = w
            for (k, a, b), w in v.items():
                if k == "L":
                    L[ix[a], jx[b]] = w
                elif k == "B":
                    B[jx[a], jx[b]] = w
                elif k == "F":
                    F[jx[a], jx[b]] = F[jx[b], jx[a]] = w
                else:
                    P[ix[a], ix[b]] = P[ix[b], ix[a]] = w
            A = L @ np.linalg.inv(np.eye(len(lat)) - B)
            return A @ F @ A.T + P

        def f(t):
            C = sigma(t)
            return np.log(np.linalg.det(C)) + np.trace(np.linalg.inv(C) @ S.values)
        return name, m, keys, sigma, f, d, S, n, rng, obs

    cs = lambda f, t: np.stack([np.imag(f(t + 1e-30j * e)) / 1e-30 for e in np.eye(len(t))], axis=-1)

    def matrices(ck):
        b = build(ck)
        if b is None:
            return
        name, m, keys, sigma, f, d, S, n, rng, obs = b
        t = m.theta + rng.uniform(-0.2, 0.2, len(keys))
        C = sigma(t)
        ck.close("implied covariance", ck.must("implied covariance", m.implied_cov, t), C, 1e-10)
        ck.close("objective", m.loglike(t), f(t), 1e-10)
        ck.close("gradient", ck.must("gradient", m.gradient, t), cs(f, t), 1e-9)
        ck.close("Hessian", ck.must("Hessian", m.hessian, t), nd.jac(lambda x: cs(f, x), t, 2e-3), 1e-7)
        D = m.dsigma(t)[:, m.theta_indices]
        ck.close("covariance derivatives", D, cs(lambda x: vech(sigma(x)), t), 1e-10)
        ck.expect("variances are bounded below by zero", [x[0] for x in m.bounds] == [0 if k[0] in "FP" and k[1] == k[2] else None for k in keys], lambda: str(m.bounds))
        # the derivatives with respect to every element, free or not
        par0 = m.params_template.copy()
        par0[m.theta_indices] = t
        sl, shp = m.slices, m.mat_shapes

        def whole(p):
            p = np.asarray(p)
            inv = lambda v, r, c: v.reshape(c, r).T
            L, B = inv(p[sl["LA"]], *shp["LA"]), inv(p[sl["BE"]], *shp["BE"])

            def sy(v, k):
                A = np.zeros((k, k), p.dtype)
                i = 0
                for c in range(k):
                    A[c:, c] = v[i:i + k - c]
                    A[c, c:] = v[i:i + k - c]
                    i += k - c
                return A
            F, P = sy(p[sl["PH"]], shp["PH"][0]), sy(p[sl["PS"]], shp["PS"][0])
            A = L @ np.linalg.inv(np.eye(len(B)) - B)
            return A @ F @ A.T + P
        Sm = m.S

        def fw(p):
            C = whole(p)
            return np.log(np.linalg.det(C)) + np.trace(np.linalg.inv(C) @ Sm)
        ck.close("derivatives by element", m.dsigma(t), cs(lambda x: vech(whole(x)), par0), 1e-10)
        ck.close("gradient by element", m._gradient(t)[:, 0], cs(fw, par0), 1e-9)
        ck.close("Hessian by element", m._hessian(t), nd.jac(lambda x: cs(fw, x), par0, 2e-3), 1e-7)
        ck.outcome(name, len(keys))

    def matrix_fit(ck):
        b = build(ck, fit=True)
        if b is None:
            return
        name, m, keys, sigma, f, d, S, n, rng, obs = b
        use = ck.flag("second derivatives")
        ck.must("fit", m.fit, use_hess=use, opt_kws=dict(options=dict(gtol=1e-9, xtol=1e-14, maxiter=1000)))
        t = m.theta
        C = sigma(t)
        var = np.array([k[0] in "FP" and k[1] == k[2] for k in keys])
        if np.any(t[var] < 1e-3) or np.linalg.cond(C) > 1e4:
            return ck.outcome("boundary")
        H = nd.jac(lambda x: cs(f, x), t, 2e-3)
        if np.linalg.cond(H) > 1e6:
            return ck.outcome("unidentified")
        ck.expect("the fit is stationary", np.abs(cs(f, t)).max() < 1e-5, lambda: f"{cs(f, t)}")
        se = np.sqrt(np.diag(np.linalg.inv(n / 2 * H)))
        p, q = len(obs), len(t)
        ck.close("estimates", m.res["est"].values, t, 1e-12)
        ck.close("standard errors", m.res["SE"].values, se, 1e-5)
        ck.close("t values", m.res["t"].values, t / m.res["SE"].values, 1e-9)
        ck.close("p values", m.res["p"].values, 2 * st.t.sf(np.abs(t / m.res["SE"].values), n), 1e-9)
        ck.eq("row names", list(m.res.index), m.labels)
        o2 = [obs.index(x) for x in S.index]
        ck.close("fitted covariance", m.Sigma, C[np.ix_(o2, o2)], 1e-9)
        df = p * (p + 1) // 2 - q

        def measures(C, df, q):
            F = np.linalg.slogdet(C)[1] + np.trace(np.linalg.inv(C) @ S.values) - np.linalg.slogdet(S.values)[1] - p
            V = np.linalg.inv(C) @ S.values
            ll = sum(st.multivariate_normal(np.zeros(p), C).logpdf((d - d.mean()).values))
            o = dict(loglikelihood=ll, Chi2=(n - 1) * F, AIC=2 * q - 2 * ll, BIC=np.log(n) * q - 2 * ll,
                     GFI=1 - np.trace((V - np.eye(p)) @ (V - np.eye(p))) / np.trace(V @ V), RMR=np.sqrt(np.mean(vech(C - S.values) ** 2)))
            if df > 0:
                x = (n - 1) * F
                o.update(Chi2_pval=st.chi2.sf(x, df), AGFI=1 - p * (p + 1) / 2 / df * (1 - o["GFI"]), Standardized_Chi2=(x - df) / np.sqrt(2 * df),
                         RMSEA=np.sqrt(max(x - df, 0) / (df * (n - 1))), CN05=st.chi2.isf(0.05, df) / F + 1, CN01=st.chi2.isf(0.01, df) / F + 1)
            return o
        full = measures(C, df, q)
        for k, v in full.items():
            if df > 0 or k not in ("Chi2",):
                ck.close("fit measures", m.sumstats[k], v, 1e-7, msg=k)
        C0 = np.diag(np.diag(S.values))
        d0 = p * (p - 1) // 2
        null = measures(C0, d0, p)
        if df > 0:
            x, x0 = full["Chi2"], null["Chi2"]
            inc = dict(NFI1=(x0 - x) / x0, NFI2=(x0 - x) / (x0 - df), Rho1=1 - (x / df) / (x0 / d0), Rho2=(x0 / d0 - x / df) / (x0 / d0 - 1), CFI=1 - max(x - df, 0) / max(x - df, x0 - d0, 0))
            for k, v in inc.items():
                ck.close("incremental fit measures", m.sumstats[k], v, 1e-7, msg=k)
        ck.outcome(name, df)

    # ---- covariance kernels ------------------------------------------------
    from pystatsm.pysem.cov_model import CovarianceStructure
    from pystatsm.pysem.fitfunctions import LikelihoodObjective
    from pystatsm.pysem import cov_derivatives as cd

    def kernels(ck):
        p, q = ck.choose("size", [(2, 1), (3, 2), (4, 2), (2, 2), (3, 3)])
        kinds = [k for k in "LBFP" if ck.flag(f"free {k}")]
        tie = ck.choose("ties", ["none", "within", "across"])
        if not kinds or kinds == ["B"] and q == 1:
            return
        free = dict(L=np.zeros((p, q), int), B=np.zeros((q, q), int), F=np.zeros((q, q), int), P=np.zeros((p, p), int))
        c = 0
        for k in kinds:
            A = free[k]
            for j in range(A.shape[1]):
                for i in range(j if k in "FP" else 0, A.shape[0]):
                    if k == "B" and i <= j or k == "P" and i != j and (i + j) % 2 == 0:
                        continue
                    c += 1
                    v = c
                    if tie == "within" and c % 3 == 0 or tie == "across" and c % 4 == 0:
                        v = c // 2
                    A[i, j] = v
                    if k in "FP":
                        A[j, i] = v
        u = np.unique(np.concatenate([A.ravel() for A in free.values()]))
        for k in free:
            free[k] = np.searchsorted(u[u > 0], free[k]) * (free[k] > 0) + (free[k] > 0)
        if c < 2:
            return
        rng = ck.rng(p, q)
        fix = dict(L=rng.normal(size=(p, q)), B=np.tril(rng.normal(size=(q, q)) * 0.4, -1), F=np.eye(q) + 0.2, P=np.eye(p) * 0.7)
        kw = {}
        for k in "LBFP":
            kw[f"{k}_free"] = free[k].astype(float)
            kw[f"{k}_fixed"] = fix[k]
            kw[f"{k}_fixed_loc"] = (fix[k] != 0) & (free[k] == 0)
        cov = ck.must("structure", CovarianceStructure, **kw)
        # positions in the flattened order, written here by hand
        flat = [(k, i, j) for k, (r, cc) in zip("LBFP", [(p, q), (q, q), (q, q), (p, p)]) for j in range(cc) for i in range(j if k in "FP" else 0, r)]
        pos = [free[k][i, j] for k, i, j in flat]
        fl = [x for x, v in zip(flat, pos) if v]
        fv = [v for v in pos if v]
        ck.eq("number of free positions", cov.nf1, len(fl))
        ck.eq("number of parameters", cov.nt1, len(set(fv)))
        ck.eq("free positions", np.atleast_1d(cov.par_to_free_ind), [i for i, v in enumerate(pos) if v])
        firsts = list(dict.fromkeys(fv))
        ck.eq("parameter of each free position", cov.theta_to_free_ind, [firsts.index(v) for v in fv])
        ck.eq("template", cov.p_template, [(1.0 if k in "FP" and i == j else 0.01) if v else (fix[k][i, j]) for (k, i, j), v in zip(flat, pos)])
        ck.eq("start", cov.theta, [cov.p_template[pos.index(v)] for v in firsts])
        bounds = cov.make_bounds()
        at = [flat[pos.index(v)] for v in firsts]
        ck.expect("variances are bounded below by zero", [b[0] for b in bounds] == [0 if k in "FP" and i == j else None for k, i, j in at], lambda: str(bounds))
        x = np.array([fix[k][i, j] + rng.uniform(-0.1, 0.1) for k, i, j in fl])

        def mats(x):
            M = {k: fix[k].astype(x.dtype) for k in "LBFP"}
            for (k, i, j), v in zip(fl, x):
                M[k][i, j] = v
                if k in "FP":
                    M[k][j, i] = v
            return M["L"], np.linalg.inv(np.eye(q) - M["B"]), M["F"], M["P"]

        def sigma(x):
            L, B, F, P = mats(x)
            return L @ B @ F @ B.T @ L.T + P
        A = rng.normal(size=(p + 6, p))
        C = A.T @ A / (p + 6)
        f = lambda x: np.log(np.linalg.det(sigma(x))) + np.trace(np.linalg.inv(sigma(x)) @ C)
        L, B, F, P = mats(x)
        S = sigma(x)
        der = cov.cov_der
        nf, p2 = len(fl), p * (p + 1) // 2
        L, B, F = [np.ascontiguousarray(z) for z in (L, B, F)]
        d1 = cd._dsigma(np.zeros((p2, nf)), L, B, F, **der.cov_first_deriv_kws)
        d2 = cd._d2sigma(np.zeros((p2, nf, nf)), L, B, F, **der.cov_second_deriv_kws)
        sv = lambda y: vech(sigma(y))
        ck.close("covariance derivatives", d1, cs(sv, x), 1e-9)
        ck.close("second covariance derivatives", d2, nd.jac(lambda y: cs(sv, y), x, 2e-3), 1e-7)
        V = np.linalg.inv(S)
        VRV = V @ (C - S) @ V
        g = cd._dloglike(np.zeros(nf), L, B, F, VRV.ravel(), **der.f_first_deriv_kws)
        G1 = cs(f, x)
        ck.close("likelihood gradient", g, G1, 1e-9)
        Hn = nd.jac(lambda y: cs(f, y), x, 2e-3)
        H = cd._d2loglike(np.zeros((nf, nf)), L, B, F, V, S, VRV.ravel(), V.ravel(), dA=der.dA, r=der.r, c=der.c, first_deriv_type=der.matrix_type,
                          second_deriv_type=der.d2_kind, n=nf, vech_inds=der._vech_inds)
        ck.close("likelihood Hessian", H, Hn, 1e-7)
        J = der.J_theta.toarray()
        ck.eq("expansion to free positions", J, np.eye(len(firsts))[[firsts.index(v) for v in fv]])

        class Data:
            sample_cov = C
        obj = LikelihoodObjective(Data)
        ck.close("objective", obj.function(S), f(x), 1e-10)
        ck.close("objective gradient", obj.gradient(S, d1), G1, 1e-9)
        ck.close("objective Hessian", obj.hessian(S, d1, d2), Hn, 1e-7)
        ck.outcome(nf, len(firsts))

    def warm2():
        ck = None
        z = np.eye(2)
        c = CovarianceStructure(L_free=np.array([[1.0, 0], [0, 2]]), B_free=np.array([[0, 0], [3.0, 0]]), F_free=np.diag([4.0, 5]), P_free=np.diag([6.0, 7]))
        e = c.cov_der
        cd._dsigma(np.zeros((3, 7)), z, z, z, **e.cov_first_deriv_kws)
        cd._d2sigma(np.zeros((3, 7, 7)), z, z, z, **e.cov_second_deriv_kws)
        cd._dloglike(np.zeros(7), z, z, z, z.ravel(), **e.f_first_deriv_kws)
        cd._d2loglike(np.zeros((7, 7)), z, z, z, z, z, z.ravel(), z.ravel(), dA=e.dA, r=e.r, c=e.c, first_deriv_type=e.matrix_type, second_deriv_type=e.d2_kind, n=7, vech_inds=e._vech_inds)
    rep.warm(warm2)

    rep.explore("formula", formula)
    rep.explore("fits", fits)
    rep.explore("matrices", matrices)
    rep.explore("matrix fit", matrix_fit)
    rep.explore("kernels", kernels)
