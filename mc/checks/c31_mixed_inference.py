"""C31: what a fitted mixed model reports: estimates, standard errors, tests, degrees of freedom, profiles."""
import itertools
import types
import warnings

import numpy as np
import pandas as pd
import scipy.optimize as so
import scipy.stats as st

from mc.lib import numdiff as nd
from mc.lib.mixed import Dense, pd_theta, vech, invech


def tau_of(th, rs):
    """variances, Fisher-z correlations, residual variance (vech layout)"""
    out, k = np.array(th, float), 0
    for r in rs:
        m = r * (r + 1) // 2
        G = invech(th[k:k + m])
        s = np.sqrt(np.diag(G))
        T = np.arctanh(np.clip(G / np.outer(s, s), -1 + 1e-12, 1 - 1e-12))
        T[np.diag_indices(r)] = np.diag(G)
        out[k:k + m] = vech(T)
        k += m
    return out


def theta_of(tau, rs):
    out, k = np.array(tau, float), 0
    for r in rs:
        m = r * (r + 1) // 2
        T = invech(tau[k:k + m])
        s = np.sqrt(np.diag(T))
        R = np.tanh(T)
        R[np.diag_indices(r)] = 1.0
        out[k:k + m] = vech(R * np.outer(s, s))
        k += m
    return out


def is_var(rs):
    return np.concatenate([np.ravel(vech(np.eye(r))) for r in rs] + [[1.0]]) > 0


def names_of(terms, rs):
    out = []
    for t, r in zip(terms, rs):
        out += [f"{t}:G[{a}][{b}]" for b in range(r) for a in range(b, r)]
    return out


def satt(ref, th, reml, Ls):
    """Satterthwaite / Fai-Cornelius degrees of freedom of Wald tests"""
    w = ref.eval(th, reml, hess=True)
    C, b = w["C"], w["beta"]
    Vt = 2.0 * np.linalg.inv(w["hess"])
    X, Vi = ref.X, w["Vi"]
    dC = [C @ X.T @ Vi @ D @ Vi @ X @ C for D in ref.dV()]
    out = []
    for L in Ls:
        S = L @ C @ L.T
        k = np.linalg.matrix_rank(L)
        u, Q = np.linalg.eigh(S)
        u, Q = u[::-1][:k], Q[:, ::-1][:, :k]
        F = np.sum((Q.T @ L @ b) ** 2 / u) / k
        nus = []
        for m in range(k):
            p = Q[:, m] @ L
            g = np.array([p @ D @ p for D in dC])
            nus.append(2 * u[m] ** 2 / (g @ Vt @ g))
        nus = np.array(nus)
        if k == 1:
            nu = nus[0]
        else:
            E = np.sum(nus / (nus - 2)) if np.all(nus > 2) else np.nan
            nu = 2 * E / (E - k)
        out.append((F, k, nu, st.f.sf(F, k, nu)))
    return np.array(out), np.array(nus)


def best(ref, reml, bounds_only=False, fixed=None, starts=(1.0, 0.3, 3.0)):
    """constrained minimum of -2 log L over tau, dense"""
    rs = ref.rs
    iv = is_var(rs)
    free = np.ones(len(iv), bool)
    if fixed is not None:
        free[fixed[0]] = False

    def fg(x):
        tau = np.zeros(len(iv))
        tau[free] = x
        if fixed is not None:
            tau[fixed[0]] = fixed[1]
        th = theta_of(tau, rs)
        w = ref.eval(th, reml)
        J = nd.grad(lambda t: theta_of(t, rs), tau, 1e-4)
        return w["ll"], (J @ w["grad"])[free]
    bd = [(1e-6, None) if v else (-4, 4) for v in iv[free]]
    res = None
    for s in starts:
        x0 = np.where(iv[free], s, 0.1)
        o = so.minimize(fg, x0, jac=True, bounds=bd, method="L-BFGS-B", options=dict(maxiter=500, ftol=1e-14, gtol=1e-9))
        if res is None or o.fun < res.fun:
            res = o
    tau = np.zeros(len(iv))
    tau[free] = res.x
    if fixed is not None:
        tau[fixed[0]] = fixed[1]
    return res.fun, theta_of(tau, rs), tau


LAYOUTS = {
    "scalar": ("y~1+w+(1|g)", ["g"], [1]),
    "vector": ("y~1+w+(1+x|g)", ["g"], [2]),
    "crossed": ("y~1+w+(1|g)+(1|h)", ["g", "h"], [1, 1]),
    "mixed": ("y~1+w+(1+x|g)+(1|h)", ["g", "h"], [2, 1]),
}


def layout(ck, name, variant, n=24):
    """data with a clear interior optimum: strong group effects"""
    f, gr, rs = LAYOUTS[name]
    r = ck.rng("data", name, variant)
    g = np.r_[np.arange(n) % 6] if variant == 0 else np.r_[np.zeros(5, int), np.ones(2, int), np.arange(n - 7) % 5 + 1]
    h = np.arange(n) // (n // 4) % 4 if variant == 0 else (np.arange(n) * 7 + np.arange(n) // 5) % 4
    h = pd.factorize(h)[0]
    g = pd.factorize(g)[0]
    x, w = r.normal(size=(2, n))
    ug, uh = r.normal(size=(7, 2)), r.normal(size=4)
    ug = (ug - ug.mean(0)) @ np.array([[1.6, 0.5], [0.0, 1.3]])
    y = 1 + 0.5 * w + ug[g, 0] + r.normal(size=n) * 0.8
    if rs[0] == 2:
        y = y + ug[g, 1] * x
    if len(gr) == 2:
        y = y + 1.5 * uh[h]
    d = pd.DataFrame(dict(y=y, w=w, x=x, g=g, h=h))
    one = np.ones((n, 1))
    terms = [(g, np.c_[one, x] if rs[0] == 2 else one)] + ([(h, one)] if len(gr) == 2 else [])
    return f, d, Dense(np.c_[np.ones(n), w], y, terms), gr


def run(rep, tier):
    warnings.filterwarnings("ignore")
    from pystatsm.pylmm.lmm import LMM
    from pystatsm.pylmm.re_mod import LMM2, _VarCorrReparam
    from pystatsm.pylmm import prf, model_matrices as mm
    big = tier == "thorough"
    names = ["scalar", "vector", "crossed", "mixed"]

    def at(m, th, reml, ref):
        """the model as a fit that stopped at th leaves it"""
        nll = ref.eval(th, reml)["ll"]
        if isinstance(m, LMM2):
            m._post_fit(th.copy(), types.SimpleNamespace(x=m.mme.re_mod.reparam.fwd(th), fun=nll), reml)
        else:
            tc = m.transform_theta(th.copy())
            m._post_fit(th.copy(), tc, types.SimpleNamespace(x=tc, fun=nll), reml)

    def balanced(ck):
        """closed forms of the balanced one-way layout"""
        G = ck.choose("groups", [3, 4, 6] if not big else [3, 4, 5, 6, 9])
        k = ck.choose("size", [2, 3] if not big else [2, 3, 4, 5])
        cov = ck.flag("within covariate")
        cls = ck.choose("class", [LMM2, LMM])
        order = ck.choose("order", ["sorted", "interleaved"])
        r = ck.rng("b", G, k)
        u = np.arange(G) - (G - 1) / 2
        e = r.normal(size=(G, k))
        y = (2.0 * u[:, None] + e).ravel()
        g = np.repeat(np.arange(G), k)
        x = np.tile(np.arange(k) - (k - 1) / 2, G)
        Y = y.reshape(G, k)
        xc = x[:k]
        b1 = np.sum(Y * xc) / (G * np.sum(xc ** 2)) if cov else 0.0
        R = Y - Y.mean(1, keepdims=True) - b1 * xc
        dfe = G * (k - 1) - (1 if cov else 0)
        mse = np.sum(R ** 2) / dfe
        msb = k * np.var(Y.mean(1), ddof=1)
        ck.require(msb > mse * 1.5)
        th = np.array([(msb - mse) / k, mse])
        d = pd.DataFrame(dict(y=y, x=x, g=g))
        if order == "interleaved":
            d = d.iloc[np.argsort(np.arange(G * k) % k, kind="stable")].reset_index(drop=True)
        m = ck.must("model", cls, "y~1+x+(1|g)" if cov else "y~1+(1|g)", d)
        X = np.c_[np.ones(G * k), d.x][:, :2 if cov else 1]
        ref = Dense(X, d.y.values, [(pd.factorize(d.g)[0], np.ones((G * k, 1)))])
        ck.close("stationary", m.gradient(th, True), [0, 0], 1e-6, scale=G * k)
        at(m, th, True, ref)
        want = [(m.beta[0] ** 2 / (msb / (G * k)), 1, G - 1)] + ([(b1 ** 2 / (mse / np.sum(x ** 2)), 1, dfe)] if cov else [])
        p = X.shape[1]
        got = ck.call("df", m.approx_degfree, [np.eye(p)[[i]] for i in range(p)])
        if got is not None:
            ck.close("df/exact", [[z["F"], z["df1"], z["df2"]] for z in got], want, 1e-5)
            ck.close("df/p", [z["p"] for z in got], [st.f.sf(*w) for w in want], 1e-6)
        ck.close("beta", m.beta[0], y.mean(), 1e-9)
        ck.close("se", m.se_beta[0], np.sqrt(msb / (G * k)), 1e-8)
        # Var(MSE) = 2 mse^2/dfe, Var(MSB) = 2 msb^2/(G-1)
        se = np.sqrt([(2 * msb ** 2 / (G - 1) + 2 * mse ** 2 / dfe) / k ** 2, 2 * mse ** 2 / dfe])
        ck.close("se_theta", m.se_theta, se, 1e-4)
    rep.explore("balanced", balanced)

    def general(ck):
        name = ck.choose("layout", names)
        variant = ck.choose("design", [0, 1])
        cls = ck.choose("class", [LMM2, LMM])
        reml = ck.flag("reml")
        f, d, ref, gr = layout(ck, name, variant)
        keep = d.copy()
        ll, th, _ = best(ref, reml)
        w = ref.eval(th, reml, hess=True)
        ev = np.linalg.eigvalsh(w["hess"])
        ck.require(ev[0] > 1e-4 * ev[-1] and np.all(theta_of(tau_of(th, ref.rs), ref.rs)[is_var(ref.rs)] > 1e-3))
        m = ck.must("model", cls, f, d)
        at(m, th, reml, ref)
        n, p, q = len(ref.y), 2, len(th)
        V = 2 * np.linalg.inv(w["hess"])
        ck.close("se_theta", m.se_theta, np.sqrt(np.diag(V)), 1e-4)
        ck.close("Hinv_theta", m.Hinv_theta, V, 1e-4)
        ck.close("se_beta", m.se_beta, np.sqrt(np.diag(w["C"])), 1e-7)
        ck.close("params", m.params, np.r_[w["beta"], th], 1e-7)
        ck.close("se_params", m.se_params, np.r_[m.se_beta, m.se_theta], 1e-12)
        c = (n - p if reml else n) * np.log(2 * np.pi)
        k, ne = (q, n - p) if reml else (q + p, n)
        dev = ll + c
        ck.close("criteria", m.sumstats.loc[["ll", "llf", "AIC", "AICC", "BIC", "CAIC"], "value"],
                 [dev, -dev / 2, dev + 2 * k, dev + 2 * k * ne / (ne - k - 1), dev + k * np.log(ne), dev + k * (np.log(ne) + 1)], 1e-8)
        Ls = [np.eye(2)[[0]], np.eye(2)[[1]], np.eye(2), np.array([[1.0, -1.0]]), np.array([[1.0, 2.0], [0.5, -1.0]]),
              np.array([[0.0, 1.0], [0.0, -2.0]]), np.array([[1.0, 0.0], [1.0, 1.0], [2.0, 1.0]])]
        want, nus = satt(ref, th, reml, Ls)
        got = ck.call("df", m.approx_degfree, [L.copy() for L in Ls])
        if got is not None:
            g = np.array([[z["F"], z["df1"], z["df2"], z["p"]] for z in got], float)
            for i in range(len(Ls)):
                if np.all(np.isfinite(want[i])):
                    ck.close(f"df/{i}", g[i], want[i], 2e-4)
        if cls is LMM2:
            got0 = m.approx_degfree()
            ck.close("df/default", [[z["F"], z["df2"]] for z in got0], want[:2, [0, 2]], 2e-4)
            ck.eq("array", np.asarray(m.random_effects_array()), np.asarray(m.u))
            r = m.res
            for a in (0.05, 0.2):
                ci = m.confint(a)
                h = st.t(n - p).ppf(1 - a / 2) * m.se_beta
                ck.close("confint", ci[["lo", "hi"]].values, np.c_[w["beta"] - h, w["beta"] + h], 1e-7)
            nm = ["Intercept", "w"]
        else:
            got0 = m.approx_degfree()
            ck.close("df/default", [got0[0]["F"], got0[0]["df1"]], want[2, :2], 2e-4)
            m._optimize = lambda *a, **k: (th.copy(), m.theta_chol, types.SimpleNamespace(x=m.theta_chol, fun=ll))
            adj = ck.flag("adjusted")
            ana = ck.flag("analytic")
            ck.do("fit", m.fit, reml=reml, adjusted_pvals=adj, analytic_se=ana)
            ck.close("fit/se", m.se_theta, np.sqrt(np.diag(V)), 1e-4)
            r = m.res
            nm = ["Intercept", "w"]
            ck.close("predict", np.ravel(m.predict()), ref.X @ w["beta"] + ref.Z @ w["u"], 1e-7)
        t = r["estimate"] / r["SE"]
        dfv = np.full(len(r), n - p, float)
        if cls is LMM and adj:
            dfv[:2] = want[:2, 2]
        ck.close("res/estimate", r["estimate"], np.r_[w["beta"], th], 1e-7)
        ck.close("res/SE", r["SE"], np.r_[np.sqrt(np.diag(w["C"])), np.sqrt(np.diag(V))], 1e-4)
        ck.close("res/t", r["t"], t, 1e-7)
        ck.close("res/df", r["degfree"], dfv, 2e-4)
        ck.close("res/p", r["p"], 2 * st.t(dfv).sf(np.abs(t)), 1e-4)
        ck.eq("res/names", list(r.index), nm + names_of(gr, ref.rs) + ["resid_cov"] if cls is LMM2 else nm + [s for s in _old_names(gr, ref.rs)] + ["resid_cov"])
        ck.expect("data unchanged", d.equals(keep))
    rep.explore("general", general)

    def fits(ck):
        """every way of running the optimiser ends at the optimum"""
        name = ck.choose("layout", names if big else ["scalar", "vector", "crossed"])
        reml = ck.flag("reml")
        how = ck.choose("how", ["new/trust-constr", "new/l-bfgs-b", "new/start", "old/grad", "old/hess", "old/approx"] + (["old/nograd"] if name == "scalar" else []))
        variant = ck.choose("design", [0, 1])
        if not big:
            ck.require(variant == 0 or how in ("new/trust-constr", "old/hess"))
        f, d, ref, gr = layout(ck, name, variant)
        ll, th, _ = best(ref, reml)
        w = ref.eval(th, reml, hess=True)
        ev = np.linalg.eigvalsh(w["hess"])
        ck.require(ev[0] > 1e-3 * ev[-1])
        if how.startswith("new"):
            m = LMM2(f, d)
            kw = dict(method="l-bfgs-b") if "bfgs" in how else {}
            if "start" in how:
                kw["theta_init"] = np.r_[th[:-1] * 1.5, th[-1] * 0.7]
            ck.must("fit", m.fit, reml=reml, **kw)
        else:
            m = LMM(f, d)
            kw = {"old/grad": {}, "old/hess": dict(use_hess=True), "old/approx": dict(approx_hess=True), "old/nograd": dict(use_grad=False)}[how]
            ck.must("fit", m.fit, reml=reml, opt_kws={}, optimize_kws={}, **kw)
        ck.close("optimum", ref.eval(m.theta, reml)["ll"], ll, 1e-4, scale=1.0)
        ck.close("estimate", m.theta, th, 2e-2)
        w2 = ref.eval(m.theta, reml, hess=True)
        ck.close("reported", m.ll, w2["ll"] + (len(ref.y) - (2 if reml else 0)) * np.log(2 * np.pi), 1e-6)
        ck.close("beta", m.beta, w2["beta"], 1e-6)
        ck.close("u", m.u, w2["u"], 1e-6)
        ck.close("se", m.se_params, np.sqrt(np.r_[np.diag(w2["C"]), np.diag(2 * np.linalg.inv(w2["hess"]))]), 2e-2 if how == "old/nograd" else 1e-3)
    rep.explore("fits", fits)

    def profile(ck):
        name = ck.choose("layout", ["scalar", "vector", "crossed"] if big else ["scalar", "vector"])
        reml = ck.flag("reml")
        variant = ck.choose("design", [0, 1] if big else [0])
        npt = ck.choose("points", [3, 4] if big else [3])
        tb = ck.choose("width", [1.0, 2.0] if big else [1.0])
        f, d, ref, gr = layout(ck, name, variant)
        ll, th, tau = best(ref, reml)
        w = ref.eval(th, reml, hess=True)
        ev = np.linalg.eigvalsh(w["hess"])
        ck.require(ev[0] > 1e-3 * ev[-1])
        m = LMM2(f, d)
        at(m, th, reml, ref)
        out = ck.must("profile", m.profile, n_points=npt, tb=tb)
        thetas, zetas, ix = out
        q = len(th)
        iv = is_var(ref.rs)
        ck.eq("index", list(ix), list(np.repeat(np.arange(q), npt)))
        J = nd.grad(lambda t: theta_of(t, ref.rs), tau, 1e-4).T
        se = np.sqrt(np.diag(np.linalg.inv(J) @ (2 * np.linalg.inv(w["hess"])) @ np.linalg.inv(J).T))
        for i in range(q):
            lo, hi = tau[i] - tb * se[i], tau[i] + tb * se[i]
            if iv[i]:
                lo = max(lo, 1e-6)
            grid = np.linspace(lo, hi, npt)
            for j, t0 in enumerate(grid):
                k = i * npt + j
                tk = tau_of(thetas[k], ref.rs)
                ck.close("profile/grid", tk[i], t0, 1e-3)
                lr, _, _ = best(ref, reml, fixed=(i, tk[i]), starts=(1.0, 0.3, 3.0) if big else (1.0,))
                lr = min(lr, ref.eval(thetas[k], reml)["ll"])        # what the profile found is feasible too
                z = np.sign(round(t0 - tau[i], 9)) * np.sqrt(max(lr - ll, 0.0))
                if t0 > 1e-3 or not iv[i]:
                    ck.close("profile/zeta", zetas[k] if abs(t0 - tau[i]) > 1e-7 else 0.0, z, 5e-3, scale=1.0)
                    ck.close("profile/attained", ref.eval(thetas[k], reml)["ll"], lr, 1e-2, scale=1.0)
        ck.eq("model unchanged", m.theta, th)
    rep.explore("profile", profile)

    def interp(ck):
        """profile intervals invert the piecewise linear profile"""
        q = ck.choose("parameters", [1, 2])
        npt = ck.choose("points", [4, 5])
        alpha = ck.choose("alpha", [0.05, 0.2, 0.5])
        sh = ck.choose("shape", ["linear", "curved", "short"])
        m = LMM2.__new__(LMM2)
        xs, ys = [], []
        for i in range(q):
            z = np.linspace(-3, 3, npt) + 0.1 * i
            if sh == "short":
                z = z * 0.2
            x = 2.0 + i + (z if sh == "linear" else np.expm1(z / 2))
            xs.append(x), ys.append(z)
        thetas = np.full((q * npt, q), 99.0)
        ix = np.repeat(np.arange(q), npt)
        for i in range(q):
            thetas[ix == i, i] = xs[i]
        got = ck.must("confint", m.profile_confint, thetas, np.concatenate(ys), ix, alpha)

        def inv(z, x, v):
            k = min(max(int(np.searchsorted(z, v)) - 1, 0), len(z) - 2)
            return x[k] + (x[k + 1] - x[k]) * (v - z[k]) / (z[k + 1] - z[k])
        zc = st.norm.ppf(1 - alpha / 2)
        ck.close("interval", got[["lo", "hi"]].values, [[inv(ys[i], xs[i], -zc), inv(ys[i], xs[i], zc)] for i in range(q)], 1e-9)
    rep.explore("intervals", interp)

    def outputs(ck):
        """what is read off a fitted model, with every combination of arguments"""
        ng, q = ck.choose("levels x effects", [(2, 2), (3, 2), (2, 3), (2, 1), (3, 3), (4, 1)])
        second = ck.flag("second term")
        cls = ck.choose("class", [LMM2, LMM])
        given = ck.choose("arguments", list(itertools.product([False, True], repeat=4 if cls is LMM2 else 2)))
        n = 14
        r = ck.rng("out", ng, q, second)
        x, z, w = r.normal(size=(3, n))
        g = (np.arange(n) * 3 + np.arange(n) // 4) % ng
        h = np.arange(n)[::-1] // 3 % 3
        g, h = pd.factorize(g)[0], pd.factorize(h)[0]
        d = pd.DataFrame(dict(y=r.normal(size=n), w=w, x=x, z=z, g=g, h=h))
        f = "y~1+w+(1" + "".join(["+x", "+z"][:q - 1]) + "|g)" + ("+(1+z|h)" if second else "")
        one = np.ones(n)
        terms = [(g, np.c_[one, x, z][:, :q])] + ([(h, np.c_[one, z])] if second else [])
        ref = Dense(np.c_[one, w], d.y.values, terms)
        th, other = pd_theta(ck.rng("a"), ref.rs), pd_theta(ck.rng("b"), ref.rs)
        m = ck.must("model", cls, f, d)
        at(m, th, True, ref)
        e = ref.eval(th, True)
        names = ["X", "Z", "beta", "u"]
        new = dict(X=r.normal(size=(n, 2)), Z=r.normal(size=(n, ref.Z.shape[1])), beta=r.normal(size=2), u=r.normal(size=ref.Z.shape[1]))
        own = dict(X=ref.X, Z=ref.Z, beta=e["beta"], u=e["u"])
        kw = {k: new[k] for k, v in zip(names, given) if v}
        use = {**own, **kw}
        ck.close("predict", np.ravel(ck.must("predict", m.predict, **{k: v.copy() for k, v in kw.items()})), use["X"] @ use["beta"] + use["Z"] @ use["u"], 1e-7)
        if cls is LMM:
            return
        sizes = [(int(t[0].max()) + 1, t[1].shape[1]) for t in terms]
        cut = np.cumsum([0] + [a * b for a, b in sizes])
        U = [e["u"][cut[i]:cut[i + 1]].reshape(s) for i, s in enumerate(sizes)]
        per, multi, long = (ck.must("tables", m.random_effects, k) for k in ("per_term", "multi", "long"))
        ck.eq("terms", list(per), list(range(len(terms))))
        rows, vals = [], []
        for k, (L, v) in enumerate(sizes):
            ck.eq("per_term/columns", list(per[k].columns), [f"v{j}" for j in range(v)])
            ck.close("per_term", per[k].values, U[k], 1e-7)
            ck.close("multi", multi.loc[k][[f"v{j}" for j in range(v)]].values, U[k], 1e-7)
            for i in range(L):
                for j in range(v):
                    rows.append((k, i, f"v{j}")), vals.append(U[k][i, j])
        A = np.block([[ref.X.T @ ref.X, ref.X.T @ ref.Z], [ref.Z.T @ ref.X, ref.Z.T @ ref.Z]]) / th[-1]
        A[2:, 2:] += np.linalg.inv(ref.G(th))
        se = np.sqrt(np.diag(np.linalg.inv(A))[2:])
        ck.eq("long/rows", [tuple(t) for t in long.index], rows)
        ck.close("long/estimate", long["estimate"], vals, 1e-7)
        ck.close("long/SE", long["SE"], se, 1e-7)
        M = np.linalg.inv(A[2:, 2:]) @ A[2:, :2]
        ck.close("se/fixed part", m.random_effects_se(full=False) ** 2, np.diag(M @ e["C"] @ M.T), 1e-7)
        for t, lab in ((th, None), (other, other)):
            G = ref.G(t)
            vr = [np.trace(ref.Z[:, cut[i]:cut[i + 1]] @ G[cut[i]:cut[i + 1], cut[i]:cut[i + 1]] @ ref.Z[:, cut[i]:cut[i + 1]].T) / n for i in range(len(terms))]
            vf = np.var(ref.X @ e["beta"])
            got = ck.must("variances", m.variance_decomposition, lab)
            ck.close("variances", [got["v_fe"], *[got["v_re"][k] for k in range(len(terms))], got["v_resid"]], [vf, *vr, t[-1]], 1e-7)
            R = ck.must("r2", m.r_squared, lab)
            tot = vf + sum(vr) + t[-1]
            ck.close("r2", [R["marginal"], R["conditional"], R["total"], *[R["per_term"][k] for k in range(len(terms))]], [vf / tot, (vf + sum(vr)) / tot, tot, *np.array(vr) / tot], 1e-7)
    rep.explore("outputs", outputs)

    def lrt(ck):
        pairs = [("y~1+w+(1+x|g)", "y~1+w+(1|g)", [("g", 2)], [("g", 1)]), ("y~1+w+(1|g)+(1|h)", "y~1+w+(1|g)", [("g", 1), ("h", 1)], [("g", 1)]),
                 ("y~1+w+(1+x|g)+(1|h)", "y~1+w+(1|h)", [("g", 2), ("h", 1)], [("h", 1)]), ("y~1+w+(1|g)", "y~1+w+(1|g)", [("g", 1)], [("g", 1)])]
        fa, fb, ta, tb_ = ck.choose("models", pairs)
        reml = ck.flag("reml")
        _, d, _, _ = layout(ck, "mixed", ck.choose("design", [0, 1]))
        n = len(d)

        def mk(f, ts):
            Z = {("g", 1): np.ones((n, 1)), ("g", 2): np.c_[np.ones(n), d.x], ("h", 1): np.ones((n, 1))}
            ref = Dense(np.c_[np.ones(n), d.w], d.y.values, [(d[t[0]].values, Z[t]) for t in ts])
            th = pd_theta(ck.rng("lrt", f), ref.rs)
            m = LMM2(f, d)
            at(m, th, reml, ref)
            return m, ref.eval(th, reml)["ll"], len(th)
        a, la, ka = mk(fa, ta)
        b, lb, kb = mk(fb, tb_)
        if ck.flag("smaller model first"):
            a, la, ka, b, lb, kb = b, lb, kb, a, la, ka
        got = ck.must("lrt", a.lrt, b)
        df = max(ka - kb, 0)
        ck.close("lrt", got[["stat", "df", "p"]].values, [[lb - la, df, st.chi2.sf(lb - la, df) if df else 1.0]], 1e-8)
    rep.explore("likelihood-ratio", lrt)

    def reparam(ck):
        """variance/correlation coordinates of the three implementations"""
        rs = ck.choose("blocks", [t for k in (1, 2, 3) for t in itertools.product([1, 2, 3], repeat=k)][:30 if big else 16])
        r = ck.rng("rp", rs)
        th = pd_theta(r, rs)
        if ck.flag("small variances"):
            k = 0
            for i, q in enumerate(rs):
                c = np.array([1e-2, 30.0, 0.1])[(np.arange(q) + i) % 3]
                D = invech(th[k:k + q * (q + 1) // 2])
                th[k:k + q * (q + 1) // 2] = vech(c[:, None] * D * c)
                k += q * (q + 1) // 2
        tau = tau_of(th, rs)
        c = np.where(is_var(rs), tau, 1.0)
        Jn = (nd.grad(lambda t: theta_of(t * c, rs), tau / c, 1e-3).T) / c          # dtheta/dtau
        n = 30
        d = pd.DataFrame(dict(y=r.normal(size=n), x=r.normal(size=n), z=r.normal(size=n)))
        for i in range(len(rs)):
            d[f"g{i}"] = r.permutation(n) % (3 + i)
        ff = "y~1+" + "+".join("(1" + "".join(["+x", "+z"][:q - 1]) + f"|g{i})" for i, q in enumerate(rs))
        m = LMM2(ff, d)
        R = _VarCorrReparam(m.mme.re_mod)
        keep = th.copy()
        ck.close("new/fwd", R.fwd(th), tau, 1e-9)
        ck.close("new/rvs", R.rvs(tau), th, 1e-9)
        ck.close("new/jacobian", R.jacobian(tau), Jn, 1e-7)
        dims, ix, k = {}, {"theta": {}}, 0
        for i, q in enumerate(rs):
            dims[f"g{i}"] = dict(n_vars=q)
            ix["theta"][f"g{i}"] = np.arange(k, k + q * (q + 1) // 2)
            k += q * (q + 1) // 2
        ix["theta"]["resid"] = np.array([k])
        for nm, cls in (("prf", prf.VarCorrReparam), ("mm", mm.VarCorrReparam)):
            P = cls(dims, ix)
            ck.close(nm + "/transform", P.transform(th), tau, 1e-9)
            ck.close(nm + "/inverse", P.inverse_transform(tau), th, 1e-9)
            ck.close(nm + "/jacobian", P.jacobian(th), Jn.T, 1e-7)
        model = types.SimpleNamespace(theta=th, loglike=lambda t: float(np.sum(t ** 3)), gradient=lambda t: 3 * t ** 2, bounds=[(0, None) if v else (None, None) for v in is_var(rs)])
        want = Jn.T @ (3 * th ** 2)
        ck.close("prf/gradient", prf.vcrepara_grad(tau, model, prf.VarCorrReparam(dims, ix)), want, 1e-7)
        ck.close("mm/gradient", mm.vcrepara_grad(tau, model.gradient, mm.VarCorrReparam(dims, ix)), want, 1e-7)
        for cls, rp in ((prf.RestrictedModel, prf.VarCorrReparam), (mm.RestrictedModel, mm.VarCorrReparam)):
            rm = cls(model, rp(dims, ix))
            for i in range(len(th)):
                free = np.arange(len(th)) != i
                l, g = rm.llgrad(tau[free], free, tau[i])
                ck.close("restricted/ll", l, np.sum(th ** 3), 1e-9)
                ck.close("restricted/grad", g, want[free], 1e-7)
                ck.eq("restricted/bounds", [tuple(b) for b in rm.get_bounds(free)], [tuple(b) for b, f in zip(model.bounds, free) if f])
        ck.eq("argument unchanged", th, keep)
    rep.explore("coordinates", reparam)


def _old_names(gr, rs):
    out = []
    for t, r in zip(gr, rs):
        out += [f"{t}:G[{i}][{j}]" for i in range(r) for j in range(i, r)]
    return out
