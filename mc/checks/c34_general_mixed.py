"""C34: multivariate linear mixed models and generalised linear mixed models agree with their definitions."""
import itertools

import numpy as np
import pandas as pd
import scipy.optimize as so
import scipy.stats as st

from ..lib.mixed import Dense, basis, invech, partitions, vech, zmat
from ..lib.numdiff import grad, jac

TOL = 1e-7


class MDense(Dense):
    """k responses: rows are observation-major, one residual variance for each response"""

    def __init__(self, X, Y, terms):
        n, k = Y.shape
        I = np.eye(k)
        self.k, self.n = k, n
        super().__init__(np.kron(X, I), Y.reshape(-1), [(list(np.repeat(g, k)), np.kron(Z, I)) for g, Z in terms])
        self.nt = sum(self.npar) + k

    def eval(self, theta, reml, hess=True):
        n, k = self.n, self.k
        G = self.G(theta)
        R = np.tile(theta[-k:], n)
        V = self.Z @ G @ self.Z.T + np.diag(R)
        Vi = np.linalg.inv(V)
        X, y = self.X, self.y
        XVX = X.T @ Vi @ X
        C = np.linalg.inv(XVX)
        P = Vi - Vi @ X @ C @ X.T @ Vi
        Py = P @ y
        M = P if reml else Vi
        ll = np.linalg.slogdet(V)[1] + y @ Py + (np.linalg.slogdet(XVX)[1] if reml else 0.0)
        dV = [Z @ np.kron(A, B) @ Z.T for Z, A, r in zip(self.Zs, self.As, self.rs) for B in basis(r)]
        dV += [np.diag(np.tile(np.eye(k)[a], n)) for a in range(k)]
        g = np.array([np.sum(M * D) - Py @ D @ Py for D in dV])
        H = np.zeros((len(dV),) * 2)
        if hess:
            MD, PD = [M @ D for D in dV], [D @ Py for D in dV]
            for i, j in itertools.product(range(len(dV)), repeat=2):
                H[i, j] = -np.sum(MD[i] * MD[j].T) + 2 * PD[i] @ P @ PD[j]
        return dict(ll=ll, grad=g, hess=H, beta=C @ X.T @ Vi @ y, C=C, u=G @ self.Z.T @ Py)

    def from_chol(self, x):
        x, out, j = np.asarray(x), [], 0
        for r, m in zip(self.rs, self.npar):
            L = np.tril(invech(x[j:j + m]))
            out.append(vech(L @ L.T))
            j += m
        return np.concatenate(out + [np.exp(x[j:])])

    def to_chol(self, th):
        out, j = [], 0
        for r, m in zip(self.rs, self.npar):
            L = np.linalg.cholesky(invech(th[j:j + m]))
            out.append(vech(L + np.tril(L, -1).T))
            j += m
        return np.concatenate(out + [np.log(th[j:])])


def theta_for(r, rs, k, scale=1.0):
    out = []
    for q in rs:
        A = r.normal(size=(q, q)) * 0.5
        out.append(vech((A @ A.T + np.diag(r.uniform(0.4, 1.2, q))) * scale))
    return np.concatenate(out + [r.uniform(0.4, 1.8, k)])


RE = {"1": lambda d: np.ones((len(d), 1)), "1+x": lambda d: np.c_[np.ones(len(d)), d.x], "0+x": lambda d: d[["x"]].values}


def run(rep, tier):
    from pystatsm.pylmm.mlmm import MLMM
    from pystatsm.pylmm.glmm import GLMM_AGQ, GLMM_LAP, approx_hess, gh_rules
    from pystatsm.pyglm.families import Binomial, Poisson
    big = tier == "thorough"

    # ------------------------------------------------------------------ multivariate
    def frame(r, n, k, g, h, names):
        d = pd.DataFrame({"x": r.normal(size=n), "w": r.uniform(-1, 1, n)})
        lab = {"integers": lambda v: 10 - np.array(v), "strings": lambda v: np.array(list("qbzma"))[np.array(v) % 5] + np.array([str(i // 5) for i in v], dtype=object)}[names]
        d["g"], d["h"] = lab(g), lab(h)
        for a in range(k):
            d[f"out{a}"] = r.normal(size=n) * (1 + a) + d.x * (a - 0.5)
        return d

    def build(d, k, fe, terms):
        """model and dense reference"""
        form = ("(" + ",".join(f"out{a}" for a in range(k)) + ")" if k > 1 else "out0") + "~" + fe + "".join(f"+({z}|{g})" for z, g in terms)
        X = np.c_[np.ones(len(d)), d[[c for c in "xw" if c in fe]].values]
        code = {g: np.unique(d[g].astype(str) if d[g].dtype == object else d[g], return_inverse=True)[1] for _, g in terms}
        ref = MDense(X, d[[f"out{a}" for a in range(k)]].values, [(list(code[g]), RE[z](d)) for z, g in terms])
        return form, ref

    PARTS = [p for p in partitions(4)]
    TERMS = [[("1", "g")], [("0+x", "g")], [("1+x", "g")], [("1", "g"), ("1", "h")], [("1+x", "g"), ("0+x", "h")]]

    def same(ck, key, m, ref, th, deep=True):
        for reml in (True, False):
            w = ref.eval(th, reml, deep)
            t = key + ("/reml" if reml else "/ml")
            keep = th.copy()
            for sp_ in (True, False):
                ck.close(t + "/loglike", ck.call("loglike", m.loglike, th, sp_, reml), w["ll"], TOL, scale=1 + abs(w["ll"]))
            ck.close(t + "/gradient", ck.call("gradient", m.gradient, th, reml), w["grad"], 1e-7, scale=1 + np.abs(w["grad"]).max())
            x = ref.to_chol(th)
            J = jac(ref.from_chol, x, 1e-1)
            ck.close(t + "/loglike_c", ck.call("loglike_c", m.loglike_c, x, reml), w["ll"], TOL, scale=1 + abs(w["ll"]))
            ck.close(t + "/gradient_c", ck.call("gradient_c", m.gradient_c, x, reml), w["grad"], 1e-7, scale=1 + np.abs(w["grad"]).max())
            ck.close(t + "/gradient_chol", ck.call("gradient_chol", m.gradient_chol, x, reml), w["grad"] @ J, 1e-6, scale=1 + np.abs(w["grad"] @ J).max())
            if deep:
                ck.close(t + "/hessian", ck.call("hessian", m.hessian, th, reml), w["hess"], 1e-5, scale=1 + np.abs(w["hess"]).max())
                Hc = jac(lambda z: ref.eval(ref.from_chol(z), reml, False)["grad"] @ jac(ref.from_chol, z, 1e-1), x, 3e-2)
                ck.close(t + "/hessian_chol", ck.call("hessian_chol", m.hessian_chol, x, reml), Hc, 1e-5, scale=1 + np.abs(Hc).max())
            ck.eq("argument", th, keep)
        e = ck.call("effects", m._compute_effects, th)
        ck.close(key + "/beta", e[0], w["beta"], TOL)
        ck.close(key + "/beta covariance", e[1], w["C"], TOL)
        ck.close(key + "/random effects", e[2], w["u"], TOL)

    def multi(ck):
        k = ck.choose("responses", [1, 2, 3])
        terms = TERMS[ck.choose("terms", list(range(len(TERMS))))]
        ck.require(k * max(len(z) // 2 + 1 for z, _ in terms) <= (6 if big else 4))
        part = ck.choose("grouping", [p for p in PARTS if len(set(p)) < 4] if big else [(0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 2, 0), (0, 0, 0, 0)])
        names = ck.choose("labels", ["integers", "strings"])
        fe = ck.choose("fixed", ["1+x", "1", "1+x+w"])
        r = ck.rng("data", k, part)
        g = list(part) + [0, 1, 0, max(part)]
        h = [0, 0, 1, 1, 2, 2, 0, 1]
        d = frame(r, 8, k, g, h, names)
        form, ref = build(d, k, fe, terms)
        m = ck.must("construct", MLMM, form, d.copy())
        ths = [theta_for(r, ref.rs, k), theta_for(r, ref.rs, k, 3.0)]
        ck.close("start/theta", m.theta, np.concatenate([vech(np.eye(q)) for q in ref.rs] + [np.ones(k)]), 1e-12)
        ck.close("start/coordinates", m.theta_chol, ref.to_chol(m.theta), 1e-12)
        for th in (m.theta.copy(), *ths):
            same(ck, "dense", m, ref, th, deep=th is ths[0] and names == "integers" and fe == "1+x" and len(th) <= 8)
        ck.outcome(k, terms, part, fe)
    rep.explore("multivariate", multi)

    def sparse(ck):
        """large enough for the sparse factorisation of the mixed-model equations"""
        k = ck.choose("responses", [1, 2])
        ng = ck.choose("groups", [150, 180])
        terms = ck.choose("terms", [[("1", "g")], [("1", "h"), ("1", "g")]])
        r = ck.rng("data", k, ng)
        g = np.r_[np.arange(ng), r.permutation(ng)]
        d = frame(r, 2 * ng, k, g, r.permutation(np.arange(2 * ng) % (ng - 7)), "integers")
        form, ref = build(d, k, "1+x", terms)
        m = ck.must("construct", MLMM, form, d)
        th = theta_for(r, ref.rs, k)
        M = m.update_mme(m.update_gmat(th, inverse=True), m.update_rmat(th, inverse=True))
        ck.expect("sparse", M.nnz / np.prod(M.shape) < 0.05, "not a sparse case")
        same(ck, "sparse", m, ref, th, deep=False)
    rep.explore("multivariate sparse", sparse)

    def fitted(ck):
        k = ck.choose("responses", [1, 2])
        terms = ck.choose("terms", [[("1", "g")], [("1+x", "g")], [("1", "g"), ("1", "h")]])
        reml = ck.flag("reml")
        se = ck.choose("errors", ["gradient", "analytic", "differences"])
        ck.require(k == 1 or len(terms) == 1 or big)
        ck.require(not (k == 2 and terms[0][0] == "1+x" and se == "differences") or big)
        r = ck.rng("data", k, len(terms), terms[0][0])
        ng, per = 12, 6
        n = ng * per
        g, h = np.repeat(np.arange(ng), per), np.tile(np.arange(per), ng)
        d = frame(r, n, k, g, h, "integers")
        for a in range(k):
            e = r.normal(size=n)
            ug, us, uh = r.normal(size=(3, ng))
            d[f"out{a}"] = 1 + a + (a - 0.5) * d.x + (1 + a) * ug[g] + 1.3 * us[g] * d.x * (terms[0][0] == "1+x") + 1.2 * uh[h] + 0.7 * e
        form, ref = build(d, k, "1+x", terms)
        f = lambda x: ref.eval(ref.from_chol(x), reml, False)["ll"]                         # noqa: E731
        df = lambda x: ref.eval(ref.from_chol(x), reml, False)["grad"] @ jac(ref.from_chol, x, 1e-1)    # noqa: E731
        best = so.minimize(f, ref.to_chol(np.concatenate([vech(np.eye(q)) for q in ref.rs] + [np.ones(k)])), jac=df, method="BFGS", options=dict(gtol=1e-7))
        for q in ref.split(np.append(ref.from_chol(best.x), 0.0))[0]:
            ck.require(np.linalg.eigvalsh(q)[0] > 0.02)        # an interior maximum
        m = ck.must("construct", MLMM, form, d.copy())
        if ck.flag("fit the other way first"):
            ck.require(se == "gradient")
            m.fit(reml=not reml)
        ck.do("fit", m.fit, reml=reml, use_grad=se != "differences", analytic_se=se == "analytic", opt_kws=dict(gtol=1e-8, xtol=1e-10))
        th = m.theta
        w = ref.eval(th, reml)
        ck.close("fit/optimum", w["ll"], best.fun, 1e-6, scale=1)
        ck.close("fit/stationary", w["grad"], np.zeros(len(th)), 2e-3)
        ck.close("fit/beta", m.beta, w["beta"], 1e-6)
        ck.close("fit/random effects", m.u, w["u"], 1e-6)
        ck.close("fit/beta errors", m.se_beta, np.sqrt(np.diag(w["C"])), 1e-6)
        tol = 5e-2 if se == "differences" else 1e-4
        set_ = np.sqrt(np.diag(np.linalg.inv(w["hess"] / 2)))
        ck.close("fit/theta errors", m.se_theta / set_, np.ones(len(th)), tol)
        # rows by name: which response and regressor a number belongs to
        cols = {"1": ["Intercept"], "1+x": ["Intercept", "x"]}
        want, j = {}, 0
        for p, s in enumerate(["Intercept", "x"]):
            for a in range(k):
                want[f"y{a + 1}~{s}"] = (w["beta"][p * k + a], np.sqrt(w["C"][p * k + a, p * k + a]))
        for z, lev in terms:
            eff = [(v, a) for v in range(len(cols[z])) for a in range(k)]
            for c, (v1, a1) in enumerate(eff):
                for (v2, a2) in eff[c:]:
                    want[f"{lev}:(y{a2 + 1}, y{a1 + 1}):G[{v2 + 1}][{v1 + 1}]"] = (th[j], set_[j])
                    j += 1
        for a in range(k):
            want[f"y{a + 1} resid_cov"] = (th[j + a], set_[j + a])
        tab = m.res
        ck.expect("fit/names", sorted(tab.index) == sorted(want), (list(tab.index), list(want)))
        for name, (v, s) in want.items():
            if name in tab.index:
                row = tab.loc[name]
                ck.close("table/estimate", row.estimate, v, 1e-6)
                ck.close("table/SE", row.SE / s, 1.0, max(tol, 1e-4))
                ck.close("table/t", row.t, row.estimate / row.SE, 1e-10)
                ck.close("table/p", row.p, 2 * st.t(len(ref.y) - 2 * k).sf(abs(row.t)), 1e-10)
        nn, q = (len(ref.y) - 2 * k, len(th)) if reml else (len(ref.y), len(th) + 2 * k)
        ll = w["ll"] + (len(ref.y) - 2 * k * reml) * np.log(2 * np.pi)
        ck.close("fit/criteria", [m.ll, m.llf, m.AIC, m.AICC, m.BIC, m.CAIC],
                 [ll, -ll / 2, ll + 2 * q, ll + 2 * q * nn / (nn - q - 1), ll + q * np.log(nn), ll + q * (np.log(nn) + 1)], 1e-7)
        ck.eq("fit/summary", m.sumstats.value.tolist(), [m.ll, m.llf, m.AIC, m.AICC, m.BIC, m.CAIC])
        j = 0
        for (z, lev), q, npar in zip(terms, ref.rs, ref.npar):
            S = invech(th[j:j + npar])
            sd = np.sqrt(np.diag(S))
            ck.close("fit/covariances", m.re_covs[lev], S, 1e-10)
            ck.close("fit/correlations", m.re_corrs[lev], S / np.outer(sd, sd), 1e-10)
            j += npar
        ck.close("fit/fitted", m.predict(), ref.X @ w["beta"] + ref.Z @ w["u"], 1e-6)
        ck.close("fit/predict", m.predict(ref.X[:3], ref.Z[:3]), (ref.X @ w["beta"] + ref.Z @ w["u"])[:3], 1e-6)
        ck.outcome(k, terms, reml, se)
    rep.explore("multivariate fit", fitted)

    # ------------------------------------------------------------------ generalised
    def ll_y(fam, y, eta):
        """log density without the part free of eta"""
        return y * eta - (np.logaddexp(0, eta) if fam == "binomial" else np.exp(eta))

    def mean(fam, eta):
        m = 1 / (1 + np.exp(-eta)) if fam == "binomial" else np.exp(eta)
        return m, (m * (1 - m) if fam == "binomial" else m)

    def mode(fam, y, xb, Z, G):
        """maximiser of log f(y|u) - u'G^-1u/2 by Newton steps with halving"""
        Gi = np.linalg.inv(G)
        f = lambda u: ll_y(fam, y, xb + Z @ u).sum() - u @ Gi @ u / 2          # noqa: E731
        u = np.zeros(len(G))
        for _ in range(100):
            m, v = mean(fam, xb + Z @ u)
            g, H = Z.T @ (y - m) - Gi @ u, Z.T @ (v[:, None] * Z) + Gi
            s = np.linalg.solve(H, g)
            t = 1.0
            while f(u + t * s) < f(u) - 1e-12 and t > 1e-8:
                t /= 2
            u = u + t * s
            if np.abs(s).max() < 1e-12:
                break
        m, v = mean(fam, xb + Z @ u)
        return u, Z.T @ (v[:, None] * Z) + Gi, f(u)

    def ref_lap(fam, y, xb, Z, g, G):
        out = 0.0
        for c in sorted(set(g)):
            ix = np.flatnonzero(np.array(g) == c)
            u, H, f = mode(fam, y[ix], xb[ix], Z[ix], G)
            out -= f - np.linalg.slogdet(G)[1] / 2 - np.linalg.slogdet(H)[1] / 2
        return out

    T = np.linspace(-14, 14, 2801)

    def ref_int(fam, y, xb, z, g, v):
        """integrate each group's random effect out on a fine grid"""
        out = 0.0
        for c in sorted(set(g)):
            ix = np.flatnonzero(np.array(g) == c)
            u0, H, _ = mode(fam, y[ix], xb[ix], z[ix, None], np.array([[v]]))
            u = u0[0] + T / np.sqrt(H[0, 0])
            l = ll_y(fam, y[ix][:, None], xb[ix][:, None] + z[ix][:, None] * u).sum(0) - u * u / (2 * v)
            out -= np.log(np.sum(np.exp(l - l.max())) * (u[1] - u[0])) + l.max() - np.log(2 * np.pi * v) / 2
        return out

    FAM = dict(binomial=Binomial, poisson=Poisson)
    YS = dict(binomial=[y for y in itertools.product([0., 1.], repeat=4) if big or y[0] <= y[1]], poisson=[(0., 0., 0., 0.), (0., 1., 2., 5.), (3., 0., 1., 1.), (1., 1., 4., 0.)])

    def glmm_case(ck, res):
        fam = ck.choose("family", ["binomial", "poisson"])
        z = ck.choose("random effect", res)
        part = ck.choose("grouping", PARTS)
        names = ck.choose("labels", ["integers", "strings"])
        yy = np.array(ck.choose("response", YS[fam]))
        r = ck.rng("data", fam)
        d = pd.DataFrame({"x": r.uniform(-1.5, 1.5, 4), "y": yy})
        d["g"] = 10 - np.array(part) if names == "integers" else np.array(list("qbzm"))[list(part)]
        code = np.unique(d.g.astype(str) if names == "strings" else d.g, return_inverse=True)[1]
        Z = RE[z](d)
        return fam, z, d, yy, code, Z

    def laplace(ck):
        fam, z, d, y, g, Z = glmm_case(ck, ["1", "0+x", "1+x"])
        m = ck.must("construct", GLMM_LAP, f"y~1+x+({z}|g)", d.copy(), FAM[fam]() if ck.flag("family object") else FAM[fam])
        X = np.c_[np.ones(4), d.x]
        ck.expect("parameters", len(m.params) == 2 + Z.shape[1] * (Z.shape[1] + 1) // 2)
        for beta, sc in (((0.0, 0.0), 1.0), ((0.4, -0.7), 0.3), ((-0.5, 0.3), 2.0)):
            th = np.array([1.0] if Z.shape[1] == 1 else [1.0, 0.4, 0.8]) * sc
            p = np.r_[beta, th]
            G = invech(th)
            want = ref_lap(fam, y, X @ np.array(beta), Z, g, G)
            ck.close("laplace/loglike", ck.call("loglike", m.loglike, p), want, 3e-6, scale=1 + abs(want))
            u, xb, H, q = ck.must("pirls", m.pirls, np.r_[p, 1.0])
            us = np.concatenate([mode(fam, y[g == c], (X @ np.array(beta))[g == c], Z[g == c], G)[0] for c in range(g.max() + 1)])
            ck.close("laplace/modes", u, us, 1e-5)
        ck.outcome(fam, z, tuple(g))
    rep.explore("laplace", laplace)

    def quad(ck):
        fam, z, d, y, g, Z = glmm_case(ck, ["1", "0+x"])
        m = ck.must("construct", GLMM_AGQ, f"y~1+x+({z}|g)", d.copy(), FAM[fam])
        X = np.c_[np.ones(4), d.x]
        ck.expect("parameters", len(m.params) == 3)
        for beta, v in (((0.0, 0.0), 1.0), ((0.4, -0.7), 0.3), ((-0.5, 0.3), 2.0)):
            p = np.r_[beta, v]
            xb = X @ np.array(beta)
            want = ref_int(fam, y, xb, Z[:, 0], g, v)
            ck.close("quadrature/loglike", ck.call("loglike", m.loglike, p), want, 2e-3, scale=1 + abs(want))
            ck.close("quadrature/many points", ck.call("loglike", m.loglike, p, 40), want, 3e-4, scale=1 + abs(want))
            lap = ref_lap(fam, y, xb, Z, g, np.array([[v]]))
            ck.close("quadrature/one point is Laplace", ck.call("loglike", m.loglike, p, 1), lap, 3e-6, scale=1 + abs(lap))
        ck.outcome(fam, z, tuple(g))
    rep.explore("quadrature", quad)

    def rules(ck):
        n = ck.choose("points", list(range(1, 26)))
        for wn in (False, True):
            z, w, f = gh_rules(n, wn)
            for q in range(min(2 * n, 24)):
                mom = 0.0 if q % 2 else float(np.prod(np.arange(1, q, 2)))
                ck.close("rule/moments", np.sum(w * z ** q) / (1 if wn else np.sqrt(2 * np.pi)), mom, 1e-8, scale=1 + float(np.prod(np.arange(1, q + 1, 2))))
            ck.close("rule/density", f, st.norm.logpdf(z), 1e-10)
        r = ck.rng("quadratic", n)
        p = 1 + n % 5
        A = r.normal(size=(p, p))
        A = A @ A.T
        b = r.normal(size=p)
        x = r.normal(size=p)
        ck.close("hessian/quadratic", approx_hess(lambda t: t @ A @ t / 2 + b @ t, x, eps=1e-3), A, 1e-6)
        c3 = r.normal(size=p)
        ck.close("hessian/cubic", approx_hess(lambda t: np.sum(c3 * t) ** 3 / 6, x), np.outer(c3, c3) * (c3 @ x), 1e-3, scale=1 + np.abs(c3).max() ** 3)
    rep.explore("quadrature rules", rules)

    def gfit(ck):
        how = ck.choose("method", ["laplace", "quadrature"])
        fam = ck.choose("family", ["binomial", "poisson"])
        z = ck.choose("random effect", ["1", "1+x"] if how == "laplace" and big else ["1"])
        r = ck.rng("data", fam)
        ng, per = 12, 8
        g = np.repeat(np.arange(ng), per)
        d = pd.DataFrame({"x": r.normal(size=ng * per), "g": g})
        u = r.permutation(st.norm.ppf((np.arange(ng) + 0.5) / ng))
        us = r.permutation(u)
        eta = 0.3 + 0.5 * d.x + 1.1 * u[g] + (0.9 * us[g] * d.x if z == "1+x" else 0)
        d["y"] = (r.uniform(size=len(d)) < 1 / (1 + np.exp(-eta))) * 1.0 if fam == "binomial" else 1.0 * r.poisson(np.exp(eta))
        X, Z, y = np.c_[np.ones(len(d)), d.x], RE[z](d), d.y.values
        m = ck.must("construct", GLMM_LAP if how == "laplace" else GLMM_AGQ, f"y~1+x+({z}|g)", d.copy(), FAM[fam])
        if how == "laplace":
            ck.do("fit", m.fit, opt_kws=dict(options=dict(verbose=0, gtol=1e-7, xtol=1e-9)))
            f = lambda p: ref_lap(fam, y, X @ p[:2], Z, g, invech(p[2:]))         # noqa: E731
        else:
            ck.do("fit", m.fit)
            f = lambda p: ref_int(fam, y, X @ p[:2], Z[:, 0], g, p[2])            # noqa: E731
        x = m.params
        ck.close("fit/stationary", grad(f, x, 1e-2), np.zeros(len(x)), 2e-2)
        H = jac(lambda p: grad(f, p, 2e-2), x, 2e-2)
        dx = np.linalg.solve(H, grad(f, x, 1e-2))
        ck.close("fit/optimum", f(x), f(x - dx), 1e-5, scale=1)
        se = np.sqrt(np.diag(np.linalg.inv(H)))
        ck.close("fit/errors", m.se_params / se, np.ones(len(x)), 3e-2)
        t = m.res
        ck.eq("table/estimates", t.iloc[:, 0].tolist(), list(x))
        ck.eq("table/errors", t.iloc[:, 1].tolist(), list(m.se_params))
        ck.close("table/t", t["t"], x / m.se_params, 1e-10)
        ck.close("table/p", t["p"], 2 * st.t(len(d) - len(x)).sf(np.abs(x / m.se_params)), 1e-10)
        if how == "laplace":
            ck.close("fit/value", m.ll, f(x), 1e-6)
    rep.explore("generalised fit", gfit)
