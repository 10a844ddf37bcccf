"""C36: Bayesian mixed models: every step of the sampler is the full conditional (or leaves it invariant), for every layout, and the summaries are those of the draws."""
import itertools

import numpy as np
import pandas as pd
import scipy.linalg as sl
import scipy.stats as st

from mc.checks.c25_random import Tape, scripted
from mc.lib.mixed import partitions, invech, vech, zmat

B, TH, TAU = "$\\beta$", "$\\theta$", "$\\tau$"
C2 = (16 * np.sqrt(3) / (15 * np.pi)) ** 2


def run(rep, tier):
    from pystatsm.pylmm import glmm_mcmc as gm
    from pystatsm.utilities import random as pr
    import tqdm
    M = gm.MixedMCMC
    big = tier == "thorough"
    rep.assumptions += ["priors are given as a scale and a number of observations added to a flat prior", "ordinal responses are coded from 0 and have three or more categories",
                        "residual variance fixed at one for bernoulli, binomial and ordinal responses unless asked otherwise"]

    X0 = np.array([0.3, -1.2, 0.8, 1.5, -0.4, 0.1, -2.0, 0.9, 0.6, -0.7])
    X1 = np.array([1.0, 0.5, -0.5, 2.0, -1.5, 0.25, 0.75, -1.0, 1.25, -2.0])

    TERMS = {"one": [("1", "g")], "slope": [("1+x", "g")], "two": [("1", "g"), ("1+w", "h")], "only slope": [("0+w", "g"), ("1", "h")]}

    def frame(g, h, y):
        n = len(g)
        return pd.DataFrame(dict(g=g, h=h, x=X0[:n], w=X1[:n], y=y))

    def dense(df, terms, fixed="1+x"):
        n = len(df)
        cols = dict(x=df.x.values, w=df.w.values)
        X = np.column_stack([np.ones(n)] + ([cols["x"]] if "x" in fixed else []))
        Zs, rs, qs = [], [], []
        for re_, g in terms:
            R = np.column_stack([np.ones(n)] * (not re_.startswith("0")) + [cols[c] for c in "xw" if c in re_])
            lev = pd.factorize(df[g], sort=False)[0]
            Zs.append(zmat(list(lev), R)), rs.append(R.shape[1]), qs.append(lev.max() + 1)
        return X, np.hstack(Zs), rs, qs

    PD = {1: [[1.3], [0.2]], 2: [[1.0, 0.3, 0.7], [2.0, -1.1, 0.9]]}

    def theta_for(rs, k, s):
        return np.concatenate([PD[r][k] for r in rs] + [[s]])

    def gcov(theta, rs, qs):
        i, out = 0, []
        for r, q in zip(rs, qs):
            m = r * (r + 1) // 2
            out.append(np.kron(np.eye(q), invech(theta[i:i + m])))
            i += m
        return sl.block_diag(*out)

    GROUPS = [p for p in partitions(5) if max(p) >= 1]

    def setup(ck, resp="normal", groups=None, y=None, **kws):
        name = ck.choose("terms", list(TERMS))
        g = ck.choose("grouping", groups or (GROUPS if big else GROUPS[::3]))
        h = g[::-1] if name in ("two", "only slope") else g
        lab = ck.choose("labels", [None, np.array(["b", "d", "a", "c", "e"])])
        gl = np.array(g) if lab is None else lab[np.array(g)]
        hl = pd.factorize(np.array(h))[0]
        df = frame(np.tile(gl, 2), np.tile(hl, 2), np.arange(10.0) if y is None else y)
        keep = df.copy()
        f = "y~1+x+" + "+".join(f"({a}|{b})" for a, b in TERMS[name])
        m = ck.must("construct", M, f, df, resp, rng=np.random.default_rng(1), **kws)
        X, Z, rs, qs = dense(df, TERMS[name])
        ck.close("design", np.asarray(m.X), X, 1e-14)
        Zm = np.asarray(m.Z.todense())
        perm = [next((j for j in range(Z.shape[1]) if np.array_equal(Z[:, j], c)), None) for c in Zm.T]
        ck.require(name != "x")
        if not ck.expect("random design", Zm.shape == Z.shape and None not in perm, (Zm, Z)):
            return None
        return m, df, keep, X, Zm, rs, qs, name

    # ------------------------------------------------------------------ fixed and random effects given the rest
    def location(ck):
        got = setup(ck)
        if got is None:
            return
        m, df, keep, X, Z, rs, qs, name = got
        theta = theta_for(rs, ck.choose("covariance", [0, 1]), ck.choose("residual", [1.0, 0.4]))
        y = ck.rng("y", name).normal(size=10)
        W, p, q = np.hstack([X, Z]), X.shape[1], Z.shape[1]
        G = gcov(theta, rs, qs)
        P = W.T @ W / theta[-1] + sl.block_diag(np.zeros((p, p)), np.linalg.inv(G))
        keep_t, keep_y = theta.copy(), y.copy()
        f = lambda a, b, v=y: ck.must("location", m.sample_location, theta, a, b, v)          # noqa: E731
        z1, z2 = np.zeros(q), np.zeros(10)
        mean = f(z1, z2)
        ck.close("mean", mean, np.linalg.solve(P, W.T @ y / theta[-1]), 1e-9)
        J = np.column_stack([f(e, z2) - mean for e in np.eye(q)] + [f(z1, e) - mean for e in np.eye(10)])
        ck.close("covariance", J @ J.T, np.linalg.inv(P), 1e-8)
        a, b = np.linspace(-1, 1, q), np.linspace(2, -1, 10)
        ck.close("linear", f(a, b), mean + J @ np.concatenate([a, b]), 1e-9)
        ck.eq("inputs", (theta, y), (keep_t, keep_y))
        ck.expect("data", df.equals(keep))
        ck.outcome(name, tuple(qs))
    rep.explore("effects", location)

    def location_big(ck):
        """enough groups for the sparse factorisation"""
        q = ck.choose("groups", [100, 150] if big else [110])
        k = ck.choose("slopes", [False, True] if big else [False])
        n = 2 * q
        r = ck.rng("data", q)
        df = pd.DataFrame(dict(g=np.arange(n) % q, x=r.normal(size=n), w=0.0, h=0, y=r.normal(size=n)))
        terms = [("1+x" if k else "1", "g")]
        m = ck.must("construct", M, f"y~1+x+({terms[0][0]}|g)", df, "normal", rng=np.random.default_rng(1))
        X, Z, rs, qs = dense(df, terms)
        ck.require(np.array_equal(np.asarray(m.Z.todense()), Z))
        theta = theta_for(rs, ck.choose("covariance", [0, 1]), 0.6)
        W = np.hstack([X, Z])
        P = W.T @ W / theta[-1] + sl.block_diag(np.zeros((2, 2)), np.linalg.inv(gcov(theta, rs, qs)))
        y = df.y.values
        z1, z2 = np.zeros(Z.shape[1]), np.zeros(n)
        mean = ck.must("location", m.sample_location, theta, z1, z2, y)
        ck.close("mean", mean, np.linalg.solve(P, W.T @ y / theta[-1]), 1e-9)
        J = np.column_stack([m.sample_location(theta, e, z2, y) - mean for e in np.eye(len(z1))] + [m.sample_location(theta, z1, e, y) - mean for e in np.eye(n)])
        ck.close("covariance", J @ J.T, np.linalg.inv(P), 1e-8)
        ck.outcome(q, k)
    rep.explore("effects sparse", location_big)

    # ------------------------------------------------------------------ covariance parameters given the rest
    def covs(ck):
        V0 = ck.choose("prior", [None, "given", "other"])
        got = setup(ck, groups=[g for g in GROUPS if max(g) >= 2][::2 if big else 6])
        if got is None:
            return
        m, df, keep, X, Z, rs, qs, name = got
        pri = {}
        if V0 is not None:
            for i, r in enumerate(rs):
                pri[i] = dict(V=invech(np.array(PD[r][i])), n=3 + 2 * i if V0 == "given" else 6 - i)
            pri["R"] = dict(V=1.7, n=1.5 if V0 == "given" else 4)
            m2 = ck.must("construct", M, m_formula(name), df, "normal", priors=pri, rng=np.random.default_rng(1))
        else:
            m2 = m
            pri = {i: dict(V=0.001 * np.eye(r), n=4) for i, r in enumerate(rs)}
            pri["R"] = dict(V=0, n=-2)
        theta = theta_for(rs, 0, 0.8)
        r = ck.rng("u", name, V0)
        u, e = r.normal(size=Z.shape[1]), r.normal(size=10)
        yhat = r.normal(size=10)
        keepu, keept = u.copy(), theta.copy()
        k = 0
        for i, (rr, q) in enumerate(zip(rs, qs)):
            U = u[k:k + q * rr].reshape(q, rr)                     # one row per level
            k += q * rr
            S, d = U.T @ U + pri[i]["V"], q - (rr + 1) + pri[i]["n"]
            if d - rr + 1 <= 0:
                continue
            t = Tape(lambda name_, par, j: [2.0, 0.7, 1.3][j % 3] if name_ in ("chisquare", "gamma") else [0.4, -1.1][j % 2])
            m2.rng = t
            with scripted(pr, t), scripted(gm, t):
                new = ck.must("random", m2.sample_gcov, theta.copy(), u, i)
            # scaled by its scale matrix, an inverse Wishart draw is the inverse of a Bartlett product
            chi = sorted((p_[0], v) for p_, v in t.by("chisquare"))
            ck.close("random/degrees of freedom", [c[0] for c in chi], sorted(d - np.arange(rr)), 1e-9)
            j0 = sum(a * (a + 1) // 2 for a in rs[:i])
            sel = np.arange(j0, j0 + rr * (rr + 1) // 2)
            rest = np.setdiff1d(np.arange(len(theta)), sel)
            ck.close("random/others", new[rest], theta[rest], 0)
            Wm = np.linalg.inv(invech(new[sel]))
            Li = np.linalg.inv(np.linalg.cholesky(np.linalg.inv(S)))
            T = np.linalg.cholesky(Li @ Wm @ Li.T)
            ck.close("random/scale", sorted(zip(d - np.arange(rr), np.diag(T) ** 2)), chi, 1e-7)
            ck.close("random/off diagonal", np.abs(T[np.tril_indices(rr, -1)]), np.abs([v for _, v in t.by("normal")]), 1e-7)
        t = Tape(lambda name_, par, j: 1.7)
        m2.rng = t
        with scripted(pr, t), scripted(gm, t):
            new = ck.must("residual", m2.sample_rcov, theta.copy(), e + yhat, yhat)
        shape = (10 - 2 + pri["R"]["n"]) / 2
        ck.close("residual/shape", [p_[0] for p_, _ in t.by("gamma")], [shape], 1e-9)
        ck.close("residual/value", new[-1], (e @ e + pri["R"]["V"]) / 2 / 1.7, 1e-9)
        ck.close("residual/others", new[:-1], theta[:-1], 0)
        # the sweep over all of them
        free = ck.flag("residual sampled")
        t = Tape(lambda name_, par, j: 1.7 if name_ in ("chisquare", "gamma") else 0.3)
        m2.rng = t
        with scripted(pr, t), scripted(gm, t):
            ok = all(q - (rr + 1) + pri[i]["n"] - rr + 1 > 0 for i, (rr, q) in enumerate(zip(rs, qs)))
            if ok:
                allv = ck.must("sweep", m2.sample_theta, theta.copy(), u, e + yhat, yhat, free)
                one = theta.copy()
                t2 = m2.rng = Tape(lambda name_, par, j: 1.7 if name_ in ("chisquare", "gamma") else 0.3)
                with scripted(pr, t2):
                    for i in range(len(rs)):
                        one = m2.sample_gcov(one, u, i)
                    if free:
                        one = m2.sample_rcov(one, e + yhat, yhat)
                ck.close("sweep", allv, one, 1e-12)
                ck.expect("sweep/residual", (allv[-1] == theta[-1]) == (not free))
        ck.eq("inputs", (u, theta), (keepu, keept))
        ck.outcome(name, V0, free)

    def m_formula(name):
        return "y~1+x+" + "+".join(f"({a}|{b})" for a, b in TERMS[name])
    rep.explore("covariances", covs)

    # ------------------------------------------------------------------ latent variables given the rest
    LZ = [-2.0, 0.0, 0.7, 3.0]

    def simple(resp, y, **kws):
        n = len(y)
        return M("y~1+x+(1|g)", pd.DataFrame(dict(y=y, x=X0[:n], g=np.arange(n) % 3)), resp, rng=np.random.default_rng(1), **kws)

    def latent_mh(ck):
        kind = ck.choose("kind", ["binomial", "poisson"])
        s = ck.choose("sd", [1.0, 0.4])
        c = ck.choose("step size", [1.0, 0.3])
        z0 = ck.choose("z", LZ)
        step = ck.choose("step", [-1.5, 0.2, 2.5])
        pm = ck.choose("predictor", [-1.0, 0.5])
        side = ck.choose("side", [-1, 1])
        if kind == "binomial":
            w = np.array([1.0, 1, 1, 4, 4, 10, 10, 5])
            y = np.array([0.0, 1, 1, 0.25, 1, 0.3, 0.0, 0.6])
            m = ck.must("construct", simple, kind, y, weights=w)
            ll = lambda z: w * (y * z - np.log1p(np.exp(z)))                       # noqa: E731
        else:
            y = np.array([0.0, 1, 3, 0, 7, 2, 12, 1])
            m = ck.must("construct", simple, "binomial", y)
            ll = lambda z: y * z - np.exp(z)                                         # noqa: E731
        z, pred = np.full(8, z0), pm + 0.1 * np.arange(8)
        prop = z + step * c
        d = ll(prop) - ll(z) - ((prop - pred) ** 2 - (z - pred) ** 2) / (2 * s * s)
        lu = d + side * 1e-6 * (1 + np.abs(d))
        f = m.mh_lvar_binomial if kind == "binomial" else m.mh_lvar_poisson
        z1, acc = ck.must("step", f, pred, s, z.copy(), np.full(8, step), lu, c)
        ck.eq("accepted", acc, np.full(8, side < 0))
        ck.close("value", z1, prop if side < 0 else z, 1e-14)
        ck.outcome(kind, side, z0, step)
    rep.explore("latent metropolis", latent_mh)

    class Std:
        """truncated normal draws replaced by a fixed quantile of the same law"""

        def __init__(self, u):
            self.u, self.calls = u, []

        def __call__(self, mu, sd, lb, ub, *a, **k):
            k = len(mu)                                             # as the compiled function: one draw per mean
            mu, sd, lb, ub = (np.asarray(v, float)[:k] for v in (mu, sd, lb, ub))
            self.calls.append((mu, sd, lb, ub))
            A, Bq = st.norm.cdf(lb, mu, sd), st.norm.cdf(ub, mu, sd)
            return np.clip(st.norm.ppf(A + self.u * (Bq - A), mu, sd), lb, ub)

    def latent_slice(ck):
        y = np.array(ck.choose("y", [v for v in itertools.product([0, 1], repeat=5) if 0 < sum(v) < 5]))
        s = ck.choose("sd", [1.0, 0.6])
        pm = ck.choose("predictor", [-1.0, 0.8])
        z0 = ck.choose("z", [-1.5, 0.0, 2.0])
        ex = ck.choose("exponential", [0.05, 0.9, 3.0])
        m = ck.must("construct", simple, "bernoulli", y)
        n = 5
        z, v, pred = z0 + 0.2 * np.arange(n), np.zeros(n), pm + 0.1 * np.arange(n)
        ll = lambda t: y * t - np.log1p(np.exp(t))                                   # noqa: E731
        theta = np.array([0.5, s * s])
        level = ll(z) - ex                                                           # the slice {t : ll(t) > level}
        edge = np.where(y == 1, level - np.log1p(-np.exp(level)), np.log1p(-np.exp(level)) - level)
        rng = np.random.default_rng(ck.choose("generator", [1, 2]))
        m.rng = rng
        pr.vine_corr(3, seed=1)
        z1 = ck.must("step", m.slice_sample_lvar, np.full(n, ex), v, z.copy(), theta, pred)
        ck.expect("in the slice", np.all(ll(z1) >= level - 1e-9), (ll(z1), level))
        ck.expect("moved", np.all(z1 != z))
        # the law on the slice: each scripted quantile
        for u in (0.2, 0.5, 0.9):
            f = Std(u)
            old = gm.trnorm
            gm.trnorm = f
            try:
                z2 = ck.must("step", m.slice_sample_lvar, np.full(n, ex), np.zeros(n), z.copy(), theta, pred)
            finally:
                gm.trnorm = old
            if f.calls:
                lo, hi = np.where(y == 1, edge, -np.inf), np.where(y == 1, np.inf, edge)
                A, Bq = st.norm.cdf(lo, pred, s), st.norm.cdf(hi, pred, s)
                ck.close("law", z2, st.norm.ppf(A + u * (Bq - A), pred, s), 1e-6)
        ck.outcome(tuple(y), s)
    rep.warm(lambda: [pr.trnorm(*np.array([[0.0], [1.0], [-1.0], [1.0]]), np.random.default_rng(1)), pr.vine_corr(3, seed=1), simple("bernoulli", np.array([0, 1, 0, 1, 1])).sample(4, 1, 1)])
    rep.explore("latent slice", latent_slice)

    ORD = [v for v in itertools.product(range(3), repeat=5) if set(v) == {0, 1, 2}]

    def latent_ordinal(ck):
        y = np.array(ck.choose("y", ORD[::5]) + (0, 1, 2))
        if ck.flag("four categories"):
            y = np.concatenate([y, [3, 3]])
        C, n = y.max() + 1, len(y)
        s = ck.choose("sd", [1.0, 0.6])
        t = np.array([1.0, 1.8, 3.5])[:C - 1] if ck.flag("apart") else np.array([1.0, 1.1, 1.4])[:C - 1]
        m = ck.must("construct", simple, "ordinal_probit", y)
        theta, pred = np.array([0.5, s * s]), 0.7 + 0.3 * np.arange(n)
        lo, hi = np.concatenate([[-np.inf], t])[y], np.concatenate([t, [np.inf]])[y]
        m.rng = np.random.default_rng(3)
        v = ck.must("latent", m.mh_lvar_ordinal_probit, theta, t.copy(), pred, np.zeros(n))
        ck.expect("between the thresholds", np.all((v >= lo) & (v <= hi)), (v, lo, hi))
        for u in (0.1, 0.6):
            f = Std(u)
            old = gm.trnorm
            gm.trnorm = f
            try:
                v2 = ck.must("latent", m.mh_lvar_ordinal_probit, theta, t.copy(), pred, np.zeros(n))
            finally:
                gm.trnorm = old
            if f.calls:
                A, Bq = st.norm.cdf(lo, pred, s), st.norm.cdf(hi, pred, s)
                ck.close("law", v2, np.clip(st.norm.ppf(A + u * (Bq - A), pred, s), lo, hi), 1e-6)
        # thresholds: random walk on log increments, accepted by the likelihood ratio
        c = ck.choose("step size", [0.04, 0.3])
        steps = np.array(ck.choose("steps", [(0.3, 1.0, -0.5), (1.2, -1.4, 2.0), (-0.7, 2.1, 0.4)]))[:C - 1]
        inc = np.diff(t)
        prop = t[0] + np.concatenate([[0.0], np.cumsum(inc * np.exp(c * steps[1:]))])

        def ll(tt):
            e = np.concatenate([[-np.inf], tt, [np.inf]])
            return np.log(st.norm.cdf((e[y + 1] - pred) / s) - st.norm.cdf((e[y] - pred) / s)).sum()
        d = ll(prop) - ll(t)
        side = ck.choose("side", [-1, 1])
        lu = d + side * 1e-6
        ck.require(lu < 0)
        tape = Tape(lambda name, par, i: steps[i % len(steps)] if name == "normal" else float(np.exp(lu)))
        m.rng = tape
        keep = t.copy()
        with scripted(pr, tape):
            new, acc = ck.must("thresholds", m.sample_tau, theta, t, pred, np.zeros(n), c)
        ck.eq("accepted", bool(acc), side < 0)
        ck.close("thresholds", new, prop if side < 0 else keep, 1e-10)
        ck.outcome(tuple(y), bool(acc))
    rep.warm(lambda: simple("ordinal_probit", np.array([0, 1, 2, 1, 0, 2])).sample(4, 1, 1))
    rep.explore("latent ordinal", latent_ordinal)

    # ------------------------------------------------------------------ whole runs
    def runs(ck):
        resp = ck.choose("response", ["normal", "bernoulli", "binomial", "ordinal_probit"])
        name = ck.choose("terms", ["one", "slope", "two"])
        free = ck.choose("residual sampled", [None, True])
        chains, burn = ck.choose("chains and burn-in", [(1, 0), (3, 4), (2, "heuristic")] if big else [(1, 0), (3, 4)] + ([(2, "heuristic")] if name == "one" else []))
        ns = 260 if burn == "heuristic" else 12
        n = 12
        r = ck.rng("data", name)
        g, h = np.arange(n) % 4, np.arange(n) // 3
        x, w = r.normal(size=n), r.normal(size=n)
        base = x + r.normal(size=n)
        y = dict(normal=base, bernoulli=(base > 0).astype(float), binomial=np.clip(np.round(5 + base) / 10, 0, 1), ordinal_probit=np.array([0, 1, 2] * 4)[np.argsort(np.argsort(base))])[resp]
        df = pd.DataFrame(dict(g=g, h=h, x=x, w=w, y=y))
        keep = df.copy()
        X, Z, rs, qs = dense(df, TERMS[name])
        kw = dict(weights=np.full(n, 10.0)) if resp == "binomial" else {}
        log = []

        class Rec(M):
            def sample_location(self, theta, x1, x2, yy):
                out = super().sample_location(theta, x1, x2, yy)
                log.append(("loc", np.array(theta), np.array(yy), np.array(out)))
                return out

            def sample_theta(self, theta, u, z, pred, *a, **k):
                old = np.array(theta)
                out = super().sample_theta(theta, u, z, pred, *a, **k)
                log.append(("theta", old, np.array(u), np.array(z), np.array(pred), np.array(out)))
                return out

        def go(seed, cls=M):
            m = ck.must("construct", cls, m_formula(name), df, resp, rng=np.random.default_rng(seed), freeR=free, **kw)
            ck.must("sample", m.sample, ns, chains, burn, True, True, resp != "normal")
            return m
        m = go(7, Rec)
        b, p, nt = m.burnin, 2, sum(q * (q + 1) // 2 for q in rs)
        fr = resp == "normal" if free is None else free
        S = m.samples
        ck.eq("shape", S.shape, (chains, ns, p + nt + 1 + (2 if resp == "ordinal_probit" else 0)))
        # every sweep conditions on the current values
        c = np.sqrt(1 + C2) if resp == "bernoulli" else 1.0
        locs, ths = [e for e in log if e[0] == "loc"], [e for e in log if e[0] == "theta"]
        init = np.concatenate([vech(np.eye(q)) for q in rs] + [[1.0]])
        if len(locs) == len(ths) == chains * ns:
            for k, (lo, t) in enumerate(zip(locs, ths)):
                i, j = divmod(k, ns)
                if j:
                    ck.close("sweep/covariance used", lo[1], ths[k - 1][5], 0)
                else:
                    ck.close("sweep/start", lo[1][-1], 1.0, 0)
                ck.close("sweep/covariance current", t[1], lo[1], 0)
                ck.close("sweep/effects current", t[2], lo[3][p:], 0)
                ck.close("sweep/predictor", t[4], np.hstack([X, Z]) @ lo[3], 1e-9)
                ck.close("sweep/response", lo[2], t[3], 0)
                if resp == "normal":
                    ck.close("sweep/response", lo[2], y, 0)
                else:
                    ck.close("saved/latent", m.secondary_samples["lvar"][i, j], lo[2], 0)
                ck.close("saved/effects", S[i, j, :p] * c, lo[3][:p], 1e-12)
                ck.close("saved/random effects", m.secondary_samples["u"][i, j] * c, lo[3][p:], 1e-12)
                ck.close("saved/predictor", m.secondary_samples["pred"][i, j] * c, t[4], 1e-12)
                nk = nt + (1 if fr else 0)
                ck.close("saved/covariance", S[i, j, p:p + nk] * c * c, t[5][:nk], 1e-12)
                ck.expect("residual", t[5][-1] == 1.0 or fr)
        G = [invech(S[..., p:p + nt].reshape(-1, nt)[k, :rs[0] * (rs[0] + 1) // 2]) for k in range(chains * ns)]
        ck.expect("covariances positive definite", min(np.linalg.eigvalsh(g_)[0] for g_ in G) > 0)
        if resp == "ordinal_probit":
            T = S[..., -2:]
            ck.expect("thresholds increase", np.all(T[..., 0] == 1.0) and np.all(T[..., 1] > 1.0), T[0, -1])
        # same generator, same draws; another, other draws
        ck.eq("reproducible", go(7).samples, S)
        ck.expect("other seed", not np.array_equal(go(8).samples, S))
        if chains > 1:
            ck.expect("chains differ", not np.array_equal(S[0], S[1]))
        # summaries
        if burn == "heuristic":
            ix = np.concatenate([np.atleast_1d(v) for v in m.vnames.values()])
            best = 0
            for k in ix:
                for ch in range(chains):
                    v = np.sign(S[ch, :, k] * (c if k < p else c * c) - (S[ch, :, k] * (c if k < p else c * c)).mean())
                    change = np.flatnonzero(v[1:] != v[:-1])
                    best = max(best, change[49] if len(change) >= 50 else ns - 2)
            ck.eq("burn-in", int(b), int(best))
        else:
            ck.eq("burn-in", b, burn)
        nk = nt + (1 if fr else 0)
        names = ["Intercept", "x"]
        for (_, gname), q in zip(TERMS[name], rs):
            names += [f"{gname}:G[{i}][{j}]" for i in range(q) for j in range(i, q)]
        names += ["resid_cov"] * fr + (["t1"] if resp == "ordinal_probit" else [])
        ck.eq("names", list(m.res.index), names)
        D = S[:, b:, :p + nk]
        if resp == "ordinal_probit":
            D = np.concatenate([D, S[:, b:, -1:]], axis=2)
        mu = D.mean((0, 1))
        # with the residual variance of a bernoulli model free there is no fixed scale to report on
        ck.close("table/mean", m.res["mean"], mu, 2e-6)
        if D.shape[0] * D.shape[1] > 4:
            sd = D.reshape(-1, D.shape[2]).std(0, ddof=1)
            sd0 = D.reshape(-1, D.shape[2]).std(0)
            got = m.res["sd"].values
            ck.expect("table/sd", np.all((np.abs(got - sd) < 3e-6) | (np.abs(got - sd0) < 3e-6)), (got, sd))
            zv = m.res["mean"] / m.res["sd"]
            ck.close("table/z", m.res["z-value"], zv, 1e-9)
            ck.close("table/p", m.res["p-value"], 2 * st.norm.sf(np.abs(zv)), 1e-9)
        ck.close("mean effects", m.beta, mu[:p], 1e-10)
        ck.close("mean covariance", m.theta, mu[p:p + nk], 1e-10)
        if resp == "ordinal_probit":
            ck.close("mean thresholds", m.tau, mu[-1:], 1e-10)
        ag = ck.call("aggregate", m.aggregate_samples)
        if ag is not None:
            ck.close("aggregate/effects", ag[B], S[:, b:, :p].reshape(-1, p), 0)
            ck.close("aggregate/random effects", ag["u"], m.secondary_samples["u"][:, b:].reshape(-1, Z.shape[1]), 0)
        ck.expect("data", df.equals(keep))
        ck.outcome(resp, name, free, chains, burn)
    rep.warm(lambda: simple("binomial", np.array([0.0, 0.5, 0.2, 1.0, 0.3]), weights=np.full(5, 10.0)).sample(4, 1, 1))
    rep.warm(lambda: simple("normal", X0[:6]).sample(4, 1, 1))
    rep.warm(lambda: simple("normal", X0[:6]).sample(260, 2, "heuristic"))
    rep.explore("runs", runs)
