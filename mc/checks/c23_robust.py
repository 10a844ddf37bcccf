"""C23: robust estimation: dispersion estimators, M-estimator functions, robust
regression (equivariance, bounded influence, breakdown)."""
import itertools

import numpy as np

from mc.lib import numdiff


def samples(nmax, values):
    for n in range(2, nmax + 1):
        yield from itertools.combinations_with_replacement(values, n)


def run(rep, tier):
    import pandas as pd
    import scipy as sp
    import scipy.stats
    import scipy.integrate
    from pystatsm.pyrobust import dispersion_estimators as de, m_estimators as me
    from pystatsm.pyrobust.rls import RobustLM, RobustSLM
    from pystatsm.pyrobust.robust_model_sim import RobustRegressionModel
    big = tier == "thorough"
    rep.assumptions += ["Huber tuning constants above one (with a = 1/2 the scale equation has no root below)", "fewer than 45 percent of the rows of a robust fit lie exactly on one plane (the Huber scale would be zero)"]

    def warm():
        for t in (float, int):
            x = np.arange(6).astype(t)
            de.sn(x), de.sn_naive(x), de.gmd2(x), de.sn_estimator2(x), de._median_1d(x), de._median_1d(x, "high"), de.gmd3(x), de.qn_estimator2(x)
        rng = np.random.default_rng(0)
        RobustRegressionModel(n_obs=10, n_var=2, n_nnz=1, rho=0.2, seed=1)
    rep.warm(warm)

    def gmd_ref(x):
        d = [abs(a - b) for a, b in itertools.combinations(x, 2)]
        return sum(d) / len(d)

    def sn_ref(x):
        n = len(x)
        a = []
        for i in range(n):
            d = sorted(abs(x[i] - x[j]) for j in range(n))
            a.append(d[n // 2])                       # high median
        return 1.1926 * sorted(a)[(n + 1) // 2 - 1]   # low median

    def qn_ref(x):
        n = len(x)
        d = sorted(abs(a - b) for a, b in itertools.combinations(x, 2))
        h = n // 2 + 1
        return d[h * (h - 1) // 2 - 1]

    phi58 = 1 / (np.sqrt(2) * sp.stats.norm.ppf(5 / 8))

    def dispersion(ck):
        n = ck.choose("n", list(range(2, 8 if big else 7)))
        kind = ck.choose("values", ["int", "float"])
        vals = [0, 1, 2, 5, 9] if kind == "int" else [0.0, 0.25, 1.5, 2.5, 40.0]
        srt = ck.choose("sample", list(itertools.combinations_with_replacement(vals, n)))
        perm = ck.choose("order", ["sorted", "reversed", "rotated"])
        x = np.array(srt)
        x = x if perm == "sorted" else x[::-1].copy() if perm == "reversed" else np.roll(x, n // 2)
        keep = x.copy()
        g = gmd_ref(srt)
        for corrected, f in ((True, np.sqrt(np.pi) / 2), (False, 1.0)):
            for name in ("gmd", "gmd2"):
                ck.close(name, ck.must(name, getattr(de, name), x, corrected), g * f, 1e-12)
            ck.close("gmd3", np.ravel(ck.must("gmd3", de.gmd3, x, corrected)), [g * f], 1e-12)
            s2 = np.median([np.median(np.abs(x - a)) for a in x])
            for name in ("sn_estimator", "sn_estimator2"):
                ck.close(name, ck.must(name, getattr(de, name), x, corrected), s2 * (1.1926 if corrected else 1.0), 1e-12)
            for name in ("qn_estimator", "qn_estimator2"):
                ck.close(name, ck.must(name, getattr(de, name), x, corrected), qn_ref(srt) * (phi58 if corrected else 1.0), 1e-12)
            cn = [0.743, 1.851, 0.954, 1.351, 0.993, 1.198, 1.005, 1.131][n - 2] if corrected else 1.0
            fast, a1 = ck.must("sn", de.sn, x, corrected)
            slow, a2 = ck.must("sn_naive", de.sn_naive, x, corrected)
            ck.close("fast-sn", fast, sn_ref(srt) * cn, 1e-12)
            ck.close("naive-sn", slow, sn_ref(srt) * cn, 1e-12)
            ck.close("sn-rows", np.sort(a1), np.sort(a2), 1e-12)
        med = np.median(x)
        ck.close("mad", de.mad(x), np.median(np.abs(x - med)) / sp.stats.norm.ppf(0.75), 1e-12)
        ck.close("mad-constant", de.mad(x, cn=1.0), np.median(np.abs(x - med)), 1e-12)
        for kd, k in (("low", (n + 1) // 2 - 1), ("high", n // 2)):
            ck.eq("median", de._median_1d(x, kd), srt[k])
            ck.eq("median-nd", np.ravel(de._median_nd(x, kd)), [srt[k]])
        ck.eq("sample-unchanged", x, keep)

    rep.explore("dispersion", dispersion)

    def long_sn(ck):
        """larger samples: every placement of m tied or outlying values"""
        n = ck.choose("n", [8, 9, 10, 11, 12, 13] + ([14, 15, 16, 17, 20, 21] if big else []))
        m = ck.choose("outliers", [0, 1, 2, 3])
        pos = ck.choose("where", list(itertools.combinations(range(n), m)))
        base = np.cumsum((np.arange(n) * 7) % 5 + (np.arange(n) % 3 == 0)).astype(float)
        x = base.copy()
        x[list(pos)] = ck.choose("to", [0.0, 1000.0, 7.0]) if m else 0.0
        if m == 0:
            x = base
        cn = ([0.743, 1.851, 0.954, 1.351, 0.993, 1.198, 1.005, 1.131][n - 2] if n <= 9 else (n / (n - 0.9) if n % 2 else 1.0))
        want = sn_ref(list(x)) * cn
        ck.close("fast-sn", de.sn(x)[0], want, 1e-12)
        ck.close("naive-sn", de.sn_naive(x)[0], want, 1e-12)
        for name in ("gmd", "sn_estimator", "qn_estimator", "mad"):
            f = getattr(de, name)
            ck.close("equivariant-" + name, f(-2.0 * x + 5.0), 2.0 * f(x), 1e-10)

    rep.explore("dispersion-long", long_sn)

    def tables(ck):
        shape = ck.choose("shape", [(3,), (4, 3), (3, 4), (2, 3, 4)])
        x = (np.arange(np.prod(shape)) * 37 % 23).reshape(shape).astype(float)
        ax = ck.choose("axis", [None] + list(range(len(shape))))
        want = np.median(np.abs(x - np.median(x, axis=ax, keepdims=ax is not None)), axis=ax) / sp.stats.norm.ppf(0.75)
        ck.close("mad", de.mad(x, axis=ax), want, 1e-12)
        if ax is not None:
            n = shape[ax]
            for kd, k in (("low", (n + 1) // 2 - 1), ("high", n // 2)):
                ck.eq("median-nd", de._median_nd(x, kd, axis=ax), np.take(np.sort(x, axis=ax), [k], axis=ax))
        p = ck.choose("p", [1, 2, 3, 4])
        A = np.add.outer(np.arange(p), np.arange(p)) * 1.5 + np.eye(p)
        v = de.vech(A)
        ck.eq("vech", v, np.array([A[i, j] for j in range(p) for i in range(j, p)]))
        ck.eq("invech", de.invech(v), A)

    rep.explore("tables", tables)

    def functions(ck):
        name = ck.choose("function", ["huber", "bisquare"])
        c = ck.choose("c", [None, 0.7, 1.345, 3.0])
        how = ck.choose("tuning", ["constructor", "argument"])
        cls = me.Huber if name == "huber" else me.Bisquare
        default = 1.345 if name == "huber" else 4.685
        f = cls() if c is None or how == "argument" else cls(c)
        args = () if c is None or how == "constructor" else (c,)
        c = default if c is None else c
        ck.eq("constant", f.c, c if how == "constructor" else default)
        grid = np.array([-5.0, -2.9, -1.0, -0.3, 0.0, 0.4, 0.69, 1.2, 2.0, 4.0, 6.0])
        grid = grid[np.abs(np.abs(grid) - c) > 1e-3]

        def rho(x):
            a = abs(x)
            if name == "huber":
                return a * a / 2 if a <= c else c * a - c * c / 2
            return 1 - (1 - (a / c) ** 2) ** 3 if a <= c else 1.0

        def psi(x):
            a = abs(x)
            if name == "huber":
                return x if a <= c else c * np.sign(x)
            return x * (1 - (x / c) ** 2) ** 2 if a <= c else 0.0
        ck.close("rho", f.rho(grid, *args), [rho(x) for x in grid], 1e-12)
        ck.close("psi", f.psi(grid, *args), [psi(x) for x in grid], 1e-12)
        ck.close("weights", f.weights(grid, *args), [psi(x) / x if x else 1.0 for x in grid], 1e-12)
        d = numdiff.derivs
        h = 1e-4
        ck.close("phi", f.phi(grid, *args), [(psi(x + h) - psi(x - h)) / (2 * h) for x in grid], 1e-5)
        norm = f.rho_norm(*args)
        ck.close("slope", f.chi(grid, 1, *args), [(rho(x + h) - rho(x - h)) / (2 * h) for x in grid], 1e-6)
        ck.close("curvature", f.chi(grid, 2, *args), f.phi(grid, *args) / norm, 1e-12)
        ck.close("value", f.chi(grid, 0, *args), f.rho(grid, *args), 1e-12)
        ints = np.array([-3, -1, 0, 1, 2, 7])
        for m in ("rho", "psi", "phi", "weights"):
            ck.close("integer-" + m, getattr(f, m)(ints, *args), getattr(f, m)(ints.astype(float), *args), 1e-12)
        pdf = sp.stats.norm.pdf
        for m, g in (("E_rho", rho), ("E_psi", psi), ("E_psi2", lambda x: psi(x) ** 2), ("E_phi", lambda x: float(f.phi(np.array([x]), *args)[0]))):
            want = sum(sp.integrate.quad(lambda x: g(x) * pdf(x), a, b, epsabs=1e-12)[0] for a, b in ((-np.inf, -c), (-c, 0), (0, c), (c, np.inf)))
            ck.close(m, getattr(f, m)(*args), want, 1e-7)

    rep.explore("functions", functions)

    def scale_eq(ck):
        name = ck.choose("function", ["huber", "bisquare"])
        bd = ck.choose("bd", [0.5, 0.3])
        n = ck.choose("n", [4, 5])
        r = np.array(ck.choose("residuals", list(itertools.product([-3.0, -1.0, 0.5, 2.0, 30.0], repeat=n))))
        f = me.Huber() if name == "huber" else me.Bisquare(1.548)
        if de.mad(r) == 0:
            return
        s = ck.must("scale", f.m_estimate_scale, r, bd=bd, n_iters=5000, tol=1e-14)
        ck.close("equation", np.mean(f.rho(r / s)), bd, 1e-6)
        ck.close("equivariant", f.m_estimate_scale(-3.0 * r[::-1], bd=bd, n_iters=5000, tol=1e-14), 3.0 * s, 1e-6)
        ck.close("start-free", f.m_estimate_scale(r, scale=5 * s, bd=bd, n_iters=20000, tol=1e-15), s, 1e-5)

    rep.explore("scale-equation", scale_eq)

    def frame(X, y):
        return pd.DataFrame({"y": y, **{"x%d" % i: X[:, i] for i in range(X.shape[1])}})

    def make(n, p, seed, bad=()):
        rng = np.random.default_rng(seed)
        X = rng.normal(size=(n, p))
        y = 1.0 + X @ np.arange(1.0, p + 1) + 0.5 * rng.normal(size=n)
        for i in bad:
            y[i] += 15.0
        return X, y

    def lm(X, y, c=None):
        form = "y ~ " + " + ".join("x%d" % i for i in range(X.shape[1]))
        return RobustLM(form, frame(X, y)) if c is None else RobustLM(form, frame(X, y), c=c)

    def regression_derivs(ck):
        p = ck.choose("p", [1, 2])
        c = ck.choose("c", [None, 0.8, 2.0])
        seed = ck.choose("data", [1, 2, 3])
        X, y = make(12, p, seed, bad=(2, 7))
        m = lm(X, y, c)
        s = ck.choose("log-scale", [-1.0, 0.0, 1.0])
        b = np.array(ck.choose("beta", list(itertools.product([0.2, 1.1], repeat=p + 1))))
        th = np.r_[b, s]
        cc = 1.345 if c is None else c
        u = (y - b[0] - X @ b[1:]) / np.exp(s)
        if np.abs(np.abs(u) - cc).min() < 1e-3:
            return
        rho = np.where(np.abs(u) <= cc, u * u / 2, cc * np.abs(u) - cc * cc / 2)
        ck.close("objective", m.rho(th), np.sum(rho + 0.5) * np.exp(s), 1e-10)
        ck.close("gradient", m.grad(th), numdiff.grad(m.rho, th, 1e-5), 1e-6)
        ck.close("hessian", m.hessian(th), numdiff.jac(m.grad, th, 1e-5), 1e-6)

    rep.explore("regression-derivatives", regression_derivs)
    OPT = dict(method="trust-constr", options=dict(xtol=1e-13, gtol=1e-10, maxiter=3000))

    def fitted(ck, X, y, c=None):
        m = ck.must("init", lm, X, y, c)
        ck.must("fit", m.fit, {k: v for k, v in OPT.items()})
        return m

    def regression(ck):
        p = ck.choose("p", [1, 2])
        c = ck.choose("c", [None, 1.2, 2.0])
        n = 14
        k = ck.choose("outliers", [0, 1, 2])
        bad = ck.choose("where", list(itertools.combinations(range(n), k))[::1 if (big or k < 2) else 9])
        X, y = make(n, p, 5, bad)
        m = fitted(ck, X, y, c)
        g = m.grad(m.theta) / n
        ck.close("stationary", g, np.zeros(p + 2), 1e-6)
        cc = 1.345 if c is None else c
        D = np.c_[np.ones(n), X]
        r = y - D @ m.beta
        u = r / m.scale
        ck.close("estimating-equation", D.T @ np.clip(u, -cc, cc) / n, np.zeros(p + 1), 1e-6)
        ck.close("scale-equation", np.mean(np.minimum(u * u, cc * cc)), 1.0, 1e-6)
        psi, phi = np.clip(u, -cc, cc), (np.abs(u) <= cc) * 1.0
        K = 1 + (p + 1) / n * phi.var() / phi.mean() ** 2
        e2 = (psi ** 2).sum() / (n - p - 1) * m.scale ** 2
        G = np.linalg.inv(D.T @ D)
        W = np.linalg.inv((D * phi[:, None]).T @ D)
        ck.close("covariance-1", m.H1, K ** 2 * e2 / phi.mean() ** 2 * G, 1e-6)
        ck.close("covariance-2", m.H2, K * e2 / phi.mean() * W, 1e-6)
        ck.close("covariance-3", m.H3, e2 / K * W @ D.T @ D @ W, 1e-6)
        ck.close("table", m.res.values[:, :7], np.c_[m.beta, np.sqrt(np.diag(m.H1)), np.sqrt(np.diag(m.H2)), np.sqrt(np.diag(m.H3)), m.beta / np.sqrt(np.diag(m.H1)), m.beta / np.sqrt(np.diag(m.H2)), m.beta / np.sqrt(np.diag(m.H3))], 1e-8)
        ck.close("p-values", m.res.values[:, 7:], 2 * sp.stats.t(n - p - 1).sf(np.abs(m.res.values[:, 4:7])), 1e-8)
        move = ck.choose("change", ["permute", "affine", "outlier-out", "irwls-proposal", "irwls-mad"])
        if move == "permute":
            m2 = fitted(ck, X[::-1], y[::-1], c)
            ck.close("row-order", m2.theta, m.theta, 1e-5)
        elif move == "affine":
            a = np.arange(p + 1) - 0.5
            m2 = fitted(ck, X, 4.0 * y + D @ a, c)
            ck.close("equivariant-beta", m2.beta, 4.0 * m.beta + a, 1e-4)
            ck.close("equivariant-scale", m2.scale, 4.0 * m.scale, 1e-4)
            for h in ("H1", "H2", "H3"):
                ck.close("equivariant-" + h, getattr(m2, h), 16.0 * getattr(m, h), 1e-3)
        elif move == "outlier-out":
            far = np.flatnonzero(np.abs(u) > cc + 0.05)
            for i in far:
                y2 = y.copy()
                y2[i] += 50.0 * np.sign(u[i])
                m2 = fitted(ck, X, y2, c)
                ck.close("bounded-influence", m2.theta, m.theta, 1e-4)
        else:
            th, hist = ck.must("irwls", m.irwls, scale="mad" if move.endswith("mad") else "huber", n_iters=3000, tol=1e-14)
            rr = y - D @ th[:-1]
            s = np.exp(th[-1])
            sw = de.mad(rr) if move.endswith("mad") else np.sqrt(np.sum(np.clip(rr / s, -cc, cc) ** 2) * s * s / ((n - p - 1) * m.f.E_psi2()))
            if len(hist) < 2900:
                ck.close("irwls-equation", D.T @ np.clip(rr / s, -cc, cc) / n, np.zeros(p + 1), 1e-5)
                ck.close("irwls-scale", s, sw, 1e-5)

    rep.explore("regression", regression)

    def s_regression(ck):
        n, p = 12, ck.choose("p", [1] if not big else [1, 2])
        k = ck.choose("outliers", [0, 1, 2, 3])
        combos = list(itertools.combinations(range(n), k))
        bad = ck.choose("where", combos[::1 if big else {0: 1, 1: 1, 2: 5, 3: 17}[k]])
        size = ck.choose("size", [30.0, -1e4])
        X, y = make(n, p, 9)
        for i in bad:
            y[i] += size
        D = np.c_[np.ones(n), X]
        form = "y ~ " + " + ".join("x%d" % i for i in range(p))

        def fit(X, y):
            m = RobustSLM(form, frame(X, y))
            return ck.must("fit", m.fit, n_iters=60, tol=1e-14)
        s, b = fit(X, y)
        s_, b_ = fit(X, y)
        ck.eq("reproducible", np.r_[s, b], np.r_[s_, b_])
        rho = me.Bisquare(1.56).rho((y - D @ b) / s)
        ck.close("scale-equation", rho.mean(), 0.5, 5e-3)
        true = np.r_[1.0, np.arange(1.0, p + 1)]
        ck.expect("breakdown", np.abs(b - true).max() < 1.2 and s < 2.0, "%d gross errors at %s move the fit to %s, scale %g" % (k, bad, b, s))
        s2, b2 = fit(X, 4.0 * y + D @ true)
        ck.close("equivariant", np.r_[s2, b2], np.r_[4 * s, 4 * b + true], 1e-3)

    rep.explore("s-regression", s_regression)

    def simulation(ck):
        k = ck.choose("nonzero", [1, 2, 3, 4])
        n = ck.choose("n", [20, 5])
        p = ck.choose("p", [4, 6])
        rsq = ck.choose("rsq", [None, 0.8])
        rho = ck.choose("rho", [None, 0.5])
        own = ck.flag("rng")
        mk = lambda: RobustRegressionModel(n_obs=n, n_var=p, n_nnz=k, rho=rho, rsq=rsq, seed=3, rng=np.random.default_rng(8) if own else None)
        a, b = ck.must("init", mk), mk()
        ck.eq("design", a.X, b.X)
        vals = a.beta[a.beta != 0]
        ck.eq("coefficients", vals, np.array([(-1.0) ** i for i in range(k)]) if k % 2 == 0 else np.r_[[(-1.0) ** i for i in range(k - 1)], 1.0])
        rs = 0.5 if rsq is None else rsq
        ck.close("explained", a.lpred.var() / (a.lpred.var() + a.resid_scale ** 2), rs, 1e-10)
        if n > p + 1:
            ck.close("covariance", np.cov(a.X.T, bias=True) if False else np.corrcoef(a.X.T), (0.0 if rho is None else rho) ** np.abs(np.subtract.outer(np.arange(p), np.arange(p))), 1e-8)
        for ns in (1, 3):
            y1, y2 = a.simulate_dependent(ns), b.simulate_dependent(ns)
            ck.eq("reproducible", y1, y2)
            ck.eq("shape", y1.shape, (n,) if ns == 1 else (n, ns))

    rep.explore("simulation", simulation)
