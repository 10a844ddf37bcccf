"""C35: independent components, canonical correlation (plain and sparse), convolutive factorisation and dependence measures follow their definitions."""
import itertools

import numpy as np
import pandas as pd
import scipy.optimize as so
import scipy.stats as st


def std(v):
    v = np.asarray(v, float)
    return (v - v.mean()) / v.std()


Q = (np.arange(9) + 0.5) / 9
LAWS = dict(laplace=std(st.laplace.ppf(Q)), uniform=std(Q), exponential=std(st.expon.ppf(Q)), two=std([-1, -1.2, -0.9, 1, 0.8, 1.3]))


def vech(R):
    return np.array([R[i, j] for j in range(len(R)) for i in range(j, len(R))])


def corr(X, Y):
    X, Y = (X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0)
    return X.T @ Y / len(X)


def run(rep, tier):
    from pystatsm.pyica import ica
    from pystatsm.pyscca import base_cca, cca_sim, scca
    from pystatsm.pynmf import hfuncs as hf
    from pystatsm.misc import independence_tests as it
    big = tier == "thorough"

    # ------------------------------------------------------------------ independent components
    def product(*laws):
        return np.array(list(itertools.product(*[LAWS[a] for a in laws])))

    def rot(th, p, plane=(0, 1)):
        R = np.eye(p)
        i, j = plane
        R[i, i] = R[j, j] = np.cos(th)
        R[i, j], R[j, i] = -np.sin(th), np.sin(th)
        return R

    MIX = {2: [np.array([[1, 0.5], [-0.3, 2.0]]), np.array([[3.0, -1], [1, 1]])], 3: [np.array([[1, 0.5, 0], [-0.3, 2, 0.4], [0.2, 0, -1.5]])]}

    def comps(ck):
        laws = ck.choose("sources", list(itertools.combinations_with_replacement(LAWS, 2)) + [("laplace", "uniform", "exponential"), ("two", "two", "uniform")])
        p = len(laws)
        M = MIX[p][ck.choose("mixing", list(range(len(MIX[p]))))]
        alg = ck.choose("algorithm", ["fastica", "mle"])
        th = ck.choose("start", [-0.25, -0.1, 0.0, 0.2, 0.25])
        order = ck.choose("labels", list(itertools.permutations(range(p))) if p == 2 else [(0, 1, 2), (2, 0, 1)])
        signs = ck.choose("signs", [(1,) * p, (-1,) + (1,) * (p - 1)])
        pandas = ck.flag("data frame")
        S = product(*laws)
        X = S @ M.T + np.arange(1, p + 1)
        keep = X.copy()
        idx = [f"r{i}" for i in range(len(X))]
        m = ck.must("construct", ica.ICA, pd.DataFrame(X, columns=list("abc")[:p], index=idx) if pandas else X, None, alg)
        ck.close("whitened", m.Xw.T @ m.Xw / len(X), np.eye(p), 1e-9)
        true = np.linalg.lstsq(m.Xw, S, rcond=None)[0]               # orthogonal: the unmixing in whitened coordinates
        W0 = rot(th, p) @ true[:, list(order)] * np.array(signs)
        m.W_init = W0 * 1.7
        # one step from the definition: a Newton step for each component, then symmetric decorrelation
        # the first step leaves the starting value unchanged in `Y`, so ask for two iterations
        ck.do("fit", m.fit, 300)
        W, A, Y = (np.asarray(q) for q in (m.W, m.A, m.Y))
        ck.close("components", Y, (X - X.mean(0)) @ W, 1e-9)
        ck.close("uncorrelated", Y.T @ Y / len(X), np.eye(p), 1e-8)
        ck.close("mixing", A @ W, np.eye(p), 1e-8)
        ck.close("reconstruction", Y @ A, X - X.mean(0), 1e-8)
        ck.expect("converged", m.dW_hist[-1] < 1e-6 and len(m.dW_hist) < 300, m.dW_hist[-3:])
        R = corr(Y, S)
        ck.close("recovered", np.sort(np.abs(R), axis=1), np.eye(p)[[p - 1] * p], 5e-3)
        ck.close("one each", np.abs(R).sum(0).round(), np.ones(p), 1e-9)
        if len(m.fhist):
            ck.close("objective", m.fhist[-1], -np.log(np.cosh(Y)).sum(), 1e-9)
        if pandas:
            names = [f"component_{i}" for i in range(1, p + 1)]
            cols = list("abc")[:p]
            ck.eq("names", [list(m.W.index), list(m.W.columns), list(m.A.index), list(m.A.columns), list(m.Y.index), list(m.Y.columns)], [cols, names, names, cols, idx, names])
        ck.eq("data", X, keep)
        ck.outcome(laws, alg, th, order)
    rep.explore("independent components", comps)

    def icastep(ck):
        """one iteration is the step the algorithm is defined by, on any whitened data and start"""
        p = ck.choose("variables", [2, 3])
        alg = ck.choose("algorithm", ["fastica", "mle"])
        r = ck.rng("data", p, ck.choose("data set", [0, 1, 2]))
        X = r.normal(size=(30, p)) ** 3 @ r.normal(size=(p, p))
        m = ck.must("construct", ica.ICA, X, None, alg)
        W0 = r.normal(size=(p, p))
        m.W_init = W0.copy()
        f = ica._fast_ica if alg == "fastica" else ica._fast_ica2
        got = ck.must("step", f, m.Xw, W0, 2)

        def decorr(W):
            u, _, vt = np.linalg.svd(W)
            return u @ vt

        def step(W):
            Y = m.Xw @ W
            g, dg = np.tanh(Y), 1 - np.tanh(Y) ** 2
            n = len(Y)
            if alg == "fastica":
                return decorr(np.column_stack([m.Xw.T @ g[:, j] / n - dg[:, j].mean() * W[:, j] for j in range(p)]))
            B = W.T                                                  # rows are components
            beta = np.array([-(Y[:, j] * g[:, j]).mean() for j in range(p)])
            alpha = np.array([-1 / (beta[j] + dg[:, j].mean()) for j in range(p)])
            return decorr((B + np.diag(alpha) @ (np.diag(beta) + g.T @ Y / n) @ B).T)
        W = decorr(W0)
        W1, h = step(W), []
        h.append(np.abs(np.abs((W1 * W).sum(0)) - 1).max())
        W2 = step(W1)
        h.append(np.abs(np.abs((W2 * W1).sum(0)) - 1).max())
        ck.require(min(h) > 1e-4)
        ck.close("change", got[2], h, 1e-7)
        ck.close("rotation", got[0], W2, 1e-7)
        ck.close("components", got[1], m.Xw @ W2, 1e-7)
        ck.close("objective", got[3], [-np.log(np.cosh(m.Xw @ V)).sum() for V in (W1, W2)], 1e-7)
        # fewer components than variables
        k = ck.choose("components", [1, p - 1] if p > 2 else [1])
        m = ck.must("construct", ica.ICA, X, k, alg)
        ck.do("fit", m.fit)
        ck.close("fewer/uncorrelated", m.Y.T @ m.Y / len(X), np.eye(k), 1e-8)
        ck.close("fewer/components", m.Y, (X - X.mean(0)) @ m.W, 1e-9)
        V = np.linalg.svd(X - X.mean(0))[2][:k].T
        ck.close("fewer/leading directions", V @ V.T @ m.W, m.W, 1e-8)
        ck.close("fewer/mixing", m.A @ m.W, np.eye(k), 1e-8)
    rep.explore("component steps", icastep)

    # ------------------------------------------------------------------ canonical correlation
    def cca(ck):
        p, q = ck.choose("x variables", [1, 2, 3, 4]), ck.choose("y variables", [1, 2, 3, 4])
        k = ck.choose("components", [None] + list(range(1, min(p, q) + 1)))
        pandas = ck.flag("data frame")
        r = ck.rng("data", p, q)
        n = 14
        X = r.normal(size=(n, p)) @ r.normal(size=(p, p)) + 3
        Y = r.normal(size=(n, q)) * 2 + X[:, :1] * r.normal(size=q)
        keep = X.copy(), Y.copy()
        if pandas:
            xi, xc, yc = [f"s{i}" for i in range(n)], [f"a{i}" for i in range(p)], [f"b{i}" for i in range(q)]
            m = ck.must("construct", base_cca.CCA, pd.DataFrame(X, xi, xc), pd.DataFrame(Y, xi, yc))
        else:
            m = ck.must("construct", base_cca.CCA, X, Y)
        ck.do("fit", m._fit, k)
        d = min(p, q)
        k = k or d
        Xs, Ys = (X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0)
        qx, qy = np.linalg.qr(Xs)[0], np.linalg.qr(Ys)[0]
        rho = np.linalg.svd(qx.T @ qy, compute_uv=False)
        ck.close("correlations", m.rhos[:d], rho, 1e-9)
        Zx, Zy = Xs @ m.Wx, Ys @ m.Wy
        ck.close("x variates", Zx.T @ Zx / n, np.eye(k), 1e-9)
        ck.close("y variates", Zy.T @ Zy / n, np.eye(k), 1e-9)
        ck.close("cross", Zx.T @ Zy / n, np.diag(rho[:k]), 1e-9)
        ck.close("x scores", m.Zx, Zx, 1e-9)
        ck.close("y scores", m.Zy, Zy, 1e-9)
        ck.close("x loadings", m.Lx, corr(X, Zx), 1e-9)
        ck.close("y loadings", m.Ly, corr(Y, Zy), 1e-9)
        for P, B in ((m.PWx, m.Wx), (m.PWy, m.Wy), (m.PLx, m.Lx), (m.PLy, m.Ly)):
            ck.close("projection", P, B @ np.linalg.solve(B.T @ B, B.T), 1e-8)
        u, v = [f"u{i + 1}" for i in range(k)], [f"v{i + 1}" for i in range(k)]
        for t, a in ((m.x_coefs, m.Wx), (m.y_coefs, m.Wy), (m.x_loadings, m.Lx), (m.y_loadings, m.Ly), (m.x_canvar, Zx), (m.y_canvar, Zy), (m.canvar, np.hstack((Zx, Zy)))):
            ck.close("tables", t.values, a, 1e-12)
        ck.eq("table columns", [list(m.x_coefs.columns), list(m.y_loadings.columns), list(m.canvar.columns)], [u, v, u + v])
        if pandas:
            ck.eq("table rows", [list(m.x_coefs.index), list(m.y_coefs.index), list(m.x_loadings.index), list(m.canvar.index)], [xc, yc, xc, xi])
        a, b = m.predict(Xs[:2], Ys[:3])
        ck.close("predict", np.vstack((a, b)), np.vstack((Zx[:2], Zy[:3])), 1e-9)
        ck.eq("data", (X, Y), keep)
        ck.outcome(p, q, k)
    rep.explore("canonical correlation", cca)

    def simcca(ck):
        p, q = ck.choose("shape", [(1, 1), (1, 3), (2, 2), (2, 3), (3, 4)])
        how = ck.choose("coefficients", ["drawn", "given"])
        r = ck.rng("data", p, q)

        def cm(k):
            A = r.normal(size=(k, 2 * k + 1))
            return np.corrcoef(A).reshape(k, k)
        Sx, Sy = cm(p), cm(q)
        rho = np.array([0.8, 0.5, 0.2])[:p]
        kw = {}
        if how == "given":
            Lx, Ly = np.linalg.inv(np.linalg.cholesky(Sx)).T, np.linalg.inv(np.linalg.cholesky(Sy)).T
            kw = dict(x_coefs=Lx @ rot(0.4, p) * 3 if p > 1 else Lx * 3, y_coefs=(Ly * 0.5)[:, :p])
        m = ck.must("construct", cca_sim.SimCCA, p, q, rhos=rho, x_corr=Sx, y_corr=Sy, seed=7, **kw)
        S = m.S
        ck.close("blocks", S, np.block([[Sx, m.Sxy], [m.Sxy.T, Sy]]), 1e-12)
        i = lambda A: np.linalg.inv(np.linalg.cholesky(A))                   # noqa: E731
        ck.close("canonical correlations", np.linalg.svd(i(Sx) @ m.Sxy @ i(Sy).T, compute_uv=False), rho, 1e-9)
        ck.close("x coefficients", m.Wx.T @ Sx @ m.Wx, np.eye(p), 1e-9)
        ck.close("pairing", (m.Wx.T @ m.Sxy @ m.Wy)[:, :p], np.diag(rho), 1e-9)
        ck.close("loadings", m.Lx, Sx @ m.Wx, 1e-10)
        X, Y = ck.must("simulate", m.simulate_data, 40, True)
        D = np.hstack((X, Y))
        ck.close("exact moments", np.corrcoef(D.T), S, 1e-8)
        f = base_cca.CCA(X, Y)
        f._fit()
        ck.close("recovered", f.rhos, rho, 1e-8)
        X, Y = ck.must("simulate", m.simulate_data, 12)
        ck.close("standardised", [X.mean(0).tolist() + Y.mean(0).tolist(), X.std(0).tolist() + Y.std(0).tolist()], [[0] * (p + q), [1] * (p + q)], 1e-9)
    rep.explore("canonical simulation", simcca)

    # ------------------------------------------------------------------ sparse canonical correlation
    def sparse_parts(ck):
        v = np.array(ck.choose("vector", [v for v in itertools.product([-3.0, -1.5, 0.0, 1.0, 2.0], repeat=3) if any(v)]))
        c = ck.choose("bound", [1.1, 1.3, 1.5, 2.0])
        l1 = lambda x: np.abs(x).sum() / np.sqrt((x * x).sum())               # noqa: E731
        soft = lambda t: np.maximum(np.abs(v) - t, 0) * np.sign(v)            # noqa: E731
        ck.close("soft threshold", scca.sft(v, 0.7), soft(0.7), 1e-12)
        ck.close("norms", [scca.l2_penalty(v), scca.l1_constraint(v)], [np.sqrt(v @ v), l1(v)], 1e-12)
        t = ck.call("threshold", scca.threshold_search, v, c)
        if l1(v) <= c:
            ck.eq("no threshold", t, 0.0)
        else:
            top = np.abs(v).max()
            ck.require(np.sum(np.abs(v) == top) == 1)
            want = so.brentq(lambda s: l1(soft(s)) - c, 0.0, np.sort(np.abs(v))[-2]) if l1(soft(np.sort(np.abs(v))[-2] - 1e-12)) < c else None
            ck.require(want is not None)
            ck.close("threshold", t, want, 1e-5)
        w = v.copy()
        ck.eq("argument", v, w)
    for f, a in ((scca.sft, (np.ones(3), 0.5)), (scca.threshold_search, (np.ones(3), 1.2))):
        rep.warm(f, *a)
    rep.explore("thresholds", sparse_parts)

    def folds(ck):
        n, k = ck.choose("rows", [4, 5, 7, 9]), ck.choose("folds", [2, 3, 4])
        got = ck.must("folds", scca.kfold_indices, n, k)
        ck.expect("cover", sorted(np.concatenate([t for _, t in got])) == list(range(n)))
        for f, t in got:
            ck.expect("partition", sorted(np.r_[f, t]) == list(range(n)) and len(t) in (n // k, n // k + 1))
        r = ck.rng("data", n, k)
        X, Y = r.normal(size=(3 * n, 2)), r.normal(size=(3 * n, 3))
        keep = X.copy(), Y.copy()
        ce, sd = ck.flag("center"), ck.flag("standardize")
        mats = ck.must("matrices", scca.crossval_mats, X, Y, 3 * n, k, ce, sd)
        std_ = lambda A: (A - A.mean(0) * ce) / (A.std(0) if sd else 1.0)      # noqa: E731
        for j, (f, t) in enumerate(scca.kfold_indices(3 * n, k)):
            for g, w in zip(mats, (X[f], Y[f], X[t], Y[t])):
                ck.close("fold", g[j], std_(w), 1e-10)
        ck.eq("data", (X, Y), keep)
        lam = scca.make_lambdas(n, 0.01 * k, 2.0 if ce else 0.9)
        ck.close("path", [len(lam), lam[0], lam[-1]], [n, 0.01 * k, 1.0 if ce else 0.9], 1e-12)
        ck.close("path/steps", np.diff(np.log(lam)), np.full(n - 1, np.diff(np.log(lam))[0]), 1e-10)
    rep.explore("folds", folds)

    def ref_deflate(X, Y, Wx, Wy):
        out = []
        for wx, wy in zip(Wx.T, Wy.T):
            out.append((X, Y))
            vx, vy = X @ wx, Y @ wy
            X, Y = X - np.outer(vx, vx @ X) / (vx @ vx), Y - np.outer(vy, vy @ Y) / (vy @ vy)
        return out

    def data(ck, p, q, n=24):
        r = ck.rng("data", p, q)
        Zs = r.normal(size=(n, 2)) @ np.diag([2.0, 1.0])
        X = Zs @ r.normal(size=(2, p)) + r.normal(size=(n, p))
        Y = Zs @ r.normal(size=(2, q)) + r.normal(size=(n, q))
        return X, Y, r

    def sparse(ck):
        p, q = ck.choose("shape", [(2, 3), (3, 2), (4, 4)])
        lx, ly = ck.choose("penalties", [(1.0, 1.0), (0.8, 0.8), (0.7, 1.0), (0.85, 0.75)])
        k = ck.choose("components", [None, 1, 2])
        ortho = ck.flag("orthogonal")
        pandas = ck.flag("data frame")
        X, Y, r = data(ck, p, q)
        keep = X.copy(), Y.copy()
        m = ck.must("construct", scca.SCCA, pd.DataFrame(X) if pandas else X, pd.DataFrame(Y) if pandas else Y)
        Xs, Ys = (X - X.mean(0)) / X.std(0), (Y - Y.mean(0)) / Y.std(0)
        kws = dict(cca_kws=dict(n_iters=4000, tol=1e-9))
        base = ck.must("fit", m._fit, lx, ly, k, ortho=False, **kws)
        Wx, Wy, rho, info = base
        K = k or min(p, q)
        ck.expect("shapes", Wx.shape == (p, K) and Wy.shape == (q, K) and len(rho) == K * (K + 1) // 2, (Wx.shape, Wy.shape, np.shape(rho)))
        cx, cy = lx * np.sqrt(p), ly * np.sqrt(q)
        for i, (Xi, Yi) in enumerate(ref_deflate(Xs, Ys, Wx, Wy)):
            wx, wy = Wx[:, i], Wy[:, i]
            S = Xi.T @ Yi
            if i >= min(p, q) - 1 and np.linalg.norm(S) < 1e-8 or info[i, 1] > 3990:
                continue
            for w, c in ((wx, cx), (wy, cy)):
                ck.expect("bound", np.abs(w).sum() <= c + 1e-4 or np.count_nonzero(w) == 1, (np.abs(w).sum(), c))
            # alternate maximisation has come to rest: each weight is the soft-thresholded image of the other
            for w, z, c in ((wx, S @ wy, cx), (wy, S.T @ wx, cy)):
                l2 = lambda y: max(np.linalg.norm(y), 0.05)              # noqa: E731  the documented floor
                t = 0.0 if np.abs(z).sum() / l2(z) <= c else None
                if t is None:
                    f = lambda s: (lambda y: np.abs(y).sum() / l2(y) - c)(np.maximum(np.abs(z) - s, 0))   # noqa: E731
                    hi = np.sort(np.abs(z))[-1] * (1 - 1e-9)
                    if f(hi) > 0:
                        continue
                    t = so.brentq(f, 0.0, hi)
                y = np.maximum(np.abs(z) - t, 0) * np.sign(z)
                ck.close("fixed point", w, y / l2(y), 1e-4)
                if np.linalg.norm(y) > 0.0501 and c >= 1:                # no unit vector has a sum below one
                    ck.close("unit length", w @ w, 1.0, 1e-9)
            if lx == ly == 1.0:
                u, s, vt = np.linalg.svd(S)
                ck.close("leading pair", wx @ S @ wy, s[0], 1e-6)
        ck.close("correlations", rho, vech(corr(Xs @ Wx, Ys @ Wy)), 1e-9)
        if ortho:
            Bx, By, rho2, _ = ck.must("fit", m._fit, lx, ly, k, ortho=True, **kws)
            defl = ref_deflate(Xs, Ys, Wx, Wy)
            for i, (Xi, Yi) in enumerate(defl):
                ck.close("orthogonal/x variates", Xs @ Bx[:, i], Xi @ Wx[:, i], 1e-7)
                ck.close("orthogonal/y variates", Ys @ By[:, i], Yi @ Wy[:, i], 1e-7)
            G = (Xs @ Bx).T @ (Xs @ Bx)
            ck.close("orthogonal/uncorrelated", G - np.diag(np.diag(G)), np.zeros((K, K)), 1e-7, scale=1 + G.max())
            ck.close("orthogonal/correlations", rho2, vech(corr(Xs @ Bx, Ys @ By)), 1e-8)
        ck.eq("data", (X, Y), keep)
        ck.outcome(p, q, lx, ly, k)
    r0 = np.random.default_rng(0)
    m0 = scca.SCCA(r0.normal(size=(9, 2)), r0.normal(size=(9, 2)))
    rep.warm(m0._fit, 1.0, 1.0, 1)
    rep.warm(m0._fit, 1.0, 1.0, 1, cca_kws=dict(n_iters=3, tol=1e-9))
    rep.warm(lambda: m0._fit(1.0, 1.0, 1, X=np.asfortranarray(m0.X)))
    rep.explore("sparse canonical correlation", sparse)

    class Script:
        """stands in for numpy.random: permutations, choices and normals from a list"""

        def __init__(self, r):
            self.r, self.log = r, []

        def permutation(self, n):
            self.log.append(self.r.permutation(n))
            return self.log[-1]

        def choice(self, n, size, replace=True):
            assert replace
            self.log.append(self.r.integers(0, n, size))
            return self.log[-1]

        def normal(self, loc=0.0, scale=1.0, size=None):
            return loc + scale * self.r.normal(size=size)

    class Np:
        def __init__(self, script):
            self.random = script

        def __getattr__(self, a):
            return getattr(np, a)

    def resample(ck):
        what = ck.choose("procedure", ["crossval", "permutation", "bootstrap", "crossval_mc", "fit"])
        k = ck.choose("components", [1, 2, 3] if what == "fit" else [1, 2])
        X, Y, r = data(ck, 3, 3)
        m = ck.must("construct", scca.SCCA, X, Y)
        Xs, Ys = m.X.copy(), m.Y.copy()
        ref = scca.SCCA(X, Y)
        sc = Script(ck.rng("script"))
        # the penalties that leave the problem unconstrained have the answer of the singular value decomposition
        lam = ck.choose("penalty", [1.0, 0.75])
        old = scca.np
        try:
            scca.np = Np(sc)
            if what == "crossval":
                got = ck.must("crossval", m.crossval, 3, k, [0.7, lam])
            elif what == "permutation":
                got = ck.must("permutation", m.permutation_test, lam, lam, 4, k)
            elif what == "bootstrap":
                got = ck.must("bootstrap", m.bootstrap, lam, lam, 3, k)
            elif what == "crossval_mc":
                got = ck.must("crossval_mc", m.crossval_mc, lam, lam, 2, 3, k)
            else:
                got = ck.must("fit", lambda: (m.fit(3, k, cv_kws=dict(lambdas=[0.7, lam, 0.9])), m)[1])
        finally:
            scca.np = old
        one = lambda A, B: ref._fit(lam, lam, k, A, B)                          # noqa: E731

        def cvref(A, B, lams):
            Xf, Yf, Xt, Yt = scca.crossval_mats(A, B, len(A), 3)
            return [[(lambda w: (w[0], w[1], w[2], vech(corr(Xt[j] @ w[0], Yt[j] @ w[1]))))(ref._fit(a, a, k, Xf[j], Yf[j])) for j in range(3)] for a in lams]
        if what == "crossval":
            Wx, Wy, rf, rt, lams, _ = got
            w = cvref(Xs, Ys, [0.7, lam])
            ck.eq("penalties", list(lams), [0.7, lam])
            for i in range(2):
                for j in range(3):
                    ck.close("crossval", np.r_[Wx[i, j].ravel(), Wy[i, j].ravel(), rf[i, j], rt[i, j]], np.concatenate([np.ravel(z) for z in w[i][j]]), 1e-8)
        elif what == "permutation":
            ck.expect("size", got.shape == (4, k * (k + 1) // 2))
            for i in range(4):
                a, b = Xs[sc.log[2 * i]], Ys[sc.log[2 * i + 1]]
                w = ref._fit(lam, lam, k, a, b)
                if lam == 1.0:                       # a global optimum, whatever the starting value
                    ck.close("permutation", np.abs(got.values[i, 0]), np.abs(w[2][0]), 1e-4)
                ck.expect("permutation/range", (np.abs(got.values[i]) <= 1 + 1e-9).all())
        elif what == "bootstrap":
            Wx, Wy, res = got
            for i in range(3):
                w = one(Xs[sc.log[i]], Ys[sc.log[i]])
                ck.close("bootstrap", np.r_[Wx[i].ravel(), Wy[i].ravel(), res.values[i]], np.concatenate([np.ravel(z) for z in w[:3]]), 1e-8)
        elif what == "crossval_mc":
            Wx, Wy, res = got
            for i in range(2):
                w = cvref(Xs[sc.log[i]], Ys[sc.log[i]], [lam])[0]
                for j in range(3):
                    ck.close("crossval_mc", np.r_[Wx[i, j].ravel(), Wy[i, j].ravel(), res[i, j]], np.concatenate([np.ravel(w[j][t]) for t in (0, 1, 3)]), 1e-8)
        else:
            w = cvref(Xs, Ys, [0.7, lam, 0.9])
            diag = [int(np.flatnonzero(vech(np.arange(k * k).reshape(k, k)) == i * (k + 1))[0]) for i in range(k)]
            score = [np.mean([f[3][d] for f in row for d in diag]) for row in w]
            ck.eq("selected", int(m.lmax), int(np.argmax(score)))
            ck.eq("penalty", m.lam, [0.7, lam, 0.9][int(np.argmax(score))])
            f = ref._fit(m.lam, m.lam, k)
            ck.close("final", np.r_[m.Wx.ravel(), m.Wy.ravel(), m.rho], np.concatenate([np.ravel(z) for z in f[:3]]), 1e-8)
        ck.eq("model data", (m.X, m.Y), (Xs, Ys))
    rep.explore("sparse resampling", resample)

    # ------------------------------------------------------------------ convolutive factorisation
    def conv(W, H):
        n, k, L = W.shape
        T = H.shape[1]
        return np.array([[sum(W[i, j, l] * H[j, t - l] for j in range(k) for l in range(L) if t >= l) for t in range(T)] for i in range(n)])

    def nmf_parts(ck):
        n, k, L, T = ck.choose("shape", [(1, 1, 1, 3), (2, 1, 2, 4), (2, 2, 3, 5), (3, 2, 4, 9), (1, 3, 2, 6)])
        r = ck.rng("data", n, k, L, T)
        W, H = r.uniform(size=(n, k, L)), r.uniform(size=(k, T))
        X = r.uniform(size=(n, T))
        keep = W.copy(), H.copy(), X.copy()
        ck.close("reconstruct", ck.call("reconstruct", hf.reconstruct, W, H), conv(W, H), 1e-10)
        f, pen, WtX = ck.must("objective", hf.seqnmf_objfunc, X, W, H)
        ck.close("objective/error", f, np.sqrt(np.sum((X - conv(W, H)) ** 2)), 1e-10)
        want = np.array([[sum(W[i, j, l] * X[i, t + l] for i in range(n) for l in range(L) if t + l < T) for t in range(T)] for j in range(k)])
        ck.close("objective/overlap", WtX, want, 1e-10)
        sm = np.array([[sum(want[j, s] for s in range(T) if abs(s - t) < L) for t in range(T)] for j in range(k)]) @ H.T
        sm = sm * (1 - np.eye(k))
        ck.expect("objective/penalty", np.abs(sm).max() - 1e-9 <= pen <= np.abs(sm).sum() + 1e-9, (pen, sm))
        if k == 1:
            ck.close("objective/penalty", pen, 0.0, 1e-12)
        ck.eq("arguments", (W, H, X), keep)
        # shifts
        d = ck.choose("shift", [-2, -1, 0, 1, 2])
        a = np.arange(1.0, T + 1)
        ck.eq("shift1d", hf.shift1d(a, d, -1.0).tolist(), [a[t - d] if 0 <= t - d < T else -1.0 for t in range(T)])
        B = r.uniform(size=(n, T))
        s = ((0, 0), (max(d, 0), max(-d, 0)))
        ck.close("shift", hf.shift(B, s, -1.0), np.array([[B[i, t - d] if 0 <= t - d < T else -1.0 for t in range(T)] for i in range(n)]), 0.0)
        A2, B2 = r.normal(size=(4, 5)), r.normal(size=ck.choose("kernel", [(1, 1), (3, 3), (1, 5), (3, 1)]))
        full = np.zeros((A2.shape[0] + B2.shape[0] - 1, A2.shape[1] + B2.shape[1] - 1))
        for (i, j), v in np.ndenumerate(B2):
            full[i:i + 4, j:j + 5] += v * A2
        ck.close("conv2/full", hf.conv2(A2, B2), full, 1e-10)
        i, j = (B2.shape[0] - 1) // 2, (B2.shape[1] - 1) // 2
        ck.close("conv2/same", hf.conv2(A2, B2, "same"), full[i:i + 4, j:j + 5], 1e-10)
    rep.explore("convolutive parts", nmf_parts)

    def nmf_fit(ck):
        n, k, L, T = ck.choose("shape", [(3, 1, 2, 8), (4, 2, 3, 12), (3, 2, 1, 7)])
        pen = ck.choose("penalties", [(0.0, 0.0, 0.0), (0.01, 0.0, 0.0), (0.0, 0.02, 0.01)])
        how = ck.choose("start", ["truth", "random"])
        cen = ck.flag("centre the factors")
        r = ck.rng("data", n, k, L, T)
        W, H = r.uniform(0.2, 1, size=(n, k, L)), r.uniform(0.1, 1, size=(k, T)) * (r.uniform(size=(k, T)) < 0.7)
        H[:, 0] = 0.5
        Hp = np.pad(H, ((0, 0), (L, L)))
        Xp = conv(W, Hp)
        X = Xp[:, L:-L]
        ck.require(how == "random" or not cen)
        m = ck.must("construct", hf.NMFSeq, X, k, L, *pen, n_starts=2, n_iters=4, shift_factors=cen)
        ck.eq("padded", m.X, np.pad(X, ((0, 0), (L, L))))
        if how == "truth":
            ck.require(pen == (0.0, 0.0, 0.0))
            # no overhang: exactly reproduced data stay reproduced
            Hp[:, -2 * L:] = 0
            m.X = conv(W, Hp)
            m.W_init, m.H_init = W.copy(), Hp.copy()
            ck.do("fit", m._fit, 0)
            ck.close("fixed point/error", m.f_evals[:, 0], np.zeros(4), 1e-3)
            ck.close("fixed point/product", hf.reconstruct(m.Ws[..., 0], m.Hs[..., 0]), m.X, 2e-3)
        else:
            ck.do("fit", m.fit)
            for s in (0, 1):
                Ws, Hs = m.Ws[..., s], m.Hs[..., s]
                ck.expect("nonnegative", (Ws >= 0).all() and (Hs >= 0).all() and Ws.any() and Hs.any())
                ck.close("last error", m.f_evals[-1, s], np.linalg.norm(m.X - conv(Ws, Hs)), 1e-9)
                ck.close("last penalty", m.penalty_evals[-1, s], hf.seqnmf_objfunc(m.X, Ws, Hs)[1], 1e-9)
                ck.close("unit rows", (Hs ** 2).sum(1), np.ones(k), 1e-6)
            ck.expect("starts differ", not np.allclose(m.Ws[..., 0], m.Ws[..., 1]))
        # centring moves the pattern and its times together
        W2 = np.zeros((n, k, 5))
        for j in range(k):
            W2[:, j, j % 2 + (0 if cen else 3)] = r.uniform(0.5, 1, n)
        H2 = np.pad(r.uniform(size=(k, 6)), ((0, 0), (6, 6)))
        before = hf.reconstruct(W2, H2)
        Wc, Hc = ck.must("centre", hf.center_factors, W2.copy(), H2.copy())
        ck.close("centre/product", hf.reconstruct(Wc, Hc), before, 1e-10)
        cm = (Wc.sum(0) * np.arange(1, 6)).sum(1) / Wc.sum((0, 2))
        ck.close("centre/mass", cm, np.full(k, 2.0), 1e-9)
        ck.outcome(n, k, L, pen, how)
    rep.explore("convolutive fit", nmf_fit)

    # ------------------------------------------------------------------ dependence
    import numba
    for name, f in list(vars(it).items()):           # the same code compiled for one thread (forking after a parallel region is not safe)
        if isinstance(f, numba.core.registry.CPUDispatcher):
            setattr(it, name, numba.njit(f.py_func))

    @numba.njit
    def seed(s):
        np.random.seed(s)

    @numba.njit
    def perms(s, n, k):
        np.random.seed(s)
        out = np.zeros((k, n), dtype=np.int64)
        for i in range(k):
            out[i] = np.random.permutation(n)
        return out

    def dist(X):
        return np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))

    def ref_dcorr(X, Y, unbiased):
        n = len(X)

        def center(D):
            if not unbiased:
                return D - D.mean(0) - D.mean(1)[:, None] + D.mean()
            A = D - D.sum(0) / (n - 2) - D.sum(1)[:, None] / (n - 2) + D.sum() / ((n - 1) * (n - 2))
            return A * (1 - np.eye(n))
        a, b = center(dist(X)), center(dist(Y))
        den = (a * a).sum() * (b * b).sum()
        return (a * b).sum() / np.sqrt(den) if den > 1e-14 else None

    VEC = [v for v in itertools.product([0.0, 1.0, 3.0], repeat=5) if v[0] == 0.0 and v[1] in (0.0, 1.0) and len(set(v)) > 1]


    def depend(ck):
        kind = ck.choose("kind", ["vectors", "matrices"])
        if kind == "vectors":
            x, y = np.array(ck.choose("x", VEC)), np.array(ck.choose("y", VEC[::1 if big else 4]))
            X, Y = x[:, None], y[:, None]
        else:
            p, q = ck.choose("shape", [(1, 2), (2, 1), (3, 3)])
            r = ck.rng("data", p, q)
            x, y = r.normal(size=(6, p)), r.normal(size=(6, q))
            X, Y = x, y
        n = len(X)
        keep = x.copy(), y.copy()
        ub = ck.flag("unbiased")
        want = ref_dcorr(X, Y, ub)
        if want is not None:
            ck.close("distance correlation", ck.call("dcorr", it.dcorr, x, y, ub), want, 1e-9)
            s = 3
            P = perms(s, n, 7)
            all_ = [ref_dcorr(X, Y[p_], ub) for p_ in P]
            if ck.flag("samples returned"):
                seed(s)
                r_, pd_, pv = ck.must("test", it.dcorr_permutation_test, x, y, 7, ub, True)
                ck.close("test/distribution", pd_, all_, 1e-9)
            else:
                seed(s)
                r_, pd_, pv = ck.must("test", it.dcorr_permutation_test, x, y, 7, ub, False)
                ck.expect("test/distribution", pd_ is None)
            ck.close("test/statistic", r_, want, 1e-9)
            gap = np.abs(np.abs(all_) - abs(want))
            lo, hi = np.mean((np.abs(all_) > abs(want)) & (gap > 1e-9)), np.mean((np.abs(all_) > abs(want)) | (gap <= 1e-9))
            ck.expect("test/p", lo - 1e-12 <= pv <= hi + 1e-12, (pv, lo, hi))
        ck.eq("data", (x, y), keep)
        ck.outcome(kind, want is None)
    rep.warm(lambda: [it.dcorr_permutation_test(np.arange(5.0), np.arange(5.0) ** 2, 3, u, s) for u in (True, False) for s in (True, False)])
    rep.warm(lambda: (seed(1), perms(1, 4, 2)))
    rep.explore("distance correlation", depend)

    def hsic(ck):
        kind = ck.choose("kind", ["vectors", "matrices"])
        if kind == "vectors":
            x, y = np.array(ck.choose("x", VEC)), np.array(ck.choose("y", VEC[::1 if big else 6]))
            X, Y = x[:, None], y[:, None]
        else:
            p, q = ck.choose("shape", [(1, 2), (2, 1), (3, 3)])
            r = ck.rng("data", p, q)
            x, y = r.normal(size=(6, p)), r.normal(size=(6, q))
            X, Y = x, y
        n = len(X)
        med = [np.sqrt(np.median(dist(Z)[np.tril_indices(n, -1)] ** 2) / 2) for Z in (X, Y)]
        bw = ck.choose("bandwidth", ["median", [0.7, 1.9]])
        ck.require(bw != "median" or min(med) > 0)
        b = med if bw == "median" else bw
        K = lambda Z, h: np.exp(-dist(Z) ** 2 / (2 * h * h))                   # noqa: E731
        C = np.eye(n) - 1 / n
        ref = lambda A, B: np.trace(K(A, b[0]) @ C @ K(B, b[1]) @ C) / n ** 2   # noqa: E731
        got = ck.must("dhsic", it.dhsic, x, y, bw)
        ck.close("hsic", got, [ref(X, Y)] + list(b), 1e-9)
        P = perms(5, n, 6)
        all_ = np.array([ref(X, Y[p_]) for p_ in P])
        seed(5)
        g = ck.must("test", it.dhsic_test, x, y, bw, 6)
        ck.close("test/statistic", g[:3], got, 1e-12)
        ck.close("test/distribution", g[3], all_, 1e-9)
        d = np.abs(all_) - abs(ref(X, Y))
        ck.expect("test/p", np.mean(d > 1e-12) - 1e-12 <= g[4] <= np.mean(d > -1e-12) + 1e-12, (g[4], d))
    rep.warm(lambda: it.dhsic_test(np.arange(5.0), np.arange(5.0) ** 2, "median", 2))
    rep.warm(lambda: it.dhsic_test(np.arange(5.0), np.arange(5.0) ** 2, [0.7, 1.9], 2))
    rep.explore("kernel independence", hsic)
