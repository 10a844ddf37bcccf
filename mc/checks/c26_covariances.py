"""C26: covariance builders, nearest correlation matrices, sampling covariances, numerical derivatives."""
import fractions
import itertools
import math

import numpy as np


def run(rep, tier):
    import scipy as sp
    import scipy.linalg
    import scipy.spatial
    from pystatsm.utilities import cov_utils as cu, numerical_derivs as nd
    big = tier == "thorough"
    rep.assumptions += ["factor and canonical correlation parameters within the admissible range", "numerical derivatives of functions that are smooth around the point"]

    def warm():
        nd.fd_coefs(np.array([-1.0, 0.0, 1.0]), 0, 1), nd.fd_coefs(np.array([-1.0, 0.0, 1.0]), 0.5, 1), nd.fd_coefs(np.array([0, 1, 2]), 0, 1)
    rep.warm(warm)

    def corr_ok(ck, key, R, d, pd_=True):
        ck.expect(key + "/shape", R.shape == (d, d), str(R.shape))
        ck.close(key + "/symmetric", R, R.T, 1e-14)
        ck.close(key + "/unit", np.diag(R), np.ones(d), 1e-12)
        if pd_:
            ck.expect(key + "/psd", np.linalg.eigvalsh(R).min() > -1e-9, lambda: str(R))

    # ---------------------------------------------------------------- builders
    def builders(ck):
        what = ck.choose("builder", ["ar1", "exchangeable", "mdependent", "antedependence", "factor", "power", "exp", "gaussian", "toeplitz", "lkj"])
        n = ck.choose("n", [1, 2, 3, 4, 5, 6] if what not in ("mdependent", "antedependence", "toeplitz") else [2, 3, 4, 5, 6])
        I, J = np.indices((n, n))
        d = abs(I - J)
        vals = [-0.5, 0.3, 0.8]
        if what == "ar1":
            r = ck.choose("rho", [-0.9, 0.0, 0.4, 1.0])
            R = ck.call(what, cu.get_ar1_corr, n, r)
            ck.close(what, R, np.array([[float(r) ** int(k) for k in row] for row in d]), 1e-14)
        elif what == "exchangeable":
            lb = -1 / (n - 1) if n > 1 else -1.0
            c = ck.choose("c", [0.0, 0.5, 1.0, "lowest", "below", "above"])
            v = {"lowest": lb, "below": lb - 0.01, "above": 1.01}.get(c, c)
            if c in ("below", "above"):
                try:
                    cu.get_exchangeable_corr(n, v)
                    ck.fail("exchangeable/refused", f"{n} {v}")
                except ValueError:
                    ck.expect("exchangeable/refused", True)
                return
            R = ck.call(what, cu.get_exchangeable_corr, n, v)
            ck.close(what, R, np.where(I == J, 1.0, v), 1e-14)
            corr_ok(ck, what, R, n)
        elif what == "mdependent":
            m = ck.choose("m", range(1, n))
            off = [np.arange(1.0, n - i) / 20 * (i + 1) for i in range(m)]
            R = ck.call(what, cu.get_mdependent_corr, off)
            ck.close(what, R, np.array([[1.0 if i == j else (off[abs(i - j) - 1][min(i, j)] if abs(i - j) <= m else 0.0) for j in range(n)] for i in range(n)]), 1e-14)
        elif what == "antedependence":
            rho = np.array([ck.choose(f"rho{i}", vals if n < 6 else vals[:2]) for i in range(n - 1)])
            keep = rho.copy()
            R = ck.call(what, cu.get_antedependence1_corr, rho)
            ck.eq(what + "/input", rho, keep)
            ck.close(what, R, np.array([[np.prod(rho[min(i, j):max(i, j)]) for j in range(n)] for i in range(n)]), 1e-13)
            corr_ok(ck, what, R, n)
        elif what == "factor":
            k = ck.choose("factors", [1, 2])
            A = np.cos(np.arange(n * k)).reshape(n, k)
            psi = 0.2 + np.arange(n) / 10
            Phi = ck.choose("Phi", [None, np.eye(k) * 0.7 + 0.3])
            diag = ck.flag("matrix")
            S = ck.call(what, cu.get_factor_cov, A, np.diag(psi) if diag else psi, Phi)
            ck.close(what, S, A @ (np.eye(k) if Phi is None else Phi) @ A.T + np.diag(psi), 1e-13)
        elif what in ("power", "exp", "gaussian"):
            pts = np.array(ck.choose("points", [tuple((i * i * 0.3, math.sin(i)) for i in range(n)), tuple((float(i), 0.0) for i in range(n))]))
            D = np.sqrt(((pts[:, None] - pts[None]) ** 2).sum(-1))
            par = ck.choose("parameter", [0.5, 0.9] if what == "power" else [0.5, 1.0, 2.0])
            fun, ref = {"power": (cu.get_spatialpower_corr, par ** D), "exp": (cu.get_spatialexp_corr, np.exp(-D / par)),
                        "gaussian": (cu.get_spatialgaussian_corr, np.exp(-(D / par) ** 2))}[what]
            R = ck.call(what, fun, par, D)
            ck.close(what, R, ref, 1e-13)
            if n > 1:
                ck.close(what + "/condensed", ck.call(what, fun, par, sp.spatial.distance.squareform(D, checks=False)), ref, 1e-13)
            corr_ok(ck, what, R, n)
        elif what == "toeplitz":
            rho = np.array([ck.choose(f"rho{i}", vals if n < 6 else vals[:2]) for i in range(n - 1)])
            R = ck.call(what, cu.get_toeplitz_corr, rho)
            ck.close(what, R, np.r_[1.0, rho][d], 1e-14)
        else:
            eta = ck.choose("eta", [1.0, 5.0])
            seed = ck.choose("seed", [1, 2])
            R = ck.call(what, cu.get_lkj_corr, n, eta, dict(seed=seed))
            corr_ok(ck, what, R, n)
            ck.eq("lkj/seed", R, cu.get_lkj_corr(n, eta, dict(seed=seed)))
            kw = dict(seed=seed, n=3)
            ck.eq("lkj/several", cu.get_lkj_corr(n, eta, kw).shape, (3, 1, n, n))
            ck.eq("lkj/kws", kw, dict(seed=seed, n=3))

    def eigen(ck):
        n = ck.choose("n", [2, 3, 5])
        pe, a, b, c = ck.choose("p_eff", [0.3, 1.0]), ck.choose("a", [0.5, 1.0]), ck.choose("b", [0.1, 1.0]), ck.choose("c", [0.0, 0.5, 1.0])
        u = ck.call("eigvals", cu.get_eigvals, n, pe, a, b, c)
        x = np.arange(n) / (n * pe)
        ck.close("eigvals", u, ((1 - c) * np.exp(-a * x * x) + c * np.exp(-b * x)) ** 2, 1e-13)
        keep = u.copy()
        R = ck.call("eig_corr", cu.get_eig_corr, u, rng=np.random.default_rng(1))
        ck.eq("eig_corr/input", u, keep)
        corr_ok(ck, "eig_corr", R, n)
        ck.close("eig_corr/spectrum", np.linalg.eigvalsh(R), np.sort(u / u.sum() * n), 1e-8)

    def canvar(ck):
        p, q = ck.choose("shape", [(1, 1), (1, 3), (2, 2), (2, 3), (3, 4)])
        r = np.array(ck.choose("r", [(0.9, 0.5, 0.2), (0.4, 0.3, 0.0)]))[:p]
        Sxx, Syy = cu.get_ar1_corr(p, 0.5), cu.get_exchangeable_corr(q, 0.3)
        how = ck.choose("vectors", ["none", "given"])
        if how == "none":
            S = ck.call("canvar", cu.get_canvar_corr, Sxx, Syy, r)
        else:       # directions orthogonal in the two metrics, of arbitrary length
            Vx = np.linalg.inv(np.linalg.cholesky(Sxx)).T * np.arange(1, p + 1)
            Vy = (np.linalg.inv(np.linalg.cholesky(Syy)).T * np.arange(2, q + 2))[:, :p]
            S = ck.call("canvar", cu.get_canvar_corr, Sxx, Syy, r, Vx, Vy)
        ck.close("canvar/blocks", S[:p, :p], Sxx, 1e-12)
        ck.close("canvar/blocks", S[p:, p:], Syy, 1e-12)
        M = np.linalg.solve(np.linalg.cholesky(Sxx), S[:p, p:]) @ np.linalg.inv(np.linalg.cholesky(Syy)).T
        ck.close("canvar/correlations", np.linalg.svd(M, compute_uv=False)[:p], np.sort(r)[::-1], 1e-9)
        corr_ok(ck, "canvar", S, p + q)

    # ---------------------------------------------------------------- nearest
    def higham(A, unit, iters=4000):
        X, D = A.copy(), np.zeros_like(A)
        for _ in range(iters):
            Rk = X - D
            w, Q = np.linalg.eigh(Rk)
            Y = (Q * np.maximum(w, 0)) @ Q.T
            D = Y - Rk
            Xn = Y.copy()
            if unit is not None:
                Xn[np.diag_indices_from(Xn)] = unit
            if np.abs(Xn - X).max() < 1e-13:
                X = Xn
                break
            X = Xn
        return X

    def nearest(ck):
        n = ck.choose("n", [2, 3] + ([4] if big else []))
        vals = [-0.9, -0.2, 0.6, 0.95]
        m = n * (n - 1) // 2
        v = ck.choose("off diagonal", list(itertools.product(vals if m < 6 else [-0.9, 0.6, 0.95], repeat=m)))
        A = np.eye(n)
        A[np.triu_indices(n, 1)] = v
        A = A + A.T - np.eye(n)
        mode = ck.choose("diagonal", ["unit", "keep", "free"])
        sym = ck.flag("symmetrize")
        if mode != "unit":
            s = np.array([1.5, 0.5, 1.0, 2.0])[:n]
            A = A * np.outer(s, s)
        keep = A.copy()
        kw = dict(unit_diag=mode == "unit", keep_diag=mode == "keep", symmetrize=sym)
        X, info = ck.call("near_psd", cu.near_psd, A, n_iters=2000, tol=1e-10, return_info=True, **kw)
        ck.eq("near/input", A, keep)
        ck.eq("near/same", cu.near_psd(A, n_iters=2000, tol=1e-10, **kw), X)
        ck.close("near/symmetric", X, X.T, 1e-12)
        w = np.linalg.eigvalsh(X)
        ck.expect("near/psd", w.min() > -1e-5, str(w))
        if mode != "free":
            ck.close("near/diagonal", np.diag(X), np.diag(A), 1e-12)
        if np.linalg.eigvalsh(A).min() > 1e-6:
            ck.close("near/fixed-point", X, A, 1e-9)
            ck.outcome("already admissible")
        else:
            ck.outcome("projected")
            ref = higham(A, None if mode == "free" else np.diag(A).copy())
            ck.expect("near/distance", np.linalg.norm(X - A) <= np.linalg.norm(ref - A) + 1e-4, f"{np.linalg.norm(X - A)} {np.linalg.norm(ref - A)}")
            ck.close("near/nearest", X, ref, 5e-4)
        P = ck.call("project", cu.project_psd, A)
        wa, Q = np.linalg.eigh(A)
        ck.close("project", P, (Q * np.maximum(wa, 1e-9)) @ Q.T, 1e-10)
        ck.close("project/inverse", cu.project_psd(A, use_transpose=False), P, 1e-8)
        ck.eq("project/input", A, keep)
        Xp = ck.call("plain", cu.near_psd, A, n_iters=2000, dykstra=False, unit_diag=mode == "unit", keep_diag=mode == "keep")
        ck.expect("plain/psd", np.linalg.eigvalsh(Xp).min() > -1e-4)

    def exact(ck):
        n, p = ck.choose("shape", [(3, 1), (4, 2), (6, 2), (6, 3)])
        k = ck.choose("data", range(4))
        X = np.cos(np.arange(n * p) ** 2 * (k + 1.3) + np.arange(n * p)).reshape(n, p) * (k + 1) + k
        mean = ck.choose("mean", [None, np.arange(p) - 0.5])
        cov = ck.choose("cov", [None, np.eye(p) * 2 + 0.5, 0.6 ** abs(np.subtract.outer(np.arange(p), np.arange(p)))])
        keep = X.copy()
        C = np.eye(p) if cov is None else cov
        Z = ck.call("exact_cov", cu._exact_cov, X, mean, cov)
        ck.eq("exact/input", X, keep)
        ck.close("exact/cov", np.cov(Z.T, bias=True).reshape(p, p), C, 1e-9)
        Xc = X - X.mean(0)
        Zc = cu._exact_cov(Xc, mean, cov)
        ck.close("exact/mean", Zc.mean(0), np.zeros(p) if mean is None else mean, 1e-9)
        W = ck.call("whiten", cu._whiten, X)
        ck.close("whiten", np.cov(W.T, bias=True).reshape(p, p), np.eye(p), 1e-9)
        L = cu._svd_cov_transform(C)
        ck.close("svd", L @ L.T, C, 1e-12)

    # ------------------------------------------------------ sampling covariances
    def acov(ck):
        p = ck.choose("p", [1, 2, 3] + ([4] if big else []))
        vals = [-0.4, 0.3, 0.7]
        m = p * (p - 1) // 2
        v = ck.choose("correlations", list(itertools.product(vals if m < 4 else [-0.2, 0.3], repeat=m)))
        R = np.eye(p)
        R[np.triu_indices(p, 1)] = v
        R = R + R.T - np.eye(p)
        ck.require(np.linalg.eigvalsh(R).min() > 1e-3)
        s = np.array(ck.choose("scales", [(1.0, 1.0, 1.0, 1.0), (0.5, 3.0, 1.0, 2.0)]))[:p]
        S = R * np.outer(s, s)
        keep = S.copy()
        kurt = ck.choose("kurtosis", [None, 1.0, 1.7, "each"])
        idx = [(i, j) for j in range(p) for i in range(j, p)]       # vech order
        k = np.ones(p) if kurt is None else (np.array([1.0, 2.0, 0.8, 1.4])[:p] if kurt == "each" else np.full(p, float(kurt)))
        a = 0.5 * (np.sqrt(k)[:, None] + np.sqrt(k)[None])
        four = lambda i, j, h, l: (a[i, j] * a[h, l] * S[i, j] * S[h, l] + a[i, h] * a[j, l] * S[i, h] * S[j, l] + a[i, l] * a[j, h] * S[i, l] * S[j, h])
        want = np.array([[four(i, j, h, l) - S[i, j] * S[h, l] for h, l in idx] for i, j in idx])
        V = ck.call("cov_sample_cov", cu.cov_sample_cov, S=S, kurt=None if kurt is None else k)
        ck.close("sample_cov", V, want, 1e-10)
        V = ck.call("cov_sample_cov/excess", cu.cov_sample_cov, S=S, excess_kurt=3 * k - 3)
        ck.close("sample_cov/excess", V, want, 1e-10)
        ck.eq("input", S, keep)
        if kurt == "each":
            return
        kk = 1.0 if kurt is None else float(kurt)

        def olkin(i, j, h, l):
            r = R
            return (0.5 * r[i, j] * r[h, l] * (r[i, h] ** 2 + r[i, l] ** 2 + r[j, h] ** 2 + r[j, l] ** 2) + r[i, h] * r[j, l] + r[i, l] * r[j, h]
                    - (r[i, j] * r[i, h] * r[i, l] + r[j, i] * r[j, h] * r[j, l] + r[h, i] * r[h, j] * r[h, l] + r[l, i] * r[l, j] * r[l, h]))
        full = [(i, j) for j in range(p) for i in range(p)]         # vec order
        ref = np.array([[olkin(i, j, h, l) for h, l in full] for i, j in full])
        if kk == 1.0:
            ck.close("acov/neudecker", ck.call("neudecker", cu.corr_acov_neudecker, S), ref, 1e-10)
        off = [(i, j) for j in range(p) for i in range(j + 1, p)]   # vecl order
        B = np.asarray(ck.call("browne", cu.corr_acov_browne, S, kk))
        if B.shape[0] == len(off):
            refb = np.array([[olkin(i, j, h, l) for h, l in off] for i, j in off]).reshape(len(off), len(off))
        else:
            refb = ref
        ck.close("acov/browne", B, kk * refb, 1e-10)
        ck.eq("input", S, keep)

    def kurtosis(ck):
        n = ck.choose("n", [3, 4])
        x = np.array(ck.choose("x", list(itertools.product([0.0, 1.0, 3.0], repeat=n))))
        y = np.arange(n, dtype=float) ** 2
        ck.require(np.ptp(x) > 0)
        X = np.stack([x, y], 1)
        want = np.array([np.mean((c - c.mean()) ** 4) / np.mean((c - c.mean()) ** 2) ** 2 / 3 for c in X.T])
        ck.close("kurtosis", ck.call("kurtosis", cu.multivar_marginal_kurtosis, X), want, 1e-12)
        S = np.cov(X.T)
        ck.close("kurtosis/data", ck.call("data", cu.cov_sample_cov, X=X), cu.cov_sample_cov(S=S, kurt=want), 1e-12)
        ck.close("kurtosis/given", cu.cov_sample_cov(X=X, kurt=np.ones(2)), cu.cov_sample_cov(S=S, kurt=np.ones(2)), 1e-12)

    # ------------------------------------------------------ numerical derivatives
    def weights(ck):
        m = ck.choose("points", [2, 3, 4, 5])
        grid = [-2, -1, 0, 1, 3]
        pts = ck.choose("stencil", list(itertools.permutations(grid, m)) if m < 4 else list(itertools.combinations(grid, m)))
        order = ck.choose("order", range(0, m))
        x0 = ck.choose("x0", [0, 1, 0.5])
        # exact weights from the moment equations
        A = [[fractions.Fraction(q) - fractions.Fraction(x0) for q in pts]]
        M = np.array([[float((fractions.Fraction(q) - fractions.Fraction(x0)) ** i) for q in pts] for i in range(m)])
        b = np.zeros(m)
        b[order] = math.factorial(order)
        want = np.linalg.solve(M, b)
        W = ck.call("fornberg", nd.fd_coefs, np.array(pts, float), x0, order)
        ck.close("fornberg", W, want, 1e-9)
        allw = nd.fd_coefs(np.array(pts, float), x0, order, last_col=False)
        for o in range(order + 1):
            b = np.zeros(m)
            b[o] = math.factorial(o)
            ck.close("fornberg/lower-orders", allw[:, o], np.linalg.solve(M, b), 1e-9)
        if x0 == 0:
            ck.close("moment", ck.call("moment", nd.fd_coefficients, pts, order), want, 1e-9)
            if order:
                poly = np.polynomial.Polynomial([0.5, -1.0, 2.0, 0.3, -0.7][:m])
                got = nd.fd_derivative(poly, 0.4, 1e-2, order, np.array(pts))
                ck.close("fd_derivative/exact", got, poly.deriv(order)(0.4), 1e-4)

    # vector functions with known first and second derivatives; f accepts complex input
    class Fn:
        def __init__(self, n, quad, smooth):
            rng = np.arange(1, n + 1)
            self.c = np.array([0.5, -1.5, 2.0])[:n]
            self.Q = np.array(quad, float)[:n, :n]
            self.Q = self.Q + self.Q.T
            self.s = smooth * np.array([0.7, -0.4, 0.9])[:n]
            self.w = 0.3 * rng

        def f(self, x, k=1.0):
            x = np.asarray(x)
            return k * (1.0 + self.c @ x + 0.5 * x @ self.Q @ x + np.sum(self.s * np.exp(self.w * x)) + (self.s.sum() * np.sin(x.sum()) if self.s.any() else 0.0))

        def g(self, x, k=1.0):
            x = np.asarray(x)
            return k * (self.c + self.Q @ x + self.s * self.w * np.exp(self.w * x) + self.s.sum() * np.cos(x.sum()))

        def h(self, x, k=1.0):
            x = np.asarray(x)
            return k * (self.Q + np.diag(self.s * self.w ** 2 * np.exp(self.w * x)) - self.s.sum() * np.sin(x.sum()))

    POINTS = [(0.0, 0.0, 0.0), (0.3, -1.2, 2.0), (1.0, 0.0, -0.5), (-30.0, 0.02, 5.0)]
    IPOINTS = [(0, 0, 0), (1, -2, 3)]

    def derivatives(ck):
        n = ck.choose("n", [1, 2, 3])
        ent = [-1.0, 0.0, 2.0]
        q = ck.choose("quadratic", list(itertools.product(ent, repeat=n)))
        Q = np.outer(q, np.ones(n)) + np.diag(q)
        smooth = ck.choose("smooth", [0.0, 1.0])
        F = Fn(n, Q, smooth)
        pt = ck.choose("point", range(len(POINTS) + len(IPOINTS)))
        k = ck.choose("args", [1.0, -2.5])
        integer = pt >= len(POINTS)
        x = np.array((POINTS + IPOINTS)[pt])[:n]
        ck.require(not (smooth and abs(x).max() > 10))
        keep = x.copy()
        a = (k,)
        g, H = F.g(x, k), F.h(x, k)
        size = 1 + abs(F.f(x, k)) + abs(g).max() + abs(H).max()
        t = lambda key, got, want, tol: ck.close(key, got, want, tol, scale=size * (1 + abs(x).max()))
        t("fo_fc_fd", ck.call("fo_fc_fd", nd.fo_fc_fd, F.f, x, args=a), g, 2e-5)
        t("fo_fc_cd", ck.call("fo_fc_cd", nd.fo_fc_cd, F.f, x, args=a), g, 1e-8)
        t("fo_fc_cs", ck.call("fo_fc_cs", nd.fo_fc_cs, F.f, x, args=a), g, 1e-9)
        t("so_fc_fd", ck.call("so_fc_fd", nd.so_fc_fd, F.f, x, 1e-4, a), H, 1e-3)
        t("so_fc_cd", ck.call("so_fc_cd", nd.so_fc_cd, F.f, x, 1e-3, a), H, 1e-6)
        t("so_gc_fd", ck.call("so_gc_fd", nd.so_gc_fd, F.g, x, args=a), H, 2e-5)
        t("so_gc_cd", ck.call("so_gc_cd", nd.so_gc_cd, F.g, x, args=a), H, 1e-8)
        t("grad_approx", ck.call("grad_approx", nd.grad_approx, lambda v: F.f(v, k), x.astype(float), 1e-2, None, 1e-2)[0], g, 1e-8)
        if not smooth or not integer:
            t("hess_cs", ck.call("hess_cs", nd.hess_cs, lambda v: F.f(v, k), x), H, 1e-6)
        # Jacobians of (f, gradient)
        both = lambda v, k=1.0: np.concatenate([[F.f(v, k)], F.g(v, k)])
        J = np.vstack([g, H])
        t("jac_cs", ck.call("jac_cs", nd.jac_cs, both, x, args=a), J, 1e-9)
        for nm in ("jac_approx", "jac_approx3", "jac_approx4"):
            t(nm, ck.call(nm, getattr(nd, nm), both, x, args=a), J, 1e-6)
            t(nm + "/scalar", ck.call(nm, getattr(nd, nm), F.f, x, args=a), g[None], 1e-6)
        t("jac_approx2", ck.call("jac_approx2", nd.jac_approx2, lambda v: both(v, k), x.astype(float), 1e-2, None, 1e-2)[0].T, J, 1e-8)
        t("hess_approx", ck.call("hess_approx", nd.hess_approx, F.f, x, 1e-3, None, 1e-3, a), H[None], 1e-4)
        t("hess_approx2", ck.call("hess_approx2", nd.hess_approx2, lambda v: np.atleast_1d(F.f(v, k)), x.astype(float), 1e-2, 1e-2), H[None], 1e-6)
        t("hess_approx2/vector", ck.call("hess_approx2", nd.hess_approx2, both, x.astype(float), 1e-2, 1e-2)[0], Fn(n, Q, smooth).h(x), 1e-6)
        if n > 1:
            mask = np.zeros(n + 1, bool)
            mask[0] = True
            Jm = ck.call("jac_approx/mask", nd.jac_approx, both, x, args=a, mask=mask)
            t("jac_approx/mask", Jm, np.where(mask[:, None], J, 0.0), 1e-6)
            hm = np.triu(np.ones((n, n), bool))[None]
            Hm = ck.call("hess_approx/mask", nd.hess_approx, F.f, x, 1e-3, None, 1e-3, a, False, hm)
            t("hess_approx/mask", Hm, np.where(hm, H[None], 0.0), 1e-4)
        ck.eq("point", x, keep, "the point was overwritten")

    def matrices(ck):
        n, m = ck.choose("shape", [(1, 2), (2, 2), (2, 3)])
        A = np.array(ck.choose("A", list(itertools.product([-1.0, 0.5, 2.0], repeat=n * m)) if n * m < 6 else list(itertools.product([-1.0, 2.0], repeat=6)))).reshape(n, m)
        B = np.cos(np.arange(9.0)).reshape(3, 3)[:m, :m]
        f = lambda X: X @ B @ X.T
        want = np.zeros((n, n, n, m))
        for i, j in np.ndindex(n, m):
            E = np.zeros((n, m))
            E[i, j] = 1
            want[..., i, j] = E @ B @ A.T + A @ B @ E.T
        for nm in ("jac_approx", "jac_approx3", "jac_approx4"):
            ck.close(nm, ck.call(nm, getattr(nd, nm), f, A), want, 1e-6)

    def onedim(ck):
        name = ck.choose("f", ["exp", "sin", "poly"])
        order = ck.choose("order", [1, 2, 3, 4])
        x = np.array(ck.choose("x", [(0.0,), (0.5, -1.0), (2.0, 0.1, -0.3)]))
        f = {"exp": lambda v: np.exp(0.5 * v), "sin": np.sin, "poly": lambda v: v ** 5 - 2 * v ** 2 + v}[name]
        d = {"exp": 0.5 ** order * np.exp(0.5 * x), "sin": np.sin(x + order * np.pi / 2), "poly": np.polynomial.Polynomial([0, 1, -2, 0, 0, 1]).deriv(order)(x)}[name]
        ck.close("finite_diff", ck.call("finite_diff", nd.finite_diff, f, x, order), d, 1e-6)
        ck.close("fd_derivative", ck.call("fd_derivative", nd.fd_derivative, f, x, 0.05, order), d, 1e-5)

    for nm, f in [("builders", builders), ("eigen", eigen), ("canvar", canvar), ("nearest", nearest), ("exact", exact), ("acov", acov), ("kurtosis", kurtosis),
                  ("weights", weights), ("derivatives", derivatives), ("matrices", matrices), ("onedim", onedim)]:
        rep.explore(nm, f)
