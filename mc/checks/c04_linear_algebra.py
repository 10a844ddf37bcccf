"""C04: half-vectorisation round trips, incremental factor updates under every
add/remove history, the sparse Cholesky handle under every refactor/query
history, and the small dense solvers all agree with textbook dense algebra."""
import itertools

import numpy as np
import scipy.linalg as sl
import scipy.sparse as ss


def vec(X):
    return X.reshape(-1, order="F")


def vech(X):
    n = X.shape[0]
    return np.array([X[i, j] for j in range(n) for i in range(j, n)])


def vecl(X):
    n = X.shape[0]
    return np.array([X[i, j] for j in range(n) for i in range(j + 1, n)])


def fd(f, x, h=1e-6):
    x = np.asarray(x, float)
    return np.stack([(np.asarray(f(x + h * e)) - np.asarray(f(x - h * e))) / (2 * h) for e in np.eye(len(x))], -1)


def run(rep, tier):
    from pystatsm.utilities import linalg_operations as lo
    big = tier == "thorough"
    I2 = np.eye(2)
    rep.warm(lambda: (lo.vech(I2), lo.invech(np.ones(3)), lo.vecl(I2), lo.invecl(np.ones(1)), lo._vech_nb(I2)))
    rep.warm(lambda: (lo.chol_downdate(np.eye(3), 1), lo.chol_downdate(np.eye(5)[:3, :3], 1), lo.toeplitz_cholesky_lower_nb(3, np.eye(3)), lo.ar1_chol(3, .5),
                      lo.solve_vander(np.arange(3.), np.ones(3)), lo._inv_vander(np.arange(3.))))

    def half(ck):
        n = ck.choose("n", range(1, 9 if big else 7))
        rng = ck.rng()
        X = rng.normal(size=(n, n))
        order = ck.choose("memory", ["C", "F", "strided"])
        X = {"C": X, "F": np.asfortranarray(X), "strided": np.repeat(np.repeat(X, 2, 0), 2, 1)[::2, ::2]}[order]
        S = X + X.T
        R = S.copy()
        np.fill_diagonal(R, 1)
        h, l = vech(X), vecl(X)
        ck.eq("vec", lo.vec(X), vec(X))
        ck.eq("vec/inv", lo.invec(vec(X), n, n), X)
        ck.eq("vech", lo.vech(X), h)
        ck.eq("vech/nb", lo._vech_nb(X), h)
        ck.eq("vech/stk", lo._vech(X), h)
        ck.eq("vech/inv", lo.invech(vech(S)), S)
        ck.eq("vech/inv-stk", lo._invech(vech(S)), S)
        ck.eq("vech/chol", lo.invech_chol(h), np.tril(X))
        ck.eq("vecl", lo.vecl(X), l)
        ck.eq("vecl/stk", lo._vecl(X), l)
        ck.eq("vecl/lower", lo.lower_half_vec(X), l)
        if n > 1:
            ck.eq("vecl/inv", lo.invecl(vecl(R)), R)
            ck.eq("vecl/invlower", lo.inv_lower_half_vec(l), np.tril(X, -1))
        ck.eq("vdg", lo.vdg(X), np.diag(vec(X)))
        ck.eq("mask/tril", vec(X)[lo._vec_tril_mask(n)], l)
        ck.eq("mask/ndg", lo._vec_ndg(X), vec(X)[~np.eye(n, dtype=bool).reshape(-1, order="F")])
        # stacks
        shp = ck.choose("stack", [(2,), (2, 3)])
        Y = rng.normal(size=shp + (n, n))
        for idx in np.ndindex(*shp):
            ck.eq("stk/vech", lo._vech(Y)[idx], vech(Y[idx]))
            ck.eq("stk/vecl", lo._vecl(Y)[idx], vecl(Y[idx]))
            Z = lo._invech(lo._vech(Y))[idx]
            ck.eq("stk/invech", Z, np.tril(Y[idx]) + np.tril(Y[idx], -1).T)
            if n > 1:
                ck.eq("stk/invl", lo.inv_lower_half_vec(lo.lower_half_vec(Y))[idx], np.tril(Y[idx], -1))
        ck.eq("rect", lo.invec(np.arange(n * 3.), n, 3), np.arange(n * 3.).reshape(n, 3, order="F"))
    rep.explore("half-vectorisation", half)

    # ---- Cholesky factor maintained under every add/delete history ----------
    P, DEPTH = (5, 7) if big else (4, 6)
    base = np.random.default_rng(5).normal(size=(P + 3, P))
    GRAM = base.T @ base

    def history(ck):
        L = np.full((P, P), 0.0)
        act = []
        for t in range(DEPTH):
            ops = [("add", v) for v in range(P) if v not in act]
            if not ck.labels and P == 5:
                ops = ops[:2]
            ops += [("del", k) for k in range(len(act))]
            op, k = ck.choose("op", ops)
            if op == "add":
                act.append(k)
                m = len(act)
                lo.add_chol_row(GRAM[np.ix_(act, act)], L[:m, :m], m - 1)
            else:
                m = len(act)
                lo.chol_downdate(L[:m, :m], k)
                act.pop(k)
                m -= 1
            m = len(act)
            W = L[:m, :m]
            ck.close("factor", W @ W.T, GRAM[np.ix_(act, act)], 1e-10, msg=f"active {act}")
            ck.expect("lower", np.allclose(np.triu(W, 1), 0, atol=1e-10) and np.all(np.diag(W) > 0), f"{W}")
            if m:
                ck.close("cholesky", W, np.linalg.cholesky(GRAM[np.ix_(act, act)]), 1e-9)
            ck.outcome(tuple(act))
    rep.explore("factor-updates", history)

    # ---- sparse Cholesky handle: refactor / query histories --------------------
    n = 4
    offd = [(i, j) for i in range(n) for j in range(i)]

    def handle(ck):
        pat = ck.choose("pattern", range(2 ** len(offd)))
        A0 = np.zeros((n, n))
        for k, (i, j) in enumerate(offd):
            if pat >> k & 1:
                A0[i, j] = A0[j, i] = 1
        rng = ck.rng(pat)
        mats = []
        for _ in range(2):
            W = A0 * rng.uniform(-1, 1, (n, n))
            W = np.tril(W, -1)
            W = W + W.T + np.diag(4 + rng.uniform(0, 2, n))
            mats.append(W)

        def sp_(M):
            full = ss.csc_matrix(A0 + np.eye(n))
            full.sort_indices()
            full.data = np.array([M[i, j] for j in range(n) for i in full.indices[full.indptr[j]:full.indptr[j + 1]]])
            return full
        via = ck.choose("built by", ["cholesky", "analyze", "cholesky_AAt"])
        if via == "cholesky_AAt":
            X = np.tril(A0) + np.eye(n)
            X = X * rng.uniform(.5, 1.5, X.shape)
            f = lo.cholesky_AAt(ss.csc_matrix(X))
            beta = 0.0
            cur = X @ X.T
        elif via == "analyze":
            f = lo.analyze(sp_(mats[0]))
            f = f.cholesky_inplace(sp_(mats[0]))
            cur = mats[0]
        else:
            beta = ck.choose("beta", [0, 1.5])
            f = lo.cholesky(sp_(mats[0]), beta=beta)
            cur = mats[0] + beta * np.eye(n)
        b = rng.normal(size=(n, 2))

        def perm():
            p = np.asarray(f.P())
            ck.eq("perm", np.sort(p), np.arange(n))
            return p

        def q_L():
            p = perm()
            L = f.L().toarray()
            ck.close("L", L @ L.T, cur[np.ix_(p, p)], 1e-10)
            ck.expect("L/lower", np.allclose(np.triu(L, 1), 0))

        def q_D():
            p = perm()
            L = np.linalg.cholesky(cur[np.ix_(p, p)])
            ck.close("D", np.asarray(f.D()).ravel(), np.diag(L) ** 2, 1e-10)

        def q_solve():
            ck.close("solve_A", f.solve_A(b), np.linalg.solve(cur, b), 1e-9)
            ck.close("solve_A/1d", f.solve_A(b[:, 0]), np.linalg.solve(cur, b[:, 0]), 1e-9)
            S = f.solve_A(ss.csc_matrix(b))
            ck.close("solve_A/sparse", S.toarray(), np.linalg.solve(cur, b), 1e-9)

        def q_tri():
            p = perm()
            L = np.linalg.cholesky(cur[np.ix_(p, p)])
            ck.close("solve_L", f.solve_L(f.apply_P(b), use_LDLt_decomposition=False), np.linalg.solve(L, b[p]), 1e-9)
            y = f.apply_Pt(np.asarray(f.solve_Lt(np.linalg.solve(L, b[p]), use_LDLt_decomposition=False)))
            ck.close("solve_Lt", y, np.linalg.solve(cur, b), 1e-9)
            y = f.solve_L(ss.csc_matrix(b[p]), use_LDLt_decomposition=False)
            ck.close("solve_L/sparse", y.toarray(), np.linalg.solve(L, b[p]), 1e-9)

        def q_ldl():
            p = perm()
            L = np.linalg.cholesky(cur[np.ix_(p, p)])
            U = L / np.diag(L)
            if hasattr(f, "_ensure_ldl"):
                ck.close("solve_L/ldl", f.solve_L(b, use_LDLt_decomposition=True), np.linalg.solve(U, b), 1e-9)
                ck.close("solve_Lt/ldl", f.solve_Lt(b, use_LDLt_decomposition=True), np.linalg.solve(U.T, b), 1e-9)

        def q_det():
            s, d = f.slogdet()
            ck.close("slogdet", [s, d], np.linalg.slogdet(cur), 1e-10)

        def q_inv():
            ck.close("inv", f.inv().toarray() if ss.issparse(f.inv()) else f.inv(), np.linalg.inv(cur), 1e-9)

        def q_perm():
            p = perm()
            ck.eq("apply_P", f.apply_P(b), b[p])
            ck.eq("apply_Pt", f.apply_Pt(f.apply_P(b)), b)

        queries = dict(L=q_L, D=q_D, solve=q_solve, tri=q_tri, ldl=q_ldl, det=q_det, inv=q_inv, perm=q_perm)
        depth = 3 if big or pat in (0, 63, 11, 38) else 2
        for t in range(depth):
            op = ck.choose("op", list(queries) + (["refactor"] if via != "cholesky_AAt" and t < depth - 1 else []))
            if op == "refactor":
                cur = mats[1] if np.array_equal(cur, mats[0]) else mats[0]
                if via == "cholesky" and beta:
                    raise_if = None
                    f.cholesky_inplace(sp_(cur))
                    # the handle refactors with or without its diagonal shift; find out once, then hold it to that
                    g = f.solve_A(b)
                    cand = [cur, cur + beta * np.eye(n)]
                    good = [c for c in cand if np.allclose(g, np.linalg.solve(c, b), atol=1e-9)]
                    ck.expect("refactor/beta", len(good) == 1, "refactored handle solves neither system")
                    if not good:
                        return
                    base_ = cur
                    cur = good[0]
                    for q in queries.values():
                        q()
                    cur = base_
                    return
                f.cholesky_inplace(sp_(cur))
            else:
                queries[op]()
        for q in queries.values():
            q()
    rep.explore("factor-handle", handle)

    def special(ck):
        n = ck.choose("n", range(1, 9 if big else 7))
        what = ck.choose("what", ["toeplitz", "ar1", "vander", "gb_diag", "sqrt", "project", "dmat_exp", "lhv"])
        rng = ck.rng()
        if what == "toeplitz":
            for rho in (-0.6, 0.0, 0.3, 0.9):
                T = sl.toeplitz(rho ** np.arange(n))
                ck.close("toeplitz", lo.toeplitz_cholesky_lower_nb(n, T), np.linalg.cholesky(T), 1e-10)
            c = np.r_[1.0, 0.4 / np.arange(1, n)]
            T = sl.toeplitz(c)
            ck.close("toeplitz/gen", lo.toeplitz_cholesky_lower_nb(n, T), np.linalg.cholesky(T), 1e-10)
        elif what == "ar1":
            ck.require(n >= 2)
            for rho in (-0.9, -0.5, 0.2, 0.5, 0.95):
                T = sl.toeplitz(rho ** np.arange(n))
                ck.close("ar1", lo.ar1_chol(n, rho), np.linalg.cholesky(T), 1e-10)
        elif what == "vander":
            ck.require(n <= 6)
            a = np.sort(rng.uniform(-2, 2, n)) + np.arange(n)
            b = rng.normal(size=n)
            V = np.vander(a, increasing=True)
            x = lo.solve_vander(a, b.copy())
            ck.close("vander", V.T @ x, b, 1e-7)
        elif what == "gb_diag":
            for shp in itertools.product([(1, 1), (2, 1), (1, 3), (2, 2)], repeat=min(n, 3)):
                M = [rng.normal(size=s) for s in shp]
                ck.eq("gb_diag", lo.gb_diag(*M), sl.block_diag(*M))
        elif what == "sqrt":
            X = rng.normal(size=(n + 2, n))
            S = X.T @ X
            r = lo.mat_sqrt(S)
            ck.close("mat_sqrt", r @ r, S, 1e-9)
            ck.close("mat_sqrt/sym", r, r.T, 1e-9)
            q = lo.inv_sqrt(S)
            ck.close("inv_sqrt", q @ S @ q, np.eye(n), 1e-7)
            u, V = lo.eighs(S)
            ck.expect("eighs/order", np.all(np.diff(u) <= 1e-12))
            ck.close("eighs", (V * u) @ V.T, S, 1e-9)
        elif what == "project":
            A = rng.normal(size=(n + 2, n))
            Pm = lo.cproject(A)
            ck.close("cproject", [Pm @ Pm - Pm, Pm - Pm.T], np.zeros((2,) + Pm.shape), 1e-9)
            ck.close("cproject/A", Pm @ A, A, 1e-9)
            w = rng.uniform(.5, 2, n + 2)
            B = rng.normal(size=(n + 2, n))
            W = rng.normal(size=(n, n))
            ck.close("wcrossp", lo.wcrossp(A, w), A.T @ np.diag(w) @ A, 1e-12)
            ck.close("wdcrossp", lo.wdcrossp(A, w, B), A.T @ np.diag(w) @ B, 1e-12)
            ck.close("dop", lo.diag_outer_prod(A, B), np.diag(A @ B.T), 1e-12)
            ck.close("wdop", lo.wdiag_outer_prod(A, W, B), np.diag(A @ W @ B.T), 1e-12)
            ck.close("spm", lo._sparse_post_mult(A, ss.csc_matrix(W)), A @ W, 1e-12)
        elif what == "dmat_exp":
            ck.require(n <= 4)
            A = rng.normal(size=(n, n))
            A = (A + A.T) / 2
            J = lo.dmat_exp(A)
            want = np.stack([vec(sl.expm_frechet(A, E.reshape(n, n, order="F"), compute_expm=False)) for E in np.eye(n * n)], -1)
            ck.close("dmat_exp", J, want, 1e-9)
        else:
            ck.require(2 <= n <= 5)
            T = lo.LHV(n)
            m = n * (n - 1) // 2
            x = rng.normal(size=m)
            y = T._fwd(x)
            L = np.zeros((n, n))
            L[np.triu_indices(n, 1)[::-1]] = x
            norms = np.sqrt(1 + (L ** 2).sum(1))
            ck.close("lhv/fwd", y, vecl(L / norms[:, None]), 1e-12)
            ck.close("lhv/norms", lo.lhv_row_norms(x), norms, 1e-12)
            ck.close("lhv/rvs", T._rvs(y), x, 1e-10)
            ck.close("lhv/jac", T._jac_fwd(x), fd(T._fwd, x), 1e-7)
            ck.close("lhv/hess", T._hess_fwd(x), np.moveaxis(fd(T._jac_fwd, x), -1, 0), 1e-6)
            ck.close("lhv/jacr", T._jac_rvs(y), fd(T._rvs, y), 1e-5)
            ck.close("lhv/hessr", T._hess_rvs(y), np.moveaxis(fd(T._jac_rvs, y), -1, 0), 1e-5)
    rep.explore("special-matrices", special)

    def wls(ck):
        n, p = ck.choose("n", [3, 4, 6]), ck.choose("p", [1, 2, 3])
        sign = ck.choose("weight signs", list(itertools.product([1, -1, 0], repeat=n)) if n <= 4 else [(1,) * n, (1, 0) * 3])
        rng = ck.rng(n, p)
        X, y = rng.normal(size=(n, p)), rng.normal(size=n)
        w = rng.uniform(.5, 2, n) * np.array(sign)
        if sum(v != 0 for v in sign) < p:
            return
        H = X.T @ (w[:, None] * X)
        if np.linalg.cond(H) > 1e5:
            return
        want = np.linalg.solve(H, X.T @ (w * y))
        if min(sign) >= 0:
            ck.close("wls_qr", lo.wls_qr(X, y, w), want, 1e-8)
            ck.close("wls_chol", lo.wls_chol(X, y, w), want, 1e-8)
        if True:
            ck.close("nwls", lo.nwls(X, y, w), want, 1e-6)
        if sign == (1,) * n:
            ck.close("lsqr", lo.lsqr(X, y), np.linalg.lstsq(X, y, rcond=None)[0], 1e-8)
    rep.explore("least-squares", wls)
