"""C03: structured 0/1 matrices do what they are named for, and every way of
applying them (index form, sparse form, stacked form) gives the same result."""
import itertools

import numpy as np
import scipy.sparse as ss


def vec(X):
    return X.reshape(-1, order="F")


def vech(X):
    n = X.shape[0]
    return np.array([X[i, j] for j in range(n) for i in range(j, n)])


def D_(n):
    h = n * (n + 1) // 2
    D = np.zeros((n * n, h))
    k = 0
    for j in range(n):
        for i in range(j, n):
            D[j * n + i, k] = D[i * n + j, k] = 1
            k += 1
    return D


def K_(m, n):
    K = np.zeros((m * n, m * n))
    for i in range(m):
        for j in range(n):
            K[i * n + j, j * m + i] = 1
    return K


def L_(n):
    h = n * (n + 1) // 2
    L = np.zeros((h, n * n))
    k = 0
    for j in range(n):
        for i in range(j, n):
            L[k, j * n + i] = 1
            k += 1
    return L


def dn(x):
    return x.toarray() if ss.issparse(x) else np.asarray(x)


def run(rep, tier):
    from pystatsm.utilities import special_mats as sm
    big = tier == "thorough"
    N = 8 if big else 5

    def comm(ck):
        m, n = ck.choose("m", range(1, N + 1)), ck.choose("n", range(1, N + 1))
        K = K_(m, n)
        ck.eq("kmat", dn(sm.kmat(m, n)), K)
        ck.eq("comm_mat", dn(sm.comm_mat(m, n)), K)
        c = ck.choose("cols", [None, 1, 3])
        A = ck.rng("A").normal(size=(m * n,) if c is None else (m * n, c))
        ck.close("apply1", sm.apply_kmat1(A, m, n), K @ A, 1e-14)
        ck.close("apply2", sm.apply_kmat2(A, m, n), K @ A, 1e-14)
        ck.close("apply2K", sm.apply_kmat2(A, m, n, ss.csc_matrix(K)), K @ A, 1e-14)
        cm = sm.CommutationMatrix(m, n)
        ck.close("class", cm.apply(A), K @ A, 1e-14)
        ck.close("class/alt", cm.apply_alt(A), K @ A, 1e-14)
        X = ck.rng("X").normal(size=(m, n))
        ck.eq("vec", cm.apply(vec(X)), vec(X.T))
    rep.warm(lambda: (sm.kmat(2, 2), sm.lmat(2), sm.dmat(2)))
    rep.explore("commutation", comm)

    def dup(ck):
        n = ck.choose("n", range(1, N + 1))
        D, L, K, h, I = D_(n), L_(n), K_(n, n), n * (n + 1) // 2, np.eye(n * n)
        Dp = np.linalg.pinv(D)
        rng = ck.rng()
        what = ck.choose("what", ["defs", "dup", "dup-stack", "elim", "dp", "pattern", "mats", "two-sizes"])
        if what == "defs":
            ck.eq("dmat", dn(sm.dmat(n)), D)
            ck.eq("lmat", dn(sm.lmat(n)), L)
            ck.eq("elim_mat", dn(sm.elim_mat(n)), L)
            ck.close("dpmat", dn(sm.dpmat(n)), Dp, 1e-12)
            ck.eq("nmat", dn(sm.nmat(n)), I + K)
            S = rng.normal(size=(n, n))
            S = S + S.T
            ck.close("dmat/S", sm.dmat(n) @ vech(S), vec(S), 1e-14)
            ck.close("dpmat/S", sm.dpmat(n) @ vec(S), vech(S), 1e-14)
        elif what == "dup":
            c = ck.choose("cols", [1, 2, n * n])
            pre, post = ck.flag("pre"), ck.flag("post")
            A = rng.normal(size=(n * n, n * n if post else c))
            if not pre:
                A = rng.normal(size=(c, n * n if post else c))
            want = (D.T @ A if pre else A)
            want = want @ D if post else want
            for key, f in (("apply_dmat1", sm.apply_dmat1), ("apply_dmat3", sm.apply_dmat3)):
                ck.close(key, f(A.copy(), n, pre_mult=pre, post_mult=post), want, 1e-13)
            il = [j * n + i for j in range(n) for i in range(j, n)]
            jl = [i * n + j for j in range(n) for i in range(j, n)]
            eq = [k for k in range(h) if il[k] == jl[k]]
            for key, f in (("apply_dmat1/ix", sm.apply_dmat1), ("apply_dmat3/ix", sm.apply_dmat3)):
                ck.close(key, f(A.copy(), n, np.array(il), np.array(jl), np.array(eq), pre, post), want, 1e-13)
            dm = sm.DuplicationMatrix(n)
            keep = A.copy()
            ck.close("class", dm.apply(A, pre, post), want, 1e-13)
            ck.eq("class/input", A, keep)
            if pre and not post:
                ck.close("class/pre", dm.apply_pre(A), want, 1e-13)
                ck.close("apply_dmat2_pre", sm.apply_dmat2_pre(A, n), want, 1e-13)
                B = rng.normal(size=(h, c))
                ck.close("class/preN", dm.apply_pre(B, transpose=False), D @ B, 1e-13)
                ck.close("apply_dmat2_preN", sm.apply_dmat2_pre(B, n, transpose=False), D @ B, 1e-13)
            if post and not pre:
                ck.close("class/post", dm.apply_post(A), (D.T @ A.T).T, 1e-13)
            if pre and post:
                ck.close("apply_dmat2_pre_post", sm.apply_dmat2_pre_post(A, n, n), want, 1e-13)
                if n > 1:
                    ck.close("apply_dmat2_pre_post/infer", sm.apply_dmat2_pre_post(A), want, 1e-13)
        elif what == "dup-stack":
            k = ck.choose("stack", [(1,), (3,), (2, 2)])
            A = rng.normal(size=k + (n * n, n * n))
            got = sm.apply_dmat3(A, n, pre_mult=True, post_mult=True)
            ck.close("stack", got, np.einsum("ai,...ab,bj->...ij", D, A, D), 1e-13)
        elif what == "elim":
            c = ck.choose("cols", [1, 2, n * n])
            A = rng.normal(size=(n * n, c))
            em = sm.EliminationMatrix(n)
            for key, v in (("apply_lmat1", sm.apply_lmat1(A, n)), ("apply_lmat2", sm.apply_lmat2(A, n)),
                           ("apply_lmat1/infer", sm.apply_lmat1(A)), ("class", em.apply(A)), ("class/alt", em.apply_alt(A)),
                           ("class/app", em.app(A))):
                ck.close(key, v, L @ A, 1e-14)
            for key, v in (("post1", sm.apply_lmat_post1(A.T, n)), ("class/post", em.apply_post(A.T)),
                           ("class/app-post", em.app(A.T, pre=False, post=True))):
                ck.close(key, v, A.T @ L.T, 1e-14)
            if c == n * n:
                ck.close("prepost", sm.apply_lmat_pre_post1(A, n), L @ A @ L.T, 1e-14)
                ck.close("class/app-both", em.app(A, True, True), L @ A @ L.T, 1e-14)
        elif what == "dp":
            pre, post = ck.flag("pre"), ck.flag("post")
            A = rng.normal(size=(n * n, n * n))
            want = (Dp @ A if pre else A)
            want = want @ Dp.T if post else want
            ck.close("DpMatrix", sm.DpMatrix(n).apply(A, pre, post), want, 1e-13)
        elif what == "pattern":
            Ns = (I + K) / 2
            ck.close("s", dn(sm.pattern_mat_s(n)), Ns, 1e-14)
            Md = np.zeros((n * n, n * n))
            for i in range(n):
                Md[i * (n + 1), i * (n + 1)] = 1
            ck.close("d", dn(sm.pattern_mat_d(n)), Md, 1e-14)
            ck.close("c", dn(sm.pattern_mat_c(n)), Ns - Md, 1e-14)
            Kd = np.zeros((n * n, n))
            for i in range(n):
                Kd[i * (n + 1), i] = 1
            ck.close("k", dn(sm.pattern_mat_k(n)), Kd, 1e-14)
            for k in range(1, n + 3):
                for o in range(0, min(k, 4)):
                    ck.eq("difference", sm.difference_mat(k, o), np.diff(np.eye(k), n=o, axis=0))
        elif what == "mats":
            if n > 4:
                return
            for key, f in (("make_mats", sm.make_mats), ("make_mats2", sm.make_mats2)):
                LN, I1, Lm, D2 = f(n)
                ck.close(key + "/LN", dn(LN), L @ (I + K), 1e-13)
                ck.close(key + "/L", dn(Lm), L, 1e-14)
                ck.close(key + "/I", dn(I1), np.eye(n), 1e-14)
                # second derivative of vech(M M') w.r.t. the lower triangle of M
                I_n = np.eye(n)
                W = np.kron(L, L @ (I + K)) @ np.kron(np.kron(I_n, K), I_n) @ np.kron(np.eye(n * n), vec(I_n)[:, None]) @ L.T
                ck.close(key + "/D2", dn(D2), W, 1e-13)
                M = np.tril(rng.normal(size=(n, n)))
                T = dn(D2).reshape(h, h, h)          # [b, a, c]: d2 S_a / dM_b dM_c
                f0 = lambda v: vech((lambda Z: Z @ Z.T)(np.tril(np.array(_unvech(v, n)))))
                E = np.eye(h)
                for b, c_ in itertools.combinations_with_replacement(range(h), 2):
                    d2 = f0(E[b] + E[c_]) - f0(E[b]) - f0(E[c_])    # exact: quadratic map
                    ck.close(key + "/D2-derivative", T[b, :, c_], d2, 1e-12)
        else:
            m = ck.choose("m", range(1, N + 1))
            A = rng.normal(size=(n * n, m * m))
            Dm = D_(m)
            ck.close("two", sm.apply_dmat2_pre_post(A, n, m), D.T @ A @ Dm, 1e-13)
            ck.close("two/nt", sm.apply_dmat2_pre_post(D.T @ A, n, m, t1=False), D @ D.T @ A @ Dm, 1e-12)
    rep.explore("duplication", dup)

    def kv(ck):
        n, p, q, r = (ck.choose(k, range(1, 4)) for k in ("n", "p", "q", "r"))
        A, B = ck.rng("A").normal(size=(n, p)), ck.rng("B").normal(size=(q, r))
        M = dn(sm.kronvec_mat((n, p), (q, r)))
        ck.close("kronvec", M @ np.kron(vec(A), vec(B)), vec(np.kron(A, B)), 1e-13)
    rep.explore("kronvec", kv)


def _unvech(v, n):
    M = np.zeros((n, n))
    k = 0
    for j in range(n):
        for i in range(j, n):
            M[i, j] = v[k]
            k += 1
    return M
