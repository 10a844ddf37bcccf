"""C19: factor rotation and identification: criteria, manifolds, solvers,
constraints, alignment."""
import itertools

import numpy as np

from mc.lib import numdiff

KAPPA = {"varimax": lambda p, m: 1 / p, "quartimax": lambda p, m: 0.0, "equamax": lambda p, m: m / (2 * p), "parsimax": lambda p, m: (m - 1) / (p + m - 2)}


def cf(L, kappa):
    """Crawford-Ferguson complexity, gradient and Hessian (vec order), written out"""
    p, m = L.shape
    B = L * L
    row = B.sum(1, keepdims=True) - B
    col = B.sum(0, keepdims=True) - B
    W = (1 - kappa) * row + kappa * col
    H = np.zeros((p * m, p * m))
    for (i, j), (k, l) in itertools.product(itertools.product(range(p), range(m)), repeat=2):
        h = 0.0
        if (i, j) == (k, l):
            h = W[i, j]
        elif i == k:
            h = 2 * (1 - kappa) * L[i, j] * L[k, l]
        elif j == l:
            h = 2 * kappa * L[i, j] * L[k, l]
        H[i + p * j, k + p * l] = h
    return 0.25 * (B * W).sum(), L * W, H


def simple(p, m):
    L = np.zeros((p, m))
    for i in range(p):
        L[i, i % m] = 0.9 - 0.08 * (i // m) + 0.03 * (i % m)
    return L


def plane(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def vecF(X):
    return np.asarray(X).reshape(-1, order="F")


def tril_of(X):
    m = X.shape[0]
    return np.array([X[i, j] for j in range(m) for i in range(j + 1, m)])


def is_so(ck, key, T, tol=1e-9):
    ck.close(key, T.T @ T, np.eye(len(T)), tol)
    ck.expect(key + "-det", np.linalg.det(T) > 0, "determinant is not one")


def run(rep, tier):
    from pystatsm.pyfa2 import cayley, alignment, solvers
    from pystatsm.pyfa2.layout import ParamLayout
    from pystatsm.pyfa2.criterion import GCFCriterion, TargetCriterion
    from pystatsm.pyfa2.rotation import OrthoRotation, ObliqueRotation
    from pystatsm.pyfa2.identification import RotationIdentification, CanonicalIdentification
    big = tier == "thorough"
    rep.assumptions += ["rotations in Cayley coordinates have no eigenvalue -1", "oblique stationarity is decided from starting values where the descent converges"]

    def layout(ck):
        p, m = ck.choose("p", [1, 2, 3, 4, 5]), ck.choose("m", [1, 2, 3, 4])
        lay = ParamLayout(p, m)
        ns = m * (m - 1) // 2
        ck.eq("sizes", (lay.nl, lay.ns, lay.nr, lay.nt), (p * m, ns, p, p * m + ns + p))
        ck.eq("blocks", np.concatenate([lay.ixl, lay.ixs, lay.ixr]), np.arange(lay.nt))
        th = np.arange(1.0, lay.nt + 1)
        L, Phi, psi = lay.unpack(th)
        ck.eq("loadings", L, th[:p * m].reshape(m, p).T)
        ck.eq("uniquenesses", psi, th[p * m + ns:])
        ck.eq("correlations", tril_of(Phi), th[p * m:p * m + ns])
        ck.eq("symmetric", Phi, Phi.T)
        ck.eq("unit-diagonal", np.diag(Phi), np.ones(m))
        ck.eq("pack", lay.pack(L, Phi, psi), th)
        ck.eq("pack-diag", lay.pack(L, Phi, np.diag(psi)), th)
        L[:] = -1
        Phi[:] = -1
        psi[:] = -1
        ck.eq("no-aliasing", th, np.arange(1.0, lay.nt + 1))

    rep.explore("layout", layout)

    def rotations(ck):
        m = ck.choose("m", [1, 2, 3] + ([4] if big else []))
        grid = [-2.0, -0.5, 0.0, 0.5, 1.0, 3.0] if m < 4 else [-1.0, 0.0, 0.5]
        th = np.array([ck.choose(f"theta{i}", grid) for i in range(m * (m - 1) // 2)])
        S = np.zeros((m, m))
        for k, (i, j) in enumerate((i, j) for j in range(m) for i in range(j + 1, m)):
            S[i, j], S[j, i] = th[k], -th[k]
        Q = cayley.vec_to_rot(th, m)
        ck.close("cayley", Q, (np.eye(m) - S) @ np.linalg.inv(np.eye(m) + S), 1e-12)
        is_so(ck, "rotation", Q)
        ck.eq("skew", cayley.vec_to_skew(th, m), S)
        ck.eq("skew-vec", cayley.skew_to_vec(S), th)
        ck.close("round-trip", cayley.rot_to_vec(Q), th, 1e-9)
        stack = np.array([[th, 2 * th, -th], [0 * th, th, th + 1]])
        QS = cayley.vec_to_rot(stack, m)
        ck.eq("stack-shape", QS.shape, (2, 3, m, m))
        for i in np.ndindex(2, 3):
            ck.close("stack", QS[i], cayley.vec_to_rot(stack[i], m), 1e-12)
        ck.close("inverse-rotation", cayley.vec_to_rot(-th, m), Q.T, 1e-12)
        R = OrthoRotation(m)
        ck.close("unconstrained", R.unconstrained_to_rotation(th), Q, 1e-14)
        ck.close("back", R.rotation_to_unconstrained(Q), th, 1e-9)
        ck.eq("dim", (R.constraint_dim, R.n_constraints(), ObliqueRotation(m).n_constraints()), (len(th), len(th), m * (m - 1)))
        if len(th):
            H = ck.rng("H").normal(size=(m, m))
            want = numdiff.grad(lambda t: np.sum(H * cayley.vec_to_rot(t, m)), th, 1e-3)
            ck.close("gradient", R.d_rotation(th, H), want, 1e-7)

    rep.explore("rotations", rotations)

    def gcf(ck):
        method = ck.choose("criterion", list(KAPPA))
        p, m = ck.choose("shape", [(3, 2), (2, 3), (1, 2), (4, 1)] + ([(4, 2), (3, 3)] if big else []))
        vals = [-1.0, 0.0, 2.0] if p * m <= 6 else [-1.0, 0.5]
        L = np.array([ck.choose(f"l{i}", vals) for i in range(p * m)]).reshape(p, m)
        C = GCFCriterion(method, p, m)
        q, g, H = cf(L, KAPPA[method](p, m))
        Lin = L.copy(order=ck.choose("order", ["C", "F"]) if p * m < 6 else "F")
        ck.close("Q", C.Q(Lin), q, 1e-12, f"{method} L={L.tolist()}")
        ck.close("dQ", C.dQ(Lin), g, 1e-12, f"{method} L={L.tolist()}")
        ck.close("d2Q", C.d2Q(Lin), H, 1e-12, f"{method} L={L.tolist()}")
        Y = ck.rng("Y", p, m).normal(size=(p * m, 3))
        ck.close("d2Q-apply", C.d2Q_apply(Lin, Y), H @ Y, 1e-12)
        ck.close("d2Q-apply-vector", C.d2Q_apply(Lin, Y[:, 0]), H @ Y[:, 0], 1e-12)
        ck.eq("input", Lin, L)

    rep.explore("gcf", gcf)

    def target(ck):
        p, m = 2, 2
        H = np.array([ck.choose(f"h{i}", [-1.0, 0.0, 0.5]) for i in range(4)]).reshape(2, 2)
        kind = ck.choose("weights", ["none", "mask", "general"])
        W = {"none": None, "mask": np.array([[1.0, 0], [0, 1]]), "general": np.array([[0.5, 3.0], [0.0, 2.0]])}[kind]
        L = np.array([[0.3, -1.2], [0.0, 2.0]])
        C = TargetCriterion(H, W)
        w = np.ones((2, 2)) if W is None else W
        ck.close("Q", C.Q(L), 0.5 * sum(w[i, j] * (L[i, j] - H[i, j]) ** 2 for i in range(2) for j in range(2)), 1e-12)
        ck.close("dQ", C.dQ(L), w * (L - H), 1e-12)
        ck.close("d2Q", C.d2Q(L), np.diag(vecF(w)), 1e-12)
        Y = ck.rng("Y").normal(size=(4, 3))
        ck.close("d2Q-apply", C.d2Q_apply(L, Y), np.diag(vecF(w)) @ Y, 1e-12)
        ck.close("d2Q-apply-vector", C.d2Q_apply(L, Y[:, 1]), vecF(w) * Y[:, 1], 1e-12)
        ck.eq("sizes", (C.p, C.m), (2, 2))

    rep.explore("target", target)

    def crit_of(ck, p, m):
        name = ck.choose("criterion", list(KAPPA) + ["target"])
        if name == "target":
            r = ck.rng("target", p, m)
            return TargetCriterion(r.normal(size=(p, m)), r.integers(0, 3, (p, m)) * 0.7)
        return GCFCriterion(name, p, m)

    def manifolds(ck):
        """tangent projections, retractions, gradients, stationarity conditions and their Jacobians"""
        oblique = ck.flag("oblique")
        p, m = ck.choose("shape", [(3, 1), (3, 2), (5, 3), (2, 2)] + ([(6, 4), (2, 3)] if big else []))
        crit = crit_of(ck, p, m)
        case = ck.choose("case", range(6 if big else 3))
        r = ck.rng("man", p, m, case)
        A = r.normal(size=(p, m))
        R = (ObliqueRotation if oblique else OrthoRotation)(m)
        X = 0.4 * r.normal(size=(m, m)) + np.eye(m)
        T = R.constraint_retract(X.copy())
        if oblique:
            ck.close("retract", T, X / np.linalg.norm(X, axis=0), 1e-12)
            ck.close("corr", R.implied_corr(T), T.T @ T, 1e-12)
            ck.close("rotate", R.rotated_loadings(A, T) @ T.T, A, 1e-10)
        else:
            is_so(ck, "retract", T)
            if np.linalg.det(X) > 0:
                S = T.T @ X
                ck.close("polar", S, S.T, 1e-9)
                ck.expect("polar-psd", np.linalg.eigvalsh(S).min() > -1e-9)
            ck.close("corr", R.implied_corr(T), np.eye(m), 1e-12)
            ck.close("rotate", R.rotated_loadings(A, T), A @ T, 1e-12)
            for k in range(12):    # no rotation is closer
                B = cayley.vec_to_rot(r.normal(size=m * (m - 1) // 2), m)
                ck.expect("closest", np.trace(B.T @ X) <= np.trace(T.T @ X) + 1e-9, "a closer rotation exists")
        ck.close("retract-again", R.constraint_retract(T.copy()), T, 1e-9)
        G = R.grad(A, T, crit.dQ(R.rotated_loadings(A, T)))
        want = numdiff.grad(lambda t: crit.Q(R.rotated_loadings(A, t.reshape(m, m))), T.reshape(-1), 1e-4).reshape(m, m)
        ck.close("gradient", G, want, 1e-6)
        Gp = R.constraint_project(T, G)
        M = T.T @ Gp
        ck.close("tangent", np.diag(M) if oblique else M + M.T, np.zeros(m if oblique else (m, m)), 1e-9)
        N = T * r.normal(size=m) if oblique else T @ (lambda z: z + z.T)(r.normal(size=(m, m)))
        ck.close("normal-removed", R.constraint_project(T, N), np.zeros((m, m)), 1e-9)
        ck.close("tangent-kept", R.constraint_project(T, Gp), Gp, 1e-9)
        L, Phi = R.rotated_loadings(A, T), R.implied_corr(T)
        C = R.constraint(L, Phi, crit)
        g = crit.dQ(L)
        if oblique:
            K = L.T @ g @ np.linalg.inv(Phi)
            want = np.array([K[i, j] for j in range(m) for i in range(m) if i != j])
        else:
            K = L.T @ g
            want = tril_of(K - K.T)
        ck.close("constraint", C, want, 1e-9)
        ck.close("constraint-zero-iff-stationary", float(np.linalg.norm(C) < 1e-9), float(np.linalg.norm(Gp) < 1e-9 * 10))
        dL, dP = R.d_constraint(L, Phi, crit)
        ck.eq("jacobian-shape", (np.shape(dL), np.shape(dP)), ((len(want), p * m), (len(want), m * (m - 1) // 2)))
        if m > 1:
            def unL(v):
                return v.reshape(m, p).T
            ck.close("jacobian-L", dL, numdiff.jac(lambda v: R.constraint(unL(v), Phi, crit), vecF(L), 1e-4), 1e-6)

            def unP(v):
                F = np.eye(m)
                for k, (i, j) in enumerate((i, j) for j in range(m) for i in range(j + 1, m)):
                    F[i, j] = F[j, i] = v[k]
                return F
            ck.close("jacobian-Phi", dP, numdiff.jac(lambda v: R.constraint(L, unP(v), crit), tril_of(Phi), 1e-4) if oblique else np.zeros(np.shape(dP)), 1e-6)
        if not oblique and m > 1:
            th = r.normal(size=m * (m - 1) // 2)
            f, df = solvers.CayleySolver(crit, R)._fg(th, A)
            ck.close("cayley-value", f, crit.Q(A @ cayley.vec_to_rot(th, m)), 1e-12)
            ck.close("cayley-gradient", df, numdiff.grad(lambda t: crit.Q(A @ cayley.vec_to_rot(t, m)), th, 1e-4), 1e-6)

    rep.explore("manifolds", manifolds)

    def descent(ck, info, f0, trace_key="trace"):
        h = np.array([a for a, _ in info[trace_key]])
        ck.expect("monotone", np.all(np.diff(h) <= 0), "the criterion rose along the iterations")
        ck.close("first-value", h[0], f0, 1e-9)
        ck.close("last-value", h[-1], info["f"], 1e-9)
        ck.eq("iterations", info["n_iter"], len(h))

    def planes(ck):
        """two orthogonal factors: the criterion is a + b cos(4t + c) in the angle, so descent from
        anywhere but its maxima finds the global minimum"""
        p = ck.choose("p", [4, 5, 6])
        name = ck.choose("criterion", list(KAPPA) + ["target"])
        shape = ck.choose("loadings", ["simple", "cross", "generic", "signed"])
        start = ck.choose("start", [None, -1.2, 0.35, 1.4])
        turn = ck.choose("turn", [0.3, 0.7, -1.0, 2.3] if big else [0.3, -1.0])
        via = ck.choose("solver", ["gpa", "cayley", "gpa-ident"])
        L0 = simple(p, 2)
        if shape == "cross":
            L0[0, 1], L0[-1, 0] = 0.4, -0.5
        elif shape == "generic":
            L0 = ck.rng("L", p).normal(size=(p, 2))
        elif shape == "signed":
            L0[:, 1] *= -1
            L0[1] *= -1
        A = L0 @ plane(turn)
        if name == "target":
            r = ck.rng("H", p)
            H = L0 + 0.1 * r.normal(size=L0.shape)
            crit = TargetCriterion(H)
            U, _, V = np.linalg.svd(A.T @ H)
            D = np.diag([1.0, np.sign(np.linalg.det(U @ V))])
            best = crit.Q(A @ U @ D @ V)
            lim = max(crit.Q(A @ plane(t)) for t in np.linspace(0, 2 * np.pi, 721))
        else:
            crit = GCFCriterion(name, p, 2)
            k = KAPPA[name](p, 2)
            q0, q1, q2, q3 = (cf(A @ plane(t), k)[0] for t in (0, np.pi / 8, np.pi / 4, 3 * np.pi / 8))
            amp = np.hypot((q0 - q2) / 2, (q1 - q3) / 2)
            best, lim = (q0 + q2) / 2 - amp, (q0 + q2) / 2 + amp
        T0 = None if start is None else plane(start)
        f0 = crit.Q(A @ (np.eye(2) if T0 is None else T0))
        own = f0 if name == "target" else cf(A @ (np.eye(2) if T0 is None else T0), k)[0]
        ck.close("start-value", f0, own, 1e-10)
        if lim - own < 1e-3 * (lim - best) or lim - best < 1e-6:
            return ck.outcome("start at a maximum")
        A0 = A.copy()
        if via == "cayley":
            T, info = solvers.CayleySolver(crit, OrthoRotation(2), options=dict(gtol=1e-10)).solve(A, T0=T0)
            ck.close("reported", info["f"], crit.Q(A @ T), 1e-10)
        elif via == "gpa":
            T, info = solvers.GPA(crit, OrthoRotation(2)).solve(A, T0=T0)
            T2, _ = solvers.gpa(crit, OrthoRotation(2), A, T0=T0)
            ck.eq("function-form", T2, T)
        else:
            F = RotationIdentification(OrthoRotation(2), crit, tol=1e-8).fit(A, T0=T0)
            T, info = F["T"], F["info"]
            ck.close("loadings", F["L"], A @ T, 1e-10)
            ck.close("phi", F["Phi"], np.eye(2), 1e-12)
        is_so(ck, "rotation", T)
        if via != "cayley":
            descent(ck, info, f0)
        ck.close("global-minimum", crit.Q(A @ T), best, 1e-6, f"{name} {shape} start={start} turn={turn} {via}", scale=lim - best)
        if shape == "simple" and name in ("quartimax",):
            L = A @ T
            ck.close("simple-structure", np.sort(np.abs(L), axis=1), np.sort(np.abs(L0), axis=1), 1e-3)
        ck.eq("input", A, A0)

    rep.explore("planes", planes)

    def solve(ck):
        """descent in three dimensions and over correlated factors: from every start the solver goes
        downhill to a stationary point on the manifold"""
        oblique = ck.flag("oblique")
        m = ck.choose("m", [1, 2, 3])
        p = 3 * m
        crit = crit_of(ck, p, m)
        shape = ck.choose("loadings", ["simple", "noisy"])
        start = ck.choose("start", [None] + [list(s) for s in itertools.permutations(range(m))][:6 if big else 3])
        r = ck.rng("solve", m)
        L0 = simple(p, m)
        if shape == "noisy":
            L0 = L0 + 0.1 * r.normal(size=L0.shape)
        Phi0 = np.array([[0.3 ** abs(i - j) for j in range(m)] for i in range(m)]) if oblique else np.eye(m)
        A = L0 @ np.linalg.cholesky(Phi0) @ cayley.vec_to_rot(0.2 + 0.1 * np.arange(m * (m - 1) // 2), m)
        if isinstance(crit, TargetCriterion):
            crit = TargetCriterion(L0 + 0.02, (np.abs(L0) < 0.3) * 1.0 if oblique else None)
        R = (ObliqueRotation if oblique else OrthoRotation)(m)
        T0 = None
        if start is not None:
            T0 = np.eye(m)[:, start]
            if np.linalg.det(T0) < 0:
                T0[:, 0] *= -1
            T0 = R.constraint_retract(T0 @ cayley.vec_to_rot(np.full(m * (m - 1) // 2, 0.15), m))
        ident = RotationIdentification(R, crit, tol=1e-7, n_iters=4000)
        F = ident.fit(A, T0=T0)
        L, Phi, T, info = F["L"], F["Phi"], F["T"], F["info"]
        descent(ck, info, crit.Q(R.rotated_loadings(A, np.eye(m) if T0 is None else T0)))
        ck.close("value", info["f"], crit.Q(L), 1e-10)
        ck.close("reproduces", L @ Phi @ L.T, A @ A.T, 1e-7)
        ck.close("phi-unit", np.diag(Phi), np.ones(m), 1e-9)
        if not oblique:
            is_so(ck, "rotation", T)
        th = ident.layout.pack(L, Phi, np.ones(p))
        big_phi = m > 1 and np.abs(Phi - np.eye(m)).max() > 0.95
        if big_phi:
            return ck.outcome("factor collapse")
        ck.close("stationary", ident.constraint(th), np.zeros(ident.n_constraints()), 1e-4, f"{shape} {start}")
        ck.outcome(("converged", info["grad_norm"] < 1e-7))
        if not oblique and isinstance(crit, TargetCriterion):
            U, _, V = np.linalg.svd(A.T @ crit.H)
            D = np.eye(m)
            D[-1, -1] = np.sign(np.linalg.det(U @ V))
            ck.close("procrustes", crit.Q(L), crit.Q(A @ U @ D @ V), 1e-6)

    rep.explore("solve", solve)

    def identification(ck):
        kind = ck.choose("identification", ["canonical", "ortho", "oblique"])
        p, m = ck.choose("p", [2, 4, 5]), ck.choose("m", [1, 2, 3])
        ck.require(m <= p)
        r = ck.rng("ident", p, m)
        A = r.normal(size=(p, m))
        psi = r.uniform(0.3, 2.0, p)
        ns = m * (m - 1) // 2
        if kind == "canonical":
            I = CanonicalIdentification(p, m)
            given = ck.choose("uniquenesses", ["vector", "none"])
            F = I.fit(A, psi if given == "vector" else None)
            w = psi if given == "vector" else np.ones(p)
            L, Phi, T = F["L"], F["Phi"], F["T"]
            M = L.T @ (L / w[:, None])
            ck.close("diagonal", M - np.diag(np.diag(M)), np.zeros((m, m)), 1e-9)
            ck.expect("descending", np.all(np.diff(np.diag(M)) <= 1e-9))
            ck.close("eigenvalues", F["info"]["eigvals"], np.diag(M), 1e-9)
            ck.close("reproduces", L @ L.T, A @ A.T, 1e-9)
            ck.close("rotates", A @ T, L, 1e-12)
            ck.close("orthogonal", T.T @ T, np.eye(m), 1e-10)
            ck.eq("phi", Phi, np.eye(m))
            th = I.layout.pack(L, Phi, w)
            ck.close("constraint-at-fit", I.constraint(th), np.zeros(ns), 1e-9)
        else:
            crit = crit_of(ck, p, m)
            I = RotationIdentification((OrthoRotation if kind == "ortho" else ObliqueRotation)(m), crit, **(dict(solver="cayley") if ck.flag("cayley") and kind == "ortho" else {}))
        lay = ParamLayout(p, m)
        ck.eq("n-constraints", I.n_constraints(), m * (m - 1) if kind == "oblique" else ns)
        mask = I.free_mask()
        want = np.ones(lay.nt, bool)
        if kind != "oblique":
            want[lay.ixs] = False
        ck.eq("free", mask, want)
        ck.eq("identified-dimension", mask.sum() - I.n_constraints(), p * m + p - ns)
        L = r.normal(size=(p, m))
        B = 0.4 * r.normal(size=(m, m)) + np.eye(m)
        Phi = np.corrcoef(B @ B.T) if m > 1 else np.eye(1)
        Phi = (B @ B.T) / np.sqrt(np.outer(np.diag(B @ B.T), np.diag(B @ B.T)))
        if kind != "oblique":
            Phi = np.eye(m)
        th = lay.pack(L, Phi, psi)
        c = I.constraint(th)
        J = I.d_constraint(th)
        ck.eq("shape", (np.shape(c), np.shape(J)), ((I.n_constraints(),), (I.n_constraints(), lay.nt)))
        if kind == "canonical":
            M = L.T @ (L / psi[:, None])
            ck.close("constraint", c, tril_of(M), 1e-10)
        if m > 1:
            num = numdiff.jac(I.constraint, th, 1e-4)
            if kind == "ortho":
                num = np.where(mask, num, 0)
            ck.close("jacobian", J, num, 1e-5)
        ck.eq("theta-untouched", th, lay.pack(L, Phi, psi))
        try:
            RotationIdentification(OrthoRotation(m), GCFCriterion("varimax", p, m), solver="other")
            ck.fail("solver-name", "an unknown solver was accepted")
        except ValueError:
            pass

    rep.explore("identification", identification)

    def align_all(ck):
        """every signed permutation of up to four factors"""
        m = ck.choose("m", [1, 2, 3] + ([4] if big else []))
        perm = list(ck.choose("permutation", list(itertools.permutations(range(m)))))
        signs = np.array([ck.choose(f"sign {i}", [1.0, -1.0]) for i in range(m)])
        noise = ck.choose("noise", [0.0, 0.05])
        normalize = ck.flag("normalize")
        scaled = ck.flag("scaled")
        r = ck.rng("align", m)
        p = 3 * m
        Lt = simple(p, m) + 0.05 * r.normal(size=(p, m))
        B = np.eye(m) + 0.3 * r.normal(size=(m, m))
        Phit = B @ B.T / np.sqrt(np.outer(np.diag(B @ B.T), np.diag(B @ B.T)))
        L = (Lt[:, perm] * signs) * (np.arange(1, m + 1) ** 2 if scaled and normalize else 1.0) + noise * r.normal(size=(p, m))
        Phi = Phit[np.ix_(perm, perm)] * np.outer(signs, signs)
        se, pse = np.abs(Lt[:, perm]) + 1, np.abs(Phit[np.ix_(perm, perm)]) + 2
        j, s = alignment.align(L, Lt, normalize=normalize)
        ck.eq("permutation", np.asarray(perm)[j], np.arange(m))
        ck.eq("signs", s, signs[j])
        out = alignment.align_model(L, Lt, Phi=Phi, L_se=se, Phi_se=pse, normalize=normalize)
        ck.close("phi", out["Phi"], Phit, 1e-12)
        ck.close("loadings", out["L"], L[:, j] * signs[j], 1e-12)
        ck.close("model", out["L"] @ out["Phi"] @ out["L"].T, L @ Phi @ L.T, 1e-10)
        ck.close("se", out["L_se"], np.abs(Lt) + 1, 1e-12)
        ck.close("phi-se", out["Phi_se"], np.abs(Phit) + 2, 1e-12)
        if noise == 0 and not scaled:
            ck.close("recovered", out["L"], Lt, 1e-12)
        ck.eq("optional", sorted(alignment.align_model(L, Lt)), ["L", "perm", "signs"])

    rep.explore("align-all", align_all)

    def assignment(ck):
        """every pair of small integer loading matrices: the matching is optimal and one-to-one"""
        m = 2
        vals = [-2.0, 0.0, 1.0]
        Lt = np.array([ck.choose(f"t{i}", vals) for i in range(4)]).reshape(2, 2)
        Le = np.array([ck.choose(f"e{i}", vals) for i in range(4)]).reshape(2, 2)
        for normalize in (False, True):
            j, s = alignment.align(Le, Lt, normalize=normalize)
            ck.eq("bijection", sorted(j), [0, 1])
            ck.expect("signs", np.all(np.abs(s) == 1))
            M = np.abs(Lt.T @ Le)
            if normalize:
                M = M / (np.outer(np.linalg.norm(Lt, axis=0), np.linalg.norm(Le, axis=0)) + 1e-30)
            best = max(M[0, 0] + M[1, 1], M[0, 1] + M[1, 0])
            ck.close("optimal", M[0, j[0]] + M[1, j[1]], best, 1e-12)
            inner = np.sum(Lt * (Le[:, j] * s), axis=0)
            ck.expect("non-negative", np.all(inner >= 0), f"{Lt.tolist()} {Le.tolist()}")

    rep.explore("assignment", assignment)
