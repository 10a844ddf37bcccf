"""C20: maximum-likelihood factor analysis: likelihood, fits, standard errors,
simulation."""
import itertools

import numpy as np

from mc.lib import numdiff


def tril_of(X):
    m = X.shape[0]
    return np.array([X[i, j] for j in range(m) for i in range(j + 1, m)])


def vech_pairs(p):
    return [(i, j) for j in range(p) for i in range(j, p)]


def pieces(th, p, m):
    L = th[:p * m].reshape(m, p).T
    Phi = np.eye(m)
    for k, (i, j) in enumerate((i, j) for j in range(m) for i in range(j + 1, m)):
        Phi[i, j] = Phi[j, i] = th[p * m + k]
    return L, Phi, th[p * m + m * (m - 1) // 2:]


def implied(th, p, m):
    L, Phi, psi = pieces(th, p, m)
    return L @ Phi @ L.T + np.diag(psi)


def corr(r, m):
    B = 0.4 * r.normal(size=(m, m)) + np.eye(m)
    C = B @ B.T
    return C / np.sqrt(np.outer(np.diag(C), np.diag(C)))


def cluster(p, m, cross=0.0):
    L = np.zeros((p, m))
    for i in range(p):
        L[i, i % m] = 0.9 - 0.07 * (i // m) + 0.04 * (i % m)
        L[i, (i + 1) % m] += cross * (m > 1)
    return L


def run(rep, tier):
    from pystatsm.pyfa2.likelihood import MLEstimator
    from pystatsm.pyfa2.layout import ParamLayout
    from pystatsm.pyfa2 import inference as inf, simulation as sim, sim_factor_model as sfm
    from pystatsm.pyfa2.alignment import align
    from pystatsm.pyfa2.criterion import GCFCriterion, TargetCriterion
    from pystatsm.pyfa2.rotation import OrthoRotation, ObliqueRotation
    from pystatsm.pyfa2.identification import RotationIdentification, CanonicalIdentification
    big = tier == "thorough"
    rep.assumptions += ["covariance matrices are positive definite", "concentrated likelihood: distinct eigenvalues", "fits whose uniquenesses stay positive (no Heywood case)"]
    SHAPES = [(2, 1), (4, 2), (5, 3)] + ([(6, 2), (7, 3), (3, 3)] if big else [(3, 1)])

    def setup(ck, kinds=("identity", "correlated")):
        p, m = ck.choose("shape", SHAPES)
        kind = ck.choose("factor correlations", kinds)
        case = ck.choose("case", range(4 if big else 2))
        r = ck.rng("ml", p, m, case)
        L = r.normal(size=(p, m))
        Phi = corr(r, m) if kind == "correlated" else np.eye(m)
        psi = r.uniform(0.3, 2.0, p)
        th = np.concatenate([L.T.ravel(), tril_of(Phi), psi])
        Z = r.normal(size=(p, p + 3))
        S = Z @ Z.T / (p + 3) + 0.2 * np.eye(p)
        return p, m, r, th, S

    def likelihood(ck):
        p, m, r, th, S = setup(ck)
        est = MLEstimator(S, m)
        nt = len(th)
        Sig = implied(th, p, m)
        keep = th.copy()

        def F(t):
            X = implied(t, p, m)
            return np.linalg.slogdet(X)[1] + np.trace(np.linalg.solve(X, S))
        ck.close("sigma", est.sigma(th), Sig, 1e-12)
        ck.close("value", est.F(th), F(th), 1e-11)
        ck.close("gradient", est.grad(th), numdiff.grad(F, th, 2e-3), 1e-7)
        ck.close("hessian", est.hessian(th), numdiff.jac(est.grad, th, 1e-3), 1e-7)
        D = est.dsigma(th)
        ck.eq("dsigma-shape", D.shape, (nt, p, p))
        ck.close("dsigma", D, np.moveaxis(numdiff.jac(lambda t: implied(t, p, m).ravel(), th, 1e-2), -1, 0).reshape(nt, p, p), 1e-8)
        pairs = vech_pairs(p)

        def g_of(v):
            X = np.zeros((p, p))
            for (i, j), x in zip(pairs, v):
                X[i, j] = X[j, i] = x
            return MLEstimator(X, m).grad(th)
        B = est.score_jacobian(th)
        ck.close("score-jacobian", B, numdiff.jac(g_of, np.array([S[i, j] for i, j in pairs]), 1e-3), 1e-7)
        Z = r.normal(size=(len(pairs), len(pairs)))
        V = Z @ Z.T
        ck.close("meat", est.meat(th, V_S=V), B @ V @ B.T, 1e-9)
        Si = np.linalg.inv(Sig)
        G = np.array([[np.trace(Si @ D[a] @ Si @ D[b]) for b in range(nt)] for a in range(nt)])
        ck.close("gaussian-meat", est.meat(th, n_obs=50), 2 / 50 * G, 1e-9)
        VS = np.array([[(Sig[i, k] * Sig[j, l] + Sig[i, l] * Sig[j, k]) / 50 for k, l in pairs] for i, j in pairs])
        ck.close("gaussian-meat-is-meat", est.meat(th, V_S=VS), 2 / 50 * G, 1e-9)
        try:
            est.meat(th)
            ck.fail("meat-arguments", "meat without a covariance or a sample size")
        except ValueError:
            pass
        ck.eq("theta", th, keep)
        e2 = MLEstimator(Sig, m)
        ck.close("zero-at-model", e2.grad(th), np.zeros(nt), 1e-9)
        ck.close("expected-information", e2.hessian(th), G, 1e-9)

    rep.explore("likelihood", likelihood)

    OPS = {"F": lambda w: w.F(), "grad": lambda w: w.grad(), "hessian": lambda w: w.hessian(), "score": lambda w: w.score_jacobian(),
           "meat": lambda w: w.meat(None, 30), "dsigma": lambda w: w.dsigma, "Sigma": lambda w: w.Sigma}

    def workspaces(ck):
        """every sequence of evaluations in workspaces at two points gives what a fresh estimator gives"""
        p, m = 4, 2
        r = ck.rng("ws")
        ths = [np.concatenate([r.normal(size=p * m), [0.3 * s], r.uniform(0.5, 2, p)]) for s in (1, -1)]
        Z = r.normal(size=(p, 9))
        S = Z @ Z.T / 9
        est = MLEstimator(S, m)
        W = [est.workspace(t) for t in ths]
        depth = 4 if big else 3
        for k in range(depth):
            op = ck.choose(f"op {k}", list(OPS))
            at = ck.choose(f"at {k}", [0, 1])
            want = OPS[op](MLEstimator(S, m).workspace(ths[at].copy()))
            ck.eq(op, OPS[op](W[at]), want, f"step {k}")

    rep.explore("workspaces", workspaces)

    def concentrated(ck):
        p, m, r, th, S = setup(ck, ("identity",))
        if p == m:
            return
        est = MLEstimator(S, m)
        psi = r.uniform(0.15, 0.6, p) * np.diag(S)
        s = np.sqrt(psi)
        u, V = np.linalg.eigh(S / np.outer(s, s))
        f = np.sum(u[:p - m] - np.log(u[:p - m]) - 1)
        ck.close("value", est.loglike_psi(psi), f, 1e-11)
        ck.close("gradient", est.grad_psi(psi), numdiff.grad(est.loglike_psi, psi, 1e-3), 1e-7)
        ck.close("hessian", est.hess_psi(psi), numdiff.jac(est.grad_psi, psi, 1e-3), 1e-6)
        rho = np.log(psi)
        ck.close("log-value", est.loglike_exp(rho), f, 1e-11)
        ck.close("log-gradient", est.grad_exp(rho), numdiff.grad(lambda t: est.loglike_psi(np.exp(t)), rho, 1e-3), 1e-7)
        ck.close("log-hessian", est.hess_exp(rho), numdiff.jac(lambda t: est.grad_psi(np.exp(t)) * np.exp(t), rho, 1e-3), 1e-6)
        if u[p - m] > 1:
            L = est.loadings_from_psi(psi)
            t = np.concatenate([L.T.ravel(), np.zeros(m * (m - 1) // 2), psi])
            ck.close("profile", est.F(t) - np.linalg.slogdet(S)[1] - p, f, 1e-9)
            ck.close("profile-gradient", est.grad(t)[:p * m], np.zeros(p * m), 1e-8)
            ck.close("envelope", est.grad(t)[-p:], est.grad_psi(psi), 1e-8)
            G = L.T @ (L / psi[:, None])
            ck.close("canonical", G - np.diag(np.diag(G)), np.zeros((m, m)), 1e-8)
        else:
            ck.outcome("fewer factors suffice")
        ck.eq("shape", est.loadings_from_psi(psi).shape, (p, m))

    rep.explore("concentrated", concentrated)

    def fits(ck):
        """population covariances are recovered exactly; any covariance gives a stationary point, and
        the fit follows rescaling, reordering and reflection of the variables"""
        p, m = ck.choose("shape", [(3, 1), (4, 1), (6, 2), (7, 2)] + ([(5, 1), (5, 2), (9, 3)] if big else []))
        source = ck.choose("covariance", ["model", "sample"])
        cross = ck.choose("cross loadings", [0.0, 0.2])
        rho = ck.choose("factor correlation", [0.0, 0.4])
        r = ck.rng("fits", p, m)
        Lt = cluster(p, m, cross)
        Phi = np.array([[rho ** abs(i - j) for j in range(m)] for i in range(m)])
        psi = np.linspace(0.3, 0.7, p)
        S = Lt @ Phi @ Lt.T + np.diag(psi)
        if source == "sample":
            X = r.multivariate_normal(np.zeros(p), S, size=400)
            S = np.cov(X.T)
        est = MLEstimator(S, m)
        kw = ck.choose("options", [{}, dict(method="BFGS", options=dict(gtol=1e-8)), dict(psi_init=0.5 * np.diag(S))])
        if "method" in kw:
            F = MLEstimator(S, m).fit_psi(method="L-BFGS-B", options=dict(ftol=1e-15, gtol=1e-9, maxiter=5000))
            tol = 2e-4
        else:
            F = est.fit_psi(**kw)
            tol = 1e-5
        ph, L = F["psi"], F["Lambda"]
        ck.eq("shapes", (np.shape(ph), np.shape(L)), ((p,), (p, m)))
        ck.require(ph.min() > 0.02)
        t = np.concatenate([L.T.ravel(), np.zeros(m * (m - 1) // 2), ph])
        g = est.grad(t)
        g[p * m:p * m + m * (m - 1) // 2] = 0
        ck.close("stationary", g, np.zeros(len(g)), tol, f"{p} {m} {source}")
        ck.close("value", F["opt"].fun, est.loglike_psi(ph), 1e-10)
        ck.close("diagonal-reproduced", np.diag(L @ L.T) + ph, np.diag(S), 10 * tol)
        if source == "model" or p == 3:
            ck.close("reproduced", L @ L.T + np.diag(ph), S, 20 * tol)
            ck.close("perfect-fit", F["opt"].fun, 0.0, 1e-7)
            if source == "model":
                ck.close("uniquenesses", ph, psi, 50 * tol)
                ck.close("communalities", L @ L.T, Lt @ Phi @ Lt.T, 50 * tol)
        if kw:
            return
        how = ck.choose("change of variables", ["scale", "order", "reflect"])
        d, o = np.ones(p), np.arange(p)
        if how == "scale":
            d = 2.0 ** (np.arange(p) % 3 - 1)
        elif how == "order":
            o = r.permutation(p)
        else:
            d = np.where(np.arange(p) % 2, -1.0, 1.0)
        S2 = (S * np.outer(d, d))[np.ix_(o, o)]
        F2 = MLEstimator(S2, m).fit_psi()
        ck.close("equivariant-psi", F2["psi"], (ph * d ** 2)[o], 1e-4)
        ck.close("equivariant-loadings", F2["Lambda"] @ F2["Lambda"].T, ((L @ L.T) * np.outer(d, d))[np.ix_(o, o)], 1e-4)
        ck.close("equivariant-value", F2["opt"].fun, F["opt"].fun, 1e-7)

    rep.explore("fits", fits)

    def standard_errors(ck):
        """bordered information = information restricted to the directions the constraints leave free;
        the covariance of the implied moments does not depend on the identification"""
        p, m = ck.choose("shape", [(4, 1), (6, 2), (9, 3)])
        kind = ck.choose("identification", ["canonical", "varimax", "quartimax", "equamax", "target", "oblique varimax", "oblique target"])
        source = ck.choose("covariance", ["model", "sample"])
        r = ck.rng("se", p, m)
        Lt = cluster(p, m, 0.15) + 0.05 * r.normal(size=(p, m))
        psi = np.linspace(0.3, 0.7, p)
        S = Lt @ Lt.T + np.diag(psi)
        X = r.multivariate_normal(np.zeros(p), S, size=300)
        if source == "sample":
            S = np.cov(X.T, bias=True)
        est = MLEstimator(S, m)
        F = est.fit_psi()
        ph = F["psi"]
        name = kind.split()[-1]
        if kind == "canonical":
            I = CanonicalIdentification(p, m)
            fit = I.fit(F["Lambda"], ph)
        else:
            rot = (ObliqueRotation if "oblique" in kind else OrthoRotation)(m)
            crit = TargetCriterion(Lt, (np.abs(Lt) < 0.4) * 1.0 if "oblique" in kind else None) if name == "target" else GCFCriterion(name, p, m)
            I = RotationIdentification(rot, crit, tol=1e-10, n_iters=5000)
            j, s = align(F["Lambda"], Lt)
            T0 = np.eye(m)[:, j] * s
            if np.linalg.det(T0) < 0:
                T0[:, 0] *= -1
            fit = I.fit(F["Lambda"], T0=T0)
        L, Phi = fit["L"], fit["Phi"]
        if np.abs(Phi - np.eye(m)).max() > 0.9:
            return ck.outcome("factor collapse")
        th = I.layout.pack(L, Phi, ph)
        mask = I.free_mask()
        H, C = est.hessian(th), I.d_constraint(th)
        ck.close("constraint", I.constraint(th), np.zeros(I.n_constraints()), 1e-4)
        nf = int(mask.sum())
        Cf = C[:, mask]
        _, sv, Vt = np.linalg.svd(Cf) if len(Cf) else (None, np.zeros(0), np.eye(nf))
        N = Vt[len(sv):].T
        Hf = H[np.ix_(mask, mask)]
        want = N @ np.linalg.inv(N.T @ Hf @ N) @ N.T
        b = inf.bread(H, C, mask)
        ck.close("bread", b, want, 1e-5, kind, scale=np.abs(want).max())
        n = 300
        V = inf.param_cov(H, C, mask, n)
        ck.close("covariance", V, want * 2 / n, 1e-5, kind, scale=np.abs(want).max() * 2 / n)
        ck.close("respects-constraints", Cf @ V, np.zeros(Cf.shape[:1] + (nf,)), 1e-7)
        ck.close("se", inf.se_from_cov(V), np.sqrt(np.diag(V)), 1e-12)
        J = est.meat(th, n_obs=n)
        W = inf.sandwich_cov(H, C, J, mask)
        ck.close("sandwich", W, want @ J[np.ix_(mask, mask)] @ want, 1e-5, scale=np.abs(W).max())
        if source == "model":
            ck.close("sandwich-is-inverse", W, V, 1e-4, kind, scale=np.abs(V).max())
        D = est.dsigma(th)[mask].reshape(nf, -1)
        MV = D.T @ V @ D
        Fc = F["Lambda"]
        D0 = est.dsigma(I.layout.pack(Fc, np.eye(m), ph)).reshape(I.layout.nt, -1)
        free0 = np.r_[I.layout.ixl, I.layout.ixr]
        C0 = CanonicalIdentification(p, m).d_constraint(I.layout.pack(Fc, np.eye(m), ph))
        H0 = est.hessian(I.layout.pack(Fc, np.eye(m), ph))
        _, sv, Vt = np.linalg.svd(C0[:, free0]) if m > 1 else (None, np.zeros(0), np.eye(len(free0)))
        N0 = Vt[len(sv):].T
        V0 = N0 @ np.linalg.inv(N0.T @ H0[np.ix_(free0, free0)] @ N0) @ N0.T * 2 / n
        ref = D0[free0].T @ V0 @ D0[free0]
        ck.close("invariant-moments", MV, ref, 1e-3, kind, scale=np.abs(ref).max())
        emp = inf.empirical_cov_vech_S(X)
        ck.close("robust-meat", est.meat(th, V_S=emp), est.score_jacobian(th) @ emp @ est.score_jacobian(th).T, 1e-9)
        A = inf.augmented_hessian(H, C)
        k = len(C)
        ck.eq("augmented", A.shape, (len(H) + k,) * 2)
        ck.eq("augmented-blocks", A, np.block([[H, C.T], [C, np.zeros((k, k))]]))

    rep.explore("standard-errors", standard_errors)

    def fourth_moments(ck):
        """every small integer data matrix"""
        n, p = ck.choose("shape", [(2, 1), (3, 2), (2, 3)] + ([(4, 2)] if big else []))
        X = np.array([ck.choose(f"x{i}", [0.0, 1.0, -2.0]) for i in range(n * p)]).reshape(n, p)
        Xc = X - X.mean(0)
        pairs = vech_pairs(p)
        Z = np.array([[Xc[t, i] * Xc[t, j] for i, j in pairs] for t in range(n)])
        want = np.zeros((len(pairs),) * 2)
        for t in range(n):
            z = Z[t] - Z.mean(0)
            want += np.outer(z, z) / (n * (n - 1))
        X0 = X.copy()
        ck.close("cov", inf.empirical_cov_vech_S(X), want, 1e-12)
        ck.eq("data", X, X0)

    rep.explore("fourth-moments", fourth_moments)

    def simulation(ck):
        p, m = ck.choose("p", [1, 3, 5, 6]), ck.choose("m", [1, 2, 3])
        ck.require(p >= m)
        rand = ck.flag("random")
        L = sim.generate_loadings(p, m, 0.3, 0.8, random=rand, rng=np.random.default_rng(1))
        ck.eq("loadings-reproducible", L, sim.generate_loadings(p, m, 0.3, 0.8, random=rand, rng=np.random.default_rng(1)))
        ck.eq("one-factor-each", (L != 0).sum(1), np.ones(p))
        ck.expect("range", np.all((L[L != 0] >= 0.3) & (L[L != 0] <= 0.8)))
        which = L.argmax(1)
        ck.expect("blocks", np.all(np.diff(which) >= 0))
        sizes = np.bincount(which, minlength=m)
        ck.expect("balanced", sizes.max() - sizes.min() <= 1)
        for j in range(m):
            ck.expect("descending", np.all(np.diff(L[which == j, j]) <= 0))
        Phi = sim.generate_factor_corr(m, 0.4, random=rand, rng=np.random.default_rng(2))
        ck.eq("phi-shape", Phi.shape, (m, m))
        ck.close("phi-symmetric", Phi, Phi.T, 1e-14)
        ck.close("phi-diagonal", np.diag(Phi), np.ones(m), 1e-14)
        ck.expect("phi-definite", np.linalg.eigvalsh(Phi).min() > 0)
        if not rand:
            ck.close("phi", Phi, [[(-0.4) ** abs(i - j) for j in range(m)] for i in range(m)], 1e-14)
        else:
            ck.eq("phi-reproducible", Phi, sim.generate_factor_corr(m, 0.4, random=True, rng=np.random.default_rng(2)))
        psi = sim.generate_uniquenesses(p, 0.2, 0.6, random=rand, rng=np.random.default_rng(3))
        ck.expect("psi", psi.shape == (p,) and np.all((psi >= 0.2) & (psi <= 0.6)))
        ck.eq("psi-reproducible", psi, sim.generate_uniquenesses(p, 0.2, 0.6, random=rand, rng=np.random.default_rng(3)))
        want = L @ Phi @ L.T + np.diag(psi)
        for given in (psi, np.diag(psi)):
            M = sim.FactorModel(L, Phi, given)
            ck.close("sigma", M.Sigma, want, 1e-12)
            ck.eq("parts", M.psi, psi)
        X = M.sample(7, rng=np.random.default_rng(4))
        ck.eq("shape", X.shape, (7, p))
        ck.eq("sample-reproducible", X, M.sample(7, rng=np.random.default_rng(4)))
        Y = M.sample(40000, rng=np.random.default_rng(5))
        ck.expect("moments", np.abs(np.cov(Y.T) - want).max() < 0.05 and np.abs(Y.mean(0)).max() < 0.05, "sample moments")

    rep.explore("simulation", simulation)

    def aligned(ck):
        """standard errors and covariances under every signed permutation of the factors"""
        p, m = ck.choose("shape", [(3, 1), (4, 2), (5, 3)])
        perm = np.array(ck.choose("permutation", list(itertools.permutations(range(m)))))
        signs = np.array([ck.choose(f"sign {i}", [1.0, -1.0]) for i in range(m)])
        phi_free = ck.flag("correlated factors")
        lay = ParamLayout(p, m)
        mask = np.ones(lay.nt, bool)
        if not phi_free:
            mask[lay.ixs] = False
        r = ck.rng("al", p, m)
        Phi = corr(r, m) if phi_free else np.eye(m)
        L, psi = r.normal(size=(p, m)), r.uniform(1, 2, p)
        M = sfm.alignment_matrix(lay, mask, perm, signs)
        Pa = np.array([[signs[a] * signs[b] * Phi[perm[a], perm[b]] for b in range(m)] for a in range(m)])
        La = np.array([[signs[a] * L[i, perm[a]] for a in range(m)] for i in range(p)])
        th = np.concatenate([L.T.ravel(), tril_of(Phi), psi])[mask]
        want = np.concatenate([La.T.ravel(), tril_of(Pa), psi])[mask]
        ck.close("map", M @ th, want, 1e-12)
        ck.close("orthogonal", M @ M.T, np.eye(len(th)), 1e-12)
        se = np.arange(1.0, mask.sum() + 1)
        Ls, Ps, ps = sfm.unpack_se(se, mask, lay, phi_free)
        ck.eq("se-loadings", Ls, se[:p * m].reshape(m, p).T)
        ck.eq("se-psi", ps, se[-p:])
        ck.eq("se-phi", Ps + np.eye(m), pieces(np.concatenate([se[:p * m], se[p * m:-p] if phi_free else np.zeros(m * (m - 1) // 2), se[-p:]]), p, m)[1])

    rep.explore("aligned", aligned)

    def study(ck):
        """the recovery study: shapes, truth, alignment and summaries follow from its replicates"""
        kind = ck.choose("rotation", ["ortho", "oblique"])
        p, m = ck.choose("shape", [(5, 1), (6, 2)] + ([(9, 3)] if big else []))
        n_rep = ck.choose("replicates", [2, 4])
        seed = ck.choose("seed", [0, 3])
        out = sfm.run(p, m, 600, n_rep, kind, seed)
        again = sfm.run(p, m, 600, n_rep, kind, seed)
        for k in out:
            ck.eq("reproducible-" + k, out[k], again[k])
        lay = ParamLayout(p, m)
        nf = lay.nt - (lay.ns if kind == "ortho" else 0)
        th, V, t0 = out["thetas"], out["Vs"], out["theta_true"]
        ck.eq("shapes", (th.shape, V.shape, t0.shape), ((n_rep, nf), (n_rep, nf, nf), (nf,)))
        L0 = t0[:p * m].reshape(m, p).T
        for i in range(n_rep):
            Le = th[i][:p * m].reshape(m, p).T
            ck.eq("loadings", Le, out["L_ests"][i])
            ck.eq("psi", th[i][-p:], out["psi_ests"][i])
            if kind == "oblique":
                ck.eq("phi", th[i][p * m:-p], tril_of(out["Phi_ests"][i]))
            ck.expect("aligned", np.all(np.sum(Le * L0, axis=0) > 0))
            ck.close("symmetric", V[i], V[i].T, 1e-9)
        z = (th - t0) / np.sqrt(np.array([np.diag(v) for v in V]))
        ck.close("z", out["z"], z, 1e-8)
        ck.close("coverage", out["coverage"], (np.abs(z) < 1.96).mean(0), 1e-12)
        ck.close("mean-covariance", out["V_ase"], V.mean(0), 1e-12)
        ck.close("empirical-covariance", out["V_emp"], np.cov(th.T), 1e-12)
        ck.expect("scale of z", np.median(np.abs(z)) < 2.5, f"{np.median(np.abs(z))}")

    rep.explore("study", study)
