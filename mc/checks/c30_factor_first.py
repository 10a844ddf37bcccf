"""C30: the first-generation factor analysis: rotations, likelihoods, fits, standard errors, fit
measures, factor scores, alignment and the recovery study."""
import itertools

import numpy as np
import scipy as sp
import scipy.stats

from mc.lib import numdiff
from mc.checks.c19_rotation import cf, KAPPA, simple, plane, vecF, tril_of

METHODS = ["varimax", "quartimax", "equamax", "parsimax"]


def corr_of(m, r=0.3):
    return np.array([[1.0 if i == j else r * (-1) ** (i + j) / abs(i - j) for j in range(m)] for i in range(m)])


def population(p, m, oblique=True, seed=0):
    r = np.random.default_rng([seed, p, m])
    L = simple(p, m) + 0.12 * r.normal(size=(p, m))
    Phi = corr_of(m) if oblique else np.eye(m)
    psi = 0.3 + 0.25 * r.random(p)
    return L, Phi, psi


def wishart_cov(p, m, seed=0, n=60):
    L, Phi, psi = population(p, m, seed=seed)
    S = L @ Phi @ L.T + np.diag(psi)
    r = np.random.default_rng([seed, 7, p, m])
    X = r.normal(size=(n, p)) @ np.linalg.cholesky(S).T
    return X - X.mean(0)


def sigma_of(theta, p, m):
    L = theta[:p * m].reshape(m, p).T
    ns = m * (m - 1) // 2
    Phi = np.eye(m)
    k = p * m
    for j in range(m):
        for i in range(j + 1, m):
            Phi[i, j] = Phi[j, i] = theta[k]
            k += 1
    return L @ Phi @ L.T + np.diag(theta[p * m + ns:]), L, Phi, theta[p * m + ns:]


def disc(Sig, S):
    return np.linalg.slogdet(Sig)[1] + np.trace(np.linalg.solve(Sig, S))


def fgrad(f, x, h=2e-3):
    return numdiff.grad(f, x, h)


def hess(f, x, h=4e-3):
    return numdiff.jac(lambda t: numdiff.grad(f, t, h), x, h)


def vech_of(S):
    p = len(S)
    return np.array([S[i, j] for j in range(p) for i in range(j, p)])


def constraint(L, Phi, psi, method, kind):
    """identification conditions, written out (independent of the package's layout)"""
    p, m = L.shape
    if kind is None:
        C = L.T @ np.diag(1 / psi) @ L
        return tril_of(C)
    G = cf(L, KAPPA[method](p, m))[1]
    if kind == "ortho":
        C = L.T @ G
        return tril_of(C - C.T)
    C = L.T @ G @ np.linalg.inv(Phi)
    return np.array([C[i, j] for j in range(m) for i in range(m) if i != j])


def run(rep, tier):
    from pystatsm.pyfa import rotation as R, fit_measures as FM, align_loadings as AL
    from pystatsm.pyfa.efa import FactorAnalysis as FA2
    from pystatsm.pyfa.factor_analysis import FactorAnalysis as FA1
    from pystatsm.pyfa.simulate_factor_model import FactorModelSim, FactorEstimateSim
    big = tier == "thorough"
    rep.assumptions += ["no Heywood cases, distinct eigenvalues", "oblique constraint derivatives in the factor correlations are claimed where the constraints hold",
                        "fits whose descent converges"]

    def criteria(ck):
        method = ck.choose("criterion", METHODS)
        p, m = ck.choose("shape", [(3, 2), (4, 3), (5, 2)] + ([(6, 3), (4, 1)] if big else []))
        kind = ck.choose("rotation", ["ortho", "oblique"])
        if method == "parsimax" and p + m == 2:
            ck.require(False)
        L = population(p, m)[0]
        g = R.GeneralizedCrawfordFerguson(L.copy(), method, kind)
        k = KAPPA[method](p, m)
        f, G, H = cf(L, k)
        # package criterion differs from Crawford-Ferguson by kappa-independent terms of sum(B)? no: identical
        ck.close("Q", g.Q(L), f, 1e-10)
        ck.close("dQ", g.dQ(L), G, 1e-10)
        fv, Gv = g.vgQ(L)
        ck.close("vgQ", (fv, *vecF(Gv)), (f, *vecF(G)), 1e-10)
        c = R.get_gcf_constants(method, p, m)
        ck.close("constants", (c["k1"], c["k2"], c["k3"], c["k4"]), (0, 1 - k, k, -1), 1e-12)
        T = np.eye(m) + 0.1 * ck.rng("T").normal(size=(m, m))
        if kind == "ortho":
            T = np.linalg.qr(T)[0]
        else:
            T = T / np.sqrt((T ** 2).sum(0))
        rot = (lambda t: L @ t.reshape(m, m).T) if kind == "ortho" else (lambda t: L @ np.linalg.inv(t.reshape(m, m)))
        # t = vec(T) column stacked: t.reshape(m,m) = T'
        want = rot(vecF(T))
        ck.close("rotate", g.rotate(T), want, 1e-10)
        ck.close("d-rotate", g.d_rotate(T), numdiff.jac(lambda t: vecF(rot(t)), vecF(T)), 1e-7)
        ck.close("f", g.f(T), cf(want, k)[0], 1e-10)
        ck.close("df", g.df(T), fgrad(lambda t: cf(rot(t), k)[0], vecF(T)).reshape(m, m).T, 1e-7)
        Phi = corr_of(m) if kind == "oblique" else np.eye(m)
        ck.close("constraints", g.constraints(L, Phi), constraint(L, Phi, np.ones(p), method, kind), 1e-10)
        if kind == "ortho":
            D = np.asarray(g.dC_dL_Ortho(L, Phi))[g.lix]
            ck.close("dC-dL", D, numdiff.jac(lambda l: constraint(l.reshape(m, p).T, Phi, np.ones(p), method, kind), vecF(L)), 1e-7)
        else:
            D = g.dC_dL_Obl(L, Phi).reshape(m * m, p * m, order="F")[g.lix]
            ck.close("dC-dL", D, numdiff.jac(lambda l: constraint(l.reshape(m, p).T, Phi, np.ones(p), method, kind), vecF(L)), 1e-7)
        ck.eq("input-kept", L, population(p, m)[0])

    rep.explore("criteria", criteria)

    NAMES_OB = {"quartimin": 0.0, "quartimax": 0.0, "biquartimin": 0.5, "biquartimax": 0.5, "varimax": 1.0, "covarimin": 1.0, "equamax": None, "oblique": -0.1, "custom": 0.3}
    NAMES_CF = {"quartimax": lambda p, m: 0.0, "varimax": lambda p, m: 1 / p, "equamax": lambda p, m: m / (2 * p), "parsimax": lambda p, m: (m - 1) / (p + m - 2), "parsimony": lambda p, m: 1.0}

    def oblimin(L, gamma):
        p, m = L.shape
        B = L * L
        f = 0.0
        for j, k in itertools.permutations(range(m), 2):
            f += B[:, j] @ B[:, k] - gamma / p * B[:, j].sum() * B[:, k].sum()
        return f / 4

    def values(ck):
        p, m = ck.choose("shape", [(3, 2), (4, 3), (5, 2)])
        family = ck.choose("family", ["oblimin", "cf", "target"])
        L = population(p, m, seed=1)[0]
        if family == "target":
            H = np.round(L)
            W = {"none": None, "zero-one": (np.arange(p * m) % 3 > 0).reshape(p, m) * 1.0, "real": 0.5 + np.arange(p * m).reshape(p, m) / 4}[ck.choose("weights", ["none", "zero-one", "real"])]
            g = R.TargetRotation(L.copy(), H, W)
            Wv = np.ones((p, m)) if W is None else W
            f = lambda l: 0.5 * np.sum((Wv * (l.reshape(m, p).T - H)) ** 2)
            ck.close("Q", g.Q(L), f(vecF(L)), 1e-12)
            G = fgrad(f, vecF(L))
            ck.close("dQ", vecF(g.dQ(L)), G, 1e-7)
            a, b = g.vgQ(L)
            ck.close("vgQ", (a, *vecF(b)), (f(vecF(L)), *G), 1e-7)
            return
        if family == "oblimin":
            name = ck.choose("name", list(NAMES_OB))
            if name == "custom":
                gam = R.get_gamma_ob("oblique", p, 0.3)
            elif name == "equamax":
                return
            else:
                gam = R.get_gamma_ob(name, p, None)
            ck.close("gamma", gam, NAMES_OB[name], 1e-14)
            f, G = R.vgq_ob(L, gam)
            F = lambda l: oblimin(l.reshape(m, p).T, gam)
        else:
            name = ck.choose("name", list(NAMES_CF))
            kap = R.get_gamma_cf(name, p, m)
            ck.close("kappa", kap, NAMES_CF[name](p, m), 1e-14)
            f, G = R.vgq_cf(L, kap)
            F = lambda l: cf(l.reshape(m, p).T, kap)[0]
        ck.close("value", f, F(vecF(L)), 1e-10)
        ck.close("gradient", vecF(G), fgrad(F, vecF(L)), 1e-7)

    rep.explore("criterion values", values)

    def stationary(L, Phi, G, kind, A):
        """norm of the projected gradient at the solution"""
        if kind == "ortho":
            M = L.T @ G
            return np.abs(M - M.T).max()
        C = L.T @ G @ np.linalg.inv(Phi)
        return np.abs(C - np.diag(np.diag(C))).max()

    def solvers(ck):
        how = ck.choose("solver", ["class", "function"])
        kind = ck.choose("rotation", ["ortho", "oblique"])
        p, m = ck.choose("shape", [(6, 2), (6, 3), (5, 2)] + ([(9, 3), (8, 4)] if big else []))
        spin = ck.choose("start", [0.0, 0.4, 1.1] if m == 2 else [0.0, 0.4])
        L0 = population(p, m, seed=2)[0]
        T0 = np.eye(m)
        T0[:2, :2] = plane(spin)
        A = L0 @ T0
        if how == "class":
            method = ck.choose("criterion", METHODS + ["target"])
            if method == "target":
                g = R.TargetRotation(A.copy(), simple(p, m), 0.5 + (np.arange(p * m).reshape(p, m) % 3) / 2, kind)
            else:
                g = R.GeneralizedCrawfordFerguson(A.copy(), method, kind)
            g.fit()
            T, hist = g.T, g.opt_hist
            L = g.rotate(T)
            Q, dQ = g.Q, g.dQ
            if method == "target":
                H, W = g.H, g.W
                Q = lambda l: 0.5 * np.sum((W * (l - H)) ** 2)
                dQ = lambda l: W * W * (l - H)
            else:
                k = KAPPA[method](p, m)
                Q, dQ = (lambda l: cf(l, k)[0]), (lambda l: cf(l, k)[1])
        else:
            fam = ck.choose("family", ["oblimin", "cf"])
            method = ck.choose("criterion", ["quartimax", "varimax", "equamax"] if kind == "ortho" else ["quartimin" if fam == "oblimin" else "quartimax", "biquartimin" if fam == "oblimin" else "varimax"])
            A0 = A.copy()
            L, T, G, Gq, hist, vgq, gam = R.rotate(A0, method, fam, "orthogonal" if kind == "ortho" else "oblique")
            ck.eq("input", A0, A)
            if kind == "ortho":
                # for orthogonal rotations oblimin(gamma) and CF(gamma / p) have the same solutions
                k = dict(quartimax=0.0, varimax=1 / p, equamax=m / (2 * p))[method]
                Q, dQ = (lambda l: cf(l, k)[0]), (lambda l: cf(l, k)[1])
                ck.close("loadings", L, A @ T, 1e-12)
            else:
                if fam == "cf":
                    k = dict(quartimax=0.0, varimax=1 / p)[method]
                    Q, dQ = (lambda l: cf(l, k)[0]), (lambda l: cf(l, k)[1])
                else:
                    ga = dict(quartimin=0.0, biquartimin=0.5)[method]
                    Q = lambda l: oblimin(l, ga)
                    dQ = lambda l: fgrad(lambda v: oblimin(v.reshape(m, p).T, ga), vecF(l)).reshape(m, p).T
                T = T.T
        hist = np.array(hist)
        ck.expect("downhill", bool(np.all(np.diff(hist[:, 0]) <= 1e-9)), f"the criterion rises {np.diff(hist[:, 0]).max()}")
        if kind == "ortho":
            ck.close("orthogonal", T.T @ T, np.eye(m), 1e-9)
            ck.close("rotated", L, A @ T, 1e-10)
            Phi = np.eye(m)
        else:
            ck.close("unit-columns", (T ** 2).sum(0), np.ones(m), 1e-9)
            Phi = T.T @ T
            ck.close("rotated", L @ T.T, A, 1e-9)
        if kind == "oblique" and (np.linalg.cond(T) > 50):
            ck.require(False)
        if kind == "ortho" or hist[-1, 1] < 1e-6 or how == "class":
            ck.expect("stationary", stationary(L, Phi, dQ(L), kind, A) < 1e-4, f"gradient {stationary(L, Phi, dQ(L), kind, A)}")
        if kind == "ortho" and m == 2 and how + method != "x":
            best = min(Q(A @ plane(t) @ D) for t in np.linspace(0, np.pi, 721) for D in (np.eye(2), np.diag([1, -1])))
            if method != "target":
                ck.expect("global", Q(L) <= best + 1e-6, f"{Q(L)} > {best}")

    rep.explore("solvers", solvers)

    def perturbation(ck):
        """derivative of the rotated loadings with respect to the unrotated ones"""
        method = ck.choose("criterion", METHODS)
        p, m = ck.choose("shape", [(5, 2)] + ([(6, 3)] if big else []))
        A = population(p, m, seed=3)[0]

        def solve(a):
            g = R.GeneralizedCrawfordFerguson(a.reshape(m, p).T.copy(), method, "ortho")
            g.fit(dict(tol=1e-10))
            return g, g.rotate(g.T)
        g, L = solve(vecF(A))
        ck.close("dL-dA", g.dL_dA_Ortho(L, np.eye(m)), numdiff.jac(lambda a: vecF(solve(a)[1]), vecF(A), 1e-3), 1e-4)

    rep.explore("perturbation", perturbation)

    SHAPES = [(4, 1), (5, 2), (6, 2)] + ([(7, 3), (6, 3), (8, 3)] if big else [(6, 3)])

    def make(gen, X, m, method, kind, how="X"):
        cls = FA1 if gen == 1 else FA2
        kw = dict(n_factors=m, rotation_method=method, rotation_type=kind)
        if how == "X":
            return cls(X, **kw)
        return cls(S=X.T @ X / len(X), n_obs=len(X), **kw)

    cache = {}

    def likelihood(ck):
        gen = ck.choose("generation", [1, 2])
        p, m = ck.choose("shape", SHAPES)
        kind = ck.choose("rotation", [None, "ortho", "oblique"]) if m > 1 else None
        method = None if kind is None else "varimax"
        order = ck.choose("queries", list(itertools.permutations(["gradient", "hessian", "dsigma"])) if big else [("hessian", "gradient", "dsigma"), ("dsigma", "hessian", "gradient")])
        X = wishart_cov(p, m)
        S = X.T @ X / len(X)
        M = make(gen, X, m, method, kind, ck.choose("input", ["X", "S"]))
        L, Phi, psi = population(p, m, kind == "oblique", seed=4)
        ns = m * (m - 1) // 2
        th = np.r_[vecF(L), tril_of(Phi), psi]
        F = lambda t: disc(sigma_of(t, p, m)[0], S)
        key = (p, m, kind == "oblique")
        if key not in cache:
            cache[key] = numdiff.jac(lambda t: vech_of(sigma_of(t, p, m)[0]), th), fgrad(F, th), hess(F, th)
        D, G, H = cache[key]
        if gen == 1:
            M._make_augmented_params(L, Phi, np.diag(psi))
            ck.close("params", M.params, th, 1e-14)
            names = dict(loglike="loglike_augmented", gradient="gradient_augmented", hessian="hessian_augmented", dsigma="dsigma_augmented", cov="implied_cov_augmented")
        else:
            ck.close("params", M.model_matrices_to_params(L, Phi, np.diag(psi)), th, 1e-14)
            ck.close("params-vector", M.model_matrices_to_params(L, Phi, psi), th, 1e-14)
            names = dict(loglike="loglike_params", gradient="gradient_params", hessian="hessian_params", dsigma="dsigma_params", cov="implied_cov_params")
        ck.close("S", M.S, S, 1e-12)
        ck.close("sigma", getattr(M, names["cov"])(th), sigma_of(th, p, m)[0], 1e-12)
        ck.close("loglike", getattr(M, names["loglike"])(th), F(th), 1e-10)
        for q in order:
            v = getattr(M, names[q])(th)
            ck.close(q, v, dict(gradient=G, hessian=H, dsigma=D)[q], 2e-5 if q == "hessian" else 1e-7)
        if p <= 5:
            D2 = (M.d2sigma_augmented if gen == 1 else M.d2sigma_params)(th)
            want = numdiff.jac(lambda t: numdiff.jac(lambda s: vech_of(sigma_of(s, p, m)[0]), t), th)
            i = 0
            Dv = np.zeros_like(want)
            # rows are listed (i, j >= i) by the package: compare as a set of named cells
            cells = [(i, j) for j in range(p) for i in range(j, p)]
            mine = {c: want[k] for k, c in enumerate(cells)}
            for k, (a, b) in enumerate((a, b) for a in range(p) for b in range(a, p)):
                ck.close("d2sigma", D2[k], mine[(b, a)], 1e-5)
        # constraints
        C = lambda t: constraint(*sigma_of(t, p, m)[1:], method, kind)
        if m > 1 and kind != "oblique":
            if gen == 2:
                ck.close("constraints", M.constraints(th), C(th), 1e-9)
                J = np.asarray(M.constraint_derivs(th))
                want = numdiff.jac(C, th)
                want[:, p * m:p * m + ns] = 0
                ck.close("constraint-derivs", J, want, 1e-6)
        # log-uniqueness parametrisation of the first generation and the concentrated likelihood
        if gen == 1:
            t0 = np.r_[vecF(L), np.log(psi)]
            F0 = lambda t: disc(t[:p * m].reshape(m, p).T @ t[:p * m].reshape(m, p) + np.diag(np.exp(t[p * m:])), S)
            ck.close("theta-loglike", M.loglike(t0), F0(t0), 1e-10)
            for q in order:
                if q == "gradient":
                    ck.close("theta-gradient", M.gradient(t0), fgrad(F0, t0), 1e-7)
                elif q == "hessian":
                    M2 = make(1, X, m, method, kind)
                    ck.close("theta-hessian", M2.hessian(t0), hess(F0, t0), 2e-5)
                    ck.close("theta-hessian-again", M2.hessian(t0), hess(F0, t0), 2e-5)
                    ck.close("theta-hessian-later", M.hessian(t0), hess(F0, t0), 2e-5)
            if m > 1:
                C0 = lambda t: tril_of((lambda Lm: Lm.T @ np.diag(np.exp(-t[p * m:])) @ Lm)(t[:p * m].reshape(m, p).T))
                ck.close("theta-constraint", M.canonical_constraint(t0), C0(t0), 1e-9)
                ck.close("theta-constraint-derivs", M.constraint_derivs(t0), numdiff.jac(C0, t0), 1e-6)

        def conc(s):
            u = np.linalg.eigvalsh(S / np.sqrt(np.outer(s, s)))[:p - m]
            return np.sum(u - np.log(u) - 1)
        a = (M.loglike_canonical, M.gradient_canonical, M.hessian_canonical) if gen == 1 else (M.loglike, M.gradient, M.hessian)
        if p > m:
            ck.close("concentrated", a[0](psi), conc(psi), 1e-9)
            ck.close("concentrated-gradient", a[1](psi), fgrad(conc, psi, 1e-3), 1e-6)
            ck.close("concentrated-hessian", a[2](psi), hess(conc, psi, 2e-3), 1e-4)
            if gen == 2:
                ce = lambda r: conc(np.exp(r))
                ck.close("log-gradient", M.gradient_exp(np.log(psi)), fgrad(ce, np.log(psi), 1e-3), 1e-6)
                ck.close("log-hessian", M.hessian_exp(np.log(psi)), hess(ce, np.log(psi), 2e-3), 1e-4)
                ck.close("log-loglike", M.loglike_exp(np.log(psi)), conc(psi), 1e-9)
            A = M.loadings_from_psi(psi)
            u, V = np.linalg.eigh(S / np.sqrt(np.outer(psi, psi)))
            if np.all(u[-m:] > 1.01):
                # stationary in the loadings given psi
                f = lambda l: disc(l.reshape(m, p).T @ l.reshape(m, p) + np.diag(psi), S)
                ck.expect("profiled-loadings", np.abs(fgrad(f, vecF(A), 1e-3)).max() < 1e-6, "loadings are not optimal given the uniquenesses")

    rep.explore("likelihood", likelihood)

    def fits(ck):
        gen = ck.choose("generation", [2, 1])
        p, m = ck.choose("shape", [(5, 1), (6, 2)] + ([(9, 3)] if big or gen == 2 else []))
        kind = ck.choose("rotation", [None, "ortho", "oblique"]) if m > 1 else None
        method = None if kind is None else ck.choose("criterion", METHODS if (big or (gen == 2 and m == 2)) else ["varimax", "quartimax"])
        how = ck.choose("input", ["X", "S"]) if gen == 2 else "X"
        n = 200
        X = wishart_cov(p, m, seed=5, n=n) * np.linspace(1, 2, p)
        S = X.T @ X / n
        M = make(gen, X, m, method, kind, how)
        M.fit()
        L, Phi, psi = np.asarray(M.L), np.asarray(M.Phi), np.diag(np.asarray(M.Psi))
        ns = m * (m - 1) // 2
        th = np.r_[vecF(L), tril_of(Phi), psi]
        ck.close("params", M.params, th, 1e-9)
        F = lambda t: disc(sigma_of(t, p, m)[0], S)
        g = fgrad(F, th)
        ck.require(psi.min() > 1e-3)
        gs = np.r_[vecF(2 * (lambda V: V @ L @ Phi)(np.linalg.inv(sigma_of(th, p, m)[0]) @ (sigma_of(th, p, m)[0] - S) @ np.linalg.inv(sigma_of(th, p, m)[0])))]
        ck.expect("stationary", max(np.abs(gs).max(), np.abs(g[p * m + ns:]).max()) < 2e-4, f"gradient {np.abs(g).max()}")
        ck.close("Sigma", M.Sigma, sigma_of(th, p, m)[0], 1e-9)
        T = np.asarray(M.T)
        ck.close("rotation-of-unrotated", np.asarray(M.A) @ np.asarray(M.A).T, L @ Phi @ L.T, 1e-6)
        ck.close("factor-correlation", Phi, T.T @ T, 1e-9)
        if kind != "oblique":
            ck.close("uncorrelated", Phi, np.eye(m), 1e-7)
        if m > 1 and not (gen == 1 and kind is None):     # unrotated first-generation loadings keep the orientation of the start
            c = constraint(L, Phi, psi, method, kind)
            ck.expect("identified", np.abs(c).max() < 1e-3, f"constraint {np.abs(c).max()}")
        # standard errors: information restricted to the identified set
        free = np.r_[np.arange(p * m), np.arange(p * m, p * m + ns) if kind == "oblique" else [], np.arange(p * m + ns, len(th))].astype(int)
        H = hess(F, th)[np.ix_(free, free)]
        if m > 1:
            J = numdiff.jac(lambda t: constraint(*sigma_of(t, p, m)[1:], method, kind), th)[:, free]
            K = sp.linalg.null_space(J)
        else:
            K = np.eye(len(free))
        V = 2 / n * K @ np.linalg.inv(K.T @ H @ K) @ K.T
        se = np.sqrt(np.diag(V))
        ck.close("se", M.se_params, se, 2e-3, scale=se.max())
        ck.close("L-se", M.L_se, se[:p * m].reshape(m, p).T, 2e-3)
        ck.close("psi-se", M.psi_se, se[-p:], 2e-3)
        if kind == "oblique":
            ck.close("Phi-se", tril_of(np.asarray(M.Phi_se)), se[p * m:p * m + ns], 2e-3)
        res = M.res
        labels = [f"L[{i}][{j}]" for j in range(m) for i in range(p)] + ([f"Phi[{max(i, j)}][{min(i, j)}]" for j in range(m) for i in range(j + 1, m)] if kind == "oblique" else []) + [f"Psi[{i}]" for i in range(p)]
        ck.eq("labels", list(res.index), labels)
        z = th[free] / M.se_params
        ck.close("table-param", res["param"].values, th[free], 1e-9)
        ck.close("table-se", res["SE"].values, M.se_params, 1e-12)
        ck.close("table-z", res["z"].values, z, 1e-9)
        ck.close("table-p", res["p"].values, 2 * sp.stats.norm.sf(np.abs(z)), 1e-12)
        # fit measures
        Sig = sigma_of(th, p, m)[0]
        Fv = disc(Sig, S) - np.linalg.slogdet(S)[1] - p
        df = ((p - m) ** 2 - p - m) / 2
        k = p * (p + 1) / 2 - df
        B = np.linalg.solve(Sig, S)
        gfi = 1 - np.trace((B - np.eye(p)) @ (B - np.eye(p))) / np.trace(B @ B)
        agfi = 1 - p * (p + 1) / (2 * df) * (1 - gfi)
        d = np.sqrt(np.diag(S))
        Rr = (Sig - S) / np.outer(d, d)
        srmr = np.sqrt(2 / (p * (p + 1)) * sum(Rr[i, j] ** 2 for i in range(p) for j in range(i + 1)))
        if gen == 2:
            c2 = n * Fv
            tab = M.chi2_table
            F0 = np.log(np.diag(S)).sum() - np.linalg.slogdet(S)[1]
            c0, df0 = n * F0, p * (p - 1) / 2
            ck.close("chi2-full", tab.loc["Full"].values, (c2, df, sp.stats.chi2.sf(c2, df)), 1e-6)
            ck.close("chi2-null", tab.loc["Null"].values, (c0, df0, sp.stats.chi2.sf(c0, df0)), 1e-6)
            ii = M.incrimental_fit_indices["Value"]
            ck.close("TLI", ii["TLI"], (c0 / df0 - c2 / df) / (c0 / df0 - 1), 1e-6)
            ck.close("NFI", ii["NFI"], (c0 - c2) / c0, 1e-6)
            ck.close("IFI", ii["IFI"], (c0 - c2) / (c0 - df), 1e-6)
            ck.close("RNI", ii["RNI"], ((c0 - df0) - (c2 - df)) / (c0 - df0), 1e-6)
            ck.close("CFI", ii["CFI"], 1 - max(c2 - df, 0) / max(c0 - df0, c2 - df, 0), 1e-6)
            mi = M.misc_fit_indices["Value"]
            ll = -n / 2 * Fv
            ck.close("rmsea", mi["RMSEA"], np.sqrt(max(c2 - df, 0) / (df * (n - 1))), 1e-6)
        else:
            mi = M.sumstats
            c2 = (n - 1) * Fv
            ck.close("chi2", mi["chi2"], c2, 1e-5)
            ck.close("chi2-p", mi["chi2_pvalue"], sp.stats.chi2.sf(c2, df), 1e-6)
            ck.close("std-chi2", mi["std_chi2"], (c2 - df) / np.sqrt(2 * df), 1e-5)
            ck.close("rmsea", mi["RMSEA"], np.sqrt(max(c2 - df, 0) / (df * (n - 1))), 1e-6)
            ll = -(n - 1) / 2 * disc(Sig, S)
        ck.close("gfi", mi["GFI"], gfi, 1e-7)
        ck.close("agfi", mi["AGFI"], agfi, 1e-6)
        ck.close("srmr", mi["SRMR"], srmr, 1e-6)
        ck.close("loglikelihood", mi["loglikelihood"], ll, 1e-6)
        ck.close("aic", mi["AIC"], 2 * k - 2 * ll, 1e-6)
        ck.close("bic", mi["BIC"], k * np.log(n) - 2 * ll, 1e-6)
        # factor scores
        LPhi = L @ Phi
        ss = lambda A: (lambda w, U: U @ np.diag(np.sqrt(w)) @ U.T)(*np.linalg.eigh(A))
        if gen == 2 and how == "X":
            for meth in ["thurstone", "bartlett", "mcdonald", "tenBerge"]:
                Z, Bc = M.estimate_factors(method=meth)
                ck.close("scores-" + meth, Z, X @ Bc, 1e-9)
                if meth == "thurstone":
                    ck.close("weights-thurstone", Bc, np.linalg.solve(S, LPhi), 1e-8)
                elif meth == "bartlett":
                    W = np.diag(1 / psi)
                    ck.close("weights-bartlett", Bc, W @ L @ np.linalg.inv(L.T @ W @ L), 1e-8)
                    ck.close("bartlett-unbiased", Bc.T @ L, np.eye(m), 1e-8)
                else:     # correlation preserving
                    ck.close("preserves-" + meth, Bc.T @ S @ Bc, Phi, 1e-7)
            ck.close("loadings-frame", M.Loadings.values, L, 1e-12)
            ck.close("corr-frame", M.FactorCorr.values, Phi, 1e-12)
            ck.close("resid-frame", M.ResidualCov.values, np.diag(psi), 1e-12)
        if gen == 1:
            P = ss(Phi)
            for meth in ["thurstone", "tenberge"]:
                Bc, Z = M.compute_factors(meth)
                Bc, Z = np.asarray(Bc), np.asarray(Z)
                ck.close("scores-" + meth, Z, X @ Bc, 1e-8)
                if meth == "thurstone":
                    ck.close("weights-thurstone", Bc, np.linalg.solve(S, LPhi), 1e-7)
                else:
                    ck.close("preserves-tenberge", Bc.T @ S @ Bc, Phi, 1e-6)

    rep.explore("fits", fits)

    def sorting(ck):
        p, m = 6, 3
        X = wishart_cov(9, 3, seed=5, n=200)
        M = make(2, X, 3, "varimax", ck.choose("rotation", ["ortho", "oblique"]))
        L = population(6, 3)[0] * np.array([1.0, 0.6, 1.4])
        sg = np.array([ck.choose(f"s{i}", [1, -1]) for i in range(3)])
        perm = list(ck.choose("order", list(itertools.permutations(range(3)))))
        L = (L * sg)[:, perm]
        Phi = corr_of(3)
        T = np.linalg.cholesky(Phi).T
        l, t, phi, P = M.order_loadings(L.copy(), T.copy(), Phi.copy())
        ck.close("permutation", P @ P.T, np.eye(3), 1e-12)
        ck.close("loadings", l, L @ P, 1e-12)
        ck.close("rotation", t, T @ P, 1e-12)
        ck.close("correlation", phi, P.T @ Phi @ P, 1e-12)
        ck.expect("sorted", bool(np.all(np.diff((l ** 2).sum(0)) >= -1e-12)), "factors are not ordered by their sum of squares")
        ck.expect("signs", bool(np.all(l.sum(0) >= -1e-12)), "loadings of an ordered factor sum to a negative number")
        # alignment to a target
        sg2 = np.array([ck.choose(f"t{i}", [1, -1]) for i in range(3)])
        L0 = population(6, 3)[0]
        Ls = (L0 * sg2)[:, perm] + 0.02 * ck.rng("e").normal(size=(6, 3))
        se = 1 + np.arange(18.0).reshape(6, 3)
        pse = np.arange(9.0).reshape(3, 3)
        pse = pse + pse.T
        a, b, c, d, j, s = AL.align_model_matrices(L0, Ls, Phi, se, pse)
        Q = np.zeros((3, 3))
        for k in range(3):
            Q[perm.index(k), k] = sg2[k]
        ck.close("aligned", a, Ls @ Q, 1e-12)
        ck.close("aligned-se", b, se @ np.abs(Q), 1e-12)
        ck.close("aligned-corr", c, Q.T @ Phi @ Q, 1e-12)
        ck.close("aligned-corr-se", d, np.abs(Q).T @ pse @ np.abs(Q), 1e-12)
        a2 = AL.align_model_matrices(None, Ls, Phi, se, pse, permutation=(j, s))
        ck.close("given-permutation", a2[0], a, 1e-14)

    rep.explore("sorting", sorting)

    def measures(ck):
        p = ck.choose("p", [2, 3, 4])
        r = ck.rng("m")
        A = r.normal(size=(2, p + 3, p))
        S, Sig = A[0].T @ A[0], A[1].T @ A[1]
        d = np.sqrt(np.diag(Sig))
        C = Sig / np.outer(d, d)
        Ri = np.linalg.inv(C)
        q = Ri / np.sqrt(np.outer(np.diag(Ri), np.diag(Ri)))
        lo = np.tril_indices(p, -1)
        ck.close("msa", FM.measure_of_sample_adequacy(Sig), (C[lo] ** 2).sum() / ((C[lo] ** 2).sum() + (q[lo] ** 2).sum()), 1e-9)
        B = np.linalg.solve(Sig, S)
        gfi = 1 - np.trace((B - np.eye(p)) @ (B - np.eye(p))) / np.trace(B @ B)
        ck.close("gfi", FM.gfi(Sig, S), gfi, 1e-8)
        df, n = ck.choose("df", [1, 3, 5]), ck.choose("n", [10, 100])
        ck.close("agfi", FM.agfi(Sig, S, df), 1 - p * (p + 1) / (2 * df) * (1 - gfi), 1e-8)
        F = disc(Sig, S) - np.linalg.slogdet(S)[1] - p
        chi, pv = FM.lr_test(Sig, S, df, n)
        ck.close("lr", chi, n * F, 1e-8)
        ck.close("lr-p", pv, sp.stats.chi2.sf(n * F, df), 1e-9)
        e = np.sqrt(np.diag(S))
        D = S.copy()
        D += np.outer(e, e) * 0.05 * (1 - np.eye(p))
        ck.close("srmr", FM.srmr(D, S, df), np.sqrt(2 / (p * (p + 1)) * (p * (p - 1) / 2) * 0.05 ** 2), 1e-9)

    rep.explore("measures", measures)

    def nfactors(ck):
        gen = ck.choose("generation", [1, 2])
        p = 5
        ev = np.array(ck.choose("eigenvalues", [[4, .5, .3, .15, .05], [2, 1.5, .8, .5, .2], [1.2, 1.1, 1.05, .9, .75], [1.5, 1.2, 1.1, 1.05, .15]]))
        U = np.linalg.qr(ck.rng("U").normal(size=(p, p)))[0]
        S = U @ np.diag(ev) @ U.T
        cls = FA1 if gen == 1 else FA2
        rule = ck.choose("rule", ["proportion", "eigmin"])
        kw = {}
        if rule == "proportion":
            q = ck.choose("proportion", [None, 0.35, 0.75])
            if q:
                kw["proportion"] = q
            want = next(i + 1 for i in range(p) if ev[:i + 1].sum() / ev.sum() >= (q or 0.6))
        else:
            q = ck.choose("eigmin", [None, 0.4, 1.07])
            if q:
                kw["eigmin"] = q
            want = int((ev > (q or 1.0)).sum())
        ck.require(0 < want < p)
        M = cls(S=S, n_obs=100, n_factors=rule, **kw)
        ck.eq("number", int(M.n_facs), want)
        if want > 0:
            M3 = cls(S=S, n_obs=100, n_factors=3.0)
            ck.eq("float", M3.n_facs, 3)

    rep.explore("number of factors", nfactors)

    def simulation(ck):
        n_vars, m = ck.choose("shape", [(6, 2), (7, 3), (5, 1)])
        ortho = ck.choose("correlation", ["fixed", "random", "given"])
        seed = ck.choose("seed", [0, 3])
        exact = ck.choose("exact", [True, False])
        rl, rp = ck.choose("loadings", ["fixed", "random"]), ck.choose("residuals", ["fixed", "random"])
        kw = dict(Phi=corr_of(m)) if ortho == "given" else {}

        def build():
            s = FactorModelSim(n_vars, m, seed=seed, **kw)
            s.simulate_cov(loadings_kws=dict(random=rl == "random"), factor_corr_kws=dict(random=ortho == "random"), residual_cov_kws=dict(random=rp == "random"))
            return s, s.simulate_data(40, exact)
        s, (Z, X) = build()
        s2, (Z2, X2) = build()
        ck.close("reproducible", X2, X, 1e-9)
        ck.close("sigma", s.Sigma, s.L @ s.Phi @ s.L.T + s.Psi, 1e-12)
        ck.close("correlation", np.diag(s.Phi), np.ones(m), 1e-9)
        ck.expect("positive", np.linalg.eigvalsh(s.Phi).min() > 0, "not positive definite")
        if ortho == "given":
            ck.eq("given", s.Phi, corr_of(m))
        if ortho == "fixed":
            ck.close("fixed", np.abs(s.Phi), 0.5 ** np.abs(np.subtract.outer(np.arange(m), np.arange(m))), 1e-12)
        ck.eq("simple-structure", (s.L != 0).sum(1), np.ones(n_vars))
        rows = np.array_split(np.arange(n_vars), m)
        for j, rr in enumerate(rows):
            ck.expect("blocks", bool(np.all(s.L[rr, j] > 0)) and bool(np.all(np.diff(s.L[rr, j]) < 0)), "loadings of a block do not decrease")
            if rl == "fixed":
                ck.close("loadings", s.L[rr, j], np.linspace(1, 0.4, len(rr)), 1e-12)
            else:
                ck.expect("range", bool(np.all((s.L[rr, j] >= 0.4) & (s.L[rr, j] <= 0.9))), "outside the range")
        psi = np.diag(s.Psi)
        ck.eq("diagonal", s.Psi, np.diag(psi))
        if rp == "fixed":
            ck.close("residuals", psi, np.linspace(0.3, 0.7, n_vars), 1e-12)
        else:
            ck.expect("residual-range", bool(np.all((psi >= 0.3) & (psi <= 0.7))), "outside the range")
        ck.close("data", X, Z[:, :m] @ s.L.T + Z[:, m:], 1e-10)
        if exact:
            Zc = Z - Z.mean(0)
            C = Zc.T @ Zc
            want = sp.linalg.block_diag(s.Phi, s.Psi)
            k = C[0, 0] / want[0, 0]
            ck.close("exact", C / k, want, 1e-8)
            ck.expect("exact-scale", 38 < k < 41, f"{k}")

    rep.explore("simulation", simulation)

    def study(ck):
        kind = ck.choose("rotation", ["oblique", "ortho"])
        seed = ck.choose("seed", [1, 2])

        def build():
            return FactorEstimateSim(6, 2, sim_kws=dict(seed=seed), cov_kws=dict(factor_corr_kws=dict(rho=0.3)))
        a = build()
        a.simulate(2, 400, dict(n_factors=2, rotation_method="quartimax", rotation_type=kind))
        b = build()
        b.model_sim.simulate_data(n_obs=400, exact=False)
        for i in range(2):
            Z, X = b.model_sim.simulate_data(n_obs=400, exact=False)
            S = np.cov(X.T, bias=True)
            ck.close("cov", a.cov_mats[i], S, 1e-9)
            M = FA2(X, n_factors=2, rotation_method="quartimax", rotation_type=kind)
            M.fit()
            p, se = b.align_model(M)
            ck.close("params", a.params[i], p, 1e-3)
            ck.close("se", a.params_se[i], se, 1e-3)
            ck.close("chi2", a.chi2_table[i], M.chi2_table.values, 1e-4)
        L = b.model_sim.L
        ck.close("generating", a.res["Generative Values"].values, np.r_[vecF(L), tril_of(b.model_sim.Phi) if kind == "oblique" else [], np.diag(b.model_sim.Psi)], 1e-12)
        ck.close("mean", a.res["Mean"].values, a.params.mean(0), 1e-12)
        ck.close("sd", a.res["SE"].values, a.params.std(0), 1e-12)
        ck.close("sem", a.res["SEM"].values, a.params_se.mean(0), 1e-12)
        ck.expect("aligned", np.abs(a.params[:, :12] - vecF(L)).max() < 0.5, "estimates are not aligned with the generating loadings")

    rep.explore("study", study)
