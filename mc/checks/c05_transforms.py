"""C05: parameter transforms round-trip, reach exactly the admissible set, and carry
correct first and second derivatives, alone, stacked and composed."""
import itertools

import numpy as np

from ..lib.mixed import invech, vech


def fdj(f, x, h=1e-6):
    x = np.asarray(x, float)
    return np.stack([(np.asarray(f(x + h * e)) - np.asarray(f(x - h * e))) / (2 * h) for e in np.eye(len(x))], -1)


def vecl(S):
    n = S.shape[0]
    return np.array([S[i, j] for j in range(n) for i in range(j + 1, n)])


def invecl(v, n):
    S = np.eye(n)
    k = 0
    for j in range(n):
        for i in range(j + 1, n):
            S[i, j] = S[j, i] = v[k]
            k += 1
    return S


def full(ck, key, T, x, u, tol=1e-8, dt=2e-5, hess=True):
    """T.fwd(x)=u, T.rvs(u)=x, derivatives of both directions"""
    u = np.asarray(u, float)
    x0, u0 = x.copy(), u.copy()
    ck.close(key + "/fwd(rvs)", ck.call(key, T.fwd, x), u, tol)
    ck.close(key + "/rvs(fwd)", ck.call(key, T.rvs, u), x, tol)
    Jf, Jr = ck.call(key + "/jac_fwd", T.jac_fwd, x), ck.call(key + "/jac_rvs", T.jac_rvs, u)
    ck.close(key + "/jac_fwd", Jf, fdj(T.fwd, x), dt)
    ck.close(key + "/jac_rvs", Jr, fdj(T.rvs, u), dt)
    if Jf is not None and Jr is not None:
        ck.close(key + "/inverse jacobians", np.asarray(Jf) @ np.asarray(Jr), np.eye(len(x)), 1e-6)
    if hess:
        ck.close(key + "/hess_fwd", ck.call(key + "/hess_fwd", T.hess_fwd, x), fdj(T.jac_fwd, x), dt)
        ck.close(key + "/hess_rvs", ck.call(key + "/hess_rvs", T.hess_rvs, u), fdj(T.jac_rvs, u), dt)
    ck.expect(key + "/argument untouched", np.array_equal(x, x0) and np.array_equal(u, u0))


class Pub:
    """public-style face for the legacy classes"""

    def __init__(self, T):
        self.fwd, self.rvs = T._fwd, T._rvs
        self.jac_fwd, self.jac_rvs = T._jac_fwd, T._jac_rvs
        self.hess_fwd, self.hess_rvs = T._hess_fwd, T._hess_rvs


def run(rep, tier):
    from pystatsm.utilities import cov_transform as ct, dchol as dc, param_transforms as pt, unconstrained_chol as uc
    big = tier == "thorough"
    one = np.array([0.3])
    rep.warm(lambda: (pt.CholeskyCov(2).hess_rvs(pt.CholeskyCov(2).fwd(vech(np.eye(2) + .1))), pt.CholeskyCov(2).hess_fwd(vech(np.eye(2) + .1)), uc.fwd(one)))

    elem = {"log": (pt.LogTransform, np.log), "tanh": (pt.TanhTransform, np.arctanh), "identity": (pt.IdentityTransform, lambda x: x),
            "ordered": (pt.OrderedTransform, lambda x: np.r_[x[:1], np.log(np.diff(x))])}
    grid = [-1.5, -0.2, 0.0, 0.9]

    def elementwise(ck):
        k = ck.choose("transform", list(elem))
        n = ck.choose("size", [1, 2, 3, 4] if big else [1, 2, 3])
        u = np.array(ck.choose("point", list(itertools.product(grid, repeat=n))))
        T = elem[k][0]()
        x = ck.must("rvs", T.rvs, u)
        ck.close("definition", elem[k][1](x), u, 1e-10)
        if k == "ordered":
            ck.expect("ordered", np.all(np.diff(x) > 0))
        full(ck, k, T, x, u)
        if n == 1 and k != "ordered":
            s, t = float(x[0]), float(u[0])
            ck.close("scalar", [T.fwd(s), T.rvs(t), T.jac_fwd(s), T.jac_rvs(t), T.hess_fwd(s), T.hess_rvs(t)],
                     [t, s, T.jac_fwd(x)[0, 0], T.jac_rvs(u)[0, 0], T.hess_fwd(x)[0, 0, 0], T.hess_rvs(u)[0, 0, 0]], 1e-9)
        if k == "ordered" or k == "log":
            xi = np.cumsum(np.arange(1, n + 1))           # integer-valued input
            for meth in ("fwd", "jac_fwd", "hess_fwd"):
                ck.close("integers/" + meth, getattr(T, meth)(xi), getattr(T, meth)(xi.astype(float)), 1e-12)
            for meth in ("rvs", "jac_rvs"):
                ck.close("integers/" + meth, getattr(T, meth)(xi), getattr(T, meth)(xi.astype(float)), 1e-12)
    rep.explore("elementwise", elementwise)

    def covs(ck):
        """every sign/magnitude pattern of a covariance matrix"""
        fam = ck.choose("family", ["current", "legacy"])
        n = ck.choose("size", [1, 2, 3, 4])
        m = n * (n - 1) // 2
        vals = {1: [0.0], 2: [-0.95, -0.5, 0.0, 0.3, 0.9], 3: [-0.6, 0.0, 0.3, 0.8], 4: [-0.35, 0.0, 0.5] if big else [-0.35, 0.4]}[n]
        rho = np.array(ck.choose("correlations", list(itertools.product(vals, repeat=m))))
        sc = ck.choose("variances", ["unit", "mixed"] if n < 4 else ["mixed"])
        R = invecl(rho, n)
        ck.require(np.linalg.eigvalsh(R)[0] > 0.03)
        s = np.ones(n) if sc == "unit" else np.array([2.0, 0.4, 1.3, 0.7])[:n]
        S = R * np.outer(s, s)
        x = vech(S)
        mod = pt if fam == "current" else ct
        wrap = (lambda T: T) if fam == "current" else Pub
        T = wrap(mod.CholeskyCov(n))
        if fam == "current":
            u = ck.must("fwd", T.fwd, x)
            ck.close("cov/log variances", u[[k for k, (i, j) in enumerate([(i, j) for j in range(n) for i in range(j, n)]) if i == j]], np.log(s ** 2), 1e-10)
        else:
            u = ck.must("fwd", T.fwd, x)
        full(ck, "cov", T, x, u, dt=1e-4)
        C = wrap(mod.CovCorr(n))
        y = np.where([i == j for j in range(n) for i in range(j, n)], vech(S), vech(R))
        full(ck, "covcorr", C, x, y, dt=5e-5)
        L = wrap(mod.LogScale(n))
        full(ck, "logscale", L, x, np.where([i == j for j in range(n) for i in range(j, n)], np.log(np.abs(x) + 1e-300), x))
        if n > 1:
            K = wrap(mod.CorrCholesky(n))
            full(ck, "corrchol", K, vecl(R), vecl(np.linalg.cholesky(R)), dt=1e-4)
            if fam == "current":
                U = mod.UnconstrainedCholeskyCorr(n)
                z = vecl(np.linalg.cholesky(R))
                full(ck, "unconstrained", U, z, ck.must("unconstrained", U.fwd, z), dt=1e-4)
                M = mod.OffDiagMask(U)
                y2 = vech(np.linalg.cholesky(R)).copy()
                y2[[k for k, (i, j) in enumerate([(i, j) for j in range(n) for i in range(j, n)]) if i == j]] = s
                full(ck, "mask", M, y2, ck.must("mask", M.fwd, y2), dt=1e-4)
            else:
                U = wrap(mod.UnconstrainedCholeskyCorr(n))
                z = vecl(np.linalg.cholesky(R))
                full(ck, "legacy-unconstrained", U, z, ck.must("unconstrained", U.fwd, z), dt=1e-4)
    rep.explore("covariance", covs)

    def reals(ck):
        """every real vector of a grid maps to a positive-definite matrix and back"""
        n = ck.choose("size", [1, 2, 3])
        g = {1: [-3, -1, 0, 1, 3.0], 2: [-2.5, -1, 0, 0.7, 2.0], 3: [-2.0, 0.0, 1.0] if not big else [-2.0, -0.5, 0.0, 1.0]}[n]
        u = np.array(ck.choose("point", list(itertools.product(g, repeat=n * (n + 1) // 2))), float)
        T = pt.CholeskyCov(n)
        x = ck.must("rvs", T.rvs, u)
        S = invech(x)
        ck.expect("positive definite", np.linalg.eigvalsh(S)[0] > 0, lambda: f"{S}")
        ck.close("back", T.fwd(x), u, 1e-6)
    rep.explore("unconstrained", reals)

    def composed(ck):
        n = ck.choose("size", [1, 2, 3])
        seq = ck.choose("sequence", [s for d in (1, 2, 3) for s in itertools.product(elem, repeat=d)])
        u = np.array([0.3, -0.4, 0.2])[:n] * ck.choose("scale", [1.0, -0.7])
        T = pt.ComposedTransform([elem[k][0]() for k in seq])
        x = u
        for k in reversed(seq):
            x = elem[k][0]().rvs(x)
        ck.require(np.max(np.abs(T.jac_fwd(x))) < 300)       # away from the boundary of the domain
        full(ck, "composed", T, x, u)
    rep.explore("composed", composed)

    specs = ["sizes", "slices", "tuples", "gap-front", "gap-middle", "gap-end"]

    def combined(ck):
        parts = ck.choose("parts", [("log", 2), ("log", 1, "ordered", 3), ("tanh", 2, "cov", 2), ("cov", 1, "cov", 2), ("ordered", 2, "identity", 1, "log", 2), ("cov", 3, "log", 1)])
        how = ck.choose("ranges", specs)
        Ts, sizes = [], []
        for k, n in zip(parts[::2], parts[1::2]):
            Ts.append(pt.CholeskyCov(n) if k == "cov" else elem[k][0]())
            sizes.append(n * (n + 1) // 2 if k == "cov" else n)
        ranges, pos = [], 0
        for i, sz in enumerate(sizes):
            if (how == "gap-front" and i == 0) or (how == "gap-middle" and i == 1):
                pos += 2
            ranges.append((pos, pos + sz))
            pos += sz
        N = pos + (2 if how == "gap-end" else 0)
        arg = sizes if how == "sizes" else ([slice(*r) for r in ranges] if how == "slices" else ranges)
        T = ck.must("combined", pt.CombinedTransform, Ts, arg)
        u = ck.rng("u").uniform(-0.6, 0.6, N)
        x = u.copy()
        for (a, b), t in zip(ranges, Ts):
            x[a:b] = t.rvs(u[a:b])
        full(ck, "combined", T, x, u, dt=1e-4)
        sh = ck.choose("batch", [(2,), (2, 3), (1, 1)])
        X = np.empty(sh + (N,))
        Uu = np.empty(sh + (N,))
        for ix in np.ndindex(sh):
            Uu[ix] = u * (1 - 0.1 * sum(ix))
            X[ix] = T.rvs(Uu[ix])
        for nm, arr in (("fwd", X), ("rvs", Uu), ("jac_fwd", X), ("jac_rvs", Uu), ("hess_fwd", X), ("hess_rvs", Uu)):
            got = ck.call("batch/" + nm, getattr(T, nm), arr)
            ck.close("batch/" + nm, got, np.stack([getattr(T, nm)(a) for a in arr.reshape(-1, N)]).reshape(np.shape(got)), 1e-12)
    rep.explore("combined", combined)

    def chol(ck):
        n = ck.choose("size", [1, 2, 3, 4])
        order = ck.choose("order", [0, 1, 2])
        which = ck.choose("matrix", range(6 if big else 3))
        A = ck.rng("A", which).normal(size=(n, n))
        M = A @ A.T + np.diag([1.0, 0.5, 2.0, 1.5][:n])
        dM, d2M = dc.unit_matrices(n)
        r = ck.must("dchol", dc.dchol, M, dM, d2M, order=order)
        L = r[0]
        ck.close("L", L, np.linalg.cholesky(M), 1e-10)
        m = n * (n + 1) // 2

        def f(v):
            return np.linalg.cholesky(invech(v))
        if order >= 1:
            ck.close("dL", r[1], fdj(f, vech(M)), 1e-5)
        if order == 2:
            h = 1e-4
            x = vech(M)
            want = np.zeros((n, n, m, m))
            I = np.eye(m) * h
            for a in range(m):
                for b in range(m):
                    want[:, :, a, b] = (f(x + I[a] + I[b]) - f(x + I[a] - I[b]) - f(x - I[a] + I[b]) + f(x - I[a] - I[b])) / (4 * h * h)
            ck.close("d2L", r[2], want, 1e-4)
        if n > 1:
            k = n * (n - 1) // 2
            x = ck.rng("x", which).uniform(-1, 1, k)
            z = ck.must("uc.rvs", uc.rvs, x)
            ck.close("uc/roundtrip", uc.fwd(z), x, 1e-9)
            Lz = invecl(z, n)
            ck.expect("uc/rows inside unit ball", all(np.sum(Lz[i, :i] ** 2) < 1 for i in range(n)))
            ck.close("uc/jac_rvs", uc.jac_rvs(x), fdj(uc.rvs, x), 1e-6)
            ck.close("uc/jac_fwd", uc.jac_fwd(z), fdj(uc.fwd, z), 1e-5)
            ck.close("uc/hess_rvs", uc.hess_rvs(x), fdj(uc.jac_rvs, x), 1e-5)
            ck.close("uc/hess_fwd", uc.hess_fwd(z), fdj(uc.jac_fwd, z), 1e-4)
    rep.explore("cholesky-derivatives", chol)
