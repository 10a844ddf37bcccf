"""C25: random generators for every outcome of the random source, and simulators."""
import collections
import itertools

import numpy as np


class Tape:
    """a random source whose draws are scripted; every draw is recorded with its parameters"""

    def __init__(self, pick):
        self.pick, self.log = pick, []

    def _draw(self, name, params, size):
        p = np.broadcast_arrays(*[np.asarray(v, float) for v in params]) if params else [np.zeros(())]
        shape = p[0].shape if size is None else tuple(np.atleast_1d(size))
        out = np.zeros(shape)
        pp = [np.broadcast_to(v, shape) for v in p]
        for ii in np.ndindex(*shape):
            par = tuple(float(v[ii]) for v in pp) if params else ()
            v = self.pick(name, par, len(self.log))
            self.log.append((name, par, v))
            out[ii] = v
        return float(out) if out.ndim == 0 else out

    def beta(self, a, b, size=None):
        return self._draw("beta", (a, b), size)

    def chisquare(self, df, size=None):
        return self._draw("chisquare", (df,), size)

    def standard_t(self, df, size=None):
        return self._draw("t", (df,), size)

    def standard_cauchy(self, size=None):
        return self._draw("cauchy", (), size)

    def gamma(self, shape, scale=1.0, size=None):
        return np.asarray(scale) * self._draw("gamma", (shape,), size)

    def standard_gamma(self, shape, size=None):
        return self._draw("gamma", (shape,), size)

    def binomial(self, n, p, size=None):
        return self._draw("binomial", (n, p), size)

    # location-scale families are recorded in standard form
    def standard_normal(self, size=None):
        return self._draw("normal", (), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return np.asarray(loc) + np.asarray(scale) * self._draw("normal", (), size)

    def multivariate_normal(self, mean, cov, size=None):
        mean = np.asarray(mean, float)
        n = () if size is None else tuple(np.atleast_1d(size))
        z = self._draw("normal", (), n + (len(mean),))
        return mean + z @ np.linalg.cholesky(np.asarray(cov, float)).T

    def exponential(self, scale=1.0, size=None):
        return np.asarray(scale) * self._draw("exponential", (), size)

    def standard_exponential(self, size=None):
        return self._draw("exponential", (), size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return np.asarray(low) + (np.asarray(high) - np.asarray(low)) * self._draw("uniform", (), size)

    def random(self, size=None):
        return self._draw("uniform", (), size)

    def by(self, name):
        return [(p, v) for n, p, v in self.log if n == name]


FAKED = ["beta", "chisquare", "gamma", "standard_gamma", "standard_normal", "normal", "exponential", "standard_exponential",
         "uniform", "random", "binomial", "standard_t", "standard_cauchy"]


class scripted:
    """run the compiled functions of a module as Python, drawing from the tape instead of numpy.random"""

    def __init__(self, module, tape):
        self.m, self.t = module, tape

    def __enter__(self):
        self.old = {}
        for n in dir(self.m):
            f = getattr(self.m, n)
            if hasattr(f, "py_func"):
                self.old[n] = f
                setattr(self.m, n, f.py_func)
        self.rnd = {n: getattr(np.random, n) for n in FAKED}
        for n in FAKED:
            setattr(np.random, n, getattr(self.t, n))
        return self.t

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.m, n, f)
        for n, f in self.rnd.items():
            setattr(np.random, n, f)


def run(rep, tier):
    import pandas as pd
    import scipy as sp
    import scipy.linalg
    from pystatsm.utilities import random as pr, tf_utils, linalg_operations as lo
    from pystatsm.pyglm2.model_sim import LinearModelSim
    from pystatsm.pylmm import sim_lmm2 as s2, sim_lmm as s1
    from pystatsm.pyfa.simulate_factor_model import FactorModelSim
    from pystatsm.pyscca.cca_sim import SimCCA
    from pystatsm.pyglmnet.sparse_model_sim import SparseRegressionModel
    from pystatsm.pylvcorr.sim_lvcorr import LVCorrSim, PolycoricSim
    big = tier == "thorough"
    rep.assumptions += ["samples with an exact covariance have more rows than variables", "random correlation matrices of the vine are claimed for two variables only beyond the recorded finding",
                        "legacy simulations (pyglm.glm_sim) take no seed"]

    def warm():
        for mu in (None, np.zeros(2)):
            for seed in (None, 1):
                pr.exact_rmvnorm(np.eye(2), 5, mu, seed)
        pr.vine_corr(3, seed=1), pr.vine_corr(3, 1.0, None, 1)
        pr.trnorm(*np.array([[0.0], [1.0], [-1.0], [1.0]]))
    rep.warm(warm)

    def corr_ok(ck, key, R, d, pd_=True):
        ck.expect(key + "/shape", R.shape == (d, d), str(R.shape))
        ck.close(key + "/symmetric", R, R.T, 1e-14)
        ck.close(key + "/unit", np.diag(R), np.ones(d), 1e-12)
        if pd_:
            ck.expect(key + "/psd", np.linalg.eigvalsh(R).min() > -1e-10, lambda: str(R))

    def smc(R, i):
        """squared multiple correlation of variable i on 0..i-1"""
        return R[i, :i] @ np.linalg.solve(R[:i, :i], R[:i, i])

    def partial(R, k, i):
        if k == 0:
            return R[0, i]
        ix = [k, i]
        C = R[np.ix_(ix, ix)] - R[np.ix_(ix, range(k))] @ np.linalg.solve(R[:k, :k], R[np.ix_(range(k), ix)])
        return C[0, 1] / np.sqrt(C[0, 0] * C[1, 1])

    # ----------------------------------------------------- correlation matrices
    def vine(ck):
        d = ck.choose("d", [2, 3, 4] + ([5] if big else []))
        eta = ck.choose("eta", [1.0, 2.5])
        grid = [0.1, 0.5, 0.85] if d < 4 else [0.3, 0.8]
        t = Tape(lambda name, par, i: ck.choose(f"draw{i}", grid))
        with scripted(pr, t):
            R = ck.call("vine", pr.vine_corr, d, eta)
        corr_ok(ck, "vine", R, d, pd_=False)
        draws = collections.defaultdict(list)
        for (a, b), v in t.by("beta"):
            ck.expect("vine/symmetric-law", a == b)
            draws[round(a, 9)].append(2 * v - 1)
        laws = [round(eta + (d - 1) / 2 - (k + 1) / 2, 9) for k in range(d - 1)]
        ck.eq("vine/laws", sorted(draws), sorted(set(laws)))
        for k in range(d - 1):
            key = f"partial{d}" if k else "first"
            try:
                got = sorted(partial(R, k, i) for i in range(k + 1, d))
            except np.linalg.LinAlgError:
                got = [np.nan] * (d - k - 1)
            ck.close(key, got, sorted(draws[laws[k]]), 1e-9)

    def vine_seed(ck):
        d = ck.choose("d", [2, 3, 5])
        seed = ck.choose("seed", [1, 2, 77])
        A, B = pr.vine_corr(d, seed=seed), pr.vine_corr(d, seed=seed)
        ck.eq("vine/reproducible", A, B)
        corr_ok(ck, "vine/seeded", A, d, pd_=False)

    def onion(ck):
        d = ck.choose("d", [2, 3, 4] + ([5] if big else []))
        eta = ck.choose("eta", [1.0, 3.0])
        dirs = [(1.0, 0.7, -0.4, 0.2), (-0.3, 2.0, 0.5, -1.0), (0.1, -1.0, -1.5, 0.8)]
        cur = {}

        def pick(name, par, i):
            if name == "beta":
                cur["d"], cur["k"] = None, 0
                return ck.choose(f"r{i}", [0.05, 0.5, 0.9] if d < 5 else [0.2, 0.9])
            if cur["d"] is None:
                cur["d"] = ck.choose(f"direction{i}", dirs)
            v = cur["d"][cur["k"]]
            cur["k"] += 1
            return v
        t = Tape(pick)
        with scripted(pr, t):
            R = ck.call("onion", pr.onion_corr, d, eta)
        corr_ok(ck, "onion", R, d)
        b = t.by("beta")
        ck.eq("onion/laws", [tuple(np.round(p, 9)) for p, _ in b],
              [(eta + (d - 2) / 2,) * 2] + [((i - 1) / 2, eta + (d - 2) / 2 - (i - 2) / 2) for i in range(3, d + 1)])
        ck.close("onion/first", R[0, 1], 2 * b[0][1] - 1, 1e-12)
        for i in range(2, d):
            ck.close("onion/multiple", smc(R, i), b[i - 1][1], 1e-8)

    def lkj(ck):
        d = ck.choose("dim", [1, 2, 3, 4, 5] + ([6] if big else []))
        eta = ck.choose("eta", [1.0, 2.5, (1.0, 4.0)])
        n = ck.choose("n", [1, 2])
        pat = ck.choose("beta pattern", [0, 1, 2])
        npat = ck.choose("normal pattern", [0, 1])
        bgrid = [0.1, 0.5, 0.9]
        seq = [0.7, -1.3, 0.4, 2.1, -0.6, 1.7, 0.9, -0.2, 1.1, -2.3, 0.33]

        def pick(name, par, i):
            if name == "beta":
                return bgrid[(i * (pat + 1) + pat) % 3]
            if name == "uniform":
                return (0.15 + 0.37 * i) % 1.0
            if name == "binomial":
                return float((i + npat) % 2)
            return seq[(i * (3 + npat) + npat) % len(seq)] * (1 + 0.01 * i)
        e = np.array(eta) if isinstance(eta, tuple) else eta
        m = len(eta) if isinstance(eta, tuple) else 1
        t = Tape(pick)
        L = ck.call("lkj/chol", pr.r_lkj_cholesky, e, n, d, rng=t)
        ck.eq("lkj/shape", L.shape, (n, m, d, d))
        if d > 1:
            want = [(k / 2, h + (d - 2) / 2 - (k - 1) / 2) for _ in range(n) for h in np.atleast_1d(eta) for k in range(1, d)]
            ck.close("lkj/laws", [p for p, _ in t.by("beta")], want, 1e-12)
            bv = np.array([v for _, v in t.by("beta")]).reshape(n, m, d - 1)
        R = ck.call("lkj", pr.r_lkj, e, n, d, rng=Tape(pick))
        for i in range(n):
            for j in range(m):
                ck.close("lkj/lower", np.triu(L[i, j], 1), np.zeros((d, d)), 0)
                ck.close("lkj/rows", (L[i, j] ** 2).sum(1), np.ones(d), 1e-12)
                ck.expect("lkj/diag", np.all(np.diag(L[i, j]) > 0))
                ck.close("lkj/product", R[i, j], L[i, j] @ L[i, j].T, 1e-12)
                corr_ok(ck, "lkj", R[i, j], d)
                for k in range(1, d):
                    ck.close("lkj/multiple", 1 - L[i, j][k, k] ** 2, bv[i, j, k - 1], 1e-12)
        # every normal draw moves one row only and row k (k > 2) depends on k of them: the directions are independent
        where = [i for i, (nm, _, _) in enumerate(t.log) if nm == "normal"]
        if d > 3 and where:
            dep = collections.Counter()
            for i in where:
                t2 = Tape(lambda name, par, q: pick(name, par, q) + (0.37 if q == i else 0.0))
                L2 = pr.r_lkj_cholesky(e, n, d, rng=t2)
                rows = sorted(set(map(tuple, np.argwhere(np.abs(L2 - L).max(-1) > 1e-12).tolist())))
                ck.expect("lkj/independent", len(rows) <= 1, f"draw {i} moves rows {rows}")
                dep.update(rows)
            for i, j, k in itertools.product(range(n), range(m), range(3, d)):
                ck.eq("lkj/row-draws", dep[(i, j, k)], k)

    def lkj_seed(ck):
        d = ck.choose("dim", [2, 3, 6])
        seed = ck.choose("seed", [0, 1, 5])
        A, B = pr.r_lkj(1.5, 2, d, seed=seed), pr.r_lkj(1.5, 2, d, rng=np.random.default_rng(seed))
        ck.eq("lkj/seed", A, B)
        ck.expect("lkj/seeds-differ", not np.allclose(A, pr.r_lkj(1.5, 2, d, seed=seed + 1)))
        for f in (pr._special_ortho, pr._ortho_norm):
            ck.eq("ortho/seed", f(d, seed=seed), f(d, rng=np.random.default_rng(seed)))

    def ortho(ck):
        d = ck.choose("dim", [1, 2, 3, 4])
        grid = [-1.5, 0.3, 2.0] if d < 4 else [-0.7, 1.2]
        t = Tape(lambda name, par, i: ck.choose(f"draw{i}", grid) * (1 + 0.05 * i))
        H = ck.call("special", pr._special_ortho, d, rng=t)
        ck.close("special/orthogonal", H @ H.T, np.eye(d), 1e-12)
        ck.close("special/det", np.linalg.det(H), 1.0, 1e-10)
        p = min(d, 2)
        t = Tape(lambda name, par, i: grid[(i * 2 + i // 3) % len(grid)] * (1 + 0.11 * i))
        Q = ck.call("ortho_norm", pr._ortho_norm, d, p, rng=t)
        ck.close("ortho_norm", Q.T @ Q, np.eye(p), 1e-12)
        M = np.array([v for _, v in t.by("normal")]).reshape(d, p)
        ck.close("ortho_norm/span", Q @ (Q.T @ M), M, 1e-12)

    def sphere(ck):
        dim = ck.choose("dim", [1, 2, 3, 4])
        shape = ck.choose("shape", [(1,), (2, 2)])
        t = Tape(lambda name, par, i: {"binomial": float(i % 2), "uniform": (0.1 + 0.23 * i) % 1}.get(name, [0.5, -2.0, 1.1][i % 3]))
        x = ck.call("sphere", tf_utils.spherical_uniform, shape, dim, t)
        ck.eq("sphere/shape", x.shape, shape + (dim,))
        ck.close("sphere/unit", (x ** 2).sum(-1), np.ones(shape), 1e-12)
        for n in (1, 2, 3, 4, 5):
            v = np.arange(1.0, n * (n + 1) // 2 + 1)
            for upper in (False, True):
                for batch in (v, np.stack([v, -v])):
                    T = ck.call("spiral", tf_utils.clockwise_spiral_fill_triangular, batch, upper)
                    tri = np.triu_indices(n) if upper else np.tril_indices(n)
                    Tz = T.copy()
                    Tz[..., tri[0], tri[1]] = 0
                    ck.expect("spiral/triangular", not Tz.any())
                    ck.eq("spiral/bijective", np.sort(T[..., tri[0], tri[1]], -1), np.sort(batch, -1))

    # --------------------------------------------------------- truncated normal
    INF = np.inf
    BOUNDS = [(-INF, INF), (-INF, 1.5), (-INF, -0.4), (-INF, 4.0), (0.3, INF), (2.5, INF), (-3.0, INF), (-0.5, 0.2), (0.5, 0.9), (-2.0, -1.2), (-2.0, 3.0), (1.0, 5.0), (-6.0, -2.0)]

    def truncnorm(ck):
        lb0, ub0 = ck.choose("standard bounds", BOUNDS)
        mu = ck.choose("mu", [0.0, 1.0, -2.5])
        sd = ck.choose("sd", [1.0, 0.5, 3.0])
        lb, ub = mu + sd * lb0, mu + sd * ub0

        def attempt(u, e):
            """outcome of a first proposal built from u, judged with the exponential draw e; a second proposal of another value is always taken"""
            state = {"n": 0}
            good = {"normal": 0.5 * (max(lb0, -4) + min(ub0, 4)), "uniform": 0.5, "exponential": 0.7}
            if lb0 == -INF and ub0 < INF:
                good["normal"] = -min(0.0, ub0) + 0.3       # proposals of an upper bounded draw are reflected
                good["normal"] = max(-ub0 + 0.3, 0.3)
            if lb0 > -INF and ub0 == INF:
                good["normal"] = max(lb0 + 0.3, 0.3)

            def pick(name, par, i):
                state["n"] += 1
                if i == 0:
                    return u
                if i == 1 and t.log[0][0] != "normal":
                    return e
                if name == "exponential" and t.log[-1][0] in ("uniform", "exponential") and i % 2 == 1:
                    return 1e6
                if i > 6:
                    raise RuntimeError("proposal that satisfies the bounds is not taken")
                return good[name]
            t = Tape(pick)
            with scripted(pr, t):
                x = pr.scalar_truncnorm(mu, sd, lb, ub)
            return x, t

        probe, t0 = ck.call("probe", attempt, 0.5, 1e6)
        kind = t0.log[0][0]
        ck.outcome(kind)
        ck.expect("bounds", lb <= probe <= ub, f"{probe} not in [{lb}, {ub}]")
        if kind == "normal":
            us = [-3.0, -1.1, -0.45, 0.1, 0.6, 1.3, 2.7]
            for u in us:
                x, t = ck.call("draw", attempt, u, 0.0)
                ck.expect("bounds", lb <= x <= ub, f"{x} not in [{lb}, {ub}] from {u}")
                z = (x - mu) / sd
                one = len(t.by("normal")) == 1
                inside = lb0 < u < ub0 if not (lb0 == -INF) else (lb0 < -u < ub0)
                ck.expect("normal/accept", one == inside, f"proposal {u} accepted={one} bounds {lb0} {ub0}")
                if one:
                    ck.close("normal/value", abs(z), abs(u), 1e-12)
                    ck.expect("normal/sign", lb0 > -INF and abs(z - u) < 1e-9 or lb0 == -INF, f"{z} {u}")
            return
        # rejection from another law: the acceptance threshold must turn it into the normal density
        us = [0.02, 0.2, 0.45, 0.7, 0.98] if kind == "uniform" else [0.05, 0.3, 0.9, 1.7, 3.0]
        vals = []
        for u in us:
            x, _ = ck.call("draw", attempt, u, 1e6)
            ck.expect("bounds", lb <= x <= ub, f"{x} not in [{lb}, {ub}]")
            lo_, hi = 0.0, 60.0       # accepted iff the exponential draw exceeds the threshold
            def taken(e):
                y, t = attempt(u, e)
                return len(t.log) == 2
            if taken(0.0):
                thr = 0.0
            else:
                for _ in range(45):
                    mid = 0.5 * (lo_ + hi)
                    lo_, hi = (lo_, mid) if taken(mid) else (mid, hi)
                thr = hi
            vals.append((x, thr))
        z = np.array([(x - mu) / sd for x, _ in vals])
        thr = np.array([v for _, v in vals])
        # proposal density up to a constant, from the map u -> z
        if kind == "uniform":
            ck.close("uniform/range", z, lb0 + (ub0 - lb0) * np.array(us), 1e-9)
            logg = np.zeros(len(z))
        else:
            rate = np.polyfit(us, np.abs(z), 1)[0]
            ck.close("exponential/linear", np.abs(z), np.abs(z[0]) + rate * (np.array(us) - us[0]), 1e-9)
            logg = -np.array(us)
        c = thr - z ** 2 / 2 - logg     # P(accept) = exp(-thr) must be proportional to phi(z) / g(z)
        ck.close("rejection/density", c, np.full(len(c), c[0]), 1e-6, msg=f"bounds {lb0, ub0} z={z}")

    def truncvec(ck):
        perm = ck.choose("rows", list(itertools.permutations(range(len(BOUNDS)), 2)))
        sd = ck.choose("sd", [0.01, 1.0, 40.0])
        mu = np.array([0.1, -7.7])
        lb = np.array([mu[i] + sd * BOUNDS[b][0] for i, b in enumerate(perm)])
        ub = np.array([mu[i] + sd * BOUNDS[b][1] for i, b in enumerate(perm)])
        pr.vine_corr(3, seed=1)       # seeds the random source of the compiled functions
        x = ck.call("trnorm", pr.trnorm, mu, np.full(2, sd), lb, ub)
        ck.expect("trnorm/bounds", np.all((x >= lb) & (x <= ub)), f"{x} {lb} {ub}")

    # ------------------------------------------------------- other generators
    COVS = {1: [np.eye(1), np.array([[2.5]])],
            2: [np.eye(2), np.array([[1.0, 0.6], [0.6, 1.0]]), np.array([[4.0, -1.0], [-1.0, 0.5]]), np.array([[1.0, 1.0], [1.0, 1.0]])],
            3: [np.eye(3), 0.7 ** sp.linalg.toeplitz(np.arange(3)), np.diag([1.0, 9.0, 0.25]) + 0.2, np.array([[2.0, 1, 1], [1, 2, 1], [1, 1, 1.0]])]}

    def wishart(ck):
        p = ck.choose("p", [1, 2, 3])
        V = ck.choose("V", [c for c in COVS[p] if np.linalg.det(c) > 1e-9])
        df = ck.choose("df", [p + 0.5, p + 3, 20])
        grid = [0.4, 2.0, 5.5] if p < 3 else [0.8, 4.0]
        ng = [-1.2, 0.6] if p < 3 else [-0.9, 1.4]
        what = ck.choose("kind", ["wishart", "inverse"])
        t = Tape(lambda name, par, i: ck.choose(f"draw{i}", grid if name in ("chisquare", "gamma") else ng))
        keep = V.copy()
        with scripted(pr, t):
            W = ck.call(what, pr.wishart if what == "wishart" else pr.r_invwishart, df, V)
        ck.eq("input", V, keep)
        ck.close("symmetric", W, W.T, 1e-10)
        S = V
        if what == "inverse":
            W, S = np.linalg.inv(W), np.linalg.inv(V)
        Li = np.linalg.inv(np.linalg.cholesky(S))
        B = Li @ W @ Li.T
        T = np.linalg.cholesky(0.5 * (B + B.T))
        chi = sorted((p_[0], v) for p_, v in t.by("chisquare"))
        ck.close("laws", [c[0] for c in chi], sorted(df - np.arange(p)), 1e-12)
        ck.close("bartlett/diagonal", sorted(zip(df - np.arange(p), np.diag(T) ** 2)), chi, 1e-8)
        ck.close("bartlett/off", np.sort(np.abs(T[np.tril_indices(p, -1)])), np.sort(np.abs([v for _, v in t.by("normal")])), 1e-8)

    def location_scale(ck):
        loc = ck.choose("loc", [0.0, 3.0, -10.0])
        scale = ck.choose("scale", [1.0, 0.2])
        nu = ck.choose("nu", [1, 4.0])
        vals = [0.5, -1.3, 2.0, 0.1]
        t = Tape(lambda name, par, i: vals[i % 4])
        ck.close("students_t", pr.students_t(loc, scale, nu, 4, rng=t), loc + scale * np.array(vals), 1e-14)
        ck.eq("students_t/law", {p for p, _ in t.by("t")}, {(float(nu),)})
        ck.close("cauchy", pr.cauchy(loc, scale, 4, rng=Tape(lambda n, p, i: vals[i % 4])), loc + scale * np.array(vals), 1e-14)
        p = ck.choose("p", [1, 2, 3])
        C = ck.choose("cov", [c for c in COVS[p] if np.linalg.det(c) > 1e-9])
        mean = loc + np.arange(p)
        cv = [0.5, 3.0]
        zv = [0.4, -1.1, 0.9, 2.2, -0.3, 1.6]
        k = {"normal": 0, "chisquare": 0}

        def pick(name, par, i):
            k[name] += 1
            return cv[(k[name] - 1) % 2] if name == "chisquare" else zv[(k[name] - 1) % 6]
        t = Tape(pick)
        X = ck.call("multivariate_t", pr.multivariate_t, mean, C, nu, 2, rng=t)
        Z = np.array([v for _, v in t.by("normal")]).reshape(2, p) @ np.linalg.cholesky(C).T
        ck.close("multivariate_t", X, mean + Z * np.sqrt(nu / np.array(cv))[:, None], 1e-12)
        ck.eq("multivariate_t/law", {q for q, _ in t.by("chisquare")}, {(float(nu),)})
        tg = Tape(lambda name, par, i: 0.8)
        with scripted(pr, tg):
            g = ck.call("invgamma", pr.r_invgamma, nu, 2.0)
        ck.close("invgamma", g, 2.0 / 0.8, 1e-12)
        ck.eq("invgamma/law", tg.log[0][1], (float(nu),))

    def exact(ck):
        p = ck.choose("p", [1, 2, 3])
        S = ck.choose("S", COVS[p])
        n = ck.choose("n", [p + 2, 7, 40])
        mu = ck.choose("mu", [None, np.arange(p) - 1.5])
        seed = ck.choose("seed", [0, 1, 12])
        keep = S.copy()
        X = ck.call("exact", pr.exact_rmvnorm, S, n, mu, seed)
        ck.eq("exact/input", S, keep)
        ck.eq("exact/shape", X.shape, (n, p))
        ck.close("exact/mean", X.mean(0), np.zeros(p) if mu is None else mu, 1e-10)
        ck.close("exact/cov", np.cov(X.T, bias=True).reshape(p, p), S, 1e-9)
        ck.eq("exact/reproducible", X, pr.exact_rmvnorm(S, n, mu, seed))
        ck.expect("exact/seeds-differ", not np.allclose(X, pr.exact_rmvnorm(S, n, mu, seed + 1)))

    # ------------------------------------------------------------- simulators
    def linear(ck):
        f = ck.choose("formula", ["x1+x2", "x1+x2+x3+C(x4)", "C(x1)", "x1*x2", "y~1+x1+C(x2)+C(x3)"])
        how = ck.choose("source", ["seed", "rng", "both"])
        nl = ck.choose("levels", [None, {}, {"x4": 3, "x1": 4, "x2": 3, "x3": 2}])
        n = ck.choose("n", [40, 120])
        s = ck.choose("seed value", [1, 9])
        given = None if nl is None else dict(nl)

        def make(s):
            kw = {"seed": {"seed": s}, "rng": {"rng": np.random.default_rng(s)}, "both": {"seed": s, "rng": np.random.default_rng(s + 5)}}[how]
            return LinearModelSim.from_formula(f, n, given, **kw)
        m, m2, m3 = ck.call("linear", make, s), make(s), make(s + 1)
        ck.eq("levels/untouched", given, nl)
        ck.eq("reproducible/data", m.data.values, m2.data.values)
        ck.eq("reproducible/corr", m.corr, m2.corr)
        ck.eq("reproducible/beta", m.beta, m2.beta)
        ck.expect("sources-differ", not np.allclose(m.Z1, m3.Z1))
        corr_ok(ck, "linear/corr", m.corr, m.n_var)
        ck.close("linear/exact", np.cov(m.Z1.T, bias=True).reshape(m.n_var, m.n_var), m.corr, 1e-8)
        cats = [m.x_vars[i] for i in m.cat_inds]
        ck.eq("linear/cats", sorted(cats), sorted(__import__("re").findall(r"C\((\w+)\)", f)))
        for v in m.x_vars:
            if v in cats:
                k = (nl or {}).get(v, 2)
                ck.eq("linear/levels", sorted(set(m.data[v])), list(range(k)))
                ck.expect("linear/balanced", np.ptp(np.bincount(m.data[v].astype(int))) <= 1, str(np.bincount(m.data[v].astype(int))))
            else:
                ck.eq("linear/continuous", m.data[v].values, m.Z1[:, m.x_vars.index(v)])
        ck.eq("linear/intercept", float(m.beta[m.term_name_slices["Intercept"]][0]), 0.0)
        ck.close("linear/linpred", np.asarray(m.linpred), m.X.values @ m.beta, 1e-12)
        ck.close("linear/var", m.linpred_var, np.var(m.X.values @ m.beta), 1e-12)
        if m.linpred_var < 1e-9:      # the only non-zero coefficient was that of the intercept
            ck.outcome("no predictor")
            return
        for r in (0.2, 0.5, 0.9):
            sc = m._get_var(m.linpred_var, r)
            ck.close("linear/rsq", m.linpred_var / (m.linpred_var + sc ** 2), r, 1e-12)
        b = m.beta.copy()
        m.rescale_coefs(2.5)
        ck.close("rescale/sd", np.std(m.X.values @ m.beta), 2.5, 1e-10)
        ck.close("rescale/direction", m.beta * (b @ b) ** 0.5, b * (m.beta @ m.beta) ** 0.5, 1e-10)
        ck.close("rescale/var", m.linpred_var, 6.25, 1e-10)

    def groupings(ck):
        n = ck.choose("n", [12, 24])
        a = ck.choose("levels a", [1, 2, 3, 4])
        b = ck.choose("levels b", [2, 3, 4, 6])
        k = ck.choose("per parent", [1, 2, 3])
        ca, cb = ck.choose("cycles", [("repeat", "tile"), ("tile", "repeat"), ("repeat", "repeat")])
        par = ck.choose("parent", ["a", "b"])
        L = {"a": a, "b": b}
        per = n // L[par]
        fs = [s2.Grouping("a", a, cycle=ca), s2.Grouping("b", b, cycle=cb), s2.Nested("c", par, k)]
        order = ck.choose("order", [(0, 1, 2), (2, 0, 1)])
        fs = [fs[i] for i in order]
        if n % a or n % b or per % k:
            try:
                s2.build_groupings(n, *fs)
                ck.fail("groupings/refused", "a layout that does not divide the rows is accepted")
            except ValueError:
                ck.expect("groupings/refused", True)
            return
        g = ck.call("groupings", s2.build_groupings, n, *fs)
        for name, m, cyc in (("a", a, ca), ("b", b, cb)):
            ck.eq("groupings/levels", np.bincount(g[name]).tolist(), [n // m] * m)
            want = [i // (n // m) for i in range(n)] if cyc == "repeat" else [i % m for i in range(n)]
            ck.eq("groupings/cycle", g[name], want)
        ck.eq("nested/levels", np.bincount(g["c"]).tolist(), [per // k] * (L[par] * k))
        ck.eq("nested/parent", g["c"] // k, g[par])

    def mixed(ck):
        lay = ck.choose("layout", ["one", "slope", "crossed", "nested"])
        n = 24
        Gs = ck.choose("scale", [1.0, 4.0])
        seed = ck.choose("seed", [1, 2])
        ratios = ck.choose("ratios", [None, (0.3, 0.3), (0.5, 0.2), (0.1, 0.8)])
        G2 = Gs * np.array([[1.0, -0.4], [-0.4, 0.5]])
        G1 = Gs * np.array([[0.7]])
        cov = s2.CovariateSpec(["x1", "x2"], np.array([0.5, -1.0]), np.array([[1.0, 0.3], [0.3, 2.0]]))
        beta = np.array([0.5, 1.0, -0.7])
        if lay == "one":
            form, Gd, grp = "y ~ 1 + x1 + x2 + (1 | g)", {"g": G1}, s2.build_groupings(n, s2.Grouping("g", 6))
        elif lay == "slope":
            form, Gd, grp = "y ~ 1 + x1 + x2 + (1 + x1 | g)", {"g": G2}, s2.build_groupings(n, s2.Grouping("g", 4, cycle="tile"))
        elif lay == "crossed":
            form, Gd = "y ~ 1 + x1 + x2 + (1 + x1 | g) + (1 | h)", {"g": G2, "h": G1}
            grp = s2.build_groupings(n, s2.Grouping("g", 4), s2.Grouping("h", 3, cycle="tile"))
        else:
            form, Gd = "y ~ 1 + x1 + x2 + (1 | h) + (1 + x2 | g)", {"g": G2, "h": G1}
            grp = s2.build_groupings(n, s2.Grouping("h", 3), s2.Nested("g", "h", 2))
        keepG = {k: v.copy() for k, v in Gd.items()}
        spec = ck.call("spec", s2.SimSpec.from_formula, form, n, beta, Gd, 0.8, grp, cov)
        order = [r.group_var for r in spec.ranef]
        sim = ck.call("sim", s2.MixedModelSim, spec, np.random.default_rng(seed))
        sim2 = s2.MixedModelSim(spec, np.random.default_rng(seed))
        if ratios is not None:
            sim, sim2 = ck.call("rescaled", sim.rescaled, *ratios), sim2.rescaled(*ratios)
        y, u = ck.call("draw", sim.draw)
        y2, u2 = sim2.draw()
        ck.eq("reproducible", np.r_[y, u], np.r_[y2, u2])
        ck.expect("draws-differ", not np.allclose(y, sim.draw()[0]))
        for k in Gd:
            ck.eq("spec/untouched", Gd[k], keepG[k])
        # the covariates have exactly the stated moments and the design is the formula's
        d = sim.df
        ck.close("covariates/mean", d[["x1", "x2"]].mean().values, cov.mean, 1e-10)
        ck.close("covariates/cov", np.cov(d[["x1", "x2"]].values.T, bias=True), cov.cov, 1e-9)
        ck.close("design/X", sim.X, np.c_[np.ones(n), d["x1"], d["x2"]], 1e-12)
        terms = {"one": [("g", ["1"])], "slope": [("g", ["1", "x1"])], "crossed": [("g", ["1", "x1"]), ("h", ["1"])], "nested": [("h", ["1"]), ("g", ["1", "x2"])]}[lay]
        ck.eq("terms", order, [t for t, _ in terms])
        sc = 1.0
        Zs, Gb, sizes = [], [], []
        for r, (gname, cols) in zip(sim.spec.ranef, terms):
            m = np.asarray(grp[gname])
            ng = len(set(m))
            c = np.stack([np.ones(n) if q == "1" else d[q].values for q in cols], 1)
            Z = np.zeros((n, ng * len(cols)))
            for i in range(n):
                Z[i, m[i] * len(cols):(m[i] + 1) * len(cols)] = c[i]
            Zs.append(Z)
            Gb.append(np.kron(np.eye(ng), r.G))
            sizes.append((ng, len(cols)))
        Z, G = np.hstack(Zs), sp.linalg.block_diag(*Gb)
        ck.close("design/Z", sim.Z.toarray(), Z, 1e-12)
        ck.close("theta", sim.theta_true, np.concatenate([lo.vech(r.G) for r in sim.spec.ranef] + [[sim.spec.resid_var]]), 1e-12)
        vf, vr = ck.call("components", sim.variance_components)
        ck.close("components/fixed", vf, np.var(sim.X @ beta), 1e-10)
        ck.close("components/random", vr, np.mean(np.diag(Z @ G @ Z.T)), 1e-10)
        if ratios is not None:
            tot = vf + vr + sim.spec.resid_var
            ck.close("ratios", [vf / tot, vr / tot], ratios, 1e-10)
        # exact draws
        y, u = ck.call("draw/exact", sim.draw, exact_ranefs=True, exact_resids=True)
        e = y - sim.X @ beta - Z @ u
        ck.close("exact/resid-mean", e.mean(), 0.0, 1e-10)
        ck.close("exact/resid-var", e.var(), sim.spec.resid_var, 1e-10)
        start = 0
        for r, (ng, q) in zip(sim.spec.ranef, sizes):
            U = u[start:start + ng * q].reshape(ng, q)
            start += ng * q
            if ng > q + 1:
                ck.close("exact/ranef-mean", U.mean(0), np.zeros(q), 1e-9)
                ck.close("exact/ranef-cov", np.cov(U.T, bias=True).reshape(q, q), r.G, 1e-8)
        mod = ck.call("to_lmm", sim.to_lmm, y)
        ck.eq("to_lmm/y", np.asarray(mod.y).reshape(-1) if hasattr(mod, "y") else y, y)

    def legacy(ck):
        G = ck.choose("G", [np.array([[1.0]]), np.array([[1.0, -0.5], [-0.5, 2.0]])])
        exact_r, exact_e = ck.flag("exact ranefs"), ck.flag("exact residuals")
        seed = ck.choose("seed", [1, 4])
        rsq = ck.choose("rsq", [None, 0.3, 0.9])
        f = "y~x1+x2+(1|id1)" if len(G) == 1 else "y~x1+x2+(1+x2|id1)"
        n = 30
        md = dict(gcov={"id1": G}, ginfo={"id1": dict(n_grp=6, n_per=5)}, mu=np.zeros(2), vcov=np.eye(2), beta=np.array([0.3, 1.0, -1.0]), n_obs=n)
        keep = {"gcov": {"id1": G.copy()}, "keys": sorted(md)}
        sim = ck.call("legacy", s1.MixedModelSim, f, md, np.random.default_rng(seed))
        sim2 = s1.MixedModelSim(f, md, np.random.default_rng(seed))
        a, ua = ck.call("legacy/response", sim.simulate_response, rsq=rsq, exact_ranefs=exact_r, exact_resids=exact_e)
        b, ub = sim2.simulate_response(rsq=rsq, exact_ranefs=exact_r, exact_resids=exact_e)
        ck.eq("legacy/reproducible", np.r_[a, ua], np.r_[b, ub])
        ck.eq("legacy/dict", md["gcov"]["id1"], keep["gcov"]["id1"])
        ck.eq("legacy/keys", sorted(md), keep["keys"])
        X = np.c_[np.ones(n), sim.df["x1"], sim.df["x2"]]
        Z = np.zeros((n, 6 * len(G)))
        for i in range(n):
            Z[i, (i // 5) * len(G):(i // 5 + 1) * len(G)] = X[i, [0, 2][:len(G)]]
        ck.close("legacy/X", sim.X, X, 1e-12)
        ck.close("legacy/Z", sim.Z, Z, 1e-12)
        ck.close("legacy/G", sim.G.toarray(), np.kron(np.eye(6), G), 1e-12)
        eta = X @ md["beta"] + Z @ ua
        if exact_r:
            U = ua.reshape(6, -1)
            ck.close("legacy/ranef-cov", np.cov(U.T, bias=True).reshape(G.shape), G, 1e-8)
        if exact_e:
            r = 0.64 if rsq is None else rsq
            ck.close("legacy/rsq", np.var(eta) / (np.var(eta) + np.var(a - eta)), r, 1e-10)
            ck.close("legacy/resid-mean", np.mean(a - eta), 0.0, 1e-10)
        # residuals follow the distribution handed in (a skewed one)
        draws = np.r_[np.zeros(n - 4), 1.0, 2.0, 3.0, 9.0]
        y, u = ck.call("legacy/response", sim.simulate_response, rsq=rsq, exact_ranefs=exact_r, exact_resids=exact_e,
                       resid_dist=lambda loc, scale, size: loc + scale * draws)
        eta = X @ md["beta"] + Z @ u
        s = np.sqrt((1 - (rsq or 0.64)) / (rsq or 0.64) * np.var(eta))
        ck.close("legacy/residuals", y - eta, s * ((draws - draws.mean()) / draws.std() if exact_e else draws), 1e-9)

    def factor(ck):
        p, m = ck.choose("shape", [(3, 1), (4, 2), (6, 2), (6, 3), (7, 3)])
        rl, rp, ru = ck.flag("random loadings"), ck.flag("random factor correlations"), ck.flag("random uniquenesses")
        seed = ck.choose("seed", [1, 3])

        def make():
            s = FactorModelSim(p, m, seed=seed)
            s.simulate_cov(dict(random=rl), dict(random=rp), dict(random=ru))
            return s, s.simulate_data(40, True), s.simulate_data(12, False)
        s, (Z, X), (Z2, X2) = ck.call("factor", make)
        t, (Zb, Xb), (Zc, Xc) = make()
        ck.eq("factor/reproducible", np.r_[X.ravel(), X2.ravel()], np.r_[Xb.ravel(), Xc.ravel()])
        ck.eq("factor/L", s.L.shape, (p, m))
        ck.expect("factor/simple", np.all((s.L != 0).sum(1) == 1))
        corr_ok(ck, "factor/Phi", np.asarray(s.Phi), m)
        ck.close("factor/Sigma", s.Sigma, s.L @ s.Phi @ s.L.T + s.Psi, 1e-12)
        ck.close("factor/exact", np.cov(X.T, bias=True).reshape(p, p), s.Sigma, 1e-8)
        ck.close("factor/scores", Z[:, :m] @ s.L.T + Z[:, m:], X, 1e-12)
        ck.close("factor/joint", np.cov(Z.T, bias=True), sp.linalg.block_diag(s.Phi, s.Psi), 1e-8)

    def cancorr(S, p):
        a, b = S[:p, :p], S[p:, p:]
        M = np.linalg.solve(np.linalg.cholesky(a), S[:p, p:]) @ np.linalg.inv(np.linalg.cholesky(b)).T
        return np.linalg.svd(M, compute_uv=False)

    def cca(ck):
        p, q = ck.choose("shape", [(1, 1), (1, 3), (2, 2), (2, 4), (3, 3)])
        seed = ck.choose("seed", [1, 2, 3])
        rho = ck.choose("rhos", [None, "few"])
        rh = None if rho is None else np.array([0.8, 0.5, 0.1])[:p]
        s = ck.call("cca", SimCCA, p, q, rh, seed=seed)
        s2_ = SimCCA(p, q, rh, seed=seed)
        ck.eq("cca/reproducible", s.S, s2_.S)
        want = 1 / (np.linspace(1, p, p) + 1 / 19) if rh is None else rh
        ck.close("cca/correlations", cancorr(s.S, p)[:p], want, 1e-8)
        ck.close("cca/blocks", s.S, np.block([[s.Sxx, s.Sxy], [s.Sxy.T, s.Syy]]), 1e-12)
        ck.close("cca/x", s.Wx.T @ s.Sxx @ s.Wx, np.eye(p), 1e-8)
        ck.close("cca/cross", (s.Wx.T @ s.Sxy @ s.Wy)[:, :p], np.diag(want), 1e-8)
        corr_ok(ck, "cca/S", s.S, p + q)
        X, Y = ck.call("cca/data", s.simulate_data, 30, True)
        ck.close("cca/exact", np.cov(np.c_[X, Y].T, bias=True), s.S, 1e-8)
        Xa, Ya = s.simulate_data(9, False)
        s2_.simulate_data(30, True)
        Xb, Yb = s2_.simulate_data(9, False)
        ck.eq("cca/sample", np.c_[Xa, Ya], np.c_[Xb, Yb])
        ck.close("cca/standardised", np.r_[Xa.mean(0), Xa.std(0) - 1], np.zeros(2 * p), 1e-10)

    def sparse(ck):
        n, p, k = ck.choose("shape", [(30, 4, 2), (30, 5, 3), (12, 20, 5)])
        seed = ck.choose("seed", [1, 2])
        rsq = ck.choose("rsq", [None, 0.2, 0.8])
        dist = ck.choose("response", ["gaussian", "binomial"])
        ns = ck.choose("samples", [1, 3])
        m, m2 = ck.call("sparse", SparseRegressionModel, n, p, k, rsq=rsq, seed=seed), SparseRegressionModel(n, p, k, rsq=rsq, seed=seed)
        y, y2 = ck.call("sparse/y", m.simulate_dependent, dist, ns), m2.simulate_dependent(dist, ns)
        ck.eq("sparse/reproducible", y, y2)
        ck.eq("sparse/shape", y.shape, (n,) if ns == 1 else (n, ns))
        ck.eq("sparse/nonzero", int((m.beta != 0).sum()), k)
        ck.close("sparse/scaled", (m.X ** 2).mean(0), np.ones(p), 1e-10)
        ck.close("sparse/linpred", m.lpred, m.X @ m.beta, 1e-12)
        r = 0.5 if rsq is None else rsq
        ck.close("sparse/rsq", np.var(m.lpred) / (np.var(m.lpred) + m.resid_scale ** 2), r, 1e-10)
        if dist == "binomial":
            ck.expect("sparse/binary", set(np.unique(y)) <= {0.0, 1.0})

    def ordinal(ck):
        r = ck.choose("r", [-0.6, 0.0, 0.8])
        xb = ck.choose("x", [np.array([0.5]), np.array([0.2, 0.7]), 3])
        yb = ck.choose("y", [np.array([0.5]), np.array([0.3, 0.6, 0.8]), 2, False])
        n = ck.choose("n", [20, 41])
        R = np.array([[1.0, r], [r, 1.0]])
        mk = lambda s: LVCorrSim(R, xb, yb, np.random.default_rng(s)).simulate(n)
        (x, y), (x2, y2) = ck.call("lvcorr", mk, 3), mk(3)
        ck.eq("lvcorr/reproducible", np.c_[x, y], np.c_[x2, y2])
        Z = np.random.default_rng(3).multivariate_normal(np.zeros(2), R, size=n)
        cuts = lambda z, b: np.quantile(z, np.arange(1, b + 1) / (b + 1) if isinstance(b, int) and not isinstance(b, bool) else b)
        ck.eq("lvcorr/x", x, [(v >= cuts(Z[:, 0], xb)).sum() for v in Z[:, 0]])
        if yb is False:
            ck.eq("lvcorr/y", y, Z[:, 1])
        else:
            ck.eq("lvcorr/y", y, [(v >= cuts(Z[:, 1], yb)).sum() for v in Z[:, 1]])
        taus = {0: np.array([-np.inf, -0.3, 0.4, np.inf]), 1: np.array([-np.inf, 0.1, np.inf])}
        Zp, Y = ck.call("polychoric", PolycoricSim(R, taus, np.random.default_rng(5)).simulate_data, n)
        for j in (0, 1):
            ck.eq("polychoric/codes", Y[:, j], [(v >= taus[j]).sum() for v in Zp[:, j]])

    for nm, f in [("vine", vine), ("vine-seed", vine_seed), ("onion", onion), ("lkj", lkj), ("lkj-seed", lkj_seed), ("ortho", ortho), ("sphere", sphere),
                  ("truncnorm", truncnorm), ("truncvec", truncvec), ("wishart", wishart), ("location-scale", location_scale), ("exact", exact),
                  ("linear", linear), ("groupings", groupings), ("mixed", mixed), ("legacy", legacy), ("factor", factor), ("cca", cca), ("sparse", sparse), ("ordinal", ordinal)]:
        rep.explore(nm, f)
