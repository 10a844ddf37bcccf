"""C08: mixed-model likelihood, gradient, Hessian, fixed and random effects equal
the dense definition for every grouping of a small data set."""
import numpy as np
import pandas as pd

from ..lib.mixed import Dense, partitions, pd_theta

TOL = 1e-7


def _data(ck, n):
    r = ck.rng("data", n)
    return dict(y=r.normal(size=n) * 2, w=r.normal(size=n), x=r.uniform(0.5, 2, n) * r.choice([-1, 1], n),
                v=r.uniform(0.5, 2, n) * r.choice([-1, 1], n))


def first_app(s):
    m = {}
    return [m.setdefault(v, len(m)) for v in s]


def check_lmm2(ck, key, m, ref, thetas, deep=True):
    first = {}
    for rnd, th in enumerate(thetas + thetas[:1]):
        for reml in (True, False):
            want = ref.eval(th, reml)
            k = f"{key}/{'reml' if reml else 'ml'}"
            ll = ck.call(k + "/loglike", m.loglike, th, reml)
            ck.close(k + "/loglike", ll, want["ll"], TOL)
            g = ck.call(k + "/gradient", m.gradient, th, reml)
            ck.close(k + "/gradient", g, want["grad"], TOL)
            g2 = ck.call(k + "/gradient_v2", m.gradient_v2, th, reml)
            ck.close(k + "/gradient_v2", g2, want["grad"], TOL)
            if rnd == 0:
                first[reml] = ll
            elif rnd == len(thetas) and ll is not None:
                ck.close(k + "/revisit", ll, first[reml], 1e-12)
        if not deep:
            continue
        # the mixed-model equations: [L11 0; L21 L22] is a square root of the joint cross products, and P, V^-1 act as such
        mme, s2 = m.mme, th[-1]
        Xy = np.c_[ref.X, ref.y]
        fac = ck.call(key + "/factor", mme.update_chol, th)
        if fac is not None:
            L11, L21, L22 = (np.asarray(f.todense() if hasattr(f, "todense") else f) for f in fac)
            Lj = np.block([[L11, np.zeros((len(L11), len(L22)))], [L21, L22]])
            J = np.block([[ref.Z.T @ ref.Z / s2 + np.linalg.inv(ref.G(th)), ref.Z.T @ Xy / s2], [Xy.T @ ref.Z / s2, Xy.T @ Xy / s2]])
            ck.close(key + "/factor", Lj @ Lj.T, J, TOL)
        m.gradient_v2(th, True)
        v = np.cos(1.0 + np.arange(len(ref.y)))
        ck.close(key + "/vinv", ck.call(key + "/vinv", mme.vinv_apply, v, th), want["Vi"] @ v, TOL)
        ck.close(key + "/p", ck.call(key + "/p", mme.p_apply, v, th, want["C"]), want["P"] @ v, TOL)
        ck.close(key + "/p ml", ck.call(key + "/p", mme.p_apply, v, th, want["C"], False), want["Vi"] @ v, TOL)
        e = ck.call(key + "/effects", m.compute_effects, th)
        if e is not None:
            ck.close(key + "/beta", e[0], want["beta"], TOL)
            ck.close(key + "/cov", e[1], want["C"], TOL)
            ck.close(key + "/u", e[2], want["u"], TOL)
        XV = ck.call(key + "/vinvcrossprod", m.vinvcrossprod, ref.X, ref.Z[:, :1], th)
        ck.close(key + "/vinvcrossprod", XV, ref.X.T @ want["Vi"] @ ref.Z[:, :1], TOL)


def run(rep, tier):
    from pystatsm.pylmm.re_mod import LMM2, MMEBlocked, RandomEffects
    from pystatsm.pylmm.lmm import LMM
    big = tier == "thorough"
    N = 6 if big else 5
    parts = partitions(N)

    def one(ck):
        n = N
        g = ck.choose("grouping", parts)
        st = ck.choose("random part", ["1", "0+x", "1+x"])
        thr = ck.choose("solver", [2.0, 0.0])
        zero = ck.choose("zero covariate rows", [0] if st == "1" else (range(2 ** n) if big or (thr and st == "1+x") else [0, 1, 7, 22, 24]))
        d = _data(ck, n)
        x = np.where([(zero >> i) & 1 for i in range(n)], 0.0, d["x"])
        ck.require(st == "1" or np.any(x != 0))
        df = pd.DataFrame(dict(y=d["y"], w=d["w"], x=x, g=np.array(g)))
        re = {"1": np.ones((n, 1)), "0+x": x[:, None], "1+x": np.c_[np.ones(n), x]}[st]
        X = np.c_[np.ones(n), d["w"]]
        ref = Dense(X, d["y"], [(list(g), re)])
        m = ck.must("construct", LMM2, f"y~1+w+({st}|g)", df, mme_kws=dict(sparse_threshold=thr))
        ck.close("Z", m.mme.re_mod.Z.toarray(), ref.Z, 1e-14)
        r = ck.rng("theta")
        ths = [pd_theta(r, ref.rs), pd_theta(r, ref.rs)]
        check_lmm2(ck, "lmm2", m, ref, ths)
        ck.outcome(g, st, zero)
    rep.explore("one-term", one)

    sub = [p for p in parts if max(p) >= 1] if big else [p for p in parts if 1 <= max(p) <= 3]
    forms = {"(1|g)+(1|h)": ("1", "1"), "(1+x|g)+(1|h)": ("2", "1"), "(1|g)+(0+x|h)": ("1", "x"), "(1+x|g)+(1+v|h)": ("2", "2v"),
             "(1|g)+(0+x|g)": ("1", "x")}

    def two(ck):
        n = N
        f = ck.choose("formula", list(forms))
        g = ck.choose("g", sub)
        h = ck.choose("h", sub if f == "(1|g)+(1|h)" or (big and "h" in f) else ([g] if "h" not in f else [p for p in sub if max(p) <= 1][:7]))
        thr = ck.choose("solver", [0.0, 2.0] if big or max(h) == 1 else [2.0])
        d = _data(ck, n)
        df = pd.DataFrame(dict(y=d["y"], w=d["w"], x=d["x"], v=d["v"], g=np.array(g), h=np.array(h)))
        re = {"1": np.ones((n, 1)), "x": d["x"][:, None], "2": np.c_[np.ones(n), d["x"]], "2v": np.c_[np.ones(n), d["v"]]}
        X = np.c_[np.ones(n), d["w"]]
        ref = Dense(X, d["y"], [(list(g), re[forms[f][0]]), (list(h), re[forms[f][1]])])
        m = ck.must("construct", LMM2, "y~1+w+" + f, df, mme_kws=dict(sparse_threshold=thr))
        ck.close("Z", m.mme.re_mod.Z.toarray(), ref.Z, 1e-14)
        r = ck.rng("theta")
        ths = [pd_theta(r, ref.rs), pd_theta(r, ref.rs)]
        check_lmm2(ck, "lmm2", m, ref, ths)
    rep.explore("two-terms", two)

    MM = 12 if big else 8
    fam = sorted({tuple(first_app([(i * a // b) % k for i in range(MM)])) for k in (2, 3, 4, 5) for a in (1, 2, 3) for b in (1, 2, 3)})
    fam = [p for p in fam if max(p) >= 1]

    def crossed(ck):
        """larger crossed layouts, where the factor fills in"""
        n = MM
        g, h = ck.choose("g", fam), ck.choose("h", fam)
        f = ck.choose("formula", ["(1+x|g)+(1+v|h)", "(1+x|g)+(1+v|h)+(1|k)", "(1+x+v|g)+(0+x|h)"])
        zero = ck.choose("zero rows", [0, 0b1011])
        d = _data(ck, n)
        x = np.where([(zero >> i) & 1 for i in range(n)], 0.0, d["x"])
        k = [i % 3 for i in range(n)]
        df = pd.DataFrame(dict(y=d["y"], w=d["w"], x=x, v=d["v"], g=np.array(g), h=np.array(h), k=k))
        o = np.ones(n)
        if "x+v" in f:
            terms = [(list(g), np.c_[o, x, d["v"]]), (list(h), x[:, None])]
        else:
            terms = [(list(g), np.c_[o, x]), (list(h), np.c_[o, d["v"]])] + ([(k, o[:, None])] if "k" in f else [])
        ref = Dense(np.c_[o, d["w"]], d["y"], terms)
        m = ck.must("construct", LMM2, "y~1+w+" + f, df)
        check_lmm2(ck, "crossed", m, ref, [pd_theta(ck.rng("theta"), ref.rs)])
    rep.explore("crossed", crossed)

    def known_cov(ck):
        """groups correlated through a user-supplied relationship matrix"""
        n = N
        q = ck.choose("levels", [2, 3, 4])
        g = ck.choose("grouping", [p for p in parts if max(p) == q - 1])
        st = ck.choose("random part", ["1", "1+x"])
        pairs = [(i, j) for i in range(q) for j in range(i)]
        mask = ck.choose("relationship pattern", range(1, 2 ** len(pairs), 1 if big or q < 4 else 3))
        fmt = ck.choose("storage", ["dense", "sparse"])
        d = _data(ck, n)
        L = np.diag(1.0 + 0.2 * np.arange(q))
        for k, (i, j) in enumerate(pairs):
            if (mask >> k) & 1:
                L[i, j] = 0.4 + 0.1 * k
        A = L @ L.T
        df = pd.DataFrame(dict(g=np.array(g), x=d["x"]))
        re = {"1": np.ones((n, 1)), "1+x": np.c_[np.ones(n), d["x"]]}[st]
        X = np.c_[np.ones(n), d["w"]]
        import scipy.sparse as ss
        a = A if fmt == "dense" else ss.csc_array(A)
        ref = Dense(X, d["y"], [(list(g), re, A)])
        rm = ck.must("construct", RandomEffects, [(st, "g")], df, [a])
        mme = ck.must("construct", MMEBlocked, X, d["y"][:, None], rm)
        r = ck.rng("theta")
        for th in [pd_theta(r, ref.rs), pd_theta(r, ref.rs)]:
            G = ck.call("kc/G", rm.update_gcov, th)
            ck.close("kc/G", G, ref.G(th), 1e-10)
            for reml in (True, False):
                want = ref.eval(th, reml)
                ck.close("kc/loglike", ck.call("kc/loglike", mme._loglike, th, reml), want["ll"], TOL)
                ck.close("kc/gradient", ck.call("kc/gradient", mme._gradient, th, reml), want["grad"], TOL)
                ck.close("kc/gradient_v2", ck.call("kc/gradient_v2", mme._gradient_v2, th, reml), want["grad"], TOL)
    rep.explore("relationship-matrix", known_cov)

    def old(ck):
        n = N
        g = ck.choose("grouping", [p for p in parts])
        f = ck.choose("formula", ["(1|g)", "(1+x|g)", "(1|g)+(1|h)", "(1+x|g)+(1|h)"])
        h = ck.choose("h", [p for p in parts if max(p) == 1][2:(15 if big else 5)] if "h" in f else [None])
        zero = ck.choose("zero rows", [0, 1, 5] if "x" in f else [0])
        d = _data(ck, n)
        x = np.where([(zero >> i) & 1 for i in range(n)], 0.0, d["x"])
        one_, two_ = np.ones((n, 1)), np.c_[np.ones(n), x]
        df = pd.DataFrame(dict(y=d["y"], w=d["w"], x=x, g=np.array(g), h=np.array(h if h else g)))
        X = np.c_[np.ones(n), d["w"]]
        terms = [(list(g), two_ if "x|g" in f else one_)] + ([(list(h), one_)] if h else [])
        ref = Dense(X, d["y"], terms)
        m = ck.must("construct", LMM, "y~1+w+" + f, df)
        ck.close("Z", m.Z.toarray(), ref.Z, 1e-14)
        r = ck.rng("theta")
        for th in [pd_theta(r, ref.rs), pd_theta(r, ref.rs)]:
            for reml in (True, False):
                want = ref.eval(th, reml, hess=True)
                for sw in (True, False):
                    ck.close("lmm/loglike", ck.call("lmm/loglike", m.loglike, th.copy(), reml, use_sparse=sw), want["ll"], TOL)
                ck.close("lmm/gradient", ck.call("lmm/gradient", m.gradient, th.copy(), reml), want["grad"], TOL)
                ck.close("lmm/hessian", ck.call("lmm/hessian", m.hessian, th.copy(), reml), want["hess"], TOL)
            want = ref.eval(th, True, hess=True)
            e = ck.call("lmm/effects", m._compute_effects, th.copy())
            if e is not None:
                ck.close("lmm/beta", e[0], want["beta"], TOL)
                ck.close("lmm/cov", e[1], want["C"], TOL)
                ck.close("lmm/u", e[2], want["u"], TOL)
            tc = m.transform_theta(th.copy())
            ck.close("lmm/transform", m.inverse_transform_theta(tc.copy()), th, 1e-10)
            ck.close("lmm/loglike_c", m.loglike_c(tc.copy()), want["ll"], TOL)
            h_ = 1e-6
            fd = [(m.loglike_c(tc + h_ * e_) - m.loglike_c(tc - h_ * e_)) / (2 * h_) for e_ in np.eye(len(tc))]
            ck.close("lmm/gradient_chol", m.gradient_chol(tc.copy()), fd, 1e-4)
            fdh = [(m.gradient_chol(tc + h_ * e_) - m.gradient_chol(tc - h_ * e_)) / (2 * h_) for e_ in np.eye(len(tc))]
            ck.close("lmm/hessian_chol", m.hessian_chol(tc.copy()), fdh, 1e-4)
            ck.close("lmm/vinvcrossprod", m.vinvcrossprod(ref.X, ref.Z[:, :1], th), ref.X.T @ want["Vi"] @ ref.Z[:, :1], TOL)
    rep.explore("first-generation", old)

    def many(ck):
        """designs large enough for the sparse code paths (many levels, sparse systems and inverses)"""
        f = ck.choose("formula", ["(1|g)", "(1+x|g)", "(1|g)+(1|h)", "(1|h)+(1+x|g)", "(1|h)+(1|g)+(0+x|k)"])
        q, n = ck.choose("levels, rows", [(24, 60), (34, 40), (48, 100)] if big else [(24, 60), (44, 60)])
        kind = ck.choose("assignment", ["random", "nested", "one big", "near diagonal"])
        r = ck.rng("many", q, n, kind)
        x, w, y = r.normal(size=(3, n))
        g = np.r_[np.arange(q), r.integers(0, q, n - q)] if kind != "one big" else np.r_[np.arange(q), np.zeros(n - q, int)]
        h = {"random": np.r_[r.integers(0, q, n - q), np.arange(q)], "nested": g // 4, "one big": np.arange(n) % 5, "near diagonal": (np.arange(n) + 1) // 3}[kind]
        k = pd.factorize((np.arange(n) * 5) % 7)[0]
        g, h = pd.factorize(g)[0], pd.factorize(h)[0]
        df = pd.DataFrame(dict(y=y, w=w, x=x, g=g, h=h, k=k))
        one_, two_ = np.ones((n, 1)), np.c_[np.ones(n), x]
        T = {"(1|g)": (g, one_), "(1+x|g)": (g, two_), "(1|h)": (h, one_), "(0+x|k)": (k, x[:, None])}
        ref = Dense(np.c_[np.ones(n), w], y, [T["(" + t.strip("()") + ")"] for t in f.split(")+(")])
        m, m2 = ck.must("construct", LMM, "y~1+w+" + f, df), ck.must("construct", LMM2, "y~1+w+" + f, df)
        th = pd_theta(r, ref.rs)
        for reml in (True, False):
            want = ref.eval(th, reml, hess=True)
            for sw in (True, False):
                ck.close("many/lmm/loglike", ck.call("lmm", m.loglike, th.copy(), reml, use_sparse=sw), want["ll"], TOL)
                ck.close("many/lmm/gradient", ck.call("lmm", m.gradient, th.copy(), reml, False, sw), want["grad"], TOL)
            for nm in ("_gradient_old", "_gradient_dense"):
                if hasattr(m, nm):
                    ck.close("many/lmm/" + nm, ck.call("lmm", getattr(m, nm), th.copy(), reml), want["grad"], TOL)
            ck.close("many/lmm/hessian", ck.call("lmm", m.hessian, th.copy(), reml), want["hess"], TOL)
            ck.close("many/lmm2/loglike", ck.call("lmm2", m2.loglike, th, reml), want["ll"], TOL)
            ck.close("many/lmm2/gradient", ck.call("lmm2", m2.gradient, th, reml), want["grad"], TOL)
            ck.close("many/lmm2/gradient_v2", ck.call("lmm2", m2.gradient_v2, th, reml), want["grad"], TOL)
            eta = m2.mme.re_mod.reparam.fwd(th)
            ck.close("many/lmm2/reparam", ck.call("lmm2", m2.gradient_v2_reparam, eta, reml), m2.gradient_reparam(eta, reml), TOL)
        want = ref.eval(th, True)
        for nm, e in (("lmm", m._compute_effects(th.copy())), ("lmm2", m2.compute_effects(th))):
            ck.close(f"many/{nm}/beta", e[0], want["beta"], TOL)
            ck.close(f"many/{nm}/cov", e[1], want["C"], TOL)
            ck.close(f"many/{nm}/u", e[2], want["u"], TOL)
    rep.explore("many-levels", many)
