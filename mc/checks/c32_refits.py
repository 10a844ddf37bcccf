"""C32: refits: leave-one-out and bootstrap estimates maximise the likelihood of the rows
they were given, termwise tests those of the restricted model."""
import contextlib
import importlib

import numpy as np
import pandas as pd
import scipy.stats as st

from mc.lib import numdiff
from mc.checks.c12_glm_families import make_link, refnll, refvar
from mc.checks.c13_glm_models import FORMS, base, design, invlink
from mc.checks import c14_ordinal as o


class Script(np.random.Generator):
    """a random generator whose draws of row numbers come from a script"""

    def __init__(self, rows):
        super().__init__(np.random.PCG64(0))
        self.rows, self.used = [np.array(r) for r in rows], 0

    def _next(self):
        r = self.rows[min(self.used, len(self.rows) - 1)]
        self.used += 1
        return r.copy()

    def choice(self, a, size=None, **k):
        return self._next()

    def integers(self, *a, **k):
        return self._next()


@contextlib.contextmanager
def scripted(rows):
    """the same for code that draws from numpy's global generator"""
    s = Script(rows)
    keep = np.random.choice, np.random.randint
    np.random.choice, np.random.randint = (lambda *a, **k: s._next()), (lambda *a, **k: s._next())
    try:
        yield s
    finally:
        np.random.choice, np.random.randint = keep


FITS = [("Gaussian", "Identity"), ("Gamma", "Log"), ("InverseGaussian", "Log"), ("Poisson", "Log"), ("NegativeBinomial", "Log"),
        ("Binomial", "Logit"), ("Binomial", "Probit"), ("Binomial", "Cloglog"), ("Gaussian", "Log")]


def resamples(n, ck, k):
    """bootstrap rows: the identity, a reversal, one row counted often, a rotation, random ones"""
    r = ck.rng("rows", n)
    out = [np.arange(n), np.arange(n)[::-1], np.r_[np.zeros(3, int), np.arange(3, n)], np.r_[np.arange(1, n), 0], np.r_[np.arange(n - 4), np.arange(4)]]
    out += [r.integers(0, n, n) for _ in range(k)]
    return out


def run(rep, tier):
    from pystatsm.pyglm2.glm import GLM as GLM2
    from pystatsm.pyglm.linear_model import GLM as GLMlm
    from pystatsm.pyglm.glm import GLM as GLM1
    from pystatsm.pyglm.clm import CLM as CLM1
    from pystatsm.pyglm2.clm import CLM as CLM2
    from pystatsm.pyglm2 import links as L2
    from pystatsm.pyglm import links as L1
    from pystatsm.pyglm.nb2 import NegativeBinomial as NB2
    big = tier == "thorough"
    fam_mod = {m: importlib.import_module(f"pystatsm.{m}.families") for m in ("pyglm", "pyglm2")}
    link_mod = {m: importlib.import_module(f"pystatsm.{m}.links") for m in ("pyglm", "pyglm2")}
    rep.assumptions += ["resamples whose refit has no interior optimum (separation, dispersion at zero, a lost category) are not judged",
                        "p-values of the bootstrap tables of pyglm.clm and pyglm.nb2 are not claimed"]

    def family(pkg, fam, link, weights=None):
        kw = {} if weights is None else dict(weights=weights)
        return getattr(fam_mod[pkg], fam)(link=make_link(link_mod[pkg], link), **kw)

    def scales(fam):
        return {"Poisson": ["fixed"], "Binomial": ["fixed"], "NegativeBinomial": ["NR"]}.get(fam, ["fixed", "M", "NR"])

    def ref(fam, link, X, y, w, scale):
        nb = fam == "NegativeBinomial"

        def f(q):
            s = np.exp(q[-1]) if scale == "NR" else 1.0
            b = q[:-1] if scale == "NR" else q
            return refnll(fam, y, invlink(link)(X @ b), w, 1.0 if nb else s, s if nb else 1.0).sum()
        return f

    def interior(fam, link, X, q, scale):
        b = q[:-1] if scale == "NR" else q
        if not np.all(np.isfinite(q)) or np.max(np.abs(b)) > 8 or (scale == "NR" and abs(q[-1]) > 5):
            return False
        mu = invlink(link)(X @ b)
        return fam != "Binomial" or (mu.min() > 1e-3 and mu.max() < 1 - 1e-3)

    def decrement(f, q):
        """distance to the optimum in standard-error units (squared)"""
        g = numdiff.grad(f, q, 1e-3)
        H = numdiff.jac(lambda v: numdiff.grad(f, v, 4e-3), q, 4e-3)
        e = np.linalg.eigvalsh(H)
        return g @ np.linalg.solve(H, g) if e[0] > 1e-8 * e[-1] else np.inf, e[0] / e[-1]

    def attained(ck, key, fam, link, X, y, w, scale, q):
        if np.linalg.matrix_rank(X) < X.shape[1] or not interior(fam, link, X, q, scale):
            ck.outcome("boundary")
            return
        f = ref(fam, link, X, y, w, scale)
        dec, cond = decrement(f, q)
        if dec == np.inf and abs(cond) < 1e-6:
            return
        ck.expect(key, dec < 1e-4, f"Newton decrement {dec} at {q}")

    def data(ck, fam, wk, perm, n=16):
        d = base(ck, fam, n)
        if fam == "Binomial" and wk == "none":
            d["y"] = np.round(d.y)
            d.loc[d.index[::5], "y"] = 1 - d.y[::5]
        if perm == "relabelled":
            d = d.iloc[ck.rng("perm").permutation(n)].rename(index={i: f"r{(7 * i) % n}" for i in range(n)})
        return d, (d.w.values.copy() if wk == "vector" else np.ones(n))

    def make(ck, impl, fam, link, scale, wk, form, d):
        C, pkg = (GLM2, "pyglm2") if impl == "pyglm2" else (GLMlm, "pyglm")
        kw = dict(weights=d.w.values.copy()) if wk == "vector" else {}
        m = ck.must("model", C, formula=FORMS[form], data=d, family=family(pkg, fam, link), scale_estimator=scale, **kw)
        ck.must("fit", m.fit, opt_kws=dict(options=dict(gtol=1e-8, xtol=1e-12, maxiter=1000)))
        return m

    def jackknife(ck):
        impl = ck.choose("implementation", ["pyglm2", "linear_model"])
        fam, link = ck.choose("family/link", FITS if big else FITS[:7])
        scale = ck.choose("scale", scales(fam))
        wk = ck.choose("weights", ["none", "vector"])
        form = ck.choose("formula", ["x", "x+g"] if big else ["x"])
        method = ck.choose("method", ["optimize", "one-step"])
        if not big and method == "optimize":
            ck.require(impl == "pyglm2" or wk == "vector")
        d, w = data(ck, fam, wk, ck.choose("rows", ["sorted", "relabelled"]))
        X, y, n = design(d, form), d.y.values, len(d)
        m = make(ck, impl, fam, link, scale, wk, form, d)
        p = m.params.copy()
        ck.require(interior(fam, link, X, p, scale))
        if method == "one-step":
            ck.require(scale != "NR")
        js = ck.must("jackknife", m._jacknife, method=method, verbose=False)
        ck.expect("labels", list(js.index) == list(d.index) and list(js.columns) == list(m.param_labels))
        ck.eq("model unchanged", m.params, p)
        J = js.values
        if method == "one-step":
            mu = invlink(link)(X @ p)
            g1 = numdiff.derivs(invlink(link), X @ p, 0.05 * (1 + 0 * mu), 1)[1]
            V = refvar(fam, mu, 1.0)
            W = w * g1 ** 2 / V
            A = np.linalg.inv((X.T * W) @ X)
            h = W * np.einsum("ij,jk,ik->i", X, A, X)
            want = p - (A @ X.T).T * (w * g1 / V * (y - mu) / (1 - h))[:, None]
            ck.close("one step", J, want, 1e-6)
            return
        for i in range(n):
            ii = np.arange(n) != i
            attained(ck, f"leave one out/{fam}", fam, link, X[ii], y[ii], w[ii], scale, J[i])
        ck.outcome(impl, fam, link, scale, wk)
    rep.explore("jackknife", jackknife)

    def bootstrap(ck):
        impl = ck.choose("implementation", ["pyglm2", "linear_model", "pyglm/sp", "pyglm/ee", "pyglm/newton"])
        fam, link = ck.choose("family/link", FITS if big else FITS[:6])
        scale = ck.choose("scale", [s for s in scales(fam) if not (impl.startswith("pyglm/") and s == "M")])
        wk = ck.choose("weights", ["none", "vector"])
        old = impl.startswith("pyglm/")
        if old:
            ck.require(fam != "NegativeBinomial" and (scale == "fixed" or impl == "pyglm/sp"))
            if impl != "pyglm/sp":
                ck.require((fam, link) in (("Gaussian", "Identity"), ("Gamma", "Log"), ("Poisson", "Log"), ("Binomial", "Logit")))
        d, w = data(ck, fam, wk, "sorted")
        X, y, n = design(d, "x"), d.y.values, len(d)
        rows = resamples(n, ck, 6 if big else 2)
        keep = d.copy()
        if old:
            m = ck.must("model", GLM1, formula=FORMS["x"], data=d, fam=family("pyglm", fam, link, weights=w.copy() if wk == "vector" else None), scale_estimator=scale)
            ck.must("fit", m.fit)
            p = m.params.copy()
            ck.require(interior(fam, link, X, p, scale))
            with scripted(rows) as s, _quiet():
                ck.do("bootstrap", m.bootstrap, n_boot=len(rows), method=impl.split("/")[1], opt_kws={})
            B = m.theta_samples
            res = m.res
            ck.close("bootstrap table", res[["params", "SE_boot", "t_boot", "p_boot"]].values,
                     np.c_[p, B.std(0), p / B.std(0), 2 * st.t(n - X.shape[1]).sf(np.abs(p / B.std(0)))], 1e-8)
            ck.eq("weights restored", np.ones(n) * m.f.weights, w)
        else:
            m = make(ck, impl, fam, link, scale, wk, "x", d)
            p = m.params.copy()
            ck.require(interior(fam, link, X, p, scale))
            s = Script(rows)
            if impl == "pyglm2":
                info = ck.flag("return_info")
                b, inf = ck.must("bootstrap", m._bootstrap, n_boot=len(rows), verbose=False, return_info=info, rng=s)
                ck.expect("information", inf.shape == (len(rows), 10) and set(inf["success"]) <= {0.0, 1.0} if info else inf is None)
            else:
                b = ck.must("bootstrap", m._bootstrap, n_boot=len(rows), verbose=False, rng=s)
            ck.expect("columns", list(b.columns) == list(m.param_labels))
            B = b.values
        ck.eq("model unchanged", m.params, p)
        ck.expect("data unchanged", d.equals(keep))
        if s.used != len(rows):
            ck.outcome("draws are not scripted")
            return
        for ii, q in zip(rows, B):
            attained(ck, f"resample/{fam}", fam, link, X[ii], y[ii], w[ii], scale, q)
        ck.outcome(impl, fam, link, scale, wk)
    rep.explore("bootstrap", bootstrap)

    def seeded(ck):
        """resampling is a function of the generator"""
        impl = ck.choose("implementation", ["pyglm2", "linear_model"])
        fam, link = ck.choose("family/link", [FITS[0], FITS[3]])
        seed = ck.choose("seed", [0, 5])
        d, w = data(ck, fam, "none", "sorted")
        m = make(ck, impl, fam, link, "fixed", "none", "x", d)

        def go():
            b = m._bootstrap(n_boot=3, verbose=False, rng=np.random.default_rng(seed))
            return np.asarray((b[0] if isinstance(b, tuple) else b).values)
        a = ck.must("bootstrap", go)
        st0 = np.random.get_state()[1].copy()
        ck.eq("same generator, same draws", ck.must("bootstrap", go), a)
        ck.eq("global generator untouched", np.random.get_state()[1], st0)
        ck.expect("draws differ", len(np.unique(np.round(a, 10), axis=0)) > 1)
    rep.explore("seeded", seeded)

    def nb2(ck):
        n = 18
        form = ck.choose("formula", ["y~1+x", "y~1"])
        d = base(ck, "NegativeBinomial", n)
        X = np.c_[np.ones(n), d.x][:, :2 if "x" in form else 1]
        rows = resamples(n, ck, 5 if big else 2)
        m = ck.must("model", NB2, form, d)
        with scripted([rows[0]] + rows) as s, _quiet():
            ck.do("bootstrap", m.bootstrap, n_boot=len(rows))
        if s.used != len(rows) + 1:
            return
        B = m.beta_samples
        for ii, q in zip(rows, B):
            attained(ck, "resample/nb2", "NegativeBinomial", "Log", X[ii], d.y.values[ii], np.ones(n), "NR", q)
        attained(ck, "fit/nb2", "NegativeBinomial", "Log", X, d.y.values, np.ones(n), "NR", m.params)
        _table(ck, m.boot_res, B)
        ck.eq("data restored", np.c_[m.X, np.ravel(m.Y), m.y], np.c_[X, d.y.values, d.y.values])
    rep.explore("negative-binomial", nb2)

    def clm(ck):
        impl = ck.choose("implementation", ["pyglm2", "pyglm"])
        K = ck.choose("categories", [2, 3] + [4] * big)
        link = ck.choose("link", o.LINK)
        form = ck.choose("formula", ["x", "x*z"])
        wk = ck.choose("weights", ["none", "vector"]) if impl == "pyglm2" else "none"
        n = 30
        d = o.base(ck, K, n, "refit")
        if ck.flag("relabelled"):
            d = d.rename(index={i: f"r{(7 * i) % n}" for i in range(n)})
        X, code = o.design(d, form), d.y.values
        w = d.w.values if wk == "vector" else np.ones(n)

        def ok(ii, q, key):
            if len(np.unique(code[ii])) < K or np.max(np.abs(q)) > 12:
                return
            f = lambda v: np.sum(w[ii] * o.nll_i(v, X[ii], code[ii], K, link))   # noqa: E731
            g = numdiff.grad(f, q, 1e-2)
            H = numdiff.jac(lambda v: numdiff.grad(f, v, 1e-2), q, 1e-2)
            e = np.linalg.eigvalsh(H)
            if e[0] < 1e-3 * e[-1]:
                return
            dec = g @ np.linalg.solve(H, g)
            ck.expect(key, dec < 1e-4, f"Newton decrement {dec}")
        if impl == "pyglm2":
            m = ck.must("model", CLM2, "y ~ " + o.FORMS[form], d, weights=w.copy() if wk == "vector" else None, link=getattr(L2, link + "Link"))
            ck.do("fit", m.fit)
            p = m.params.copy()
            js = ck.must("jackknife", m._jacknife, verbose=False)
            ck.expect("labels", list(js.index) == list(d.index) and list(js.columns) == list(m.param_labels))
            for i in range(n):
                ok(np.arange(n) != i, js.values[i], "leave one out")
        else:
            m = ck.must("model", CLM1, "y ~ -1 + " + o.FORMS[form], d, link=getattr(L1, link + "Link"))
            rows = resamples(n, ck, 4 if big else 1)
            with scripted([rows[0]] + rows) as s, _quiet():
                ck.do("bootstrap", m.bootstrap, n_boot=len(rows))
            p = m.params.copy()
            if s.used == len(rows) + 1:
                for ii, q in zip(rows, m.beta_samples):
                    ok(ii, q, "resample")
            _table(ck, m.boot_res, m.beta_samples)
            ck.close("likelihood of the model restored", m.loglike(p), np.sum(o.nll_i(p, X, code, K, link)), 1e-9)
        ck.eq("model unchanged", m.params, p)
        ck.outcome(impl, K, link, form, wk)
    rep.explore("ordinal", clm)

    TERMS = {"x": {"x": [1]}, "x+g": {"g": [1, 2], "x": [3]}, "0": {"x": [1], "z": [2], "x:z": [3]}}

    def restricted(m, loglike, p, idx):
        """the optimum with the parameters idx held at zero"""
        k = len(p)
        free = np.setdiff1d(np.arange(k), idx)
        q = p.copy()
        q[idx] = 0.0
        for _ in range(60):
            g, H = m.gradient(q)[free], m.hessian(q)[np.ix_(free, free)]
            e, U = np.linalg.eigh(H)
            step = U @ ((U.T @ g) / np.maximum(np.abs(e), 1e-8))
            f0, a = loglike(q), 1.0
            while a > 1e-6:
                r = q.copy()
                r[free] -= a * step
                f1 = loglike(r)
                if np.isfinite(f1) and f1 <= f0 + 1e-12:
                    break
                a /= 2
            q = r
            if np.max(np.abs(step)) < 1e-10:
                break
        return q

    def compare(ck, which, m, p, q, idx, row):
        C = np.eye(len(p))[idx]
        for tab, at, a in ((m.wald_tests, p, C @ p), (m.score_tests, q, None)):
            gi = m.gradient_i(at)
            A = np.linalg.inv(m.hessian(at))
            a = C @ A @ gi.sum(0) if a is None else a
            S = a @ np.linalg.solve(C @ A @ gi.T @ gi @ A @ C.T, a)
            got = tab.loc[row].iloc[0]
            ck.close(f"{which}/statistic", got["Stat"], S, 2e-3)
            ck.close(f"{which}/p", [got["df"], got["P Value"]], [len(idx), st.chi2(len(idx)).sf(S)], 2e-3)

    def ordinal_terms(ck):
        """the same for the cumulative link model, whose terms follow the thresholds"""
        K = ck.choose("categories", [2, 3, 4])
        link = ck.choose("link", o.LINK)
        form, terms = ck.choose("formula", [("x", {"x": [0]}), ("x+g", {"g": [0, 1], "x": [2]}), ("x*z", {"x": [0], "z": [1], "x:z": [2]})])
        wk = ck.choose("weights", ["none", "vector"])
        d = o.base(ck, K, 36, "terms")
        m = ck.must("model", CLM2, "y ~ " + o.FORMS[form], d, weights=d.w.values if wk == "vector" else None, link=getattr(L2, link + "Link"))
        ck.do("fit", m.fit)
        p, q = m.params.copy(), K - 1
        ck.require(np.max(np.abs(p)) < 6)
        with _quiet():
            ck.do("ll_tests", m.ll_tests, ll=m.loglike, offset=q)
        ck.eq("model unchanged", m.params, p)
        for tab, test in ((m.wald_tests, "Wald Test"), (m.score_tests, "Score Test")):
            ck.expect("terms", list(tab.index) == [(t, test) for t in terms])
        ck.do("constraints", m.make_termwise_constraint_matrices, offset=q)
        ck.expect("constraint terms", list(m.constraint_matrices) == list(terms))
        for t, idx in terms.items():
            idx = [i + q for i in idx]
            ck.eq("constraint matrix", m.constraint_matrices[t], np.eye(len(p))[idx])
            r = restricted(m, m.loglike, p, idx)
            if np.max(np.abs(r)) < 8 and np.max(np.abs(np.delete(m.gradient(r), idx))) < 1e-5:
                compare(ck, "ordinal", m, p, r, idx, t)
        ck.outcome(K, link, form, wk)
    rep.explore("ordinal termwise", ordinal_terms)

    def termwise(ck):
        """termwise Wald and score tests with sandwich covariances"""
        fam, link = ck.choose("family/link", [f for f in FITS if f != ("Binomial", "Cloglog")] if big else [FITS[0], FITS[1], FITS[3], FITS[4], FITS[5]])
        scale = ck.choose("scale", [s for s in scales(fam) if s != "M"])
        wk = ck.choose("weights", ["none", "vector"])
        form = ck.choose("formula", list(FORMS))
        which = ck.choose("function", ["ll_tests", "ll_tests2"])
        d, w = data(ck, fam, wk, "sorted", 24)
        X, y = design(d, form), d.y.values
        m = make(ck, "pyglm2", fam, link, scale, wk, form, d)
        p = m.params.copy()
        k = len(p)
        ck.require(interior(fam, link, X, p, scale))
        with _quiet():
            ck.do(which, getattr(m, which), scale=scale == "NR")
        ck.eq("model unchanged", m.params, p)
        terms = TERMS[form]
        pre = "" if which == "ll_tests" else "array_0_"
        for tab, test in ((m.wald_tests, "Wald Test"), (m.score_tests, "Score Test")):
            ck.expect("terms", [i[0] for i in tab.index] == [pre + t for t in terms] and {i[1] for i in tab.index} == {test})
        for t, idx in terms.items():
            q = restricted(m, m.full_loglike, p, idx)
            if not interior(fam, link, X, q, scale) or np.max(np.abs(np.delete(m.gradient(q), idx))) > 1e-5:
                ck.outcome("boundary")
                continue
            compare(ck, which, m, p, q, idx, pre + t)
        # constraint matrices pick the coefficients of each term
        for off in (0, 1) if scale == "NR" else (0,):
            if which == "ll_tests":
                ck.do("constraints", m.make_termwise_constraint_matrices, offset=off)
                got = m.constraint_matrices
            else:
                ck.do("constraints", m.make_termwise_constraint_matrices2, offset=off)
                ck.expect("constraint arrays", list(m.constraint_matrices) == [0])
                got = m.constraint_matrices[0]
            ck.expect("constraint terms", list(got) == list(terms))
            for t, idx in terms.items():
                ck.eq("constraint matrix", got[t], np.eye(k)[np.array(idx) + off])
        ck.outcome(fam, link, scale, wk, form, which)
    rep.explore("termwise", termwise)

    def statistics(ck):
        """Wald, score and likelihood-ratio statistics from their ingredients"""
        from pystatsm.pyglm.linear_model import LikelihoodModel as A
        from pystatsm.pyglm2.likelihood_model import LikelihoodModel as B
        M = ck.choose("implementation", [A, B])
        k = ck.choose("parameters", [1, 2, 3, 4])
        c = ck.choose("constraints", [1, 2, 3])
        ck.require(c <= k)
        frame = ck.flag("data frame")
        for t in range(3):
            r = ck.rng("stat", k, c, t)
            th, th0, D = r.normal(size=(3, k))
            C = r.normal(size=(c, k))
            H, Bm = [(lambda Z: Z @ Z.T + np.eye(k))(r.normal(size=(k, k))) for _ in range(2)]
            Ai = np.linalg.inv(H)
            V = C @ Ai @ Bm @ Ai @ C.T
            for nm, got, a in (("Wald Test", M._wald_test(th, th0, C, Ai, Bm, return_dataframe=frame), C @ (th - th0)),
                               ("Score Test", M._score_test(D, C, Ai, Bm, return_dataframe=frame), C @ Ai @ D)):
                S = a @ np.linalg.solve(V, a)
                got = got.loc[nm] if frame else got
                ck.close(nm, [got["Stat"], got["df"], got["P Value"]], [S, c, st.chi2(c).sf(S)], 1e-9)
            l1, l0 = -3.0, -3.0 - abs(th[0])
            got = M._lr_test(l1, l0, c, return_dataframe=frame)
            got = got.loc["LR Test"] if frame else got
            ck.close("LR Test", [got["Stat"], got["df"], got["P Value"]], [2 * (l1 - l0), c, st.chi2(c).sf(2 * (l1 - l0))], 1e-9)
    rep.explore("statistics", statistics)

    def predict(ck):
        """intervals for predictions"""
        impl = ck.choose("implementation", ["pyglm2", "linear_model"])
        fam, link = ck.choose("family/link", FITS)
        scale = ck.choose("scale", scales(fam))
        form = ck.choose("formula", ["x", "x+g"])
        lev = ck.choose("level", [None, (0.95, 0.95), (0.5, 0.8)])
        d, w = data(ck, fam, "none", "sorted")
        X = design(d, form)
        C, pkg = (GLM2, "pyglm2") if impl == "pyglm2" else (GLMlm, "pyglm")
        m = ck.must("model", C, formula=FORMS[form], data=d, family=family(pkg, fam, link), scale_estimator=scale)
        r = ck.rng("pred", form)
        b = np.r_[1.0 if "Power" in link or link == "Identity" else 0.3, 0.1 * r.normal(size=X.shape[1] - 1)]
        Z = r.normal(size=(X.shape[1],) * 2)
        S = 0.02 * Z @ Z.T
        phi, disp = (1.0, 0.7) if fam == "NegativeBinomial" else (0.6 if fam not in ("Poisson", "Binomial") else 1.0, 1.0)
        levels = {} if lev is None else dict(mean_ci_level=lev[0], predicted_ci_level=lev[1])
        lev = lev or (0.95, 0.95)
        pr = ck.must("predict", m._predict, b, X, m.f, phi=phi, dispersion=disp, coefs_cov=S, **levels)
        eta, se = X @ b, np.sqrt(np.einsum("ij,jk,ik->i", X, S, X))
        mu, z = invlink(link)(eta), st.norm.ppf((1 + lev[0]) / 2)
        ck.close("mean", np.c_[pr["eta"], pr["eta_se"], pr["mu"]], np.c_[eta, se, mu], 1e-9)
        ck.close("limits", np.c_[pr["eta_lower_ci"], pr["eta_upper_ci"], pr["mu_lower_ci"], pr["mu_upper_ci"]],
                 np.c_[eta - z * se, eta + z * se, invlink(link)(eta - z * se), invlink(link)(eta + z * se)], 1e-8)
        dist = {"Gaussian": lambda: st.norm(mu, np.sqrt(phi)), "Gamma": lambda: st.gamma(1 / phi, scale=mu * phi),
                "InverseGaussian": lambda: st.invgauss(mu * phi, scale=1 / phi), "Poisson": lambda: st.poisson(mu),
                "NegativeBinomial": lambda: st.nbinom(1 / disp, 1 / (1 + disp * mu)), "Binomial": lambda: st.binom(1, mu)}[fam]()
        al = (1 - lev[1]) / 2
        ck.close("prediction interval", np.c_[pr["predicted_lower_ci"], pr["predicted_upper_ci"]], np.c_[dist.ppf(al), dist.ppf(1 - al)], 1e-7)
        for off in ("linpred", "linpred_se", "mean_ci", "predicted_ci"):
            p2 = ck.must("predict", m._predict, b, X, m.f, phi=phi, dispersion=disp, coefs_cov=S, **levels, **{off: False})
            for kk in p2:
                ck.eq("option/" + off, p2[kk], pr[kk])
    rep.explore("predict", predict)


def _table(ck, tab, B):
    q = np.percentile(B, [1, 2.5, 97.5, 99], axis=0).T
    ck.close("bootstrap table", tab[["mean", "std", "min", "pct1.0%", "pct2.5%", "pct97.5%", "pct99.0%", "max", "t"]].values,
             np.c_[B.mean(0), B.std(0, ddof=1), B.min(0), q, B.max(0), B.mean(0) / B.std(0, ddof=1)], 1e-8)


@contextlib.contextmanager
def _quiet():
    import io
    import warnings
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield
