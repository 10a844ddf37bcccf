"""C09: answers of a mixed model do not depend on which queries were made before."""
import types

import numpy as np
import pandas as pd

from ..lib.mixed import Dense, pd_theta

LAYOUTS = {
    "nested-scalar": ("y~1+w+(1|g)", [0, 0, 0, 1, 1, 1, 2, 2, 2, 1, 0], None),
    "vector": ("y~1+w+(1+x|g)", [0, 0, 0, 1, 1, 1, 2, 2, 2, 1, 0], None),
    "crossed": ("y~1+w+(1+x|g)+(1|h)", [0, 0, 0, 1, 1, 1, 2, 2, 2, 1, 0], [0, 1, 2, 0, 1, 2, 0, 1, 3, 3, 0]),
}


def run(rep, tier):
    from pystatsm.pylmm.lmm import LMM
    from pystatsm.pylmm.re_mod import LMM2
    big = tier == "thorough"
    n = 11

    def setup(ck, lay):
        f, g, h = LAYOUTS[lay]
        r = ck.rng("data", lay)
        x, w, y = r.normal(size=(3, n))
        df = pd.DataFrame(dict(y=y * 2, w=w, x=x, g=g, h=h if h else g))
        terms = [(g, np.c_[np.ones(n), x] if "x|g" in f else np.ones((n, 1)))] + ([(h, np.ones((n, 1)))] if h else [])
        ref = Dense(np.c_[np.ones(n), w], y * 2, terms)
        t = [pd_theta(r, ref.rs) for _ in range(3)]
        return f, df, ref, t

    def pev(ref, th):
        X, Z, s = ref.X, ref.Z, th[-1]
        M = np.block([[X.T @ X / s, X.T @ Z / s], [Z.T @ X / s, Z.T @ Z / s + np.linalg.inv(ref.G(th))]])
        return np.sqrt(np.diag(np.linalg.inv(M))[X.shape[1]:])

    def ops2(m, ref, t):
        """name -> (query on the model, reference value)"""
        o = {}
        for i in (0, 1):
            th = t[i]
            for reml in (True, False):
                w = ref.eval(th, reml)
                o[f"loglike{i}{reml}"] = (lambda th=th, r=reml: m.loglike(th, r), w["ll"])
                o[f"gradient{i}{reml}"] = (lambda th=th, r=reml: m.gradient(th, r), w["grad"])
            o[f"gradient_v2{i}"] = (lambda th=th: m.gradient_v2(th, True), ref.eval(th, True)["grad"])
            o[f"effects{i}"] = (lambda th=th: np.concatenate([np.ravel(z) for z in m.compute_effects(th)]),
                                np.concatenate([w["beta"], w["C"].ravel(), w["u"]]))
            o[f"vinv{i}"] = (lambda th=th: m.vinvcrossprod(ref.X, ref.Z, th), ref.X.T @ w["Vi"] @ ref.Z)
            o[f"raneff_se{i}"] = (lambda th=th: m.random_effects_se(th), pev(ref, th))
            eta = m.mme.re_mod.reparam.fwd(th)
            o[f"loglike_eta{i}"] = (lambda e=eta: m.loglike_reparam(e, True), ref.eval(th, True)["ll"])

            def vd(th):
                Gs, s = ref.split(th)
                return np.array([np.trace(Z @ np.kron(A, G) @ Z.T) / n for Z, A, G in zip(ref.Zs, ref.As, Gs)] + [s])
            o[f"variance{i}"] = (lambda th=th: np.array(list(m.variance_decomposition(th)["v_re"].values()) + [m.variance_decomposition(th)["v_resid"]]), vd(th))
            o[f"G{i}"] = (lambda th=th: m.mme.re_mod.update_gcov(th).toarray(), ref.G(th))
            o[f"Ginv{i}"] = (lambda th=th: m.mme.re_mod.update_gcov(th, inv=True).toarray(), np.linalg.inv(ref.G(th)))
        # at the fitted values
        th = t[2]
        w = ref.eval(th, True)
        o["predict"] = (lambda: m.predict(), ref.X @ w["beta"] + ref.Z @ w["u"])
        o["effects-fit"] = (lambda: np.concatenate([np.ravel(z) for z in m.compute_effects()]),
                            np.concatenate([w["beta"], w["C"].ravel(), w["u"]]))
        o["raneff_se-fit"] = (lambda: m.random_effects_se(), pev(ref, th))
        o["long"] = (lambda: m.random_effects("long")[["estimate", "SE"]].values, np.c_[w["u"], pev(ref, th)])
        o["per_term"] = (lambda: np.concatenate([v.values.ravel() for v in m.random_effects("per_term").values()]), w["u"])
        o["r2"] = (lambda: np.array([m.r_squared()["marginal"], m.r_squared()["conditional"]]), None)
        o["df"] = (lambda: np.array([[d["F"], d["df1"], d["df2"], d["p"]] for d in m.approx_degfree()]), None)
        o["confint"] = (lambda: m.confint().values, None)
        Gs, s = ref.split(th)
        vf = np.var(ref.X @ w["beta"])
        vr = [np.trace(Z @ np.kron(A, G) @ Z.T) / n for Z, A, G in zip(ref.Zs, ref.As, Gs)]
        o["r2"] = (o["r2"][0], np.array([vf, vf + sum(vr)]) / (vf + sum(vr) + s))
        return o

    def fitted2(f, df, ref, t, reml=True):
        m = LMM2(f, df)
        eta = m.mme.re_mod.reparam.fwd(t[2])
        m._post_fit(t[2].copy(), types.SimpleNamespace(x=eta, fun=ref.eval(t[2], reml)["ll"]), reml)
        return m

    names = None

    def hist(ck):
        lay = ck.choose("layout", list(LAYOUTS))
        f, df, ref, t = setup(ck, lay)
        snap = df.copy()
        tt = [x.copy() for x in t]
        m = fitted2(f, df, ref, t)
        o = ops2(m, ref, t)
        fresh = None
        ops = list(o)
        depth = (3 if big else 2) if lay == "crossed" else 2
        if not big and lay != "crossed":
            ops = [k for k in ops if not k.endswith("False")]
        beta0, se0 = m.beta.copy(), m.se_beta.copy()
        for d in range(depth):
            k = ck.choose(f"query {d}", ops)
            fn, want = o[k]
            if want is None:
                fresh = fresh or ops2(fitted2(f, df, ref, t), ref, t)
                want = fresh[k][0]()
            ck.close("query/" + k.rstrip("TrueFals").rstrip("01"), ck.call(k, fn), want, 1e-7)
        # final probe: cheap queries that read the shared buffers
        for k in ("predict", "loglike0True", "raneff_se-fit", "gradient1True"):
            ck.close("after/" + k, ck.call(k, o[k][0]), o[k][1], 1e-7)
        ck.expect("arguments unchanged", all(np.array_equal(a, b) for a, b in zip(t, tt)))
        ck.expect("data unchanged", df.equals(snap))
        ck.expect("estimates unchanged", np.array_equal(m.beta, beta0) and np.array_equal(m.se_beta, se0) and np.array_equal(m.theta, t[2]))
    rep.explore("second-generation", hist)

    def hist1(ck):
        lay = ck.choose("layout", list(LAYOUTS))
        f, df, ref, t = setup(ck, lay)
        snap = df.copy()
        tt = [x.copy() for x in t]
        m = LMM(f, df)
        o = {}
        for i in (0, 1):
            th = t[i]
            for reml in (True, False):
                w = ref.eval(th, reml, hess=True)
                o[f"loglike{i}{reml}"] = (lambda th=th, r=reml: m.loglike(th, r), w["ll"])
                o[f"gradient{i}{reml}"] = (lambda th=th, r=reml: m.gradient(th, r), w["grad"])
            w = ref.eval(th, True, hess=True)
            o[f"hessian{i}"] = (lambda th=th: m.hessian(th), w["hess"])
            o[f"effects{i}"] = (lambda th=th: np.concatenate([np.ravel(z) for z in m._compute_effects(th)]),
                                np.concatenate([w["beta"], w["C"].ravel(), w["u"]]))
            o[f"vinv{i}"] = (lambda th=th: m.vinvcrossprod(ref.X, ref.Z, th), ref.X.T @ w["Vi"] @ ref.Z)
            o[f"G{i}"] = (lambda th=th: m.update_gmat(th).toarray(), ref.G(th))
            tc = m.transform_theta(th.copy())
            o[f"loglike_c{i}"] = (lambda tc=tc: m.loglike_c(tc), w["ll"])
            L = np.linalg.cholesky(ref.G(th))
            o[f"L{i}"] = (lambda th=th: m.update_lmat(th).toarray(), L)
            J = None
        for d in range(3 if big else 2):
            k = ck.choose(f"query {d}", list(o))
            ck.close("query/" + k.rstrip("TrueFals").rstrip("01"), ck.call(k, o[k][0]), o[k][1], 1e-7)
        for k in ("loglike0True", "gradient1True"):
            ck.close("after/" + k, ck.call(k, o[k][0]), o[k][1], 1e-7)
        ck.expect("arguments unchanged", all(np.array_equal(a, b) for a, b in zip(t, tt)))
        ck.expect("data unchanged", df.equals(snap))
    rep.explore("first-generation", hist1)

    def fit(ck):
        """an interrupted or repeated fit leaves the model answering as a fresh one"""
        lay = ck.choose("layout", list(LAYOUTS))
        seq = [ck.choose(f"fit {i}", ["reml", "ml", "reml-interrupted"]) for i in range(2)]
        f, df, ref, t = setup(ck, lay)
        m = LMM2(f, df)
        theta0 = m.mme.re_mod.theta.copy()
        done = []

        def go(mm, how):
            kw = dict(opt_kws=dict(maxiter=4), method="l-bfgs-b")
            mm.fit(reml=how != "ml", **kw)
            return mm
        for how in seq:
            if how == "reml-interrupted":
                cnt = [0]
                orig = m.gradient_reparam

                def boom(*a, **k):
                    cnt[0] += 1
                    if cnt[0] == 3:
                        raise KeyboardInterrupt()
                    return orig(*a, **k)
                try:
                    m.gradient_reparam = boom
                    m.fit(reml=True, opt_kws=dict(maxiter=4), method="l-bfgs-b")
                except KeyboardInterrupt:
                    pass
                finally:
                    del m.gradient_reparam
                done.append(None)
                continue
            go(m, how)
            fr = go(LMM2(f, df), how)
            ck.close("refit/theta", m.theta, fr.theta, 1e-8)
            ck.close("refit/params", m.res[["estimate", "SE"]].values, fr.res[["estimate", "SE"]].values, 1e-6)
            ck.close("refit/ic", m.sumstats.values, fr.sumstats.values, 1e-8)
            w = ref.eval(m.theta, how != "ml")
            ck.close("fit/beta", m.beta, w["beta"], 1e-6)
            ck.close("fit/u", m.u, w["u"], 1e-6)
            ck.close("fit/se_beta", m.se_beta, np.sqrt(np.diag(w["C"])), 1e-6)
            nfe, npar = 2, len(m.theta)
            c = (n - nfe if how != "ml" else n) * np.log(2 * np.pi)
            ck.close("fit/ll", m.ll, w["ll"] + c, 1e-7)
            ck.close("fit/llf", m.llf, -0.5 * (w["ll"] + c), 1e-7)
            dd, ne = (npar, n - nfe) if how != "ml" else (npar + nfe, n)
            ck.close("fit/aic", [m.AIC, m.BIC, m.CAIC], [m.ll + 2 * dd, m.ll + dd * np.log(ne), m.ll + dd * (np.log(ne) + 1)], 1e-9)
            ck.expect("fit/improves", w["ll"] <= ref.eval(theta0, how != "ml")["ll"] + 1e-6)
            ck.expect("names", list(m.res.index[:2]) == list(m.fe_names) and len(m.res) == nfe + npar and m.res.index[-1] == "resid_cov")
        ck.eq("initial theta unchanged", m.mme.re_mod.theta, theta0)
    rep.explore("fit-histories", fit)
