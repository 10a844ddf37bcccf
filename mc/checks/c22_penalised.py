"""C22: penalised regression: optimality of elastic net / lasso solutions, paths,
cross validation bookkeeping."""
import itertools

import numpy as np

from mc.lib import numdiff


def centred(X):
    X = X - X.mean(0)
    return X / np.sqrt((X ** 2).mean(0))


def designs():
    """small fixed designs; every column centred with unit mean square"""
    h = np.array([[1, 1, 1, 1, 1, 1, 1, 1], [1, 1, 1, 1, -1, -1, -1, -1], [1, 1, -1, -1, 1, 1, -1, -1], [1, -1, 1, -1, 1, -1, 1, -1]], float)
    orth = h[1:].T
    rng = np.random.default_rng(220)
    base = rng.normal(size=(8, 1))
    corr = centred(base + 0.45 * rng.normal(size=(8, 3)))
    neg = corr * np.array([1.0, -1.0, 1.0])
    wide = centred(rng.normal(size=(8, 1)) + rng.normal(size=(8, 9)))
    alias = centred(np.c_[corr[:, :2], corr[:, 0] + corr[:, 1]])
    one = corr[:, :1]
    return {"orthogonal": orth, "collinear": corr, "mixed-sign": neg, "aliased": alias, "single": one, "wide": wide}


def responses(n):
    out = []
    for pat in itertools.product([0, 1], repeat=n - 1):
        y = np.r_[1.0, pat]
        if 0 < y.sum() < n:
            out.append(y)
    return out


def kkt(grad, b, lam, alpha):
    """largest violation of the optimality conditions; grad = gradient of the smooth loss"""
    g = grad + lam * (1 - alpha) * b
    viol = np.where(b != 0, np.abs(g + lam * alpha * np.sign(b)), np.maximum(np.abs(g) - lam * alpha, 0.0))
    return viol.max() if len(viol) else 0.0


def sig(x):
    return 1 / (1 + np.exp(-x))


def run(rep, tier):
    from pystatsm.pyglmnet import gaussian_eln as ge, binomial_eln as be, binom_eln2 as b2, eln_utils as eu
    from pystatsm.pyglmnet.glmen import GLMEN
    from pystatsm.pyglmnet.glmen2 import ElasticNetGLM, overflow_adjust
    from pystatsm.pyglmnet import lars as la, lasso as ls
    from pystatsm.pyglmnet.sparse_model_sim import SparseRegressionModel
    from pystatsm.pyglm.families import Gaussian, Binomial, Poisson
    big = tier == "thorough"
    rep.assumptions += ["predictors are centred (the penalised solvers centre the response only)", "one-class folds are excluded from binomial cross validation"]
    D = designs()
    ALPHAS = [1.0, 0.99, 0.5, 0.1]
    FR = [0.02, 0.2, 0.5, 0.9, 1.0, 1.3]
    X8 = D["collinear"]
    Y8 = responses(8)

    def warm():
        y = Y8[3]
        ge.elnet(X8, y, 0.1, 0.5)
        be.binom_glmnet(X8, y, 0.05, 0.5)
        b2.binom_elnet(X8, y, 0.05, 0.5)
        b2.binom_elnet(X8, y.astype(int), 0.05, 0.5)
        b2.cv_dev(np.zeros((1, 4)), np.ones(1), 0.5, y, X8, np.ones(8) / 8)
        be.binom_eval(y, X8 @ np.zeros(3), np.zeros(3), 0.5, 0.1)
        m = ElasticNetGLM(X8, y, Gaussian(), alpha=0.5)
        m._glm_elnet(m.get_intercept(), m.X, m.X ** 2, m.y, m.wobs, 0.1)
    rep.warm(warm)

    def gaussian(ck):
        name = ck.choose("design", list(D))
        X = D[name]
        n, p = X.shape
        alpha = ck.choose("alpha", ALPHAS)
        fr = ck.choose("fraction", FR)
        start = ck.choose("start", ["default", "zero", "wrong-sign"])
        ys = Y8 if big else Y8[::7]
        y = 3.0 * ck.choose("y", ys) + np.linspace(-1, 1, n) ** 2
        yc = y - y.mean()
        g0 = X.T @ yc / n
        lam = fr * np.abs(g0).max() / alpha
        b0 = {"default": None, "zero": np.zeros(p), "wrong-sign": -np.sign(g0) * 0.7}[start]
        keep, act = (None if b0 is None else b0.copy()), np.ones(p, bool)
        y_in, X_in = y.copy(), X.copy()
        b, f, active, nit = ck.must("fit", ge.elnet, X_in, y_in, lam, alpha, b=b0, active=act, dtol=1e-15, n_iters=20000)
        if b0 is not None:
            ck.eq("start-unchanged", b0, keep)
        ck.expect("active-unchanged", act.all(), "the caller's active set was modified")
        ck.expect("data-unchanged", np.array_equal(y, y_in) and np.array_equal(X, X_in), "data modified")
        v = kkt(-X.T @ (yc - X @ b) / n, b, lam, alpha)
        ck.expect("optimal", v < 1e-5 * (1 + lam), "optimality conditions violated by %g: b=%s lambda=%g alpha=%g" % (v, b, lam, alpha))
        if fr > 1:
            ck.expect("null", np.abs(b).max() < 1e-12, "b=%s" % b)
        ck.eq("active-set", active, b != 0)
        r = yc - X @ b
        obj = (r @ r) / (2 * n) + lam * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * b @ b)
        ck.close("objective", f[-1, 2], obj, 1e-10)
        ck.close("loglike", ge.elnet_loglike(X, yc, b, alpha, lam)[2], obj, 1e-12)
        ck.expect("descent", np.all(np.diff(f[:, 2]) <= 1e-12), "objective increased: %s" % f[:, 2])

    rep.explore("gaussian", gaussian)

    def gaussian_grad(ck):
        X = D[ck.choose("design", list(D))]
        n, p = X.shape
        alpha, lam = ck.choose("alpha", ALPHAS + [0.0]), ck.choose("lambda", [0.0, 0.3, 2.0])
        signs = ck.choose("signs", list(itertools.product([-1, 1], repeat=min(p, 3))))
        b = np.r_[np.array(signs), np.ones(p - len(signs))] * np.linspace(0.3, 1.1, p)
        y = 3.0 * Y8[17]
        ck.close("gradient", ge.elnet_grad(b, X, y, lam, alpha), numdiff.grad(lambda t: ge.elnet_loglike(X, y, t, alpha, lam)[2], b, 1e-4), 1e-7)
        ck.close("penalty", ge.elnet_penalty(b, alpha, lam), lam * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * b @ b), 1e-12)

    rep.explore("gaussian-gradient", gaussian_grad)

    def folds_of(n, k, y, categorical):
        return [(np.asarray(a), np.asarray(b)) for a, b in eu.kfold_indices(n, k, y, categorical)]

    def gaussian_cv(ck):
        name = ck.choose("design", ["orthogonal", "collinear", "wide"])
        X = D[name]
        n, p = X.shape
        cv = ck.choose("folds", [2, 4, 8])
        alpha = ck.choose("alpha", [1.0, 0.5])
        warm_start, seq = ck.flag("warm"), ck.flag("screen")
        intercept = ck.flag("intercept")
        refit = ck.flag("refit")
        grid = ck.choose("grid", [None, 5, "own"])
        y = 2.0 * Y8[29] + np.arange(n) * 0.1
        kw = dict(lambdas=np.array([0.8, 0.3, 0.05]) if isinstance(grid, str) else grid)
        if grid is None and not (warm_start and seq and refit and name == "collinear" and cv == 4):
            kw = dict(lambdas=3)
        bcv, _, f, lams, betas, _, nits = ck.must("fit", ge.cv_glmnet, cv, X, y, alpha=alpha, dtol=1e-14, n_iters=20000, warm_start=warm_start, seq_rule=seq, intercept=intercept, refit=refit, **kw)
        nl = {None: 150, 5: 5, 3: 3}.get(kw["lambdas"] if not isinstance(kw["lambdas"], np.ndarray) else "", 3)
        ck.eq("grid-size", len(lams), nl)
        if not isinstance(grid, str):
            lmax = np.abs(X.T @ (y - y.mean())).max() / n / alpha
            ck.close("grid", lams, lmax * 0.001 ** (np.arange(nl) / (nl - 1)), 1e-9)
            if refit and intercept:
                ck.expect("null-start", np.abs(betas[0]).max() < 1e-9, "largest lambda gives %s" % betas[0])
        else:
            ck.eq("own-grid", lams, kw["lambdas"])
        ck.eq("shapes", (bcv.shape, f.shape, betas.shape), ((nl, cv, p), (nl, cv, 3), (nl, p)))
        tol = 1e-4 if p < n else 1e-3
        idx = np.arange(nl) if nl < 10 else [0, 40, 149]
        for k, (fi, vi) in enumerate(folds_of(n, cv, y, False)):
            yf, yt = y[fi], y[vi]
            if intercept:
                yf, yt = yf - yf.mean(), yt - yt.mean()
            for i in idx:
                b = bcv[i, k]
                v = kkt(-X[fi].T @ (yf - X[fi] @ b) / len(fi), b, lams[i], alpha)
                ck.expect("fold-optimal", v < tol, "fold %d lambda %d: violation %g" % (k, i, v))
                r = yt - X[vi] @ b
                pen = lams[i] * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * b @ b)
                ck.close("held-out", f[i, k], [(r @ r) / len(vi), pen, (r @ r) / (2 * len(vi)) + pen], 1e-9)
        if refit:
            yy = y - y.mean() if intercept else y
            for i in idx:
                v = kkt(-X.T @ (yy - X @ betas[i]) / n, betas[i], lams[i], alpha)
                ck.expect("path-optimal", v < tol, "lambda %d: violation %g" % (i, v))

    rep.explore("gaussian-cv", gaussian_cv)

    def binom_kkt(X, y, b, b0, lam, alpha, w=None):
        n = len(y)
        w = np.ones(n) / n if w is None else w / w.sum()
        r = w * (y - sig(X @ b + b0))
        return max(kkt(-X.T @ r, b, lam, alpha), abs(r.sum()))

    def binomial(ck):
        name = ck.choose("design", list(D))
        X = D[name]
        n, p = X.shape
        alpha = ck.choose("alpha", ALPHAS)
        fr = ck.choose("fraction", [0.3, 0.6, 0.9, 1.0, 1.3])
        y = ck.choose("y", Y8 if big else Y8[1::9])
        start = ck.choose("start", ["default", "far"])
        if fr < 0.3 and alpha < 0.2:
            fr = 0.3
        lam = fr * np.abs(X.T @ (y - y.mean())).max() / n / alpha
        b0 = None if start == "default" else 0.5 * (-1.0) ** np.arange(p)
        keep = None if b0 is None else b0.copy()
        b, c, active, dev, _ = ck.must("fit", be.binom_glmnet, X, y, lam, alpha, b=b0, btol=1e-20, dtol=1e-16, n_iters=60000)
        if b0 is not None:
            ck.eq("start-unchanged", b0, keep)
        v = binom_kkt(X, y, b, c, lam, alpha)
        ck.expect("optimal", v < 2e-5, "optimality conditions violated by %g: b=%s intercept=%g lambda=%g alpha=%g" % (v, b, c, lam, alpha))
        if fr > 1:
            ck.expect("null", np.abs(b).max() < 1e-9, "b=%s" % b)
        b, c, *_ = ck.must("fit", be.binom_glmnet, X, y, lam, alpha, intercept=False, btol=1e-20, dtol=1e-16, n_iters=60000)
        v = kkt(-X.T @ (y - sig(X @ b)) / n, b, lam, alpha)
        ck.expect("optimal-no-intercept", v < 2e-5, "violated by %g" % v)
        ck.eq("no-intercept", c, 0.0)
        eta = X @ b
        ll = np.mean(y * eta - np.log1p(np.exp(eta)))
        pen = lam * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * b @ b)
        ck.close("evaluate", be.binom_eval(y, eta, b, alpha, lam), [-2 * ll, pen, pen - ll], 1e-10)

    rep.explore("binomial", binomial)

    def binomial_cv(ck):
        rng = np.random.default_rng(11)
        n, p = 24, 3
        X = centred(rng.normal(size=(n, 1)) + 0.7 * rng.normal(size=(n, p)))
        y = (X[:, 0] - X[:, 1] + 0.8 * rng.normal(size=n) > 0.3).astype(float)
        cv = ck.choose("folds", [2, 3, 4])
        alpha = ck.choose("alpha", [1.0, 0.5])
        seq, warm_start, refit = ck.flag("screen"), ck.flag("warm"), ck.flag("refit")
        lams = np.array([0.3, 0.1, 0.04]) / alpha
        own = ck.flag("own")
        kw = dict(lambdas=lams) if own else dict(lambdas=4, lmin=0.02)
        bcv, ccv, f, lg, betas, c, nits = ck.must("fit", be.cv_binom_glmnet, cv, X, y, alpha=alpha, btol=1e-18, dtol=1e-15, n_iters=30000, seq_rule=seq, warm_start=warm_start, refit=refit, rng=np.random.default_rng(3), **kw)
        if own:
            ck.eq("own-grid", lg, lams)
        else:
            lmax = np.abs(X.T @ (y - y.mean())).max() / n / alpha
            ck.close("grid", lg, np.exp(np.linspace(np.log(lmax), np.log(0.02), 4)), 1e-9)
            if refit:
                ck.expect("null-start", np.abs(betas[0]).max() < 1e-6, "largest lambda gives %s" % betas[0])
        for k, (fi, vi) in enumerate(folds_of(n, cv, y, True)):
            for i, lam in enumerate(lg):
                b = bcv[i, k]
                v = binom_kkt(X[fi], y[fi], b, ccv[i, k], lam, alpha)
                ck.expect("fold-optimal", v < 1e-4, "fold %d lambda %d: violation %g" % (k, i, v))
                eta = X[vi] @ b + ccv[i, k]
                ll = np.mean(y[vi] * eta - np.log1p(np.exp(eta)))
                pen = lam * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * b @ b)
                ck.close("held-out", f[i, k], [-2 * ll, pen, pen - ll], 1e-8)
        if refit:
            for i, lam in enumerate(lg):
                v = binom_kkt(X, y, betas[i], c[i], lam, alpha)
                ck.expect("path-optimal", v < 1e-4, "lambda %d: violation %g" % (i, v))

    rep.explore("binomial-cv", binomial_cv)

    def binomial2(ck):
        name = ck.choose("design", list(D))
        X = D[name]
        n, p = X.shape
        alpha = ck.choose("alpha", ALPHAS)
        fr = ck.choose("fraction", [0.2, 0.6, 0.9, 1.3])
        y = ck.choose("y", Y8 if big else Y8[2::9])
        wk = ck.choose("weights", ["none", "uneven"])
        w = None if wk == "none" else 1.0 + (np.arange(n) % 3)
        ww = np.ones(n) / n if w is None else w / w.sum()
        kind = ck.choose("response", ["float", "int"])
        lam = fr * np.abs(X.T @ (ww * (y - ww @ y))).max() / alpha
        yy = y if kind == "float" else y.astype(int)
        beta, f, _, halves = ck.must("fit", b2.binom_elnet, X, yy.astype(float) if wk == "uneven" else yy, lam, alpha, weights=w, cd_kws=dict(dtol=1e-20, ftol=1e-15, n_iters=2000, max_iters=5000))
        v = binom_kkt(X, y, beta[1:], beta[0], lam, alpha, ww)
        ck.expect("optimal", v < 2e-5, "optimality conditions violated by %g: beta=%s lambda=%g alpha=%g" % (v, beta, lam, alpha))
        eta = beta[0] + X @ beta[1:]
        b = beta[1:]
        obj = -ww @ (y * eta - np.log1p(np.exp(eta))) + lam * (alpha * np.abs(b).sum() + (1 - alpha) / 2 * b @ b)
        ck.close("objective", f[-1], obj, 1e-9)
        ck.expect("descent", np.all(np.diff(f) <= 2e-7), "objective increased: %s" % f)

    rep.explore("binomial-second", binomial2)

    def binomial2_path(ck):
        rng = np.random.default_rng(12)
        n, p = 30, 3
        X = 5.0 + np.array([1.0, 3.0, 0.2]) * (rng.normal(size=(n, 1)) + 0.7 * rng.normal(size=(n, p)))
        Z = centred(X)
        y = (Z[:, 0] - Z[:, 1] + 0.8 * rng.normal(size=n) > 0.3).astype(float)
        alpha = ck.choose("alpha", [1.0, 0.5])
        wk = ck.choose("weights", ["equal", "uneven"])
        w = np.ones(n) if wk == "equal" else 1.0 + np.arange(n) % 3
        kws = dict(dtol=1e-20, ftol=1e-15, n_iters=2000, max_iters=5000)
        lams = np.array([0.3, 0.1, 0.03]) / alpha
        betas, f, _, lg = ck.must("path", b2.binom_elnet_path, X, y, w, alpha, lams, cd_kws=kws)
        ck.eq("grid", lg, lams)
        for i, lam in enumerate(lams):
            v = binom_kkt(Z, y, betas[i, 1:], betas[i, 0], lam, alpha, w)
            ck.expect("path-optimal", v < 2e-5, "lambda %d: violation %g" % (i, v))
        auto = b2.get_lambdas(Z, y, w, 7, alpha)
        wn = w / w.sum()
        ck.close("largest-lambda", auto[0], np.abs(Z.T @ (wn * (y - wn @ y))).max() / alpha, 1e-9)
        ck.close("grid-spacing", np.diff(np.log(auto)), np.full(6, np.log(1e-4) / 6), 1e-9)
        cv = ck.choose("folds", [2, 3])
        reps = ck.choose("repeats", [1, 2])
        bcv, fcv, lg = ck.must("cv", b2.binom_glmnet_cv, X, y, alpha, lams, cv=cv, n_rep=reps, cd_kws=kws)
        ck.eq("cv-shapes", (bcv.shape, fcv.shape), ((reps, cv, 3, 1 + p), (reps, 3, cv, 2)))
        for k, (fi, vi) in enumerate(folds_of(n, cv, y, True)):
            m, s = X[fi].mean(0), X[fi].std(0)
            for i, lam in enumerate(lams):
                b = bcv[0, k, i]
                v = binom_kkt((X[fi] - m) / s, y[fi], b[1:], b[0], lam, alpha)
                ck.expect("fold-optimal", v < 2e-5, "fold %d lambda %d: violation %g" % (k, i, v))
                eta = b[0] + (X[vi] - m) / s @ b[1:]
                ck.close("held-out", fcv[0, i, k], [-np.mean(y[vi] * eta - np.log1p(np.exp(eta))), lam * (alpha * np.abs(b[1:]).sum() + (1 - alpha) / 2 * b[1:] @ b[1:])], 1e-8)

    rep.explore("binomial-second-path", binomial2_path)

    def wrapper(ck):
        import pandas as pd
        fam = ck.choose("family", ["gaussian", "binomial"])
        how = ck.choose("input", ["arrays", "frames", "formula"])
        intercept = ck.flag("intercept")
        alpha = ck.choose("alpha", [1.0, 0.4])
        rng = np.random.default_rng(5)
        X = centred(rng.normal(size=(20, 2)))
        y = X @ [1.0, -0.5] + rng.normal(size=20)
        if fam == "binomial":
            y = (y > 0).astype(float)
        df = pd.DataFrame(X, columns=["a", "b"]).assign(y=y)
        m = ck.must("init", GLMEN, formula="y ~ a + b - 1", data=df, family=fam) if how == "formula" else ck.must("init", GLMEN, X=X if how == "arrays" else df[["a", "b"]], y=y if how == "arrays" else df[["y"]], family=fam)
        ck.eq("response", m.y, y)
        kw = dict(dtol=1e-15, btol=1e-20)
        ck.must("fit", m.fit, 0.07, alpha, intercept=intercept, n_iters=20000, **kw)
        if fam == "gaussian":
            yc = y - intercept * y.mean()
            v = kkt(-X.T @ (yc - X @ m.beta) / 20, m.beta, 0.07, alpha)
            ck.close("predict", m.predict(intercept=intercept), X @ m.beta + intercept * y.mean(), 1e-12)
        else:
            v = binom_kkt(X, y, m.beta, m.b0, 0.07, alpha) if intercept else kkt(-X.T @ (y - sig(X @ m.beta)) / 20, m.beta, 0.07, alpha)
        ck.expect("optimal", v < 2e-5, "violated by %g" % v)
        ck.eq("active", np.asarray(m.active)[m.beta != 0].all(), True)
        ck.must("fit", m.fit_cv, cv=4, alpha=alpha, lambdas=np.array([0.4, 0.2, 0.1, 0.05, 0.01]), n_iters=20000, intercept=intercept, **kw)
        mean = m.f_path[:, :, 0].mean(1)
        i = int(np.argmin(mean))
        ck.eq("best-index", m.lmin_idx, i)
        ck.eq("best-lambda", m.lambda_min, m.lambdas[i])
        ck.eq("best-coefficients", m.beta, m.bfits[i])
        ck.eq("nonzero", m.n_nonzero, (m.bfits != 0).sum(1))
        ck.close("summary-mean", m.cvres["mean"].values, mean, 1e-12)
        ck.close("summary-se", m.cvres["std"].values, m.f_path[:, :, 0].std(1, ddof=1) / 2, 1e-12)

    rep.explore("wrapper", wrapper)

    FAMS = {"gaussian": Gaussian, "binomial": Binomial, "poisson": Poisson}

    def fam_y(fam, n, seed):
        rng = np.random.default_rng(seed)
        return {"gaussian": rng.normal(size=n), "binomial": rng.permutation(np.arange(n) % 2).astype(float), "poisson": rng.poisson(2.0, n).astype(float)}[fam]

    def family_grad(ck):
        fam = ck.choose("family", list(FAMS))
        alpha = ck.choose("alpha", [1.0, 0.5, 0.0])
        lam = ck.choose("lambda", [0.0, 0.4])
        X = 2.0 + D[ck.choose("design", ["orthogonal", "collinear"])] * np.array([1.0, 2.0, 0.5])
        wk = ck.choose("weights", ["none", "uneven"])
        w = None if wk == "none" else 1.0 + np.arange(8) % 3
        y = fam_y(fam, 8, 3)
        m = ElasticNetGLM(X, y, FAMS[fam](), wobs=w, alpha=alpha)
        ww = np.ones(8) / 8 if w is None else w / w.sum()
        ck.close("standardised", m.X, centred(X), 1e-12)
        signs = ck.choose("signs", list(itertools.product([-1, 1], repeat=3)))
        b = np.r_[0.3, np.array(signs) * [0.2, 0.5, 0.4]]
        ck.close("gradient", m.obj_grad(b, lam), numdiff.grad(lambda t: m.obj_func(t, lam), b, 1e-4), 1e-7)
        ck.close("loss-gradient", m.dev_grad(b, lam) + np.r_[0.0, m.pen_grad(b, lam)], m.obj_grad(b, lam), 1e-12)
        ck.close("hessian", m.obj_hess(b, lam), numdiff.jac(lambda t: m.obj_grad(t, lam), b, 1e-4), 1e-6)
        eta = b[0] + centred(X) @ b[1:]
        loss = {"gaussian": lambda: 0.5 * (y - eta) ** 2, "binomial": lambda: np.log1p(np.exp(eta)) - y * eta, "poisson": lambda: np.exp(eta) - y * eta + np.where(y > 0, y * np.log(np.maximum(y, 1)) - y, 0.0)}[fam]()
        ck.close("objective", m.obj_func(b, lam), ww @ loss + lam * (alpha * np.abs(b[1:]).sum() + (1 - alpha) / 2 * b[1:] @ b[1:]), 1e-10)
        s = m.get_intercept()
        ck.close("null-fit", np.r_[ww @ y, s[1:]], np.r_[m.family.inv_link(s[0]), np.zeros(3)], 1e-10)

    rep.explore("family-derivatives", family_grad)

    def family_fit(ck):
        fam = ck.choose("family", list(FAMS))
        case = ck.choose("case", ["orthogonal", "ridge", "dense"])
        wk = ck.choose("weights", ["none", "uneven"])
        w = None if wk == "none" or (case == "orthogonal") else 1.0 + np.arange(24) % 3
        seed = ck.choose("data", list(range(6 if big else 3)))
        X = np.tile(D["orthogonal" if case == "orthogonal" else "collinear"], (3, 1)) * [1.0, 3.0, 0.3] + 1.0
        y = fam_y(fam, 24, seed + 40)
        if fam != "gaussian" and case == "orthogonal":
            case = "ridge"
        alpha = {"orthogonal": ck.choose("alpha", [1.0, 0.5]), "ridge": 0.0, "dense": 0.3}[case]
        m = ElasticNetGLM(X, y, FAMS[fam](), wobs=w, alpha=alpha)
        Z, ww = centred(X), (np.ones(24) / 24 if w is None else w / w.sum())
        kws = dict(ftol=1e-15, inner_kws=dict(dtol=1e-18, max_iters=20000))

        def viol(b, lam):
            mu = m.family.inv_link(b[0] + Z @ b[1:])
            r = ww * (y - mu)
            return max(kkt(-Z.T @ r, b[1:], lam, alpha), abs(r.sum()))
        if case == "dense":
            lams = [0.002]
            lamax = None
        else:
            lams, null_dev, b0, eta, mu = m.get_start_param(6)
            g = np.abs(Z.T @ (ww * (y - ww @ y))).max() / max(alpha, 1e-3)
            ck.close("largest-lambda", lams[0], g, 1e-9)
            ck.close("grid-spacing", np.diff(np.log(lams)), np.full(5, np.log(1e-4) / 5), 1e-9)
            ck.close("null-deviance", null_dev, m._dev_mu(np.full(24, ww @ y)), 1e-10)
        betas, f, hist = ck.must("path", m._glm_elnet_path, m.X, m.X ** 2, y, m.wobs, lams, kws=kws)
        for i, lam in enumerate(lams):
            if case == "dense" and np.any(betas[i][1:] == 0):
                ck.outcome = "sparse"
                continue
            v = viol(betas[i], lam)
            ck.expect("path-optimal", v < 1e-5, "lambda %d: violation %g, beta=%s" % (i, v, betas[i]))
            ck.close("objective", f[i, 0], m.obj_func(betas[i], lam), 1e-9)
        if case == "orthogonal":
            ck.expect("null-start", np.abs(betas[0][1:]).max() < 1e-9, "beta=%s" % betas[0])

    rep.explore("family-path", family_fit)

    def reenter(ck):
        """a coefficient that is zero early in the fit and nonzero at the optimum"""
        X = D["collinear"]
        fam = ck.choose("family", ["gaussian"])
        y = X @ np.array([0.5, -1.0, 1.0]) + 0.2 * (-1.0) ** np.arange(8)
        lam = 0.03
        m = ElasticNetGLM(X, y, Gaussian(), alpha=1.0)
        b, _ = m._glm_elnet(m.get_intercept(), m.X, m.X ** 2, y, m.wobs, lam, ftol=1e-15, inner_kws=dict(dtol=1e-18, max_iters=20000))
        v = kkt(-X.T @ (y - b[0] - X @ b[1:]) / 8, b[1:], lam, 1.0)
        ck.expect("optimal", v < 1e-5, "violation %g, beta=%s" % (v, b))

    rep.explore("family-reenter", reenter)

    def family_cv(ck):
        fam = ck.choose("family", list(FAMS))
        cv = ck.choose("folds", [2, 3, 4])
        reps = ck.choose("repeats", [1, 2])
        wk = ck.choose("weights", ["none", "uneven"])
        X = np.tile(D["collinear"], (3, 1)) * [1.0, 3.0, 0.3] + np.arange(24)[:, None] * [0.02, -0.01, 0.03]
        y = fam_y(fam, 24, 41)
        w = None if wk == "none" else 1.0 + np.arange(24) % 3
        m = ElasticNetGLM(X, y, FAMS[fam](), wobs=w, alpha=0.5)
        ck.must("fit", m.fit, n_lambdas=6, cv=cv, n_rep=reps)
        mean = m.f_paths.mean(axis=(1, 2))
        i = int(np.argmin(mean))
        ck.eq("shapes", (m.f_paths.shape, m.betas.shape), ((6, reps, cv), (6, 4)))
        ck.eq("best", (m.lmin_idx, m.lmin), (i, m.lambdas[i]))
        ck.eq("best-coefficients", m.beta, m.betas[i])
        ck.close("fitted-mean", m.mu, m.family.inv_link(m.beta[0] + centred(X) @ m.beta[1:]), 1e-10)
        for l in range(6):
            dev = m._dev_mu(m.family.inv_link(m.betas[l][0] + centred(X) @ m.betas[l][1:]))
            ck.close("deviance-ratio", m.dev_ratios[l], 1 - dev / m.null_dev, 1e-9)
        ck.expect("explains-more", np.all(np.diff(m.dev_ratios) > -1e-4), "deviance ratio falls as the penalty falls: %s" % m.dev_ratios)
        Z = m.X
        for k, (fi, vi) in enumerate(folds_of(24, cv, y, fam == "binomial")):
            mu_, sd_ = Z[fi].mean(0), Z[fi].std(0)
            for l in range(6):
                b = m.beta_path[l, :, 0, k]
                eta = b[0] + (Z[vi] - mu_) / sd_ @ b[1:]
                wv = m.wobs[vi]
                d = np.sum(m.family.deviance(y=y[vi], mu=m.family.inv_link(eta), weights=wv)) / wv.sum()
                ck.close("held-out", m.f_paths[l, 0, k], d, 1e-9)

    rep.explore("family-cv", family_cv)

    def kfold(ck):
        n = ck.choose("n", [4, 5, 6, 7] + ([8] if big else []))
        k = ck.choose("k", [2, 3, 4])
        cat = ck.flag("categorical")
        rnd = ck.flag("randomize")
        y = np.array(ck.choose("y", list(itertools.product([0, 1], repeat=n)) if cat else [tuple(range(n))]))
        inds = ck.must("split", eu.kfold_indices, n, k, y, cat, rnd, np.random.default_rng(4) if rnd else None)
        ck.eq("folds", len(inds), k)
        allv = np.sort(np.concatenate([v for _, v in inds]))
        ck.eq("partition", allv, np.arange(n))
        for f, v in inds:
            ck.eq("complement", np.sort(np.concatenate([f, v])), np.arange(n))
        for lev in np.unique(y) if cat else [None]:
            sizes = [int((y[v] == lev).sum()) if cat else len(v) for _, v in inds]
            ck.expect("balanced", max(sizes) - min(sizes) <= 1, "fold sizes %s" % sizes)
        if not rnd:
            X = np.arange(2.0 * n).reshape(n, 2)
            Xf, yf, Xt, yt = eu.crossval_mats(X, y, n, k, cat)
            for i, (f, v) in enumerate(inds):
                for got, want in zip((Xf[i], yf[i], Xt[i], yt[i]), (X[f], y[f], X[v], y[v])):
                    ck.eq("rows", got, want)

    rep.explore("folds", kfold)

    def path(ck):
        method = ck.choose("method", ["lasso", "lar"])
        p = ck.choose("p", [1, 2, 3, 4])
        opts = ck.choose("options", [(True, False, False), (True, False, True), (True, True, True), (False, False, False)])
        seed = ck.choose("data", list(range(60 if big else 25)))
        rng = np.random.default_rng(seed)
        n = 9
        X = rng.normal(size=(n, 1)) * ck.choose("corr", [0.0, 1.5, 4.0]) + rng.normal(size=(n, p))
        X = X * np.array([1.0, -1.0, 1.0, -1.0])[:p]
        y = X @ rng.choice([-1.0, 1.0, 2.0], p) + rng.normal(size=n)
        intercept, normalize, standardize = opts
        lams, active, betas = ck.must("path", la.lars, X, y, method=method, intercept=intercept, normalize=normalize, standardize=standardize)
        Z, r = X, y
        if intercept:
            Z, r = Z - Z.mean(0), r - r.mean()
        if standardize:
            Z = Z / Z.std(0)
        if normalize:
            Z = Z / np.sqrt(n)
        ck.eq("start", betas[0], np.zeros(p))
        ck.close("least-squares-end", betas[-1], np.linalg.lstsq(Z, r, rcond=None)[0], 1e-7)
        ck.expect("decreasing", np.all(np.diff(lams) < 1e-12), "lambdas %s" % lams)
        ck.close("end-lambda", lams[-1], 0.0, 1e-9)
        ck.eq("lengths", len(lams), len(betas))
        for i in range(len(lams)):
            c = Z.T @ (r - Z @ betas[i]) / n
            ck.close("knot-lambda", np.abs(c).max(), lams[i], 1e-8)
            if i + 1 < len(lams):
                for t in (0.0, 0.5):
                    b = (1 - t) * betas[i] + t * betas[i + 1]
                    lam = (1 - t) * lams[i] + t * lams[i + 1]
                    if method == "lasso":
                        v = kkt(-Z.T @ (r - Z @ b) / n, b, lam, 1.0)
                        ck.expect("optimal", v < 1e-7, "segment %d at %g: violation %g" % (i, t, v))
                    else:
                        c = np.abs(Z.T @ (r - Z @ b) / n)
                        ck.close("equicorrelated", c[b != 0], np.full((b != 0).sum(), lam), 1e-7)
                        ck.expect("bounded", c.max() <= lam + 1e-7, "correlation above lambda")
        ck.eq("active", np.sort(active), np.flatnonzero(betas[-1]))

    rep.explore("lars", path)

    def proximal(ck):
        X = D[ck.choose("design", list(D))]
        n, p = X.shape
        algo = ck.choose("algorithm", ["plain", "accelerated"])
        fr = ck.choose("fraction", [0.05, 0.3, 0.7, 1.0, 1.2])
        y = ck.choose("y", Y8 if big else Y8[::5]) * 3.0
        y = y - y.mean()
        start = ck.choose("start", ["zero", "far"])
        lam = fr * np.abs(X.T @ y).max() / n
        b0 = np.zeros(p) if start == "zero" else (-1.0) ** np.arange(p)
        keep = b0.copy()
        fun = ls.lasso_prox_grad if algo == "plain" else ls.lasso_accelerated_grad
        b, f = ck.must("fit", fun, b0, X, y, X.T @ y, X.T @ X, lam, np.linalg.eigvalsh(X.T @ X / n).max(), n_iters=20000 if algo == "plain" else 6000, rtol=1e-13, atol=1e-13)
        ck.eq("start-unchanged", b0, keep)
        v = kkt(-X.T @ (y - X @ b) / n, b, lam, 1.0)
        ck.expect("optimal", v < (1e-6 if p < n else 1e-4), "violation %g b=%s" % (v, b))
        r = y - X @ b
        ck.close("objective", ls.lasso_obj(b, X, y, lam), [r @ r / (2 * n), lam * np.abs(b).sum(), r @ r / (2 * n) + lam * np.abs(b).sum()], 1e-12)

    rep.explore("proximal", proximal)

    def sparse(ck):
        n, p = ck.choose("n", [12, 30]), ck.choose("p", [5, 8])
        k = ck.choose("nonzero", [1, 2, 3, 4, 5])
        rsq = ck.choose("rsq", [None, 0.3, 0.9])
        m = ck.must("init", SparseRegressionModel, n_obs=n, n_var=p, n_nnz=k, rsq=rsq, seed=4)
        ck.eq("shape", m.X.shape, (n, p))
        ck.close("scale", (m.X ** 2).mean(0), np.ones(p), 1e-10)
        vals = m.beta[m.beta != 0]
        ck.eq("coefficients", vals, np.array([(-1.0) ** i for i in range(k)]) if k % 2 == 0 else np.r_[[(-1.0) ** i for i in range(k - 1)], 1.0])
        rs = 0.5 if rsq is None else rsq
        v = m.lpred.var()
        ck.close("explained", v / (v + m.resid_scale ** 2), rs, 1e-10)
        ck.close("predictor", m.lpred, m.X @ m.beta, 1e-12)
        m2 = SparseRegressionModel(n_obs=n, n_var=p, n_nnz=k, rsq=rsq, seed=4)
        for dist in ("gaussian", "binomial"):
            for ns in (1, 3):
                a, b = m.simulate_dependent(dist, ns, binom_n=2), m2.simulate_dependent(dist, ns, binom_n=2)
                ck.eq("reproducible", a, b)
                ck.eq("sample-shape", a.shape, (n,) if ns == 1 else (n, ns))
                if dist == "binomial":
                    ck.expect("proportions", np.isin(a, [0.0, 0.5, 1.0]).all(), "values %s" % np.unique(a))

    rep.explore("sparse-simulation", sparse)
