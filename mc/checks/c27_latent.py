"""C27: bivariate normal probabilities, polychoric and polyserial correlations."""
import itertools

import numpy as np


def run(rep, tier):
    import pandas as pd
    import scipy as sp
    import scipy.optimize
    import scipy.special
    from pystatsm.utilities import func_utils as fu
    from pystatsm.pylvcorr import statfuncs as sf, lvcorr as lv, polychoric as p1, polychoric2 as p2
    big = tier == "thorough"
    rep.assumptions += ["|r| <= 0.98 in the evaluation of probabilities and derivatives", "every category of a variable is observed (in the complete pairs when values are missing)",
                        "fits: tables without a perfect ordering (the estimate is inside (-0.98, 0.98))"]
    ndtr, ndtri = sp.special.ndtr, sp.special.ndtri
    gx, gw = np.polynomial.legendre.leggauss(96)

    def phi(x):
        return np.exp(-0.5 * x * x) / np.sqrt(2 * np.pi)

    def Phi2(h, k, r):
        """exact cdf, by the angle substitution"""
        h, k = np.broadcast_arrays(np.clip(np.asarray(h, float), -40, 40), np.clip(np.asarray(k, float), -40, 40))
        th = np.arcsin(r) * 0.5 * (gx + 1)
        s = np.sin(th)
        e = np.exp(-(h[..., None] ** 2 + k[..., None] ** 2 - 2 * s * h[..., None] * k[..., None]) / (2 * np.cos(th) ** 2))
        return ndtr(h) * ndtr(k) + np.arcsin(r) * 0.5 * (e @ gw) / (2 * np.pi)

    def cells(a, b, r):
        """probabilities of the cells with thresholds a (rows), b (columns)"""
        P = Phi2(np.r_[-40, a, 40][:, None], np.r_[-40, b, 40][None], r)
        return np.diff(np.diff(P, axis=0), axis=1)

    def thr(counts):
        return ndtri(np.cumsum(counts)[:-1] / np.sum(counts))

    def oracle(T, r, a=None, b=None):
        a = thr(T.sum(1)) if a is None else a
        b = thr(T.sum(0)) if b is None else b
        return -np.sum(T * np.log(np.where(T > 0, cells(a, b, r), 1.0)))

    def deriv(f, x, order, h):
        """derivatives from a Chebyshev interpolant on x +- h"""
        n = 12
        t = np.cos(np.pi * (np.arange(n) + 0.5) / n)
        c = np.polynomial.chebyshev.chebfit(t, np.array([f(x + h * v) for v in t]), n - 1)
        return np.polynomial.chebyshev.chebval(0.0, np.polynomial.chebyshev.chebder(c, order)) / h ** order

    def warm():
        A = np.zeros((2, 2))
        for m in (fu, sf):
            m.binorm_cdf(0.0, 0.0, 0.5), m.binorm_pdf(0.0, 0.0, 0.5)
            m.binorm_cdf(A, A, 0.5), m.binorm_pdf(A, A, 0.5)
        fu.binorm_cdf_region((0.0, 0.0), (1.0, 1.0), 0.5), fu.binorm_cdf_region((A, A), (A + 1, A + 1), 0.5)
        Z = np.zeros((2, 3, 3))
        sf.binorm_cdf(Z[0][::2], Z[0][::2], 0.3), sf.binorm_pdf(Z[0][::2], Z[0][::2], 0.3)
        df = pd.DataFrame({"a": [0, 0, 1, 1, 1, 0], "b": [0, 1, 1, 0, 1, 0]})
        for c in (p1.Polychor, p2.Polychor):
            c(df).fit()
        for c in (lv.Polychoric, lv.PolychoricCorr):
            m = c(df.astype(float))
            m.hessian(0.1, 1, 0), m.gradient(0.1, 1, 0)
            m.fit()
        m = lv._Polychor(df.a, df.b)
        m.hessian(0.1), m.gradient(np.array([0.1])), m.fit()
    rep.warm(warm)

    # ---------------------------------------------------------- normal functions
    G = [-1e10, -6.0, -1.3, 0.0, 0.4, 2.0, 1e10]
    RS = [-0.98, -0.6, 0.0, 0.3, 0.9]

    def cdf(ck):
        mod = ck.choose("module", ["func_utils", "statfuncs"])
        m = fu if mod == "func_utils" else sf
        form = ck.choose("form", ["scalar", "integer scalar", "vector", "matrix", "integer vector", "mixed"])
        r = ck.choose("r", RS)
        rr = np.array([r]) if ck.flag("r as array") else r
        if form == "scalar":
            h, k = ck.choose("h", G), ck.choose("k", G)
        elif form == "integer scalar":
            h, k = ck.choose("h", [-1, 0, 2]), ck.choose("k", [-2, 0, 1])
        elif form == "integer vector":
            h, k = np.array([-1, 0, 2]), np.array([1, 0, -2])
        elif form == "mixed":
            h, k = ck.choose("which", [(0.5, np.array([-1.0, 0.0, 2.0])), (np.array([-1.0, 0.0, 2.0]), 0.5)])
        elif form == "vector":
            h, k = (a.ravel() for a in np.meshgrid(G, G))
        else:
            h, k = np.meshgrid(G, G)
        P = ck.call("cdf", m.binorm_cdf, h, k, rr)
        want = Phi2(h, k, r)
        ck.eq("cdf/shape", np.shape(P) if np.ndim(want) else np.size(P), np.shape(want) if np.ndim(want) else 1)
        ck.close("cdf", np.reshape(P, np.shape(want)), want, 2e-10)
        p = ck.call("pdf", m.binorm_pdf, h, k, rr)
        hh, kk = np.asarray(h, float), np.asarray(k, float)
        wp = np.exp(-(hh ** 2 - 2 * r * hh * kk + kk ** 2) / (2 * (1 - r * r))) / (2 * np.pi * np.sqrt(1 - r * r))
        ck.eq("pdf/shape", np.shape(p) if np.ndim(want) else np.size(p), np.shape(want) if np.ndim(want) else 1)
        ck.close("pdf", np.reshape(p, np.shape(want)), wp, 1e-12)
        dp = ck.call("dpdf", m.dbinorm_pdf, hh, kk, r)
        s = 1 - r * r
        ck.close("dpdf", dp, wp * (r / s + (hh * kk * (1 + r * r) - r * (hh ** 2 + kk ** 2)) / s ** 2), 1e-11)

    def slopes(ck):
        h, k, r = ck.choose("h", [-5.0, -1.3, 0.0, 0.4, 2.0]), ck.choose("k", [-1e10, -2.0, -0.3, 0.0, 1.1, 1e10]), ck.choose("r", [-0.9, -0.4, 0.0, 0.5, 0.95])
        F = lambda a, b, c: float(Phi2(a, b, c))
        st = 0.25
        hr = min(0.1, (1 - abs(r)) / 4)
        ck.close("du", ck.call("du", fu.dbinorm_cdf_du, h, k, r), deriv(lambda a: F(a, k, r), h, 1, st), 1e-8)
        ck.close("du/statfuncs", ck.call("du/statfuncs", sf.dbinorm_du, h, k, r), deriv(lambda a: F(a, k, r), h, 1, st), 1e-8)
        g = lambda a, b, c: phi(a) * ndtr((b - c * a) / np.sqrt(1 - c * c))
        ck.close("du/formula", fu.dbinorm_cdf_du(h, k, r), g(h, k, r), 1e-13)
        ck.close("du2", ck.call("du2", fu.d2binorm_cdf_du2, h, k, r), deriv(lambda a: g(a, k, r), h, 1, st), 1e-7)
        ck.close("dur", ck.call("dur", fu.d2binorm_cdf_dur, h, k, r), deriv(lambda c: g(h, k, c), r, 1, hr), 1e-6)
        ck.close("duv", ck.call("duv", fu.d2binorm_cdf_duv, h, k, r), 0.0 if abs(k) > 100 else deriv(lambda b: g(h, b, r), k, 1, st), 1e-7)

    def region(ck):
        a = np.array(ck.choose("a", [(0.0,), (-1.0, 0.5), (-2.0, -0.5, 1.2)]))
        b = np.array(ck.choose("b", [(0.3,), (-0.4, 0.9), (-1.0, 0.0, 2.0)]))
        r = ck.choose("r", RS)
        big_ = ck.choose("infinity", [1e6, 1e10, 1e12])
        A, B = np.r_[-big_, a, big_], np.r_[-big_, b, big_]
        want = cells(a, b, r)
        lo = np.array([np.broadcast_to(A[:-1, None], want.shape), np.broadcast_to(B[None, :-1], want.shape)])
        up = np.array([np.broadcast_to(A[1:, None], want.shape), np.broadcast_to(B[None, 1:], want.shape)])
        for nm, f in (("func_utils", fu.binorm_cdf_region), ("statfuncs", sf.binorm_cdf2)):
            P = ck.call("region/" + nm, f, lo, up, r)
            ck.close("region/" + nm, P, want, 1e-9)
            ck.close("region/total/" + nm, P.sum(), 1.0, 1e-13)
            ck.close("region/one/" + nm, float(np.squeeze(f((float(lo[0, 0, 0]), float(lo[1, 0, 0])), (float(up[0, 0, 0]), float(up[1, 0, 0])), r))), want[0, 0], 1e-9)
        for nm, f, order in (("pdf", fu.binorm_pdf_region, 1), ("pdf2", sf.binorm_pdf2, 1), ("dpdf", fu.dbinorm_pdf_region, 2), ("dpdf2", sf.dbinorm_pdf2, 2)):
            h = min(0.1, (1 - abs(r)) / 4)
            D = np.array([[deriv(lambda c: float(cells(a, b, c)[i, j]), r, order, h) for j in range(want.shape[1])] for i in range(want.shape[0])]) if big or (len(a) < 3 and len(b) < 3) else None
            V = ck.call("region/" + nm, f, lo, up, r)
            ck.close("region/zero/" + nm, V.sum(), 0.0, 1e-10)
            if D is not None:
                ck.close("region/" + nm, V, D, 1e-6)

    # ---------------------------------------------------------- one pair
    def rows(T, labels=None):
        la, lb = labels or (range(T.shape[0]), range(T.shape[1]))
        return np.array([(la[i], lb[j]) for i in range(T.shape[0]) for j in range(T.shape[1]) for _ in range(int(T[i, j]))])

    def shuffled(X, k):
        n = len(X)
        return X if k == 0 else (X[::-1] if k == 1 else X[np.argsort((np.arange(n) * 7919 + 13) % (n + 3), kind="stable")])

    def get(ck, cls, X):
        df = pd.DataFrame(X, columns=["u", "w"])
        keep = df.copy()
        if cls == "_Polychor":
            m = ck.call(cls, lv._Polychor, df["u"], df["w"])
            out = (m, (), m.xtab)
        elif cls in ("Polychoric", "PolychoricCorr"):
            m = ck.call(cls, getattr(lv, cls), df.astype(float))
            out = (m, (0, 1) if cls == "PolychoricCorr" else (1, 0), None)
        else:
            m = ck.call(cls, (p1 if cls == "Polychor1" else p2).Polychor, df)
            out = (m, tuple(m.inds1[0]), None)
        ck.expect("input", keep.equals(df), cls)
        return out

    CL = ["_Polychor", "Polychoric", "PolychoricCorr", "Polychor1", "Polychor2"]

    def tables(shape, vals):
        for t in itertools.product(vals, repeat=shape[0] * shape[1]):
            T = np.array(t).reshape(shape)
            if T.sum(0).min() > 0 and T.sum(1).min() > 0:
                yield t

    SH = {(2, 2): list(tables((2, 2), [0, 1, 3, 7])), (2, 3): list(tables((2, 3), [0, 1, 5] if big else [1, 4])), (3, 3): [t for t in itertools.product([1, 3, 8], repeat=3) if big or len(set(t)) != 2]}

    def draw_table(ck, shapes):
        sh = ck.choose("shape", shapes)
        t = ck.choose("counts", SH[sh])
        if sh == (3, 3):      # a cyclic layout of three different counts plus a ridge
            T = np.array([[t[(i - j) % 3] for j in range(3)] for i in range(3)]) + np.diag([2, 0, 1])
        else:
            T = np.array(t).reshape(sh)
        if ck.flag("transpose") if sh == (2, 3) else False:
            T = T.T
        return T

    memo = {}

    def pair(ck):
        T = draw_table(ck, [(2, 2), (2, 3), (3, 3)])
        cls = ck.choose("class", CL)
        lab = ck.choose("labels", ["0..", "gaps"] if T.size > 4 else ["0.."])
        order = ck.choose("order", [0, 2] if T.size > 4 else [0, 1])
        X = shuffled(rows(T, None if lab == "0.." else ((-3, 1, 8)[:T.shape[0]], (2, 4, 5)[:T.shape[1]])), order)
        m, ij, xt = get(ck, cls, X)
        if xt is not None:
            ck.eq("table", xt, T)
        if cls == "Polychoric":
            T = T.T              # the pair is (second, first)
        elif cls.startswith("Polychor") and cls[-1] in "12" and ij == (1, 0):
            T = T.T
        a, b = thr(T.sum(1)), thr(T.sum(0))
        for r in ([-0.7, 0.0, 0.4, 0.95] if T.size == 4 or big else [-0.7, 0.4]):
            P = cells(a, b, r)
            ok = bool((P[T > 0] > 1e-8).all())
            f = lambda c: oracle(T, c, a, b)
            h = min(0.1, (1 - abs(r)) / 4)
            if cls[-1] in "12":
                names = ("predicted_probs", "qloglike", "qgradient", "qhessian")
                pr = ck.call("prob", m.predicted_probs, *ij, r=r)
                ll, g, H = ck.call("loglike", m.qloglike, r, *ij), ck.call("gradient", m.qgradient, r, *ij), ck.call("hessian", m.qhessian, r, *ij)
            else:
                pr = ck.call("prob", m.prob, r, *ij)
                ll, g, H = ck.call("loglike", m.loglike, r, *ij), ck.call("gradient", m.gradient, r, *ij), ck.call("hessian", m.hessian, r, *ij)
            ck.close("prob", np.reshape(pr, T.shape), P, 1e-9, f"{cls} r={r}")
            if not ok:
                continue
            key = (T.shape, T.tobytes(), r)
            if key not in memo:
                memo[key] = deriv(f, r, 1, h), deriv(f, r, 2, h)
            w1, w2 = memo[key]
            ck.close("loglike", ll, f(r), 1e-7, cls)
            ck.close("gradient", g, w1, 1e-5, cls)
            ck.close("hessian", H, w2, 1e-4, cls)
            y = np.arctanh(r)
            z1, z2 = w1 * (1 - r * r), w2 * (1 - r * r) ** 2 - 2 * r * (1 - r * r) * w1
            if cls in ("Polychoric", "PolychoricCorr"):
                ck.close("tanh/loglike", ck.call("tanh", m.loglike_tanh, y, *ij), f(r), 1e-7)
                ck.close("tanh/gradient", ck.call("tanh", m.gradient_tanh, y, *ij), z1, 1e-5)
                ck.close("tanh/hessian", ck.call("tanh", m.hessian_tanh, y, *ij), z2, 1e-4)
            elif cls[-1] in "12":
                yy = np.atleast_1d(y)
                ck.close("tanh/loglike", ck.call("tanh", m.qloglike_transformed, yy, *ij), np.atleast_1d(f(r)), 1e-7)
                ck.close("tanh/gradient", ck.call("tanh", m.qgradient_transformed, yy, *ij), np.atleast_1d(z1), 1e-5)
                ck.close("tanh/hessian", np.squeeze(ck.call("tanh", m.qhessian_transformed, yy, *ij)), z2, 1e-4)
            if cls == "Polychor2":
                ws = p2._PairWorkspace(m, *ij, r)
                ck.close("workspace", [ws.loglike(), ws.score()], [f(r), w1], 1e-5)
                ck.close("workspace/hessian", ws.hessian(), w2, 1e-4)

    def best(T):
        """the two-step estimate, by bisection of the score; None on the boundary"""
        a, b = thr(T.sum(1)), thr(T.sum(0))
        P = lambda r: np.maximum(cells(a, b, r), 1e-300)
        o = sp.optimize.minimize_scalar(lambda y: -np.sum(T * np.log(P(np.tanh(y)))), bounds=(-2.4, 2.4), method="bounded", options=dict(xatol=1e-9))
        r = np.tanh(o.x)
        return r if abs(r) < 0.975 else None

    def fits(ck):
        cls = ck.choose("class", CL)
        T = draw_table(ck, [(2, 2), (2, 3), (3, 3)] if big else [(2, 2), (3, 3)])
        ck.require((T > 0).all() or (T.size > 4 and (T > 0).sum() > T.size - 2))
        if not big and T.size == 4:
            ck.require(T[0, 0] != 7)
        rb = best(T)
        ck.require(rb is not None)
        X = shuffled(rows(T), ck.choose("order", [0, 2]))
        m, ij, xt = get(ck, cls, X)
        ck.do("fit", m.fit)
        f = lambda c: oracle(T, c)
        r = {"_Polychor": lambda: m.rho_hat, "Polychoric": lambda: m.R[1, 0], "PolychoricCorr": lambda: m.R[1, 0], "Polychor1": lambda: m.rhos[0], "Polychor2": lambda: m.rho_hat[0]}[cls]()
        ck.close("estimate", r, rb, 2e-4, f"{cls} {T.tolist()}")
        if T.size == 4:
            ck.close("tetrachoric", cells(thr(T.sum(1)), thr(T.sum(0)), float(r)), T / T.sum(), 2e-4)
        if cls in ("_Polychor", "Polychoric", "PolychoricCorr"):
            se = m.se_rho if cls == "_Polychor" else m.R_se[1, 0]
            ck.close("se", se, 1 / np.sqrt(deriv(f, rb, 2, (1 - abs(rb)) / 5)), 2e-3)
        if cls in ("Polychoric", "PolychoricCorr"):
            ck.close("R", m.R, np.array([[1, r], [r, 1]]), 1e-14)
            ck.eq("R_se", m.R_se[0, 1], m.R_se[1, 0])
        if cls == "Polychor2":
            ck.close("R", m.R_hat, np.array([[1, r], [r, 1]]), 1e-14)
            ck.close("res", m.res.iloc[0, 0], r, 1e-14)

    # ---------------------------------------------------------- joint thresholds
    def full(ck):
        T = draw_table(ck, [(2, 2), (2, 3), (3, 3)])
        ck.require((T > 0).all())
        mod = ck.choose("class", ["Polychor1", "Polychor2"])
        if T.size == 4:
            ck.require(7 in T)
        elif T.size == 6 and not big:      # rows (columns) that mirror each other
            ck.require((T == T[::-1, ::-1]).all() or (T[0, 0] == 4 and T.sum() == 9))
        m, ij, _ = get(ck, mod, rows(T))
        if ij == (1, 0):
            T = T.T
        na = T.shape[0] - 1
        shift = ck.choose("thresholds", [0.0, 0.4])
        r = ck.choose("r", [-0.5, 0.3, 0.8])
        a, b = thr(T.sum(1)) + shift, thr(T.sum(0)) - shift / 2
        par = np.r_[a, b, r]
        f = lambda q: oracle(T, q[-1], q[:na], q[na:-1])
        ck.close("full/loglike", ck.call("loglike", m.loglike, par, *ij), f(par), 1e-8)
        g = np.array([deriv(lambda v, i=i: f(np.r_[par[:i], v, par[i + 1:]]), par[i], 1, 0.05) for i in range(len(par))])
        ck.close("full/gradient", ck.call("gradient", m.gradient, par, *ij), g, 1e-6)
        H = ck.call("hessian", m.hessian, par, *ij)
        G1 = np.array([deriv_vec(lambda v, i=i: m.gradient(np.r_[par[:i], v, par[i + 1:]], *ij), par[i], 0.05) for i in range(len(par))])
        ck.close("full/hessian", H, G1, 1e-6)
        ck.close("full/hessian/symmetric", H, H.T, 1e-12)
        pr, dp, d2p = ck.call("dprob", m.dprob_dparams, par, *ij, order=2)
        ck.close("full/prob", pr, cells(a, b, r), 1e-9)
        ck.close("full/dprob", dp, np.stack([deriv_vec(lambda v, i=i: cells(*split(np.r_[par[:i], v, par[i + 1:]], na)), par[i], 0.05) for i in range(len(par))], -1), 1e-7)
        ck.close("full/d2prob", d2p, np.stack([deriv_vec(lambda v, i=i: m.dprob_dparams(np.r_[par[:i], v, par[i + 1:]], *ij)[1], par[i], 0.05) for i in range(len(par))], -1), 1e-6)
        t = m.trns[m.II_ind[ij]]
        y = t.fwd(par.copy())
        ck.close("full/transform", t.rvs(y.copy()), par, 1e-10)
        ft = lambda q: f(t.rvs(q.copy()))
        ck.close("full/t/loglike", ck.call("t", m.loglike_transformed, y, *ij), f(par), 1e-8)
        ck.close("full/t/gradient", ck.call("t", m.gradient_transformed, y, *ij), np.array([deriv(lambda v, i=i: ft(np.r_[y[:i], v, y[i + 1:]]), y[i], 1, 0.05) for i in range(len(y))]), 1e-6)
        ck.close("full/t/hessian", ck.call("t", m.hessian_transformed, y, *ij), np.array([deriv_vec(lambda v, i=i: m.gradient_transformed(np.r_[y[:i], v, y[i + 1:]], *ij), y[i], 0.05) for i in range(len(y))]), 1e-6)

    def split(q, na):
        return q[:na], q[na:-1], q[-1]

    def deriv_vec(f, x, h):
        n = 12
        t = np.cos(np.pi * (np.arange(n) + 0.5) / n)
        v = np.array([f(x + h * u) for u in t])
        c = np.polynomial.chebyshev.chebfit(t, v.reshape(n, -1), n - 1)
        d = np.polynomial.chebyshev.chebval(0.0, np.polynomial.chebyshev.chebder(c, 1)) / h
        return np.reshape(d, v.shape[1:])

    def onestep(ck):
        mod = ck.choose("class", ["Polychor1", "Polychor2"])
        T = np.array(ck.choose("table", [((4, 2), (1, 5)), ((3, 6), (4, 2)), ((6, 2, 1), (2, 4, 3)), ((5, 2, 1), (2, 4, 2), (1, 3, 6)), ((1, 2, 6), (2, 5, 2), (4, 2, 2))]))
        m, ij, _ = get(ck, mod, rows(T))
        ck.do("fit", m.fit, method="onestep")
        i = m.II_ind[ij]
        T = T if ij == (0, 1) else T.T
        na = T.shape[0] - 1
        q = np.asarray(m.params[i])
        f = lambda q: oracle(T, q[-1], q[:na], q[na:-1])
        g = np.array([deriv(lambda v, k=k: f(np.r_[q[:k], v, q[k + 1:]]), q[k], 1, 0.05) for k in range(len(q))])
        ck.close("onestep/stationary", g / T.sum(), np.zeros(len(q)), 1e-4)

    # ---------------------------------------------------------- several variables
    def ordinal(ck, p, n=60):
        which = ck.choose("data", range(3))
        g = ck.rng(("ordinal", which, p))
        A = g.standard_normal((p, p)) * 0.4 + np.eye(p)
        Z = g.standard_normal((n, p)) @ A.T
        nc = [(3, 2, 4, 3), (2, 2, 3, 2), (4, 3, 3, 2)][which][:p]
        return np.stack([np.searchsorted(np.quantile(Z[:, j], np.arange(1, nc[j]) / nc[j]), Z[:, j]) for j in range(p)], 1)

    def acov_ref(X):
        """covariance of the two-step estimates (expected information), pair by pair in column order"""
        n, p = X.shape
        infl, est = {}, {}
        for i, j in itertools.combinations(range(p), 2):
            T = np.array([[np.sum((X[:, i] == u) & (X[:, j] == v)) for v in np.unique(X[:, j])] for u in np.unique(X[:, i])])
            r = best(T)
            if r is None:
                return None, None
            ci, cj = T.sum(1), T.sum(0)
            a, b = thr(ci), thr(cj)
            par = np.r_[a, b, r]
            na = len(a)
            P = cells(a, b, r)
            dP = np.stack([deriv_vec(lambda v, k=k: cells(*split(np.r_[par[:k], v, par[k + 1:]], na)), par[k], 0.05 if k < len(par) - 1 else (1 - abs(r)) / 5) for k in range(len(par))], -1)
            al = dP[..., -1] / P
            D = (dP[..., -1] ** 2 / P).sum()
            G = np.array(al)
            iu, ju = np.searchsorted(np.unique(X[:, i]), X[:, i]), np.searchsorted(np.unique(X[:, j]), X[:, j])
            g = al[iu, ju].copy()
            for k in range(na):       # influence of an observation on each threshold
                g += -(al * dP[..., k]).sum() * ((iu <= k) - ci[:k + 1].sum() / n) / phi(a[k])
            for k in range(len(b)):
                g += -(al * dP[..., na + k]).sum() * ((ju <= k) - cj[:k + 1].sum() / n) / phi(b[k])
            infl[i, j], est[i, j] = g / D, r
        keys = list(infl)
        M = np.stack([infl[k] for k in keys])
        M = M - M.mean(1, keepdims=True)
        return est, {(k, l): float(M[u] @ M[v]) / n for u, k in enumerate(keys) for v, l in enumerate(keys)}

    def several(ck):
        mod = ck.choose("class", ["Polychor1", "Polychor2"])
        p = ck.choose("p", [2, 3, 4] if big else [3])
        X = ordinal(ck, p)
        perm = list(ck.choose("columns", list(itertools.permutations(range(p))) if p < 4 else [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)]))
        gaps = ck.flag("gaps")
        X = X[:, perm]
        names = [f"v{j}" for j in perm]
        Y = X * 2 + np.arange(p) if gaps else X
        n = len(X)
        est, cov = acov_ref(X)
        ck.require(est is not None)
        df = pd.DataFrame(Y, columns=names)
        keep = df.copy()
        m = ck.call("init", (p1 if mod == "Polychor1" else p2).Polychor, df)
        ck.do("fit", m.fit)
        ck.expect("input", keep.equals(df))
        pairs = [tuple(sorted(q)) for q in m.inds1]
        ck.eq("pairs", sorted(pairs), sorted(est))
        rh = m.rhos if mod == "Polychor1" else m.rho_hat
        ck.close("several/estimate", rh, [est[q] for q in pairs], 3e-4)
        want = np.array([[cov[a, b] for b in pairs] for a in pairs])
        V = m.acov if mod == "Polychor1" else m.acov * n
        ck.close("several/acov", V, want, 3e-3)
        if mod == "Polychor2":
            ck.close("several/loop", ck.call("loop", m.get_acov_loop), m.acov, 1e-8)
            R = np.eye(p)
            for q in pairs:
                R[q] = R[q[::-1]] = est[q]
            ck.close("several/R", m.R_hat, R, 3e-4)
            ck.eq("several/labels", list(m.R_df.columns), names)
            ck.eq("several/rho labels", [tuple(sorted(names.index(s) for s in l[2:-1].split(", "))) for l in m.rho_labels], pairs)
            ck.close("several/se", m.rho_se, np.sqrt(np.diag(want) / n), 3e-3)
            ck.close("several/table", m.res.iloc[:, 1], m.rho_se, 1e-12)
            ck.eq("several/names", list(m.res.index), m.rho_labels)
        C = ck.call("convert", (p1 if mod == "Polychor1" else p2).convert_acm, want, p)
        lex = [(j, i) for i in range(p) for j in range(i)]
        ck.close("convert", C, np.array([[cov[a, b] for b in lex] for a in lex]), 1e-14)
        q5 = [(i, j) for j in range(5) for i in range(j + 1, 5)]
        A5 = np.array([[(11 * a + b) * (11 * c + d) + (a == c) + a + c for c, d in q5] for a, b in q5], float)
        l5 = [q5.index((i, j)) for i in range(5) for j in range(i)]
        ck.eq("convert/five", (p1 if mod == "Polychor1" else p2).convert_acm(A5, 5), A5[np.ix_(l5, l5)])
        pd1 = (p1 if mod == "Polychor1" else p2).threshold_dict_to_array(m.tauc)
        ck.close("thresholds", pd1, np.array([np.r_[thr(np.unique(X[:, j], return_counts=True)[1]), np.zeros(9)][:pd1.shape[1]] for j in range(p)]), 1e-12)

    def matrix(ck):
        cls = ck.choose("class", ["Polychoric", "PolychoricCorr"])
        X = ordinal(ck, 3).astype(float)
        miss = ck.choose("missing", ["none", "one column", "scattered"])
        if miss == "one column":
            X[::7, 1] = np.nan
        elif miss == "scattered":
            X[3::11, 0] = np.nan
            X[5::9, 2] = np.nan
        perm = list(ck.choose("columns", list(itertools.permutations(range(3)))[::1 if big else 2]))
        X = X[:, perm]
        df = pd.DataFrame(X, columns=list("abc"))
        m = ck.call("init", getattr(lv, cls), df)
        ck.do("fit", m.fit)
        ck.expect("input", df.equals(pd.DataFrame(X, columns=list("abc"))))
        for i, j in itertools.combinations(range(3), 2):
            ok = ~np.isnan(X[:, [i, j]]).any(1)
            T = np.array([[np.sum((X[ok, i] == u) & (X[ok, j] == v)) for v in np.unique(X[ok, j])] for u in np.unique(X[ok, i])])
            if cls == "Polychoric":       # thresholds from every value observed of a variable
                c = [np.unique(X[~np.isnan(X[:, k]), k], return_counts=True)[1] for k in (i, j)]
                a, b = thr(c[0]), thr(c[1])
            else:
                a, b = thr(T.sum(1)), thr(T.sum(0))
            f = lambda r: -np.sum(T * np.log(np.maximum(cells(a, b, r), 1e-300)))
            r = np.tanh(sp.optimize.minimize_scalar(lambda y: f(np.tanh(y)), bounds=(-2.5, 2.5), method="bounded", options=dict(xatol=1e-9)).x)
            if abs(r) < 0.95:
                ck.close("matrix/R", m.R[i, j], r, 3e-4)
                ck.close("matrix/symmetric", m.R[j, i], m.R[i, j], 0)
                se = 1 / np.sqrt(deriv(f, r, 2, (1 - abs(r)) / 5))
                ck.close("matrix/se", [m.R_se[i, j], m.R_se[j, i]], [se, se], 3e-3)
        ck.close("matrix/diag", np.diag(m.R), np.ones(3), 0)
        n0 = [len(np.unique(X[~np.isnan(X[:, k]), k])) for k in range(3)]
        ck.eq("matrix/categories", [int(m.N_cats[k]) if cls == "Polychoric" else m.ncats[k] for k in range(3)], n0)

    # ---------------------------------------------------------- polyserial
    def serial(ck):
        k = ck.choose("categories", [2, 3, 4])
        n = ck.choose("n", [12, 25])
        slope = ck.choose("slope", [-1.0, 0.0, 0.7])
        lab = ck.choose("labels", ["0..", "gaps", "letters"])
        loc, sc = ck.choose("scale of x", [(0.0, 1.0), (5.0, 0.1), (-100.0, 30.0)])
        how = ck.choose("given as", ["arrays", "series", "frame", "names"])
        if how in ("frame", "names") or not big:
            ck.require(n == 12 or how == "arrays")
            if not big:
                ck.require(slope == 0.7 or how == "arrays")
        z = ndtri((np.arange(n) + 0.5) / n)
        e = ndtri(((np.arange(n) * 7 + 3) % n + 0.5) / n)
        s = slope * z + e
        y = np.searchsorted(np.quantile(s, np.arange(1, k) / k + 1e-9), s)
        x = loc + sc * z * np.sqrt(n / np.sum(z * z))
        names = {"0..": np.arange(k), "gaps": np.array([-2, 1, 7, 9])[:k], "letters": np.array(list("abcd"))[:k]}[lab]
        if how == "frame" or how == "names":
            ck.require(lab != "letters")
        yy = names[y]
        df = pd.DataFrame({"x": x, "y": yy})
        if how == "arrays":
            m = ck.call("init", lv.Polyserial, x=x.copy(), y=yy.copy())
        elif how == "series":
            m = ck.call("init", lv.Polyserial, x=df["x"], y=df["y"])
        elif how == "frame":
            m = ck.call("init", lv.Polyserial, df=df)
        else:
            m = ck.call("init", lv.Polyserial, x="x", y="y", df=df)
        t = np.r_[-np.inf, thr(np.bincount(y)), np.inf]
        u = (x - x.mean()) / x.std()

        def f(r):
            q = np.sqrt(1 - r * r)
            hi, lo = (t[y + 1] - r * u) / q, (t[y] - r * u) / q
            flip = lo > 0
            return -np.sum(np.log(np.where(flip, ndtr(-lo) - ndtr(-hi), ndtr(hi) - ndtr(lo))))
        for r in [-0.6, 0.0, 0.5]:
            h = 0.1
            ck.close("serial/loglike", ck.call("loglike", m.loglike, r), f(r), 1e-8)
            ck.close("serial/gradient", ck.call("gradient", m.gradient, r), deriv(f, r, 1, h), 1e-6)
            ck.close("serial/hessian", np.squeeze(ck.call("hessian", m.hessian, r)), deriv(f, r, 2, h), 2e-3)
        o = sp.optimize.minimize_scalar(lambda v: f(np.tanh(v)), bounds=(-2, 2), method="bounded", options=dict(xatol=1e-9))
        rb = np.tanh(o.x)
        if abs(rb) < 0.95 and lab != "letters":
                ck.do("fit", m.fit)
                ck.close("serial/estimate", m.rho_hat, rb, 3e-4)
                ck.close("serial/se", np.squeeze(m.se_rho), 1 / np.sqrt(deriv(f, rb, 2, (1 - abs(rb)) / 5)), 3e-3)

    # ---------------------------------------------------------- plain functions
    def plain(ck):
        T = draw_table(ck, [(2, 2), (2, 3), (3, 3)])
        ck.require((T > 0).all())
        r = ck.choose("r", [-0.6, 0.0, 0.45])
        a, b = ck.call("thresh", sf.polychor_thresh, T)
        ck.close("plain/columns", a[1:-1], thr(T.sum(0)), 1e-12)
        ck.close("plain/rows", b[1:-1], thr(T.sum(1)), 1e-12)
        rr = np.array([r]) if ck.flag("r as array") else r
        want = -oracle(T, r)
        ck.close("plain/loglike", float(np.squeeze(ck.call("loglike", sf.polychor_loglike, T, a, b, rr))), want, 1e-8)
        k = len(a)
        ck.close("plain/ll", float(np.squeeze(ck.call("ll", sf.polychor_ll, np.r_[r, a, b], T, k))), -want, 1e-8)
        ck.close("plain/partial", float(np.squeeze(ck.call("partial", sf.polychor_partial_ll, rr, T, k, np.r_[a, b]))), -want, 1e-8)
        x = ck.choose("x", [0.0, -1.2, 3.0])
        ck.close("plain/norm", [sf.norm_cdf(x), sf.norm_cdf_jit(x), sf.norm_cdf(x, 1.0, 2.0), sf.norm_pdf(x), sf.norm_pdf(x, 1.0, 2.0)],
                 [ndtr(x), ndtr(x), ndtr((x - 1) / 2), phi(x), phi((x - 1) / 2) / 2], 1e-12)
        ck.close("plain/qtf", sf.norm_qtf(ndtr(x)), x, 1e-9)
        ck.close("plain/polyex", sf.polyex(x, 0.3, r), (0.3 - r * x) / np.sqrt(1 - r * r), 1e-13)

    for nm, f in [("cdf", cdf), ("slopes", slopes), ("region", region), ("pair", pair), ("fits", fits), ("full", full), ("onestep", onestep), ("several", several),
                  ("matrix", matrix), ("serial", serial), ("plain", plain)]:
        rep.explore(nm, f)
