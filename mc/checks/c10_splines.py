"""C10: spline smooths: bases, knots, penalties, constraints and smoothing criteria."""
import itertools

import numpy as np
from scipy.interpolate import BSpline, CubicSpline

from mc.lib import numdiff

KINDS = ["cr", "cc", "bs"]


def ref_basis(kind, knots, x, nu=0):
    """value (or nu-th derivative) at x of every basis function, from scipy's interpolants"""
    if kind == "cr":
        return CubicSpline(knots, np.eye(len(knots)), bc_type="natural")(x, nu)
    if kind == "cc":
        Y = np.eye(len(knots) - 1)
        return CubicSpline(knots, np.vstack([Y, Y[:1]]), bc_type="periodic")(x, nu)
    q = len(knots) - 4
    return np.column_stack([BSpline(knots, np.eye(q)[i], 3)(x, nu) for i in range(q)])


def ref_penalty(kind, knots):
    """integral of products of second derivatives over the knot range: two-point Gauss is exact (piecewise linear factors)"""
    inner = knots if kind != "bs" else knots[3:-3]
    a, b = inner[:-1], inner[1:]
    S = 0
    for z in (-1 / np.sqrt(3), 1 / np.sqrt(3)):
        B = ref_basis(kind, knots, (a + b) / 2 + z * (b - a) / 2, 2)
        S = S + (B * ((b - a) / 2)[:, None]).T @ B
    return S


def run(rep, tier):
    import pystatsm.utilities.splines as sp_
    from pystatsm.pygam import smooth_setup as ss
    big = tier == "thorough"
    rep.assumptions += ["regression and cyclic splines have at least four knots", "the covariate takes at least two distinct values"]
    get = {"cr": sp_._get_crsplines, "cc": sp_._get_ccsplines, "bs": sp_._get_bsplines}
    n = 6 if big else 5
    multisets = [m for m in itertools.combinations_with_replacement(range(5), n) if len(set(m)) > 1]

    def layouts(ck):
        kind = ck.choose("kind", KINDS)
        df = ck.choose("df", [4, 5, 6, 7, 9] if big else [4, 5, 7])
        m = ck.choose("values", multisets)
        order = ck.choose("order", ["ascending", "descending", "rotated"])
        scale = ck.choose("scale", ["integers", "unequal"])
        grid = np.arange(5) if scale == "integers" else np.array([-3.1, -1.0, 0.2, 0.25, 40.0])
        x = grid[list(m)]
        x = x[::-1].copy() if order == "descending" else np.roll(x, 2) if order == "rotated" else x
        keep = x.copy()
        res = ck.call(kind, get[kind], x, df)
        if res is None:
            return
        X, S, knots, kw = res
        ck.eq(kind + "/covariate unchanged", x, keep)
        xf = x.astype(float)
        q = {"cr": df, "cc": df - 1, "bs": df}[kind]
        if not ck.eq(kind + "/number of coefficients", X.shape, (n, q)):
            return
        lo, hi = xf.min(), xf.max()
        if kind == "bs":
            inner = knots[3:-3]
            ck.eq("bs/knots", len(knots), df + 4)
            ck.close("bs/equally spaced", np.diff(knots), np.full(len(knots) - 1, knots[1] - knots[0]), 1e-9)
            ck.expect("bs/knots cover the data", inner[0] < lo and inner[-1] > hi and inner[0] > lo - 0.01 * (hi - lo) and inner[-1] < hi + 0.01 * (hi - lo))
        else:
            u = np.unique(xf)
            ck.expect(kind + "/knots increase", np.all(np.diff(knots) > 0))
            ck.eq(kind + "/number of knots", len(knots), df)
            ck.close(kind + "/knots at quantiles of the distinct values", knots,
                     np.interp(np.linspace(0, len(u) - 1, df), np.arange(len(u)), u), 1e-9)
        want = ref_basis(kind, knots, xf)
        ck.close(kind + "/basis", X, want, 1e-8)
        ck.close(kind + "/partition of unity", X.sum(1), np.ones(n), 1e-9)
        P = ref_penalty(kind, knots)
        sc = np.abs(P).max()
        ck.close(kind + "/penalty is integrated squared curvature", S / sc, P / sc, 1e-7)
        # the functions that prediction uses reproduce the basis of the data
        again = {"cr": sp_.crspline_basis, "cc": sp_.ccspline_basis, "bs": sp_.bspline_basis}[kind]
        ck.close(kind + "/basis at the same knots", again(x, knots, **kw), want, 1e-8)
        ck.close(kind + "/one value at a time", np.vstack([again(x[[i]], knots, **kw) for i in range(n)]), want, 1e-8)
        kin = knots if kind != "bs" else knots[3:-3]
        ck.close(kind + "/basis at the knots", again(kin.copy(), knots, **kw), ref_basis(kind, knots, kin), 1e-8)
        z = (kin[:-1] + kin[1:]) / 2
        ck.close(kind + "/basis between knots", again(z, knots, **kw), ref_basis(kind, knots, z), 1e-8)
        if kind == "bs":
            for nu in (1, 2):
                ck.close("bs/derivatives", sp_.bspline_basis(z, knots, deriv=nu), ref_basis("bs", knots, z, nu), 1e-7 * max(1, sc))
        ck.outcome(kind, df, m, order, scale)

    rep.explore("bases and penalties", layouts)

    def degrees(ck):
        deg = ck.choose("degree", [1, 2, 3, 4])
        df = ck.choose("df", [6, 7, 8])
        nu = ck.choose("derivative", [0, 1, 2])
        ck.require(nu < deg)
        x = np.round(np.linspace(-1, 2, 9) ** 3, 3)
        k, ik = ck.must("knots", sp_.bspline_knots, x, df, degree=deg)
        ck.eq("interior knots", ik, k[deg:len(k) - deg])
        B = ck.must("basis", sp_.bspline_basis, x, k, deriv=nu, degree=deg)
        q = len(k) - deg - 1
        ck.eq("coefficients", q, df)
        want = np.column_stack([BSpline(k, np.eye(q)[i], deg)(x, nu) for i in range(q)])
        ck.close("basis of any degree", B, want, 1e-8)
        ck.close("P-spline basis", ck.call("P-spline", sp_._bspline, x, k, deg, nu), want[:, 1:], 1e-8)
        for o in (1, 2, 3):
            D = sp_.difference_mat(q, o)
            v = np.cumsum(np.arange(q) ** 2.0)
            w = v
            for _ in range(o):
                w = w[1:] - w[:-1]
            ck.close("difference matrix", D @ v, w, 1e-12)

    rep.explore("degrees", degrees)

    def smooths(ck):
        kind = ck.choose("kind", KINDS)
        df = ck.choose("df", [4, 5, 7])
        lay = ck.choose("values", ["distinct", "ties", "descending"])
        by = ck.choose("by", [None, "abab", "aab", "one b"])
        n = 12
        x = {"distinct": np.round(ck.rng("x").uniform(-2, 3, n), 2), "ties": np.repeat([0.0, 1.0, 1.5, 4.0], 3),
             "descending": np.linspace(5, -1, n) ** 3}[lay]
        codes = None if by is None else {"abab": np.arange(n) % 2, "aab": np.arange(n) % 3 // 2, "one b": (np.arange(n) == 4) * 1}[by]
        kw = {} if by is None else dict(by=dict(by_vals=np.eye(2)[codes], by_cats=("a", "b")))
        X, S, knots, _ = get[kind](x, df)
        keep = x.copy()
        L = ck.must("get_smooth", ss.get_smooth, x, df=df, kind=kind, **kw)
        ck.eq("covariate unchanged", x, keep)
        ck.eq("one smooth per level", len(L), 1 if by is None else 2)
        for i, s in enumerate(L):
            p = X.shape[1] - 1
            ck.eq("absorbed columns", s["X"].shape, (n, p))
            rows = np.ones(n, bool) if by is None else codes == i
            Xc = s["X"]
            ck.close("zero outside the level", Xc[~rows], 0 * Xc[~rows], 1e-12)
            if by is None:
                ck.close("centred", Xc.mean(0), np.zeros(p), 1e-9)
                Q = s["q"]
            Q = s["q"]
            ck.close("constraint basis is orthogonal", Q.T @ Q, np.eye(p + 1), 1e-10)
            for c in np.vstack([np.eye(p), np.cos(np.arange(p) + 1)[None]]):
                b = Q[:, 1:] @ c
                ck.close("constrained smooth is the full smooth with centred coefficients", Xc[rows] @ c, X[rows] @ b, 1e-9)
                ck.close("penalty", c @ s["S"] @ c * s["sc"], b @ S @ b, 1e-9)
            ck.expect("penalty scale", s["sc"] > 0)
            ck.close("penalty scale value", s["sc"], np.abs(S).sum(0).max() / np.abs(X).sum(1).max() ** 2, 1e-9)
            ck.eq("level", s["by_cat"], None if by is None else "ab"[i])
        ck.outcome(kind, df, lay, by)

    rep.explore("constrained smooths", smooths)

    def criteria(ck):
        kind = ck.choose("kind", KINDS)
        a = ck.choose("penalty weight", [1e-3, 0.1, 1.0, 30.0])
        gamma = ck.choose("gamma", [None, 1.0, 1.5])
        n = 14
        x = np.round(np.linspace(0, 1, n) ** 2 * 3, 3)
        y = np.sin(3 * x) + 0.3 * ck.rng("gcv").normal(size=n)
        s, = ss.get_smooth(x, df=6, kind=kind)
        X = np.column_stack([np.ones(n), s["X"]])
        S = np.zeros((X.shape[1],) * 2)
        S[1:, 1:] = s["S"]
        if gamma is None:
            f, g, kw, ga = sp_.gcv, sp_.grad_gcv, {}, 1.0
        else:
            f, g, kw, ga = sp_.double_gcv, sp_.grad_double_gcv, dict(gamma=gamma), gamma

        def ref(lam):
            H = X @ np.linalg.solve(X.T @ X + lam * S, X.T)
            return n * np.sum((y - H @ y) ** 2) / (n - ga * np.trace(H)) ** 2
        ck.close("gcv", ck.call("gcv", f, a, X, y, S, **kw), ref(a), 1e-9)
        num = numdiff.grad(lambda t: ref(np.exp(t[0])), np.array([np.log(a)]), 0.02) / a
        ck.close("gcv gradient", np.ravel(ck.call("gcv gradient", g, a, X, y, S, **kw)), num, 1e-5)
        ck.outcome(kind, a, gamma)

    rep.explore("smoothing criteria", criteria)
