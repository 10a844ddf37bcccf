"""C24: data summaries, encodings, cross tabulations, allocations and the small
numeric helpers, on every small array."""
import collections
import fractions
import itertools
import math

import numpy as np


def run(rep, tier):
    import scipy as sp
    import scipy.special
    import scipy.stats
    from pystatsm.utilities import data_utils as du, func_utils as fu, xcorr
    big = tier == "thorough"
    rep.assumptions += ["columns that are standardised are not constant", "proportions are non-negative numpy arrays that sum to one",
                        "the crossing index is claimed only when the requested number of crossings occurs"]

    def warm():
        X = np.arange(12.0).reshape(4, 3) ** 2 % 7
        for f in (du.center, du.csd, du.standardize, du.cov_nb, du.corr_nb, du._row_sum, du._col_sum, du._col_mean, du._col_std):
            f(X)
        du.welford_cov(X), du.welford_cov(X, X[:, :2]), du.welford_variance(X), du.welford_variance(X, axis=1)
        du.welford_variance(X[:, 0])
        for a, o in ((X[:, 0].copy(), 0.0), (X, None)):
            du.sign_change(a, 1, o), du.sign_change(a, 2, o)
        for t in (int, float):
            x = np.array([1, 2, 1]).astype(t)
            for c in (None, np.array([1, 2]).astype(t)):
                du.dummy(x, True, c), du.dummy(x, False, c)
        fu.expit(X), fu.soft_threshold(X, 0.5), fu.norm_cdf_jit(0.3), fu.norm_cdf_jit(0.3, 1.0, 2.0), fu.expit(0.5)
    rep.warm(warm)

    # ---------------------------------------------------------------- tables
    def table_ref(rows):
        d = len(rows[0])
        lv = [sorted({r[j] for r in rows}) for j in range(d)]
        c = np.zeros([len(a) for a in lv], int)
        for r in rows:
            c[tuple(lv[j].index(r[j]) for j in range(d))] += 1
        return lv, c

    def tabulate(ck):
        d = ck.choose("columns", [1, 2, 3])
        n = ck.choose("rows", {1: [1, 3, 5], 2: [1, 2, 3] + ([4] if big else []), 3: [1, 2] + ([3] if big else [])}[d])
        vals = ck.choose("labels", [(0, 1, 2), (-1, 4, 7), ("a", "b", "c")]) if n < 4 and d < 3 else (-1, 4, 7)
        cells = list(itertools.product(vals, repeat=d))
        # row order must not matter: enumerate multisets, visit them in two orders
        rows = ck.choose("data", list(itertools.combinations_with_replacement(cells, n)))
        rows = rows[::-1] if ck.flag("reverse") else rows
        arr = np.array(rows).reshape(n, d)
        lv, c = table_ref(rows)
        count, levels = ck.call("cross", du.cross_tabulate, arr)
        ck.eq("cross/count", count, c, str(rows))
        for j in range(d):
            ck.eq("cross/levels", list(levels[j]), lv[j])
        if d == 1:
            return
        for dim in range(-d, d):
            fc, rl, cl, _ = ck.call("flat", du.flat_cross_tabulate, arr, dim)
            jj = dim % d
            rest = [j for j in range(d) if j != jj]
            ck.eq("flat/cols", list(cl), lv[jj])
            want = [list(t) for t in itertools.product(*[lv[j] for j in rest])]
            ck.eq("flat/rows", rl, np.array(want))
            ok = True
            for i, r in enumerate(want):
                for k, cc in enumerate(lv[jj]):
                    key = [None] * d
                    for j, v in zip(rest, r):
                        key[j] = v
                    key[jj] = cc
                    ok &= fc[i, k] == sum(tuple(q) == tuple(key) for q in rows)
            ck.expect("flat/counts", ok, f"dim={dim} rows={rows} got={fc}")

    def expand(ck):
        shape = ck.choose("shape", [(2,), (3,), (2, 2), (2, 3), (1, 3), (2, 1, 2), (2, 2, 2)])
        size = int(np.prod(shape))
        vals = [0, 1, 3] if size < 6 else [0, 2]
        t = np.array(ck.choose("table", list(itertools.product(vals, repeat=size)))).reshape(shape)
        arr = ck.call("expand", du.expand_crosstab, t)
        ck.eq("expand/shape", arr.shape, (t.sum(), len(shape)))
        got = np.zeros(shape, int)
        for r in arr.astype(int):
            got[tuple(r)] += 1
        ck.eq("expand/roundtrip", got, t)

    def encode(ck):
        kind = ck.choose("kind", ["int", "float", "str", "object"])
        vals = {"int": [3, 1, 7], "float": [0.5, -1.0, 2.0], "str": ["b", "a", "cc"], "object": ["b", "a", "cc"]}[kind]
        n = ck.choose("n", [1, 2, 3, 4] if big or kind == "int" else [1, 3])
        x = ck.choose("x", list(itertools.product(vals, repeat=n)))
        cats = ck.choose("categories", [None] + [list(p) for k in (1, 2, 3) for p in itertools.permutations(vals, k)])
        fullrank = ck.flag("fullrank")
        col = ck.flag("column vector")
        xa = np.array(x, dtype=object if kind == "object" else None)
        ca = None if cats is None else np.array(cats, dtype=object if kind == "object" else None)
        ref = sorted(set(x)) if cats is None else cats
        want = np.array([[float(v == c) for c in ref] for v in x]).reshape(n, len(ref))
        got = ck.call("dummy", du.dummy, xa.reshape(-1, 1) if col else xa, fullrank, ca)
        ck.eq("dummy", got, want if fullrank else want[:, :-1], f"{x} {cats}")
        if not col and fullrank:
            Z = ck.call("dummy_encode", du.dummy_encode, xa, ca)
            ck.eq("dummy_encode", Z.toarray(), want, f"{x} {cats}")

    def extremal(ck):
        n = ck.choose("n", [1, 2, 3, 4, 5] if big else [1, 2, 3, 4])
        x = np.array(ck.choose("x", list(itertools.product([-1.5, 0.0, 2.0, 4.0], repeat=n))))
        k = ck.choose("k", range(1, n + 1))
        largest = ck.flag("largest")
        srt = np.sort(x)
        want = srt[-k:] if largest else srt[:k]
        i = ck.call("1d", du.extremal_indices, x, k, largest=largest)
        ck.expect("1d/distinct", len(set(i.tolist())) == k)
        ck.eq("1d/values", np.sort(x[i]), want)
        for axis in (0, 1, -1):
            X = np.stack([x, -x, x[::-1]], axis=0 if axis else 1)
            ii = ck.call("2d", du.extremal_indices, X, k, axis=axis, largest=largest)
            v = np.sort(np.take_along_axis(X, ii, axis), axis)
            full = np.sort(X, axis)
            ck.eq("2d/values", v, np.take(full, range(n - k, n) if largest else range(k), axis))

    # --------------------------------------------------------------- moments
    def moments(ck):
        n, k = ck.choose("shape", [(2, 1), (3, 1), (4, 1), (2, 2), (3, 2)] + ([(5, 1), (4, 2)] if big else []))
        vals = [-1.0, 0.0, 3.0] if n * k < 6 else [0.0, 1.0, -2.5]
        cols = list(itertools.product(vals, repeat=n))
        X = np.array([ck.choose(f"column{j}", cols) for j in range(k)]).T.copy()
        shift = ck.choose("shift", [0.0, 1e6])
        X = X + shift
        unb = ck.choose("unbiased", [False, True])
        # exact rational arithmetic is the reference
        F = [[fractions.Fraction(float(v)) for v in X[:, j]] for j in range(k)]
        mu = [sum(c) / n for c in F]
        C = np.array([[float(sum((a - mu[i]) * (b - mu[j]) for a, b in zip(F[i], F[j])) / (n - unb)) for j in range(k)] for i in range(k)])
        m = np.array([float(v) for v in mu])
        tol = 1e-12 * (1 + shift)
        gm, gv = ck.call("welford_variance", du.welford_variance, X, unbiased=unb)
        ck.close("variance/mean", gm, m, 1e-12)
        ck.close("variance/var", gv, np.diag(C), tol, scale=1.0)
        gm, gv = ck.call("welford_variance/axis", du.welford_variance, X.T.copy(), axis=1, unbiased=unb)
        ck.close("variance/axis1", gv, np.diag(C), tol, scale=1.0)
        gm, gC = ck.call("welford_cov", du.welford_cov, X, unbiased=unb)
        ck.close("cov/mean", gm, m, 1e-12)
        ck.close("cov", gC, C, tol, scale=1.0)
        Y = np.concatenate([X ** 2 if not shift else (X - shift) ** 2, X[:, :1]], axis=1)
        Yf = [[fractions.Fraction(float(v)) for v in Y[:, j]] for j in range(k + 1)]
        my = [sum(c) / n for c in Yf]
        Cx = np.array([[float(sum((a - mu[i]) * (b - my[j]) for a, b in zip(F[i], Yf[j])) / (n - unb)) for j in range(k + 1)] for i in range(k)])
        gm, gC = ck.call("welford_cross", du.welford_cov, X, Y, unb)
        ck.close("cross/mean", gm, np.r_[m, [float(v) for v in my]], 1e-12)
        ck.close("cross/cov", gC, Cx, tol, scale=1.0)
        if unb:
            return
        keep = X.copy()
        ck.close("cov/plain", du.cov(X), C, tol, scale=1.0)
        ck.close("cov/plain-cross", du.cov(X, Y), Cx, tol, scale=1.0)
        ck.close("col_sum", du._col_sum(X), X.sum(0), 1e-13)
        ck.close("row_sum", du._row_sum(X), X.sum(1), 1e-13)
        ck.close("col_mean", du._col_mean(X), m, 1e-13)
        sd = np.sqrt(np.diag(C))
        ck.close("col_std", du._col_std(X), sd, tol, scale=1.0)
        ck.close("center", du.center(X), X - m, tol, scale=1.0)
        ck.close("cov_nb", du.cov_nb(X), C, tol, scale=1.0)
        ck.eq("inputs", X, keep, "input overwritten")
        if np.min(sd) > 0.1:
            Z = (X - m) / sd
            R = C / np.outer(sd, sd)
            ck.close("csd", du.csd(X), Z, 10 * tol, scale=1.0)
            ck.close("standardize", du.standardize(X), X / sd, 10 * tol)
            ck.close("_csd", du._csd(X), Z, 10 * tol, scale=1.0)
            a, b, c = du._csd(X, return_stats=True)
            ck.close("_csd/stats", np.stack([b, c]), np.stack([m, sd]), 10 * tol)
            ck.close("corr_nb", du.corr_nb(X), R, 10 * tol, scale=1.0)
            ck.close("corr", du.corr(X), R, 10 * tol, scale=1.0)
            sy = np.std(Y, axis=0)
            if sy.min() > 0.1:
                ck.close("corr/cross", du.corr(X, Y), Cx / np.outer(sd, sy), 10 * tol, scale=1.0)
            ck.close("norm_diag", du.norm_diag(C), R, 10 * tol, scale=1.0)
            ck.eq("inputs2", X, keep, "input overwritten")

    def scaling(ck):
        k = ck.choose("k", [1, 2, 3])
        A = np.array(ck.choose("A", list(itertools.product([-2.0, 0.5, 3.0], repeat=k * k)) if k < 3 else
                               list(itertools.product([-2.0, 3.0], repeat=9)))).reshape(k, k)
        d = np.array([0.5, 2.0, -3.0][:k])
        want = np.diag(d) @ A @ np.diag(d)
        keep = A.copy()
        ck.close("scale_diag", du.scale_diag(A, d), want)
        ck.close("scale_diag/col", du.scale_diag(A, d.reshape(-1, 1)), want)
        ck.close("scale_dg", du.scale_dg(A, d), want)
        out = np.full((k, k), 9.0)
        r = du.scale_dg(A, d, out=out)
        ck.expect("scale_dg/out", r is out)
        ck.close("scale_dg/out", out, want)
        ck.eq("inputs", A, keep, "overwritten")
        B = A.copy()
        r = du.scale_dg(B, d, inplace=True)
        ck.close("scale_dg/inplace", B, want)
        ck.expect("scale_dg/inplace", r is B)
        V = du.flip_signs(A)
        j = np.argmax(np.abs(A), axis=0)
        ck.expect("flip/abs", np.array_equal(np.abs(V), np.abs(A)))
        ck.expect("flip/sign", np.all(V[j, np.arange(k)] > 0), str(V))
        ck.expect("flip/colinear", all(np.array_equal(V[:, c], A[:, c]) or np.array_equal(V[:, c], -A[:, c]) for c in range(k)))
        ck.close("ssq", du.ssq(A), (A ** 2).sum(0))
        ck.close("ssq/1", du.ssq(A, axis=1), (A ** 2).sum(1))
        R = A @ A.T + np.eye(k)
        N = du.normalize_xtrx(A, R)
        w = np.diag(A.T @ R @ A)
        ck.close("normalize", N, A / np.sqrt(w))

    # ---------------------------------------------------------- sign changes
    def crossing(ck):
        n = ck.choose("n", [2, 3, 4, 5, 6] + ([7, 8] if big else []))
        s = ck.choose("signs", list(itertools.product([-1.0, 1.0], repeat=n)) if n > 4 else list(itertools.product([-1.0, 0.0, 1.0], repeat=n)))
        k = ck.choose("k", [1, 2, 3, 4])
        off = ck.choose("offset", [None, 0.0, 5.0, -0.25])
        b = 0.0 if off is None else off
        x = np.array(s) * 0.5 + (0.0 if off is None else off)
        sg = np.sign(x - b)
        ch = [i for i in range(1, n) if sg[i] != sg[i - 1]]     # first index after each change
        if len(ch) >= k:
            got = ck.call("1d", du.sign_change, x, k, off)
            ck.eq("1d", int(got), ch[k - 1] - 1, f"x={x} k={k} offset={off}")
            if len(ch) > k:
                ck.outcome("more crossings follow")
        X = np.stack([x, -x + 2 * b, np.where(np.arange(n) % 2, b + 1.0, b - 1.0)], axis=1)
        got = ck.call("2d", du.sign_change, X, k, None if off is None else np.full(3, off))
        if len(ch) >= k:
            ck.eq("2d", [int(got[0]), int(got[1])], [ch[k - 1] - 1] * 2)
        if n > k:
            ck.eq("2d/alternating", int(got[2]), k - 1)

    # ------------------------------------------------------------ allocations
    def allocate(ck):
        m = ck.choose("groups", [1, 2, 3, 4])
        den = ck.choose("denominator", [4, 6, 10] + ([12] if big else []))
        comp = [c for c in itertools.product(range(den + 1), repeat=m) if sum(c) == den]
        c = np.array(ck.choose("parts", comp))
        n = ck.choose("n", [1, 3, 4, 7, 10, 25])
        p = c / den
        keep = p.copy()
        k, sl = ck.call("allocate", fu.allocate_from_proportions, n, p)
        ck.eq("inputs", p, keep, "proportions overwritten")
        ck.expect("allocate/sum", k.sum() == n, f"n={n} p={p} k={k}")
        ck.expect("allocate/int", k.dtype.kind in "iu" and np.all(k >= 0), str(k))
        if n >= m:
            ck.expect("allocate/min", np.all(k >= 1), f"n={n} p={p} k={k}")
        if np.all(n * c >= den):
            ck.expect("allocate/quota", np.all(np.abs(k - p * n) < 1 + 1e-9), f"n={n} p={p} k={k}")
            ck.expect("allocate/exact", np.all(k == p * n) or np.any(n * c % den), f"n={n} p={p} k={k}")
        for i in range(m):
            for j in range(m):
                if c[i] > c[j]:
                    ck.expect("allocate/order", k[i] >= k[j], f"n={n} p={p} k={k}")
        ck.eq("slices", [tuple(map(int, s)) for s in sl], [(int(k[:i].sum()), int(k[:i + 1].sum())) for i in range(m)])

    def rounding(ck):
        m = ck.choose("length", [1, 2, 3, 4] + ([5] if big else []))
        q = np.array(ck.choose("quarters", list(itertools.product([-3, 0, 1, 2, 3, 4, 9] if m < 4 else [-3, 0, 2, 4, 7], repeat=m))))
        x = q / 4.0
        keep = x.copy()
        r = ck.call("round", fu.sum_preserving_round, x)
        ck.eq("inputs", x, keep, "overwritten")
        tot = q.sum() / 4.0
        ck.expect("round/neighbour", np.all((r == np.floor(x)) | (r == np.floor(x) + 1)), f"{x} {r}")
        ck.expect("round/integers-kept", np.all(r[q % 4 == 0] == x[q % 4 == 0]) or r.sum() != x.sum(), f"{x} {r}")
        ck.expect("round/sum", abs(r.sum() - tot) <= 0.5, f"{x} {r}")
        up = (r > np.floor(x)) & (q % 4 > 0)
        dn = r == np.floor(x)
        fr = x - np.floor(x)
        if up.any() and dn.any():
            ck.expect("round/largest-fraction", fr[up].min() >= fr[dn].max(), f"{x} {r}")
        mn = ck.choose("minimum", [0.0, 1.0, 2.0])
        y = ck.call("min", fu.sum_preserving_min, x, mn)
        ck.eq("inputs2", x, keep, "overwritten")
        ck.close("min/sum", y.sum(), tot, 1e-12)
        if tot >= m * mn:
            ck.expect("min/bound", np.all(y >= mn - 1e-12), f"{x} min={mn} got={y}")
            if np.all(x >= mn):
                ck.eq("min/unchanged", y, x)
            for i in range(m):
                for j in range(m):
                    if x[i] >= x[j]:
                        ck.expect("min/order", y[i] >= y[j] - 1e-12, f"{x} {y}")

    def partitions(ck):
        n = ck.choose("n", range(1, 9 if big else 8))
        P = [tuple(int(v) for v in s) for s in ck.call("partition", fu.partition_set, n)]
        bell = [1, 1, 2, 5, 15, 52, 203, 877, 4140][n]
        ck.eq("partition/count", len(P), bell)
        ck.eq("partition/distinct", len(set(P)), bell)
        ck.expect("partition/growth", all(s[0] == 1 and all(s[i] <= max(s[:i]) + 1 and s[i] >= 1 for i in range(1, n)) for s in P))

    def sizes(ck):
        m = ck.choose("m", [1, 2, 3, 4])
        s = ck.choose("sizes", list(itertools.product([0, 1, 3], repeat=m)))
        pos = [sum(s[:i]) for i in range(m + 1)]
        ck.eq("inds", fu.sizes_to_inds(np.array(s)), pos)
        ck.eq("inds/list", fu.sizes_to_inds(list(s)), pos)
        ck.eq("slices", [tuple(map(int, t)) for t in fu.sizes_to_slice_vals(list(s))], list(zip(pos[:-1], pos[1:])))
        for keys in (None, [f"k{i}" for i in range(m)]):
            d = fu.sizes_to_ind_arrs(list(s), keys)
            ck.eq("arrs/keys", list(d), list(range(m)) if keys is None else keys)
            for i, v in enumerate(d.values()):
                ck.eq("arrs", v, np.arange(pos[i], pos[i + 1]))
        for kk in ({}, {"a": 1}, {"b": 5}, {"a": None}):
            dflt = {"a": 0, "c": 2}
            ck.eq("defaults", sorted(map(str, fu.handle_default_kws(kk, dflt).items())), sorted(map(str, {**dflt, **kk}.items())))
            ck.expect("defaults/pure", dflt == {"a": 0, "c": 2})
        ck.expect("defaults/none", fu.handle_default_kws(None, {"a": 1}) == {"a": 1})
        for off in (-1, 0, 1):
            for v in range(0, 12):
                ck.eq("triangular", fu.triangular_number(v, off), (v + off) * v // 2)
            ck.eq("triangular/arr", fu.triangular_number(np.arange(12), off), [(v + off) * v // 2 for v in range(12)])

    def quantiles(ck):
        m = ck.choose("m", [3, 4, 5, 6])
        pool = [0.0, 1.0, 2.5, 7.0] if m > 4 else [0.0, 1.0, 2.5, 7.0, -3.0]
        x = np.array(ck.choose("x", list(itertools.combinations_with_replacement(pool, m))))
        if ck.flag("reverse"):
            x = x[::-1].copy()
        k = ck.choose("bins", [1, 2, 3, 4])
        c, t = ck.call("cut", fu.quantile_cut, x, k, return_quantiles=True)
        ck.eq("cut/same", fu.quantile_cut(x, k), c)
        s = np.sort(x)
        for i in range(1, k):        # linear-interpolated quantiles
            h = (m - 1) * i / k
            lo = int(np.floor(h))
            ck.close("cut/quantile", t[i - 1], s[lo] + (h - lo) * (s[min(lo + 1, m - 1)] - s[lo]), 1e-12)
        ck.eq("cut/code", c, [sum(v >= q for q in t) for v in x])
        d = np.arange(m * k, dtype=float)[::-1] ** 3
        ck.eq("cut/balanced", np.bincount(fu.quantile_cut(d, k), minlength=k), [m] * k)

    # ------------------------------------------------------ scalar functions
    def scalars(ck):
        what = ck.choose("function", ["harmonic", "binomial", "poisson", "normal", "expit", "threshold", "level", "auto"])
        if what == "harmonic":
            n = ck.choose("n", list(range(1, 400 if big else 150)) + [10 ** 4])
            h = sum((fractions.Fraction(1, i) for i in range(1, n + 1)), fractions.Fraction(0)) if n < 500 else None
            num, den = fu.harmonic_fraction(n)
            if h is not None:
                ck.expect("harmonic/fraction", fractions.Fraction(num, den) == h, str(n))
            hf = float(fractions.Fraction(num, den))
            ck.close("harmonic/exact", fu.harmonic_exact(n), hf, 1e-15)
            ck.expect("harmonic/asymptotic", abs(fu.harmonic_asymptotic(n) - hf) <= 1 / (252 * n ** 6) + 4e-15 * (1 + hf), f"{n}: {fu.harmonic_asymptotic(n) - hf}")
        elif what == "binomial":
            n = ck.choose("n", range(0, 41))
            for k in range(n + 1):
                ck.close("logbinom", fu.logbinom(n, k), math.log(math.comb(n, k)), 1e-12)
            ck.close("logbinom/arr", fu.logbinom(np.full(n + 1, n), np.arange(n + 1)), [math.log(math.comb(n, k)) for k in range(n + 1)], 1e-12)
        elif what == "poisson":
            mu = ck.choose("mu", [1e-3, 0.3, 1.0, 4.5, 60.0])
            x = np.arange(0, 60)
            lp = np.array([k * math.log(mu) - math.lgamma(k + 1) - mu for k in x])
            ck.close("poisson/log", fu.poisson_logp(x, mu), lp, 1e-12)
            ck.close("poisson", fu.poisson_logp(x, mu, logp=False), np.exp(lp), 1e-12)
            ck.eq("poisson/mu0", fu.poisson_logp(np.array([0, 1]), 0.0, logp=False), [1.0, 0.0])
        elif what == "normal":
            z = ck.choose("z", [round(-40 + 0.125 * i, 3) for i in range(641)])
            p = sp.stats.norm.cdf(z)
            ck.close("cdf", fu.norm_cdf(z), p, 2e-16, scale=1.0 + p)
            g = float(fu.norm_cdf_jit(z))
            ck.expect("cdf_jit", abs(g - p) <= 2e-15 + 0.0 * p and 0.0 <= g <= 1.0, f"z={z} {g} {p}")
            if -36 < z < 0:
                ck.expect("cdf_jit/tail", abs(g - p) <= 1e-7 * p, f"z={z} {g} {p}")
            ck.close("pdf", fu.norm_pdf(z), sp.stats.norm.pdf(z), 1e-14)
            for mean, sd in ((1.5, 0.5), (-2.0, 4.0)):
                ck.close("cdf/scaled", fu.norm_cdf(mean + sd * z, mean, sd), p, 1e-13)
                ck.close("pdf/scaled", fu.norm_pdf(mean + sd * z, mean, sd), sp.stats.norm.pdf(z) / sd, 1e-12)
                ck.close("cdf_jit/scaled", fu.norm_cdf_jit(mean + sd * z, mean, sd), p, 1e-13)
        elif what == "expit":
            x = ck.choose("x", [float(v) for v in range(-60, 61)] + [-800.0, -710.0, 709.0, 710.0, 800.0, 1e5, -1e5])
            want = 1 / (1 + math.exp(-x)) if x > 0 else math.exp(x) / (1 + math.exp(x))
            ck.close("expit", fu.expit(np.array([x, 0.0])), [want, 0.5], 1e-14)
            if -700 < x < 0:
                ck.expect("expit/relative", abs(fu.expit(np.array([x]))[0] - want) <= 1e-14 * want + 0.0)
        elif what == "threshold":
            x = ck.choose("x", [-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.5])
            t = ck.choose("t", [0.0, 0.5, 1.0, 4.0])
            ck.close("threshold", fu.soft_threshold(np.array([x]), t), [math.copysign(max(abs(x) - t, 0.0), x)], 1e-15)
        elif what == "level":
            lv = ck.choose("level", [0.5, 0.8, 0.9, 0.95, 0.99, 50, 80, 90, 95, 99, 99.9])
            q = lv / 100 if lv > 1 else lv
            ck.close("level", fu.symmetric_conf_int(lv), 1 - (1 - q) / 2, 1e-14)
        else:
            n = ck.choose("n", [2, 3, 4])
            x = np.array(ck.choose("x", [v for v in itertools.product([-1.0, 2.0, 0.5], repeat=n)]))
            r = np.array([sum(x[i] * x[i - k] for i in range(max(k, 0), n + min(k, 0))) for k in range(1 - n, n)])
            ck.close("auto/brute", xcorr.xcorr_brute(x, x), r, 1e-13)
            ck.close("auto/fft", xcorr.xcorr_fft(x, x), r, 1e-13)
            ck.close("auto/mat", xcorr.xcorr_mat(x, x), r, 1e-13)
            lag = np.arange(1 - n, n)
            for norm, c in (("unbiased", 1 / (n - abs(lag))), ("biased", 1 / n), ("coef", 1 / np.dot(x, x))):
                l, g = xcorr.xcorr_fftc(x, x, norm)
                ck.eq("auto/lags", l, lag)
                ck.close("auto/" + norm, g, r * c, 1e-13)

    rep.explore("tabulate", tabulate)
    rep.explore("expand", expand)
    rep.explore("encode", encode)
    rep.explore("extremal", extremal)
    rep.explore("moments", moments)
    rep.explore("scaling", scaling)
    rep.explore("crossing", crossing)
    rep.explore("allocate", allocate)
    rep.explore("rounding", rounding)
    rep.explore("partitions", partitions)
    rep.explore("sizes", sizes)
    rep.explore("quantiles", quantiles)
    rep.explore("scalars", scalars)
