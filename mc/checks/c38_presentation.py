"""C38: what an estimator reports depends on the values in the data and on which rows belong
together, not on how the data frame presents them."""
import contextlib
import io

import numpy as np
import pandas as pd

from ..lib.specs import REG, STR, flat, regression, structured

# estimators that analyse every column they are handed, in the order they are handed
WHOLE = {"pysem.SEM", "efa/none", "efa/ortho", "efa/oblique", "factor_analysis/none", "factor_analysis/ortho", "lvcorr/lvcorr.Polychoric", "lvcorr/lvcorr.PolychoricCorr",
         "lvcorr/polychoric.Polychor", "lvcorr/polychoric2.Polychor", "CCA", "SCCA"}
# built from arrays that are no part of a frame, or drawing resamples and folds by row number
ARRAYS = {"ElasticNetGLM", "MLEstimator", "rotation/ortho", "rotation/oblique"}
BY_ROW = {"boot", "cv"}
ROWS = ["reversed", "interleaved", "shuffled"]
STEPS = {
    "string labels": lambda d: d.set_axis([f"s{(7 * i) % len(d):03d}" for i in range(len(d))], axis=0),
    "repeated labels": lambda d: d.set_axis([i // 2 % 5 for i in range(len(d))], axis=0),
    "falling labels": lambda d: d.set_axis(range(len(d), 0, -1), axis=0),
    "two-level labels": lambda d: d.set_axis(pd.MultiIndex.from_arrays([np.arange(len(d)) % 3, np.arange(len(d))]), axis=0),
    "dates": lambda d: d.set_axis(pd.date_range("2001-01-01", periods=len(d))[::-1], axis=0),
    "missing labels": lambda d: d.set_axis([None if i == 3 else float(i) for i in range(len(d))], axis=0),
    "columns reversed": lambda d: d[d.columns[::-1]],
    "more columns": lambda d: pd.concat([pd.DataFrame({"aa": np.where(np.arange(len(d)) % 3, 1.0, np.nan), "zz": "text", "Intercept": 7.0, "index": 3}, index=d.index), d], axis=1),
    "named axes": lambda d: d.rename_axis("y", axis=0).rename_axis("x", axis=1),
    "scattered memory": lambda d: pd.DataFrame({c: np.repeat(d[c].values, 2)[::2] for c in d.columns}, index=d.index),
    "row memory": lambda d: pd.concat([d.iloc[:1], d], axis=0).iloc[1:],
    "category type": lambda d: d.assign(**{c: pd.Categorical(d[c]) for c in d.columns if not pd.api.types.is_numeric_dtype(d[c])}),
    "whole numbers": lambda d: d.assign(**{c: d[c].astype(np.int64) for c in d.columns if pd.api.types.is_float_dtype(d[c]) and np.all(d[c] == np.round(d[c]))}),
    "small whole numbers": lambda d: d.assign(**{c: d[c].astype(np.int8) for c in d.columns if pd.api.types.is_integer_dtype(d[c]) and d[c].abs().max() < 100}),
    "reversed": lambda d: d.iloc[::-1],
    "interleaved": lambda d: d.iloc[np.argsort(np.arange(len(d)) % 4, kind="stable")],
    "shuffled": lambda d: d.iloc[np.random.default_rng(8).permutation(len(d))],
}
COLUMNS = {"columns reversed", "more columns"}


def labels(o, n, depth=0):
    if isinstance(o, dict) and depth < 3:
        return [x for k in sorted(o, key=str) for x in [str(k)] + labels(o[k], n, depth + 1)]
    if isinstance(o, (list, tuple)) and depth < 3 and len(o) < 20:
        return [x for y in o for x in labels(y, n, depth + 1)]
    if isinstance(o, pd.DataFrame):
        return [str(c) for c in o.columns] + ([str(i) for i in o.index] if len(o) != n else [])
    if isinstance(o, pd.Series):
        return [str(i) for i in o.index] if len(o) != n else []
    return []


def run(rep, tier):
    big = tier == "thorough"
    rep.assumptions += ["estimates of iterative fits are compared at the precision of their convergence tolerance"]
    base = {}

    def results(spec, k, fit, skip):
        o = spec.make(k)
        if fit is not None:
            spec.fits[fit](o, k)
        out = {}
        for a in spec.attrs:
            if fit is not None and hasattr(o, a):
                out["reported/" + a] = getattr(o, a)
        for q, f in spec.queries.items():
            if q not in skip and (fit is not None or q in spec.free):
                out["answer/" + q] = f(o, k)
        return out

    def explore(ck, builder, names):
        with contextlib.redirect_stdout(io.StringIO()):
            _explore(ck, builder, names)

    def _explore(ck, builder, names):
        name = ck.choose("estimator", names)
        steps = [s for s in STEPS if not (name in WHOLE and s in COLUMNS)]
        seq = [ck.choose("presentation", steps)]
        if big:
            more = ck.choose("then", [None] + [s for s in steps if s != seq[0]])
            seq += [more] if more else []
        elif seq[0] in ROWS:                       # quick: rows moved under labels that do not follow them
            more = ck.choose("then", [None, "repeated labels"])
            seq += [more] if more else []
        ns = []

        def present(d):
            if "row" in d.columns:
                raise KeyError("row")
            ns.append(len(d))
            keep = d
            for s in seq:
                d = STEPS[s](d)
            assert len(d) == len(keep)
            return d
        key = builder.__name__, name
        if key not in base:
            sp = builder(ck, name)
            base[key] = sp, {}
        sp0, memo = base[key]
        sp = builder(ck, name, present)
        n = ns[0]
        order = pd.DataFrame(dict(i=np.arange(n), q=np.arange(n) * 0.5))
        for s in seq:
            order = STEPS[s](order)
        order = order["i"].values
        moved = not np.array_equal(order, np.arange(n))
        skip = BY_ROW if moved else set()
        k = ck.choose("variant", [0, 1])
        fit = ck.choose("fit", [f for f in (list(sp.fits) or [None]) if f not in skip][:None if big else 1])
        if (k, fit, moved) not in memo:
            memo[k, fit, moved] = results(sp0, k, fit, skip)
        want = memo[k, fit, moved]
        got = ck.call("run", results, sp, k, fit, skip)
        if got is None:
            return
        # a dispersion running off to its boundary has no estimate to compare
        ck.require(not any(a == "reported/params" and np.any(np.abs(x) > 7) for a in want for x in flat(want[a])))
        tol = sp.fittol if fit is not None else sp.tol
        ck.eq(f"names/{name}", sorted(got), sorted(want))
        for a in got:
            if a not in want:
                continue
            ck.eq(f"labels/{name}/{a}", labels(got[a], n), labels(want[a], n))
            G, W = flat(got[a]), flat(want[a])
            if not ck.expect(f"shape/{name}/{a}", len(G) == len(W) and all(x.shape == y.shape for x, y in zip(G, W)), f"{[x.shape for x in G]} instead of {[y.shape for y in W]}"):
                continue
            for x, y in zip(G, W):
                for ax in range(y.ndim):
                    if y.shape[ax] == n:
                        y = np.take(y, order, axis=ax)
                    elif name == "MLMM" and y.shape[ax] == 2 * n:      # two responses, row by row
                        y = np.take(y, (2 * order[:, None] + [0, 1]).ravel(), axis=ax)
                    elif name == "LMM2" and y.shape[ax] in (8, 14):    # levels in the order they first appear
                        y = np.take(y, np.r_[pd.unique(order % 8), 8 + pd.unique(order // 8)][:y.shape[ax]], axis=ax)
                    elif name == "LMM2" and y.shape[ax] in (10, 16):
                        y = np.take(y, np.r_[0, 1, 2 + np.r_[pd.unique(order % 8), 8 + pd.unique(order // 8)]][:y.shape[ax]], axis=ax)
                same = np.array_equal(np.isfinite(x), np.isfinite(y))
                f = np.isfinite(x) & np.isfinite(y)
                err = np.max(np.abs(x[f] - y[f]), initial=0) / max(1.0, np.max(np.abs(y[f]), initial=0))
                ck.expect(f"{a.split('/')[0]}/{name}/{a.split('/')[1]}", same and err <= tol, f"differs by {err:.3g}: {x.ravel()[:6]} instead of {y.ravel()[:6]}")

    rep.explore("regression", lambda ck: explore(ck, regression, REG))
    STRUCT = [s for s in STR if s not in ARRAYS]
    rep.explore("structured", lambda ck: explore(ck, structured, STRUCT))
