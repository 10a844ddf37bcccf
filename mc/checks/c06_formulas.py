"""C06: a model formula denotes the same model however it is written: order,
position and spacing of the terms do not matter and no term is lost or altered."""
import itertools

import numpy as np
import pandas as pd
import patsy

SPACINGS = {
    "compact": lambda y, ts: y + "~" + "+".join(ts),
    "spaced": lambda y, ts: y + " ~ " + " + ".join(ts),
    "trailing": lambda y, ts: " " + y + "~ " + "+ ".join(ts) + " ",
    "wide": lambda y, ts: y + "  ~\t" + "  +\t".join(ts) + "\n",
}


def write(style, y, ts):
    """ts may contain '-1' (written with its own sign)"""
    s = SPACINGS[style](y, ts)
    out = s
    for a in ("+-1", "+ -1", "+\t-1", "+  -1", " + -1"):
        out = out.replace(a, a.replace("-1", "").replace("+", "-") + "1") if a in out else out
    return out


def data(ck, n=24):
    r = ck.rng("formula-data")
    return pd.DataFrame(dict(y=r.normal(size=n), y2=r.normal(size=n), x=r.uniform(1, 2, n), z=r.uniform(0, 3, n),
                             g=np.repeat(list("bdacef"), n // 6), h=np.tile([3, 1, 2, 0], n // 4), s=r.normal(size=n)))


FE = {
    "x": lambda d: [d.x], "z": lambda d: [d.z], "s": lambda d: [d.s],
    "np.log(x)": lambda d: [np.log(d.x)], "I(x**2)": lambda d: [d.x ** 2],
    "x:z": lambda d: [d.x * d.z], "np.cos(z)": lambda d: [np.cos(d.z)], "np.abs(s)": lambda d: [abs(d.s)],
}


def fe_cols(d, toks):
    """fixed-effect columns in the order written (continuous terms), C(h) with
    treatment coding, full dummies without an intercept"""
    icpt = not any(t in ("0", "-1") for t in toks)
    cols = [np.ones(len(d))] if icpt else []
    for t in toks:
        if t in ("1", "0", "-1"):
            continue
        if t == "C(h)":
            lev = sorted(d.h.unique())
            cols += [(d.h == v).astype(float) for v in (lev[1:] if icpt else lev)]
        else:
            cols += FE[t](d)
    return np.column_stack(cols) if cols else np.zeros((len(d), 0))


def sortcols(X):
    X = np.round(np.asarray(X, float), 10)
    return X[:, np.lexsort(X[::-1])] if X.shape[1] else X


RE = {
    "(1|g)": (lambda d: np.ones((len(d), 1)), "g", "1"), "(0+x|g)": (lambda d: d[["x"]].values, "g", "0+x"),
    "(x|h)": (lambda d: np.column_stack([np.ones(len(d)), d.x]), "h", "x"),
    "(x-1|g)": (lambda d: d[["x"]].values, "g", "x-1"),
    "(1+z|h)": (lambda d: np.column_stack([np.ones(len(d)), d.z]), "h", "1+z"),
    "(1|h)": (lambda d: np.ones((len(d), 1)), "h", "1"),
}


def respace(term, style):
    if style in ("compact", "trailing"):
        return term
    a, b = term[1:-1].split("|")
    return f"( {a} | {b} )" if style == "wide" else f"({a} | {b})"


def sp_z(d, term):
    """reference Z with levels in any order -> its Gram matrix Z Z' identifies it"""
    f, g, _ = RE[term]
    R = f(d)
    same = (d[g].values[:, None] == d[g].values[None, :])
    return (R @ R.T) * same


def run(rep, tier):
    from pystatsm.pylmm import model_matrices, mlmm
    from pystatsm.pylmm.lmm import LMM
    from pystatsm.pylmm.re_mod import LMM2
    from pystatsm.utilities import formula as F
    big = tier == "thorough"
    rep.assumptions += [
        "random-effect terms contain no nested parentheses (the documented grammar)",
        "fixed-effect columns are compared as sets of columns; random-effect designs through Z Z' per term",
    ]

    fe_pool = ["x", "np.log(x)", "x:z", "C(h)", "s"] if not big else ["x", "z", "s", "np.log(x)", "I(x**2)", "x:z", "C(h)", "np.abs(s)"]
    re_pool = ["(1|g)", "(x|h)", "(0+x|g)", "(x-1|g)"] if not big else list(RE)
    ic_pool = ["1", "0", "-1"]

    def seqs(fe_pool, re_pool, depth):
        pool = fe_pool + re_pool + ic_pool
        for n in range(1, depth + 1):
            for ts in itertools.permutations(pool, n):
                nr = sum(t in RE for t in ts)
                if nr == 0 or nr > 2 or sum(t in ic_pool for t in ts) > 1:
                    continue
                groups = [t for t in ts if t in RE]
                if len({(RE[t][2].replace("0+x", "x-1"), RE[t][1]) for t in groups}) < nr:
                    continue
                if ts[0] == "-1" and n > 1 and ts[1] in RE:
                    continue
                yield ts

    allseq = list(seqs(fe_pool, re_pool, 3))
    if big:
        allseq += [s for s in seqs(["x", "C(h)", "np.log(x)"], ["(1|g)", "(x|h)"], 5) if len(s) > 3]

    def parse(ck):
        ts = ck.choose("terms", allseq)
        style = ck.choose("spacing", list(SPACINGS))
        resp = ck.choose("response", ["y", "(y, y2)", "y,y2"])
        d = data(ck)
        fe, re = [t for t in ts if t not in RE], [t for t in ts if t in RE]
        form = write(style, resp, [respace(t, style) if t in RE else t for t in ts])
        ck.labels.append(("formula", repr(form)))
        X = fe_cols(d, fe)
        if X.shape[1] == 0:
            ck.outcome("empty")
            return
        info = ck.call("parse_random_effects", F.parse_random_effects, form)
        if info is not None:
            ck.eq("response variables", list(info["y_vars"]), ["y"] if resp == "y" else ["y", "y2"])
            ck.eq("random terms", [tuple(str(v).replace(" ", "") for v in t) for t in info["re_terms"]],
                  [tuple(t[1:-1].split("|")) for t in re])
            ck.eq("re_forms/re_groupings", list(zip(info["re_forms"], info["re_groupings"])), list(info["re_terms"]))
            got = ck.call("fixed part is a formula", patsy.dmatrix, info["fe_form"], d, return_type="dataframe")
            if got is not None:
                ck.close("fixed part", sortcols(got.values), sortcols(X), 1e-9, form)
        dup = len({RE[t][1] for t in re}) < len(re)
        if not dup:
            for name, mod in (("first-generation", model_matrices), ("multivariate", mlmm)):
                r = ck.call(name + "/construct", mod.construct_model_matrices, form, d)
                if r is None:
                    continue
                ck.close(name + "/X", sortcols(r[0]), sortcols(X), 1e-9, form)
                ck.close(name + "/Z", np.asarray(r[1]) @ np.asarray(r[1]).T, sum(sp_z(d, t) for t in re), 1e-9, form)
                ck.close(name + "/y", np.asarray(r[2], float).reshape(len(d), -1), d[["y"] if resp == "y" else ["y", "y2"]].values, 1e-12)
        ck.outcome(form)

    rep.explore("parse", parse)

    mseq = [s for s in allseq if len(s) <= 3]

    def model(ck):
        ts = ck.choose("terms", mseq)
        style = ck.choose("spacing", ["compact", "spaced"] if not big else list(SPACINGS))
        d = data(ck)
        fe, re = [t for t in ts if t not in RE], [t for t in ts if t in RE]
        X = fe_cols(d, fe)
        if X.shape[1] == 0:
            return
        form = write(style, "y", [respace(t, style) if t in RE else t for t in ts])
        canon = "y~" + ("+".join(fe) if fe else "1") + "+" + "+".join(re)
        canon = canon.replace("+-1", "-1").replace("~-1+", "~0+")
        ck.labels.append(("formula", repr(form)))
        for cls in (LMM2, LMM):
            k = cls.__name__
            m = ck.call(k, cls, form, d)
            if m is None:
                continue
            got = m.mme.X if cls is LMM2 else m.X
            ck.close(k + "/X", sortcols(got), sortcols(X), 1e-9, form)
            names = list(m.fe_names if cls is LMM2 else m.fe_vars)
            ck.eq(k + "/one name per column", len(names), X.shape[1])
            ck.eq(k + "/response", list(m.y_vars), ["y"])
            y = m.mme.y if cls is LMM2 else m.y
            ck.close(k + "/y", np.asarray(y, float).reshape(-1), d.y.values, 1e-12)
            if cls is LMM2:
                zs = [t.Z for t in m.mme.re_mod.gterms] if hasattr(m.mme.re_mod, "gterms") else None
            else:
                zs = None
            if zs is not None:
                ck.eq(k + "/terms", len(zs), len(re))
                for Z, t in zip(zs, re):
                    Z = Z.toarray()
                    ck.close(k + "/Z", Z @ Z.T, sp_z(d, t), 1e-9, t)
            else:
                Z = m.Z.toarray() if hasattr(m.Z, "toarray") else np.asarray(m.Z)
                ck.close(k + "/Z", Z @ Z.T, sum(sp_z(d, t) for t in re), 1e-9)
            m2 = ck.call(k + "/canonical", cls, canon, d)
            if m2 is not None:
                th = np.asarray(m.mme.re_mod.theta if cls is LMM2 else m.theta, float)
                th = th + 0.3 * np.arange(1, len(th) + 1) * (th > 0)
                for reml in (True, False):
                    ck.close(k + f"/same likelihood reml={reml}", ck.call(k + "/ll", m.loglike, th.copy(), reml=reml),
                             ck.call(k + "/ll", m2.loglike, th.copy(), reml=reml), 1e-8, form)
        ck.outcome(form)

    rep.explore("model", model)
    smooths(rep, big)


# ---------------------------------------------------------------- smooth terms
SM = {   # token -> (variable, df, kind, by)
    "s(x)": ("x", 10, "cr", None), "s(z, 5)": ("z", 5, "cr", None), "s(z, df=6, kind='cc')": ("z", 6, "cc", None),
    's(x, 7, "bs")': ("x", 7, "bs", None), "s(x, df=4, by=h)": ("x", 4, "cr", "h"), "s(s, kind='cr', df=5)": ("s", 5, "cr", None),
}


def smooth_blocks(d, tok):
    from pystatsm.utilities import splines as sp
    var, df, kind, by = SM[tok]
    x = d[var].values
    if kind == "cr":
        k = sp.crspline_knots(x, df)
        S, Fm = sp.crspline_penalty(k)
        X = sp.crspline_basis(x, k, Fm)
    elif kind == "cc":
        k = sp.ccspline_knots(x, df)
        S, Fm = sp.ccspline_penalty(k)
        X = sp.ccspline_basis(x, k, Fm)
    else:
        k, ik = sp.bspline_knots(x, df)
        _, S = sp.bspline_penalty(k, ik, 3)
        X = sp.bspline_basis(x, k)
    S = S / sp.get_penalty_scale(X, S)
    # coefficients whose smooth averages to zero over the data
    u = X.mean(0)
    _, _, Vt = np.linalg.svd(u[None])
    N = Vt[1:].T
    if by is None:
        return [(X @ N, N.T @ S @ N)]
    return [((X @ N) * (d[by].values == v)[:, None], N.T @ S @ N) for v in sorted(d[by].unique())]


def smoother(X, S):
    """invariant under a change of coefficient basis"""
    return X @ np.linalg.pinv(X.T @ X + 0.7 * S, rcond=1e-12) @ X.T


def smooths(rep, big):
    from pystatsm.pygam.gam import GAM
    from pystatsm.pygam.gauls import PredictorTerm
    from pystatsm.pygam.gaussian_additive_model import GaussianAdditiveModel
    from pystatsm.pyglm.links import IdentityLink
    from pystatsm.utilities import formula as F
    fe_pool = ["x", "np.abs(s)", "C(h)"] if not big else ["x", "s", "np.abs(s)", "np.cos(z)", "C(h)"]
    sm_pool = list(SM)[:5] if not big else list(SM)
    ic = ["1", "0", "-1"]

    def seqs():
        pool = fe_pool + sm_pool + ic
        for n in (1, 2, 3):
            for ts in itertools.permutations(pool, n):
                ns = sum(t in SM for t in ts)
                if ns == 0 or ns > 2 or sum(t in ic for t in ts) > 1:
                    continue
                if "C(h)" in ts and "s(x, df=4, by=h)" in ts and False:
                    continue
                if ts[0] == "-1" and n > 1:
                    continue
                yield ts
    allseq = list(seqs())

    def body(ck):
        ts = ck.choose("terms", allseq)
        style = ck.choose("spacing", ["compact", "spaced"] if not big else list(SPACINGS))
        d = data(ck, 48)
        fe, sm = [t for t in ts if t not in SM], [t for t in ts if t in SM]
        X = fe_cols(d, fe)
        if X.shape[1] == 0:
            return
        form = write(style, "y", ts if style != "compact" else [t.replace(" ", "") for t in ts])
        ck.labels.append(("formula", repr(form)))
        blocks = [b for t in sm for b in smooth_blocks(d, t)]
        for name, mk in (("gam", lambda: GAM(form, d)), ("gaussian", lambda: GaussianAdditiveModel(form, d)),
                         ("location-scale", lambda: PredictorTerm(form, d, IdentityLink))):
            m = ck.call(name, mk)
            if m is None:
                continue
            p = X.shape[1]
            q = [b[0].shape[1] for b in blocks]
            if not ck.eq(name + "/width", np.asarray(m.X).shape, (len(d), p + sum(q)), form):
                continue
            ck.close(name + "/parametric", sortcols(m.X[:, :p]), sortcols(X), 1e-9, form)
            ck.close(name + "/y", m.y, d.y.values, 1e-12)
            if not ck.eq(name + "/penalties", np.asarray(m.S).shape, (len(blocks), p + sum(q), p + sum(q)), form):
                continue
            ck.eq(name + "/names", len(set(m.varnames if hasattr(m, "varnames") else m.x_varnames)),
                  p + sum(q) + (len(blocks) + 1 if hasattr(m, "varnames") else 0))
            k = p
            for i, (Xi, Si) in enumerate(blocks):
                sl = slice(k, k + q[i])
                k += q[i]
                ck.close(name + "/smooth", smoother(m.X[:, sl], m.S[i][sl, sl]), smoother(Xi, Si), 1e-6, form)
                out = m.S[i].copy()
                out[sl, sl] = 0
                ck.eq(name + "/penalty touches only its block", np.count_nonzero(out), 0)
        info = ck.call("parse_smooths", F.parse_smooths, form)
        if info is not None:
            got = [(s["x"], s["df"], s["kind"], s["by"]) for s in info["smooths"]]
            ck.eq("parsed smooths", repr(got), repr([SM[t] for t in sm]))
            rhs = info["fe_form"]
            M = ck.call("parametric part", patsy.dmatrix, rhs, d, return_type="dataframe")
            if M is not None:
                ck.close("parametric part", sortcols(M.values), sortcols(X), 1e-9, form)
        ck.outcome(form)

    rep.explore("smooths", body)
