"""C16: what a structural equation formula means: variables, parameter table, matrices, shared parameters."""
import itertools
import warnings

import numpy as np
import pandas as pd

from mc.lib import semref as R

SETS = ["all", "nob", "obs", "ind", "end", "exo", "lvo", "lav", "lox", "lvx", "enx"]


def frame(rng, obs, G, n=14):
    d = pd.DataFrame(rng.normal(size=(n * G, len(obs))) @ (np.eye(len(obs)) + 0.3) + 0.5, columns=obs)
    d["grp"] = np.array(["b", "a", "c"])[np.arange(n * G) % G]
    return d


def group_stats(d, obs):
    return [(x[obs].mean(), x[obs].cov(ddof=0)) for _, x in sorted(d.groupby("grp"))]


def perms(st, how):
    """reorderings of the statements that keep every latent's first loading"""
    if how == "given":
        return st
    if how == "relations reversed":
        return sorted(st, key=lambda s: {"~": 0, "~~": 1, "=~": 2}[s[1]])
    m = [s for s in st if s[1] == "=~"]
    o = [s for s in st if s[1] != "=~"]
    lv = list(dict.fromkeys(s[0] for s in m))
    m = [s for v in lv[::-1] for s in m if s[0] == v]
    o = [(h, r, l, x) if r == "~~" else (l, r, h, x) for l, r, h, x in o[::-1]]
    return [s for p in itertools.zip_longest(o, m) for s in p if s is not None]


def keys_of(mod):
    return [R.parse_name(t) for t in mod.theta_names]


def run(rep, tier):
    warnings.filterwarnings("ignore")
    from pystatsm.pysem2.formula import FormulaParser
    from pystatsm.pysem2.param_table import ParameterTable
    from pystatsm.pysem2.model_specification import ModelSpecification
    from pystatsm.pysem2.sem import SEM
    big = tier == "thorough"
    rep.assumptions += ["models with at least one latent variable or regression; residual covariances link two latent (or regressed) variables or two pure indicators",
                        "no user modifier on a moment of a purely exogenous observed variable"]

    def moments(ck, mod, sp, th, keys, d, G, sh, obs):
        t = np.array([th[k] for k in keys])
        S, mu = ck.must("implied moments", mod.implied_cov_mean, t)
        ck.eq("order of the observed variables", list(mod.sorted_obs_names), obs)
        for g, (m, c) in enumerate(group_stats(d, sorted(sp.obs))):
            S0, m0 = sp.group_moments(th, g, sh, m, c, obs)
            ck.close("implied covariance", S[g], S0, 1e-10, msg=f"group {g}")
            ck.close("implied mean", mu[g], m0, 1e-10, msg=f"group {g}")

    def structures(ck):
        name = ck.choose("structure", list(R.STRUCT))
        style = ck.choose("spelling", ["plain", "tight", "joined", "noise", "lhsjoin"])
        order = ck.choose("statement order", ["given", "relations reversed", "reversed and flipped"])
        st = perms(R.STRUCT[name], order)
        G = ck.choose("groups", [1, 2])
        sh = [True] * 6 if ck.flag("shared") else [False] * 6
        sp, base = R.Spec(st), R.Spec(R.STRUCT[name])
        text = R.render(st, style)
        par = ck.must("parse", FormulaParser, text)
        for s in SETS:
            ck.eq(f"variable classes", sorted(par.var_names[s]), sorted(getattr(sp, s)), msg=s)
        rows = par.param_df
        got = {R.canon(a, b, c): (v if f else None, l) for a, b, c, f, v, l in zip(*[rows[x] for x in ("lhs", "rel", "rhs", "fixed", "fixedval", "label")])}
        want = {R.canon(l, r, h): (float(m), None) if isinstance(m, (int, float)) else (None, m) for l, r, h, m in st}
        ck.eq("stated parameters", len(rows), len(st))
        ck.expect("stated parameters", {k: (v[0], v[1] if isinstance(v[1], str) else None) for k, v in got.items()} == want, lambda: f"{got} vs {want}")
        rng = ck.rng(name)
        obs = sp.obs_order()
        d = frame(rng, obs, G)
        keep = d.copy()
        mod = ck.must("model", SEM, text, d, model_spec_kws=dict(group_col="grp", shared=sh))
        ck.expect("caller's data untouched", d.equals(keep))
        keys = keys_of(mod)
        want = sp.theta_keys(G, sh)
        ck.expect("free parameters", len(keys) == len(set(keys)) and set(keys) == set(want), lambda: f"{sorted(map(str, set(keys) ^ set(want)))} {len(keys)}")
        if ck.fails:
            return
        ck.expect("free parameters do not depend on the statement order", set(want) == set(base.theta_keys(G, sh)))
        th = R.point(rng, base, sorted(want, key=str))
        moments(ck, mod, base, th, keys, d, G, sh, obs)
        lo = {k: (0 if k[0] == "own" and k[1] == "~~" and k[2] == k[3] or k[0] == "label" and any(
            p["label"] == k[1] and p["rel"] == "~~" and p["lhs"] == p["rhs"] for p in sp.P.values()) else None) for k in keys}
        ck.expect("bounds", all((b[0] in (None, -np.inf) or b[0] != b[0]) if lo[k] is None else b[0] == 0 for k, b in zip(keys, mod.bounds)) and
                  all(b[1] is None or b[1] == np.inf or b[1] != b[1] for b in mod.bounds), lambda: str(list(zip(keys, mod.bounds))))
        t = np.array([th[k] for k in keys])
        fr = mod.transform_theta_to_free(t)
        ck.eq("reduced parameters survive expansion", mod.transform_free_to_theta(fr), t)
        fk = [R.parse_name(x) for x in mod.free_names]
        ck.eq("expanded parameters carry the reduced values", fr, [th[k] for k in fk])
        for g in range(G):
            gf = mod.transform_free_to_group_free(fr, g)
            sub = mod.free_df.loc[mod.free_df["group"] == g]
            ck.eq("group parameters", gf, [th[sp.theta_key(R.canon(a, b, c), g, sh)] for a, b, c in zip(sub["lhs"], sub["rel"], sub["rhs"])])
        ck.outcome(len(keys), name)

    def options(ck):
        name = ck.choose("structure", (["factor", "three factors", "path tied", "second order", "latent mean"] if big else []) + ["two factors", "mimic direct", "outcome", "tied loadings"])
        st = R.STRUCT[name]
        kw = {}
        stated = big or ck.flag("every option stated")
        for o in ("lvx_cov", "y_cov", "fix_lv_var", "fix_lv_mean"):
            v = ck.choose(o, ["default", True, False] if big else [True, False]) if stated else "default"
            if v != "default":
                kw[o] = v
        ff = ck.choose("fix_first", ["default", None, True, False, "one"])
        if ff != "default":
            kw["fix_first"] = {sorted(R.Spec(st).nob)[0]: False} if ff == "one" and R.Spec(st).nob else (None if ff == "one" else ff)
        sp = R.Spec(st, **kw)
        obs = sp.obs_order()
        rng = ck.rng(name)
        d = frame(rng, obs, 1)
        par = ck.must("table", ParameterTable, R.render(st), model_builder_kws=dict(kw))
        tab = par.get_table()
        tab = tab.loc[~tab["dummy"].astype(bool)]
        key = [R.canon(a, b, c) for a, b, c in zip(tab["lhs"], tab["rel"], tab["rhs"])]
        ck.expect("parameters of the table", len(key) == len(set(key)) and set(key) == set(sp.P), lambda: str(set(key) ^ set(sp.P)))
        for k, f, v in zip(key, tab["free"], tab["fixedval"]):
            want = sp.P[k]["fixed"]
            ck.expect("free flags", (f == 0) == (want is not None), lambda: f"{k} {f} {want}")
            if isinstance(want, float):
                ck.eq("fixed values", v, want, msg=str(k))
        mod = ck.must("model", SEM, R.render(st), d, model_spec_kws=dict(group_col="grp", model_builder_kws=dict(kw)))
        keys, want = keys_of(mod), sp.theta_keys(1, [True] * 6)
        ck.expect("free parameters", len(keys) == len(set(keys)) and set(keys) == set(want), lambda: str(set(keys) ^ set(want)))
        if ck.fails:
            return
        moments(ck, mod, sp, R.point(rng, sp, sorted(want, key=str)), keys, d, 1, [True] * 6, obs)

    def orders(ck):
        name = ck.choose("structure", ["factor", "feedback", "mimic direct", "outcome", "growth", "tied variances", "latent regression", "second order"])
        st = R.STRUCT[name]
        sp = R.Spec(st)
        obs, lav = sp.obs_order(), sp.lav_order()
        how = {"default": lambda x: None, "reversed": lambda x: list(x)[::-1], "rotated": lambda x: list(x)[1:] + list(x)[:1], "dict": lambda x: {v: i for i, v in enumerate(list(x)[::-1])}}
        oo, lo = how[ck.choose("observed order", list(how))](obs), how[ck.choose("latent order", list(how))](lav)
        via = ck.choose("through", ["constructor", "reorder_table"])
        G = ck.choose("groups", [1, 2])
        rng = ck.rng(name)
        d = frame(rng, obs, G)
        d = d[list(rng.permutation(d.columns))]
        text = R.render(st)
        par = ck.must("table", ParameterTable, text, **({} if via == "reorder_table" else dict(obs_order=oo, lav_order=lo)))
        if via == "reorder_table":
            ck.must("reorder", par.reorder_table, oo, lo)
        wo = list(oo) if oo is not None else obs
        wl = list(lo) if lo is not None else lav
        ck.eq("observed order", par.sorted_obs_names, wo)
        ck.eq("latent order", par.sorted_lav_names, wl)
        tab = par.get_table()
        dims = {"L": (wo, wl), "B": (wl, wl), "F": (wl, wl), "P": (wo, wo), "a": (["0"], wo), "b": (["0"], wl)}
        lab = par.mat_labels
        for m, (r, c) in dims.items():
            ck.eq("matrix labels", list(lab[0][R.MAT[m]]), r)
            ck.eq("matrix labels", list(lab[1][R.MAT[m]]), c)
            ck.eq("matrix sizes", tuple(par.mat_dims[R.MAT[m]]), (len(r), len(c)))
        last = {}
        for l, r_, h, mat, r, c, dmy, free in zip(*[tab[x] for x in ("lhs", "rel", "rhs", "mat", "r", "c", "dummy", "free")]):
            if dmy:
                want = ("L", l, l)
            else:
                p = sp.P[R.canon(l, r_, h)]
                want = (p["mat"], None, None)
            ck.eq("matrix of a parameter", mat, R.MAT[want[0]], msg=f"{l}{r_}{h}")
            rn, cn = dims[want[0]][0][int(r)], dims[want[0]][1][int(c)]
            exp = {"=~": (h, l), "~": ("0", l) if h == "1" else (l, h), "~~": (l, h)}[r_]
            ck.expect("position of a parameter", (rn, cn) == exp or r_ == "~~" and (cn, rn) == exp, lambda: f"{l}{r_}{h} at {rn},{cn}")
            if r_ == "~~":
                ck.expect("covariances are kept in the lower triangle", r >= c)
            ck.expect("table follows the column-major order of each matrix", last.get(mat, (-1, -1)) < (c, r))
            last[mat] = (c, r)
        fr = tab["free"].values
        first = [f for i, f in enumerate(fr) if f and f not in fr[:i]]
        ck.eq("distinct free parameters are numbered from one", sorted(first), list(range(1, len(first) + 1)))
        kws = dict(group_col="grp", obs_order=oo, lav_order=lo)
        mod = ck.must("model", SEM, text, d, model_spec_kws=kws)
        keys, want = keys_of(mod), sp.theta_keys(G, [True] * 6)
        ck.expect("free parameters", set(keys) == set(want) and len(keys) == len(want))
        if not ck.fails:
            moments(ck, mod, sp, R.point(rng, sp, sorted(want, key=str)), keys, d, G, [True] * 6, wo)

    def sharing(ck):
        name = ck.choose("structure", ["tied loadings", "outcome", "latent mean", "path tied", "mimic", "tied variances"])
        sh = [ck.choose(f"share {m}", [True, False]) for m in "LBFPab"]
        G = ck.choose("groups", [1, 2, 3] if big else [2])
        st = R.STRUCT[name]
        sp = R.Spec(st)
        obs = sp.obs_order()
        rng = ck.rng(name)
        d = frame(rng, obs, G)
        mod = ck.must("model", SEM, R.render(st), d, model_spec_kws=dict(group_col="grp", shared=sh))
        keys, want = keys_of(mod), sp.theta_keys(G, sh)
        ck.expect("free parameters", len(keys) == len(set(keys)) and set(keys) == set(want), lambda: str(set(keys) ^ set(want)))
        if not ck.fails:
            moments(ck, mod, sp, R.point(rng, sp, sorted(want, key=str)), keys, d, G, sh, obs)
            ck.eq("number of expanded parameters", mod.n_total_free, G * len(sp.free()))

    def modifiers(ck):
        """every assignment of modifiers to the loadings and residual variances of one factor"""
        mods = [ck.choose(f"loading {i}", [None, "a", "b", 0.7, -1]) for i in (1, 2, 3)]
        v = [ck.choose(f"variance {i}", ["absent", None, "a", "v", 0.9]) for i in ((1, 2) if big else (1,))]
        st = R.meas("f", ["x1", "x2", "x3"], mods) + [(f"x{i}", "~~", f"x{i}", m) for i, m in zip((1, 2), v) if m != "absent"]
        G = 2
        sp = R.Spec(st)
        rng = ck.rng()
        d = frame(rng, sp.obs_order(), G)
        mixed = {m["label"] for m in sp.P.values() if m["label"] and m["mat"] == "P"} & {m["label"] for m in sp.P.values() if m["label"] and m["mat"] == "L"}
        sh = [ck.choose("share", [True, False] if big else [False]), True, True, True, True, True]
        mod = ck.must("model", SEM, R.render(st, "joined"), d, model_spec_kws=dict(group_col="grp", shared=sh))
        keys, want = keys_of(mod), sp.theta_keys(G, sh)
        ck.expect("free parameters", len(keys) == len(set(keys)) and set(keys) == set(want), lambda: str(set(keys) ^ set(want)))
        if not ck.fails:
            th = {k: abs(x) for k, x in R.point(rng, sp, sorted(want, key=str)).items()} if mixed else R.point(rng, sp, sorted(want, key=str))
            moments(ck, mod, sp, th, keys, d, G, sh, sp.obs_order())

    rep.explore("structures", structures)
    rep.explore("builder options", options)
    rep.explore("orders", orders)
    rep.explore("sharing", sharing)
    rep.explore("modifiers", modifiers)
