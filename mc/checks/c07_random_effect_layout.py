"""C07: random-effect designs: Z, G and their derivatives have the documented
layout for every grouping and label type; nothing depends on labels or row order."""
import itertools

import numpy as np
import pandas as pd

from ..lib.mixed import Dense, basis, invech, partitions, pd_theta, vech, zmat

LABELS = {
    "ints": lambda q: [10 - 3 * i for i in range(q)],
    "negative": lambda q: [-i for i in range(q)],
    "strings": lambda q: [["b", "a", "d", "c", "e", "zz"][i] for i in range(q)],
    "floats": lambda q: [0.5 * (3 - i) for i in range(q)],
    "bools": lambda q: [True, False][:q],
    "categorical": lambda q: [["b", "a", "d", "c", "e", "zz"][i] for i in range(q)],
}


def run(rep, tier):
    from pystatsm.pylmm.lmm import LMM
    from pystatsm.pylmm.re_mod import LMM2, RandomEffects, RandomEffectTerm
    import scipy.linalg as sl
    big = tier == "thorough"
    N = 6 if big else 5
    parts = partitions(N)

    def relabel(kind, g):
        q = max(g) + 1
        lab = LABELS[kind](q)
        arr = [lab[v] for v in g]
        if kind == "categorical":
            return pd.Categorical(arr, categories=["zz", "e", "d", "c", "b", "a", "unused"])
        return np.array(arr, dtype=object) if kind == "strings" else np.array(arr)

    def term(ck):
        n = N
        g = ck.choose("grouping", parts)
        kind = ck.choose("labels", [k for k in LABELS if k != "bools" or max(g) <= 1])
        r = ck.choose("variables", [1, 2, 3])
        zero = ck.choose("zero pattern", [0, 1, 0b10110, 2 ** n - 1])
        re = ck.rng("re", r).uniform(0.5, 2, (n, r))
        re[:, 0] = 1
        for i in range(n):
            if (zero >> i) & 1:
                re[i, -1] = 0
        lab = relabel(kind, g)
        t = ck.must("construct", RandomEffectTerm, re.copy(), lab)
        q = max(g) + 1
        ck.eq("levels", t.n_levels, q)
        ck.expect("levels/order", list(t.levels) == [LABELS[kind](q)[v] for v in range(q)], lambda: str(t.levels))
        ck.eq("counts", [t.n_obs, t.n_revars, t.n_ranefs, t.n_pars], [n, r, q * r, r * (r + 1) // 2])
        ck.close("Z", t.Z.toarray(), zmat(list(g), re), 0)
        for tag in (0, 1):
            th = pd_theta(ck.rng("theta", tag), [r])[:-1]
            G0 = invech(th)
            ck.close("G", t.update_gcov(th).toarray(), np.kron(np.eye(q), G0), 1e-12)
            ck.close("logdet", t.get_logdet(th), q * np.linalg.slogdet(G0)[1], 1e-10)
            Gi = t.update_gcov(th, inv=True).toarray()
            ck.close("Ginv", Gi, np.kron(np.eye(q), np.linalg.inv(G0)), 1e-10)
        for D, B in zip(t.cov_structure.G_derivs, basis(r)):
            ck.close("dG", D.toarray(), np.kron(np.eye(q), B), 0)
        ck.eq("nderiv", len(t.cov_structure.G_derivs), r * (r + 1) // 2)
        uc = t.cov_structure.unstructured_cov
        S = invech(np.arange(1.0, 1 + r * (r + 1) // 2))
        ck.close("cov/vech", uc.params_to_cov(vech(S)), S, 0)
    rep.explore("term", term)

    sub = [p for p in parts if max(p) >= 1]

    def several(ck):
        n = N
        fs = ck.choose("terms", [("1", "1"), ("1+x", "1"), ("1", "1+x"), ("1+x", "0+v"), ("1", "1+x", "1")])
        g = ck.choose("g", sub)
        h = ck.choose("h", [p for p in sub if max(p) == 1][:8 if big else 5])
        r = ck.rng("d")
        x, v = r.normal(size=(2, n))
        o = np.ones(n)
        df = pd.DataFrame(dict(x=x, v=v, g=np.array(g), h=np.array(h), k=np.arange(n) % 2))
        cols = {"1": o[:, None], "1+x": np.c_[o, x], "0+v": v[:, None]}
        grp = [list(g), list(h), [i % 2 for i in range(n)]]
        rm = ck.must("construct", RandomEffects, [(f, "ghk"[i]) for i, f in enumerate(fs)], df)
        ref = Dense(o[:, None], o, [(grp[i], cols[f]) for i, f in enumerate(fs)])
        ck.close("Z", rm.Z.toarray(), ref.Z, 0)
        off, offt = 0, 0
        for i in range(len(fs)):
            q, rr = max(grp[i]) + 1, ref.rs[i]
            ck.eq("slices", [rm.ranef_sl[i].start, rm.ranef_sl[i].stop], [off, off + q * rr])
            ck.eq("theta slices", [rm.theta_sl[i].start, rm.theta_sl[i].stop], [offt, offt + rr * (rr + 1) // 2])
            off, offt = off + q * rr, offt + rr * (rr + 1) // 2
        ck.eq("n_par", rm.n_par, offt + 1)
        ck.close("theta0", rm.theta, np.concatenate([vech(np.eye(k)) for k in ref.rs] + [[1.0]]), 0)
        for tag in (0, 1):
            th = pd_theta(ck.rng("theta", tag), ref.rs)
            G = ref.G(th)
            ck.close("G", rm.update_gcov(th).toarray(), G, 1e-12)
            ck.close("R", rm.update_rcov(th).toarray(), th[-1] * np.eye(n), 1e-12)
            ck.close("lndetG", rm.lndet_gmat(th), np.linalg.slogdet(G)[1], 1e-10)
            ck.close("lndetR", rm.lndet_rmat(th), n * np.log(th[-1]), 1e-10)
            ck.close("Ginv", rm.update_gcov(th, inv=True).toarray(), np.linalg.inv(G), 1e-9)
            ck.close("Rinv", rm.update_rcov(th, inv=True).toarray(), np.eye(n) / th[-1], 1e-10)
            eta = ck.must("reparam", rm.reparam.fwd, th)
            ck.close("reparam/roundtrip", rm.reparam.rvs(eta), th, 1e-9)
            ck.close("G/reparam", rm.update_gcov_reparam(eta).toarray(), G, 1e-9)
            ck.close("R/reparam", rm.update_rcov_reparam(eta).toarray(), th[-1] * np.eye(n), 1e-9)
            J = rm.reparam.jac_rvs(eta)
            h_ = 1e-6
            fd = np.stack([(rm.reparam.rvs(eta + h_ * e) - rm.reparam.rvs(eta - h_ * e)) / (2 * h_) for e in np.eye(len(eta))], 1)
            ck.close("reparam/jac", J, fd, 1e-6)
        allb = [sl.block_diag(*[np.kron(np.eye(max(grp[j]) + 1), B if j == i else 0 * basis(ref.rs[j])[0]) for j in range(len(fs))])
                for i in range(len(fs)) for B in basis(ref.rs[i])]
        got = rm.G_derivs[:-1]
        k = 0
        for i in range(len(fs)):
            s = rm.ranef_sl[i]
            for _ in basis(ref.rs[i]):
                ck.close("dG", got[k].toarray(), allb[k][s, s], 0)
                k += 1
        ck.close("dR", rm.G_derivs[-1].toarray(), np.eye(n), 0)
    rep.explore("several-terms", several)

    perms = list(itertools.permutations(range(N)))

    def invariance(ck):
        n = N
        gen = ck.choose("generation", ["second", "first"])
        g = ck.choose("grouping", [(0, 0, 1, 1, 2), (0, 1, 0, 1, 0), (0, 1, 2, 1, 0), (0, 0, 0, 1, 2)] if not big else sub)
        g = tuple(g) + tuple(max(g) for _ in range(n - len(g)))
        kind = ck.choose("labels", ["ints", "strings", "categorical"])
        perm = list(ck.choose("row order", perms if not big else perms[::24]))
        r = ck.rng("d")
        x, w, y = r.normal(size=(3, n))
        base = pd.DataFrame(dict(y=y, w=w, x=x, g=np.array(g), h=np.arange(n) % 2))
        new = base.copy()
        new["g"] = relabel(kind, g)
        new["h"] = np.array(["q", "p"], dtype=object)[base["h"].values]
        new = new.iloc[perm]
        if ck.choose("index", ["kept", "reset"] if big or kind == "ints" else ["kept"]) == "reset":
            new = new.reset_index(drop=True)
        M = LMM2 if gen == "second" else LMM
        f = "y~1+w+(1+x|g)+(1|h)"
        a, b = M(f, base), ck.must("construct", M, f, new)
        th = pd_theta(ck.rng("t"), [2, 1])
        for reml in (True, False):
            ck.close("loglike", b.loglike(th, reml), a.loglike(th, reml), 1e-8)
            ck.close("gradient", b.gradient(th, reml), a.gradient(th, reml), 1e-8)
        if gen == "second":
            (ba, Ca, ua), (bb, Cb, ub) = a.compute_effects(th), b.compute_effects(th)
            ck.close("fitted", b.predict(beta=bb, u=ub), a.predict(beta=ba, u=ua)[perm], 1e-8)
        else:
            (ba, Ca, ua), (bb, Cb, ub) = a._compute_effects(th), b._compute_effects(th)
            ck.close("fitted", b.X @ bb + b.Z @ ub, (a.X @ ba + a.Z @ ua)[perm], 1e-8)
        ck.close("beta", bb, ba, 1e-8)
        ck.close("cov", Cb, Ca, 1e-8)
    rep.explore("invariance", invariance)
