"""C39: optimiser, derivative options and starting values change how a fit gets there, not where
it ends; the options given are the ones used."""
import contextlib
import copy
import io

import numpy as np

from ..lib.specs import REG, STR, flat, regression, structured

TC = dict(method="trust-constr", options=dict(gtol=1e-9, xtol=1e-12, maxiter=2000))
FD = dict(method="trust-constr", options=dict(gtol=1e-8, xtol=1e-11, initial_tr_radius=0.3, maxiter=2000))
BFGS = dict(method="BFGS", options=dict(gtol=1e-6, maxiter=2000))
LB = dict(method="L-BFGS-B", options=dict(ftol=1e-15, gtol=1e-8, maxiter=2000))
NCG = dict(method="Newton-CG", options=dict(xtol=1e-10))
EXACT = dict(method="trust-exact", options=dict(gtol=1e-8))
SLSQP = dict(method="SLSQP", options=dict(ftol=1e-14, maxiter=2000))
SENT = []


def sent(**d):
    """options handed to a fit, remembered to see whether they come back unchanged"""
    SENT.append((d, copy.deepcopy(d)))
    return d


ANY = {"constrained": TC, "small steps": FD, "bfgs": BFGS, "bounded": LB, "newton": NCG, "exact": EXACT}




def opts(names, arg="opt_kws", **over):
    return {n: (lambda m, k, n=n: m.fit(**{arg: sent(**copy.deepcopy(ANY[n]))}, **over)) for n in names}


def variants(name):
    """option name -> fit; None: what is compared; the attribute of the optimiser's report and a
    fit that may take two steps only"""
    if name.startswith(("pyglm2.GLM", "linear_model.GLM")):
        return opts(ANY), None, ("opt", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name.startswith("pyglm.GLM"):
        v = {f"{n}": (lambda m, k, n=n: m.fit(method="sp", opt_kws=sent(**copy.deepcopy(ANY[n])))) for n in ANY}
        v["halving"] = lambda m, k: m.fit(method="mn")
        v["equations"] = lambda m, k: m.fit(method="ee")
        v["halving from zero"] = lambda m, k: m.fit(method="mn", opt_kws=sent(theta=m.theta_init + 0.1))
        return v, None, ("optimizer", lambda m, k: m.fit(method="sp", opt_kws=sent(options=dict(maxiter=2))))
    if name == "pyglm.CLM":
        v = {n: (lambda m, k, s=s: m.fit(optimizer_kwargs=sent(**copy.deepcopy(s)))) for n, s in dict(constrained=TC, slsqp=SLSQP).items()}
        return v, None, ("optf", lambda m, k: m.fit(optimizer_kwargs=sent(options=dict(maxiter=2))))
    if name == "pyglm2.CLM":
        return opts(["constrained", "small steps", "bfgs", "newton", "exact"]), None, ("opt", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name == "pyglm.NB2":
        return opts(["constrained", "small steps"]), None, ("opt_full", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name == "pyglm.ZIP":
        v = {n: (lambda m, k, s=s: m.fit(opt_kws=sent(**s["options"]))) for n, s in dict(constrained=TC, small=FD).items()}
        return v, None, ("opt", lambda m, k: m.fit(opt_kws=sent(maxiter=2)))
    if name in ("pyglm2.ZIP", "pyglm2.ZINB"):
        return opts(["constrained", "small steps", "exact"]), None, ("opt", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name == "pyglm2.MVOLS":
        v = opts(["constrained", "small steps", "bfgs"], method="mle")
        v["closed form"] = lambda m, k: m.fit()
        return v, None, ("opt", lambda m, k: m.fit(method="mle", opt_kws=sent(options=dict(maxiter=1))))
    if name == "GAM":
        t = dict(options=dict(gtol=1e-9, xtol=1e-11, maxiter=1000))
        return {"numeric hessian": lambda m, k: m.fit(approx_hess=True), "tight": lambda m, k: m.fit(opt_kws=sent(**copy.deepcopy(t)))}, ["beta", "edf", "scale", "mu"], ("opt", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name in ("GaussianAdditiveModel", "GauLS"):
        t = dict(options=dict(gtol=1e-9, xtol=1e-11, maxiter=1000))
        return {"tight": lambda m, k: m.fit(opt_kws=sent(**copy.deepcopy(t)))}, ["beta", "edf", "scale", "mu"], ("opt", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name in ("LMM", "MLMM"):
        o = dict(gtol=1e-8, xtol=1e-10)
        v = {"no gradient": dict(use_grad=False), "hessian": dict(use_hess=True), "numeric hessian": dict(approx_hess=True), "analytic errors": dict(analytic_se=True), "both": dict(use_hess=True, analytic_se=True),
             "tight": {}}
        return {n: (lambda m, k, a=a: m.fit(opt_kws=sent(**o), **a)) for n, a in v.items()}, None, ("optimizer", lambda m, k: m.fit(opt_kws=sent(maxiter=2)))
    if name == "LMM2":
        v = {"bounded": lambda m, k: m.fit(method="L-BFGS-B", opt_kws=sent(ftol=1e-15, gtol=1e-8)), "bfgs": lambda m, k: m.fit(method="BFGS", opt_kws=sent(gtol=1e-7)),
             "slsqp": lambda m, k: m.fit(method="SLSQP", opt_kws=sent(ftol=1e-14)), "start": lambda m, k: m.fit(theta_init=np.full(len(m.mme.re_mod.theta), 0.6), opt_kws=sent(gtol=1e-8, xtol=1e-10)),
             "large start": lambda m, k: m.fit(theta_init=np.full(len(m.mme.re_mod.theta), 3.0), opt_kws=sent(gtol=1e-8, xtol=1e-10))}
        return v, None, ("opt", lambda m, k: m.fit(opt_kws=sent(maxiter=2)))
    if name == "GLMM_LAP":
        v = {"bounded": lambda m, k: m.fit(opt_kws=sent(method="L-BFGS-B", options=dict(ftol=1e-13))), "tight": lambda m, k: m.fit(opt_kws=sent(options=dict(gtol=1e-8, xtol=1e-11)))}
        return v, ["params", "ll", "se_params"], ("optimizer", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name == "pysem.SEM":
        o = dict(options=dict(gtol=1e-9, xtol=1e-12, maxiter=600))
        v = {"hessian": lambda m, k: m.fit(use_hess=True, opt_kws=sent(**copy.deepcopy(o))), "small steps": lambda m, k: m.fit(opt_kws=sent(options=dict(gtol=1e-9, xtol=1e-12, initial_tr_radius=0.2, maxiter=900)))}
        return v, None, None
    if name == "pysem2.SEM":
        o = dict(gtol=1e-8, xtol=1e-12, maxiter=1500)
        v = {"hessian": lambda m, k: m.fit(use_hess=True, minimize_options=sent(**o)), "small steps": lambda m, k: m.fit(minimize_options=sent(**o, initial_tr_radius=0.2)),
             "start": lambda m, k: m.fit(theta_init=m.theta * 1.1 + 0.02, minimize_options=sent(**o)), "given options": lambda m, k: m.fit(minimize_kws=sent(options=dict(o)))}
        return v, None, ("opt_res", lambda m, k: m.fit(minimize_options=sent(maxiter=2)))
    if name.startswith("efa/"):
        v = {n: (lambda m, k, n=n: m._fit(loglike_opt_kws=sent(**copy.deepcopy(ANY[n])))) for n in ("constrained", "bounded", "newton", "exact")}
        return v, ["params", "se_params", "L", "Phi", "psi", "L_se"], ("opt", lambda m, k: m._fit(loglike_opt_kws=sent(options=dict(maxiter=2))))
    if name.startswith("factor_analysis/"):
        o = dict(options=dict(gtol=1e-8, xtol=1e-12, maxiter=3000))
        v = {"no hessian": lambda m, k: m.fit(hess=False, opt_kws=sent(**copy.deepcopy(o))), "tight": lambda m, k: m.fit(opt_kws=sent(**copy.deepcopy(o))), "no scores": lambda m, k: m.fit(compute_factors=False)}
        return v, ["Sigma", "Psi", "sumstats", "params" if name.endswith("ortho") else "Sigma"], ("opt", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name == "RobustLM":
        return opts(["constrained", "small steps", "newton", "exact"]), None, ("opt", lambda m, k: m.fit(sent(options=dict(maxiter=2))))
    if name == "lvcorr/lvcorr._Polychor":
        return {**opts(["constrained", "small steps"]), "bounded": lambda m, k: m.fit(opt_kws=sent(**copy.deepcopy(LB))), "slsqp": lambda m, k: m.fit(opt_kws=sent(**copy.deepcopy(SLSQP)))}, None, ("optimizer", lambda m, k: m.fit(opt_kws=sent(options=dict(maxiter=2))))
    if name in ("lvcorr/lvcorr.Polychoric", "lvcorr/lvcorr.PolychoricCorr"):
        return opts(["constrained", "small steps", "newton", "exact"]), None, None
    if name == "lvcorr/polychoric.Polychor":
        return opts(["constrained", "small steps", "newton"]), None, None
    return None


def run(rep, tier):
    rep.assumptions += ["estimates reached along different routes are compared at the precision of a converged fit; standard errors by finite differences to 1e-3"]
    base = {}

    def explore(ck, builder, names):
        with contextlib.redirect_stdout(io.StringIO()):
            _explore(ck, builder, names)

    def _explore(ck, builder, names):
        name = ck.choose("estimator", names)
        var, attrs, short = variants(name)
        how = ck.choose("options", list(var) + (["two steps"] if short else []))
        if name not in base:
            base[name] = builder(ck, name), {}
        spec, memo = base[name]
        k = ck.choose("variant", [0, 1])
        if how == "two steps":
            m = spec.make(k)
            SENT.clear()
            with contextlib.suppress(np.linalg.LinAlgError, ValueError):
                short[1](m, k)
            for d, before in SENT:
                ck.expect(f"options unchanged/{name}", repr(d) == repr(before), f"{before} became {d}")
            o = getattr(m, short[0], None)
            ck.expect(f"limit/{name}", o is None or o.nit <= 3, f"{getattr(o, 'nit', None)} iterations instead of at most two")
            return
        if k not in memo:
            m = spec.make(k)
            default = spec.fits.get("fit", lambda m, k: m.fit())
            default(m, k)
            memo[k] = {a: getattr(m, a) for a in (attrs or spec.attrs) if hasattr(m, a)}
        want = memo[k]
        # a dispersion running off to its boundary has no estimate to compare
        ck.require(not any(a == "params" and np.any(np.abs(x) > 7) for a in want for x in flat(want[a])))
        # nor has a variance at zero
        ck.require(name != "GLMM_LAP" or want["params"][-1] > 0.1)
        m = spec.make(k)
        SENT.clear()
        r = ck.call("fit", lambda: (var[how](m, k), True)[1])
        for d, before in SENT:
            ck.expect(f"options unchanged/{name}", repr(d) == repr(before), f"{before} became {d}")
        if r is None:
            return
        for a in want:
            if not ck.expect(f"reported/{name}/{a}", hasattr(m, a), "not reported"):
                continue
            G, W = flat(getattr(m, a)), flat(want[a])
            if not ck.expect(f"shape/{name}/{a}", len(G) == len(W) and all(x.shape == y.shape for x, y in zip(G, W)), f"{[x.shape for x in G]} instead of {[y.shape for y in W]}"):
                continue
            for x, y in zip(G, W):
                f = np.isfinite(x) & np.isfinite(y)
                err = np.max(np.abs(x[f] - y[f]), initial=0) / max(1.0, np.max(np.abs(y[f]), initial=0))
                tol = 1e-2 if a in ("se_params", "se_theta", "res", "rho_se", "R_se") else 2e-3
                ck.expect(f"value/{name}/{a}", np.array_equal(np.isfinite(x), np.isfinite(y)) and err <= tol, f"differs by {err:.3g}: {x.ravel()[:6]} instead of {y.ravel()[:6]}")

    ok = lambda s: variants(s) is not None
    rep.explore("regression", lambda ck: explore(ck, regression, [s for s in REG if ok(s)]))
    rep.explore("structured", lambda ck: explore(ck, structured, [s for s in STR if ok(s)]))
