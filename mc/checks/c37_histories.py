"""C37: an estimator answers for its own data and for the arguments it is given, whatever was
called before: on it, or on another estimator built from the same data and family."""
import contextlib
import copy
import io

import numpy as np

from ..lib.specs import REG, STR, flat, regression, structured


def run(rep, tier):
    big = tier == "thorough"
    rep.assumptions += ["fits repeated on the same object are compared at the precision of their convergence tolerance"]

    def state(spec, o):
        return {a: flat(getattr(o, a)) for a in spec.attrs if hasattr(o, a)}

    memo = {}

    def oracle(key, spec, k, fit, op):
        """what a fresh object gives: after `fit` (or none), the operation and the state left"""
        m = (key, k, fit, op)
        if m not in memo:
            o = spec.make(k)
            if fit is not None:
                spec.fits[fit](o, k)
            res = None
            if op in spec.queries:
                res = flat(spec.queries[op](o, k))
            memo[m] = res, state(spec, o)
        return memo[m]

    def compare(ck, key, got, want, tol):
        ok = len(got) == len(want) and all(a.shape == b.shape for a, b in zip(got, want))
        if not ck.expect(key, ok, f"{[a.shape for a in got]} instead of {[a.shape for a in want]}"):
            return
        for a, b in zip(got, want):
            same = np.array_equal(np.isfinite(a), np.isfinite(b))
            f = np.isfinite(a) & np.isfinite(b)
            err = np.max(np.abs(a[f] - b[f]), initial=0) / max(1.0, np.max(np.abs(b[f]), initial=0))
            ck.expect(key, same and err <= tol, f"differs by {err:.3g}: {a.ravel()[:6]} instead of {b.ravel()[:6]}")

    def history(ck, group, builder, names):
        with contextlib.redirect_stdout(io.StringIO()):
            _history(ck, group, builder, names)

    def _history(ck, group, builder, names):
        name = ck.choose("estimator", names)
        spec = builder(ck, name)
        key = (group, name)
        ops = [f"{'AB'[k]}:{o}" for k in (0, 1) for o in list(spec.fits) + list(spec.queries)]
        keep = [f.copy() for f in spec.frames]
        options = copy.deepcopy(list(spec.args))
        objs = [ck.must("construct", spec.make, k) for k in (0, 1)]
        last = [None, None]
        def do(label):
            k, op = "AB".index(label[0]), label[2:]
            if op in spec.fits:
                ck.do(op, spec.fits[op], objs[k], k)
                last[k] = op
                return
            try:
                exp = oracle(key, spec, k, last[k], op)[0]
            except Exception as e:          # noqa: BLE001
                ck.fail("fresh/" + op, repr(e))
                return
            res = ck.do(op, spec.queries[op], objs[k], k)
            compare(ck, f"answer/{name}/{op}", flat(res), exp, spec.fittol if last[k] else spec.tol)

        # every sequence of two operations; and: fit the first object, do anything, then ask the
        # first object everything (thorough: every sequence of three operations as well)
        kind = ck.choose("operations", ["two", "fit-any-all"] + (["three"] if big else []))
        for i in range(3 if kind == "three" else 2):
            allowed = [o for o in ops if last["AB".index(o[0])] is not None or o[2:] in spec.fits or o[2:] in spec.free]
            if kind == "fit-any-all" and i == 0:
                allowed = [o for o in allowed if o[0] == "A" and o[2:] in spec.fits]
                ck.require(allowed)
            elif i == 0 and group == "structured" and not big:
                allowed = [o for o in allowed if o[0] == "A"]
            do(ck.choose(f"step {i}", allowed))
        if kind == "fit-any-all":
            for q in spec.queries:
                do("A:" + q)
        for k in (0, 1):
            want = oracle(key, spec, k, last[k], None)[1]
            got = state(spec, objs[k])
            for a in want:
                ck.expect(f"reported/{name}/{a}", a in got, "is gone")
                if a in got:
                    compare(ck, f"reported/{name}/{a}", got[a], want[a], spec.fittol)
        for f, f0 in zip(spec.frames, keep):
            ck.expect("data unchanged", f.equals(f0))
        ck.expect("arguments unchanged", list(spec.args) == options, lambda: f"{list(spec.args)} instead of {options}")

    rep.explore("regression", lambda ck: history(ck, "regression", regression, REG))

    class Seeds:
        def rng(self, *tag):
            return np.random.default_rng(5)

    def compiled(name):
        """numba kernels are compiled once, before the processes that explore are forked"""
        def f():
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                sp = structured(Seeds(), name)
                for k in (0, 1):
                    o = sp.make(k)
                    for q in list(sp.free):
                        sp.queries[q](o, k)
                    for fit in sp.fits.values():
                        fit(o, k)
        return f
    for n in ("GLMEN/gaussian", "GLMEN/binomial", "ElasticNetGLM", "pysem2.SEM", "lvcorr/lvcorr._Polychor", "lvcorr/lvcorr.Polychoric", "lvcorr/polychoric.Polychor", "lvcorr/polychoric2.Polychor", "SCCA", "efa/none"):
        rep.warm(compiled(n))
    rep.explore("structured", lambda ck: history(ck, "structured", structured, STR))
