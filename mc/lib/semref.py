"""Reference semantics of a structural equation model given as a list of
statements (lhs, rel, rhs, mod): name-keyed path equations

    v = alpha + A v + e,   cov(e) = Psi      (v: every variable, latent or observed)

so that the implied moments of the observed variables are those of
(I - A)^-1 (alpha, Psi).  Nothing here uses the LISREL matrices of the package.
"""
import itertools
import re

import numpy as np

MAT = {"L": 0, "B": 1, "F": 2, "P": 3, "a": 4, "b": 5}


def natural(name):
    m = re.match(r"([a-zA-Z]+)(\d+)", name)
    return (m.group(1), int(m.group(2))) if m else (name, 0)


def canon(lhs, rel, rhs):
    return (rel,) + (tuple(sorted((lhs, rhs))) if rel == "~~" else (lhs, rhs))


class Spec:
    def __init__(self, statements, fix_first=True, lvx_cov=True, y_cov=True, fix_lv_var=False, fix_lv_mean=True):
        self.st = st = [(l, r, h, m) for l, r, h, m in statements]
        self.nob = {l for l, r, h, m in st if r == "=~"}
        names = {x for l, r, h, m in st for x in (l, h)} - {"1"}
        self.ind = {h for l, r, h, m in st if r == "=~"}
        self.end = {l for l, r, h, m in st if r == "~" and h != "1"}
        self.exo = {h for l, r, h, m in st if r == "~" and h != "1"}
        self.all = names
        self.obs = names - self.nob
        self.lav = self.nob | self.end | self.exo
        self.lvo = self.lav - self.nob
        self.lox = self.exo - self.nob - self.end - self.ind
        self.lvx = self.nob - self.ind - self.end
        self.enx = self.end - self.exo
        # parameters: key -> dict(fixed=None|float|"sample", label=None|str, user=bool)
        P = {}
        self.user = {canon(l, r, h) for l, r, h, m in st}
        for l, r, h, m in st:
            num = isinstance(m, (int, float))
            P[canon(l, r, h)] = dict(lhs=l, rel=r, rhs=h, fixed=float(m) if num else None, label=m if isinstance(m, str) else None)

        def default(l, r, h, fixed=None):
            P.setdefault(canon(l, r, h), dict(lhs=l, rel=r, rhs=h, fixed=fixed, label=None))
        for v in names:
            default(v, "~~", v, 1.0 if v in self.nob and fix_lv_var else None)
            default(v, "~", "1", 0.0 if v in self.nob and fix_lv_mean else None)
        for a, b in itertools.combinations(sorted(self.lox), 2):
            default(a, "~~", b)
        if lvx_cov:
            for a, b in itertools.combinations(sorted(self.lvx), 2):
                default(a, "~~", b)
        if y_cov:
            for a, b in itertools.combinations(sorted(self.enx), 2):
                default(a, "~~", b)
        for key, p in P.items():
            if key in self.user:
                continue
            if p["rel"] == "~~" and p["lhs"] in self.lox and p["rhs"] in self.lox or key[0] == "~" and key[2] == "1" and key[1] in self.lox:
                p["fixed"] = "sample"
        for v in self.nob:
            want = fix_first.get(v, True) if isinstance(fix_first, dict) else bool(fix_first if fix_first is not None else True)
            rows = [P[canon(l, r, h)] for l, r, h, m in st if r == "=~" and l == v]
            if want and not any(p["fixed"] is not None for p in rows):
                for p in [rows[0]] + [p for p in P.values() if p["label"] is not None and p["label"] == rows[0]["label"]]:
                    p["fixed"] = 1.0
        for p in P.values():
            p["mat"] = self.matrix(p)
        self.P = P

    def matrix(self, p):
        l, r, h = p["lhs"], p["rel"], p["rhs"]
        if r == "=~":
            return "B" if h in self.lav else "L"
        if r == "~~":
            return "F" if l in self.lav else "P"
        if h == "1":
            return "b" if l in self.lav else "a"
        return "B"

    def lav_order(self):
        g = []
        for s in (self.obs & self.ind, self.nob & self.ind, self.obs & self.end, self.nob - self.ind, self.lav):
            g += sorted((s & self.lav) - set(g), key=natural)
        return g

    def obs_order(self):
        return sorted(self.obs, key=natural)

    def free(self):
        return [k for k, p in self.P.items() if p["fixed"] is None]

    def theta_key(self, k, group, shared):
        """name of the reduced parameter that position k of a group belongs to"""
        p = self.P[k]
        base = ("label", p["label"]) if p["label"] is not None else ("own",) + k
        return base if shared[MAT[p["mat"]]] else base + (group,)

    def theta_keys(self, n_groups, shared):
        out = []
        for g in range(n_groups):
            for k in self.free():
                t = self.theta_key(k, g, shared)
                if t not in out:
                    out.append(t)
        return out

    def moments(self, value, obs, group_stats=None):
        """value(k) -> number for every parameter; implied covariance and mean of `obs`"""
        names = sorted(self.all)
        ix = {v: i for i, v in enumerate(names)}
        vals = {k: value(k) for k in self.P}
        dt = complex if any(np.iscomplexobj(v) for v in vals.values()) else float
        n = len(names)
        A, Psi, al = np.zeros((n, n), dt), np.zeros((n, n), dt), np.zeros(n, dt)
        for k, p in self.P.items():
            l, h = p["lhs"], p["rhs"]
            if p["rel"] == "=~":
                A[ix[h], ix[l]] = vals[k]
            elif p["rel"] == "~~":
                Psi[ix[l], ix[h]] = Psi[ix[h], ix[l]] = vals[k]
            elif h == "1":
                al[ix[l]] = vals[k]
            else:
                A[ix[l], ix[h]] = vals[k]
        T = np.linalg.inv(np.eye(n) - A)
        o = [ix[v] for v in obs]
        return (T @ Psi @ T.T)[np.ix_(o, o)], (T @ al)[o]

    def fixed_value(self, k, mean, cov):
        p = self.P[k]
        if p["fixed"] == "sample":
            return mean[p["lhs"]] if p["rel"] == "~" else cov.loc[p["lhs"], p["rhs"]]
        return p["fixed"]

    def group_moments(self, th, group, shared, mean, cov, obs):
        """th: dict reduced key -> value"""
        def value(k):
            return th[self.theta_key(k, group, shared)] if self.P[k]["fixed"] is None else self.fixed_value(k, mean, cov)
        return self.moments(value, obs)


def render(statements, style="plain"):
    """text of a model; the styles denote the same model"""
    def item(h, m):
        s = "" if style in ("tight", "noise") else " "
        return h if m is None else f"{m}{s}*{s}{h}"
    st = list(statements)
    if style in ("plain", "tight"):
        sp = "" if style == "tight" else " "
        return "\n".join(f"{l}{sp}{r}{sp}{item(h, m)}" for l, r, h, m in st)
    if style == "joined":      # one line per (lhs, rel)
        rows = {}
        for l, r, h, m in st:
            rows.setdefault((l, r), []).append(item(h, m))
        return "\n".join(f"{l} {r} {' + '.join(v)}" for (l, r), v in rows.items())
    if style == "noise":       # comments, blank lines, indentation, joined right-hand sides
        rows = {}
        for l, r, h, m in st:
            rows.setdefault((l, r), []).append(item(h, m))
        out = ["", "   # measurement =~ and ~ and ~~", ""]
        for (l, r), v in rows.items():
            out.append(f"\t {l}  {r}   {'+'.join(v)}   # {l} ~~ {l} + z9")
            out.append("")
        return "\n".join(out) + "\n   "
    if style == "lhsjoin":     # several left-hand sides with the same right-hand sides
        rows = {}
        for l, r, h, m in st:
            rows.setdefault((l, r), []).append(item(h, m))
        groups = {}
        for (l, r), v in rows.items():
            groups.setdefault((r, tuple(v)), []).append(l)
        return "\n".join(f"{' + '.join(ls)} {r} {' + '.join(v)}" for (r, v), ls in groups.items())
    raise ValueError(style)


# ---- structures ------------------------------------------------------------
def meas(f, xs, mods=()):
    mods = list(mods) + [None] * len(xs)
    return [(f, "=~", x, m) for x, m in zip(xs, mods)]


STRUCT = {
    "factor": meas("f", ["x1", "x2", "x10"]),
    "factor residuals": meas("f", ["x1", "x2", "x3", "x4"]) + [("x1", "~~", "x4", None), ("x3", "~~", "x2", None)],
    "two factors": meas("f1", ["x1", "x2", "x3"]) + meas("f2", ["y1", "y2", "y3"]),
    "two factors uncorrelated": meas("f1", ["x1", "x2", "x3"]) + meas("f2", ["y1", "y2", "y3"]) + [("f2", "~~", "f1", 0)],
    "three factors": meas("g", ["x1", "x2"]) + meas("f", ["y1", "y2"]) + meas("h", ["z1", "z2"]) + [("h", "~", "f", None), ("f", "~~", "g", None)],
    "latent regression": meas("f", ["x3", "x1", "x2"]) + meas("b", ["y1", "y2"]) + [("b", "~", "f", None)],
    "tied loadings": meas("f", ["x1", "x2", "x3"], [None, "a", "a"]) + meas("h", ["y1", "y2", "y3"], [0.7, "a", "c"]) + [("h", "~", "f", "c")],
    "tied variances": meas("f", ["x1", "x2", "x3"]) + [("x1", "~~", "x1", "v"), ("x2", "~~", "x2", "v"), ("x3", "~~", "x3", 0.6)],
    "tied first": meas("f", ["x1", "x2", "x3"], ["a", "a"]) + meas("h", ["y1", "y2", "y3"]),
    "everything stated": [("f", "=~", "x1", None), ("f", "=~", "x2", None), ("f", "~~", "f", None), ("x1", "~~", "x1", None), ("x2", "~~", "x2", None),
                          ("x1", "~", "1", None), ("x2", "~", "1", None), ("f", "~", "1", 0)],
    "exogenous stated": [("y", "~", "x1", None), ("y", "~", "x2", None), ("x1", "~~", "x1", None), ("x1", "~", "1", None)],
    "path": [("m", "~", "x", None), ("y", "~", "m", None), ("y", "~", "x", None)],
    "path tied": [("m", "~", "x1", "k"), ("m", "~", "x2", None), ("y", "~", "m", None), ("y", "~", "x2", "k"), ("w", "~", "x1", -0.3), ("w", "~~", "y", None)],
    "feedback": [("y1", "~", "x1", None), ("y2", "~", "x2", None), ("y1", "~", "y2", None), ("y2", "~", "y1", 0.4)],
    "mimic": meas("f", ["y1", "y2", "y3"]) + [("f", "~", "x1", None), ("f", "~", "x2", None)],
    "mimic direct": meas("f", ["y1", "y2", "y3"]) + [("f", "~", "x1", None), ("y2", "~", "x1", None), ("y1", "~~", "y3", None)],
    "second order": meas("f1", ["x1", "x2", "x3"]) + meas("f2", ["y1", "y2", "y3"]) + meas("h", ["f1", "f2"]) + [("f1", "~~", "f1", 0.5)],
    "outcome": meas("f", ["x1", "x2", "x3"]) + [("y", "~", "f", None), ("y", "~", "z", None), ("u", "~", "y", None), ("f", "~", "z", 0.25)],
    "latent mean": meas("f", ["x1", "x2", "x3"]) + [("x1", "~", "1", 0), ("x2", "~", "1", "t"), ("x3", "~", "1", "t"), ("f", "~", "1", None)],
    "growth": meas("i", ["t1", "t2", "t3"], [1, 1, 1]) + meas("s", ["t1", "t2", "t3"], [0, 1, 2]) +
    [("t1", "~", "1", 0), ("t2", "~", "1", 0), ("t3", "~", "1", 0), ("i", "~", "1", None), ("s", "~", "1", None), ("i", "~~", "s", None)],
}


def point(rng, spec, keys):
    """an admissible value of every reduced parameter: variances dominate"""
    th = {}
    for t in keys:
        k = t[1:4] if t[0] == "own" else next(k for k, p in spec.P.items() if p["label"] == t[1] and p["fixed"] is None)
        p = spec.P[k]
        if p["rel"] == "~~":
            th[t] = rng.uniform(0.8, 1.6) if p["lhs"] == p["rhs"] else rng.uniform(-0.3, 0.3)
        elif p["rhs"] == "1":
            th[t] = rng.uniform(-1, 1)
        elif p["rel"] == "=~":
            th[t] = rng.uniform(0.5, 1.3) * rng.choice([-1, 1])
        else:
            th[t] = rng.uniform(-0.6, 0.6)
    return th


def parse_name(name):
    """reduced-parameter name of the package -> key used here"""
    tok = str(name).split()
    g = ()
    if len(tok) in (2, 4):
        g, tok = (int(tok[0]),), tok[1:]
    return ("label", tok[0]) + g if len(tok) == 1 else ("own",) + canon(*tok) + g
