"""dense reference for Gaussian linear mixed models + enumeration helpers"""
import numpy as np


def partitions(n):
    """all set partitions of range(n) as restricted growth strings"""
    out = []

    def rec(s, m):
        if len(s) == n:
            out.append(tuple(s))
            return
        for v in range(m + 2):
            rec(s + [v], max(m, v))
    rec([0], 0)
    return out


def vech(S):
    n = S.shape[0]
    return np.array([S[i, j] for j in range(n) for i in range(j, n)])


def invech(v):
    n = int((np.sqrt(8 * len(v) + 1) - 1) / 2)
    S = np.zeros((n, n))
    k = 0
    for j in range(n):
        for i in range(j, n):
            S[i, j] = S[j, i] = v[k]
            k += 1
    return S


def basis(n):
    return [invech(e) for e in np.eye(n * (n + 1) // 2)]


def zmat(levels, re):
    """dense Z, level-major / variable-minor; levels are 0..q-1"""
    n, r = re.shape
    q = max(levels) + 1
    Z = np.zeros((n, q * r))
    for i in range(n):
        Z[i, levels[i] * r:(levels[i] + 1) * r] = re[i]
    return Z


class Dense:
    """terms: list of (levels, re_arr[, A])"""

    def __init__(self, X, y, terms):
        self.X, self.y = X, y.reshape(-1)
        self.Zs = [zmat(t[0], t[1]) for t in terms]
        self.As = [np.eye(max(t[0]) + 1) if len(t) < 3 or t[2] is None else t[2] for t in terms]
        self.rs = [t[1].shape[1] for t in terms]
        self.Z = np.hstack(self.Zs)
        self.npar = [r * (r + 1) // 2 for r in self.rs]

    def split(self, theta):
        k, out = 0, []
        for m in self.npar:
            out.append(invech(theta[k:k + m]))
            k += m
        return out, theta[k]

    def G(self, theta):
        import scipy.linalg as sl
        Gs, _ = self.split(theta)
        return sl.block_diag(*[np.kron(A, g) for A, g in zip(self.As, Gs)])

    def dV(self):
        out = []
        for Z, A, r in zip(self.Zs, self.As, self.rs):
            out += [Z @ np.kron(A, B) @ Z.T for B in basis(r)]
        return out + [np.eye(len(self.y))]

    def eval(self, theta, reml, hess=False):
        n = len(self.y)
        G, s = self.G(theta), theta[-1]
        V = self.Z @ G @ self.Z.T + s * np.eye(n)
        Vi = np.linalg.inv(V)
        X, y = self.X, self.y
        XVX = X.T @ Vi @ X
        C = np.linalg.inv(XVX)
        P = Vi - Vi @ X @ C @ X.T @ Vi
        Py = P @ y
        ll = np.linalg.slogdet(V)[1] + y @ Py
        M = P if reml else Vi
        if reml:
            ll += np.linalg.slogdet(XVX)[1]
        dV = self.dV()
        g = np.array([np.sum(M * D) - Py @ D @ Py for D in dV])
        r = dict(ll=ll, grad=g, beta=C @ X.T @ Vi @ y, C=C, u=G @ self.Z.T @ Py, V=V, Vi=Vi, P=P)
        if hess:
            H = np.zeros((len(dV),) * 2)
            for i, Di in enumerate(dV):
                for j, Dj in enumerate(dV):
                    H[i, j] = -np.trace(M @ Di @ M @ Dj) + 2 * Py @ Di @ P @ Dj @ Py
            r["hess"] = H
        return r


def pd_theta(rng, rs, scale=1.0):
    out = []
    for r in rs:
        A = rng.normal(size=(r, r)) * 0.6
        S = A @ A.T + np.diag(rng.uniform(0.4, 1.2, r))
        out.append(vech(S * scale))
    return np.concatenate(out + [[rng.uniform(0.5, 1.5)]])
