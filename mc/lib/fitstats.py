"""Textbook summary statistics from a log-likelihood pair (l: model, l0: null model, both proper log-likelihoods)."""
import numpy as np


NAMES = ("R2_CS", "R2_NK", "R2_MC", "R2_MB", "R2_ES", "R2_EA", "R2_AN", "R2_VZ", "LLR")


def pseudo_r2(l, l0, k, n):
    G = 2 * (l - l0)
    cs = 1 - np.exp(-G / n)
    return dict(R2_CS=cs, R2_NK=cs / (1 - np.exp(2 * l0 / n)), R2_MC=1 - l / l0, R2_MB=1 - (l - k) / l0,
                R2_ES=1 - (l / l0) ** (-2 * l0 / n) if l / l0 > 0 else np.nan, R2_EA=1 - ((l - k) / l0) ** (-2 * l0 / n) if (l - k) / l0 > 0 else np.nan,
                R2_AN=G / (G + n), R2_VZ=G / (G + n) * (n - 2 * l0) / (-2 * l0), LLR=G)


def table(ck, key, got, l, l0, k, n, names=None, tol=1e-7):
    """compare the statistics of a table (a mapping name -> value) with pseudo_r2; names maps table name -> standard name"""
    want = pseudo_r2(l, l0, k, n)
    for g, s in (names or {s: s for s in want}).items():
        if np.isfinite(want[s]):
            ck.close(key + g, float(got[g]), want[s], tol, scale=1 + abs(want[s]))
