"""Statistical verdicts with explicit, tiny false-alarm probabilities."""

import math

import numpy as np
from scipy import stats

ALPHA = 1e-9


def freedman(diff, var, alpha=ALPHA):
    """Bound on |sum of bounded martingale differences| (|d| <= 1) holding with probability 1 - alpha.

    ``diff`` are the observed differences, ``var`` their conditional variances.
    Returns (|sum|, bound).
    """
    total, v = abs(float(np.sum(diff))), float(np.sum(var))
    c = math.log(2.0 / alpha)
    bound = c / 3 + math.sqrt(c * c / 9 + 2 * c * v)
    return total, bound


def ks_uniform(u):
    """p-value of the hypothesis that ``u`` is a uniform sample on [0, 1]."""
    u = np.asarray(u, dtype=float).ravel()
    return float(stats.kstest(u, "uniform").pvalue)


def ks_normal(z):
    return float(stats.kstest(np.asarray(z, dtype=float).ravel(), "norm").pvalue)


def chi2_two_sided(q, df):
    """Two-sided p-value of a chi-square statistic."""
    return float(2 * min(stats.chi2.cdf(q, df), stats.chi2.sf(q, df)))


def whitened_pvalue(d, cov):
    """Are the rows of ``d`` draws of N(0, cov)?  Smallest of several p-values, Bonferroni corrected."""
    d = np.atleast_2d(np.asarray(d, dtype=float))
    n, k = d.shape
    L = np.linalg.cholesky(np.atleast_2d(cov))
    w = np.linalg.solve(L, d.T).T
    ps = [chi2_two_sided(float(np.sum(w**2)), n * k), ks_normal(w)]
    ps += [chi2_two_sided(float(np.sum(w[:, j] ** 2)), n) for j in range(k)]
    ps += [2 * float(stats.norm.sf(abs(w[:, j].sum()) / math.sqrt(n))) for j in range(k)]
    for i in range(k):
        for j in range(i):
            # (w_i + w_j)/sqrt(2) and the difference are standard normal
            ps.append(chi2_two_sided(float(np.sum((w[:, i] + w[:, j]) ** 2) / 2), n))
            ps.append(chi2_two_sided(float(np.sum((w[:, i] - w[:, j]) ** 2) / 2), n))
    return min(1.0, min(ps) * len(ps))


def multinomial_pvalue(counts, probs):
    """p-value of observed counts against exact cell probabilities (G-free Pearson, cells pooled)."""
    counts = np.asarray(counts, dtype=float)
    probs = np.asarray(probs, dtype=float)
    n = counts.sum()
    order = np.argsort(probs)
    c, p = counts[order], probs[order]
    cells_c, cells_p, ac, ap = [], [], 0.0, 0.0
    for ci, pi in zip(c, p):
        ac, ap = ac + ci, ap + pi
        if ap * n >= 20:
            cells_c.append(ac)
            cells_p.append(ap)
            ac = ap = 0.0
    if ap > 0 and cells_p:
        cells_c[-1] += ac
        cells_p[-1] += ap
    if len(cells_p) < 2:
        return 1.0
    e = n * np.array(cells_p) / sum(cells_p)
    q = float(np.sum((np.array(cells_c) - e) ** 2 / e))
    return float(stats.chi2.sf(q, len(cells_p) - 1))
