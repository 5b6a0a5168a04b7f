"""Multivariate log densities by their formulas (numpy only), to judge executions of the real code."""
import numpy as np
from scipy.special import gammaln, multigammaln


def spd(r, d):
    a = r.normal(size=(d, d))
    return a @ a.T + 0.3 * np.eye(d)


def point_and_logd(r, family, p):
    if family == "multivariate_normal":
        m, c = p["mean"], p["cov"]
        d = len(m)
        x = m + r.normal(size=d)
        e = x - m
        return x, -0.5 * (d * np.log(2 * np.pi) + np.linalg.slogdet(c)[1] + e @ np.linalg.solve(c, e))
    if family == "multivariate_t":
        m, c, v = p["loc"], p["shape"], float(p["df"])
        d = len(m)
        x = m + r.normal(size=d)
        e = x - m
        return x, gammaln((v + d) / 2) - gammaln(v / 2) - d / 2 * np.log(v * np.pi) - np.linalg.slogdet(c)[1] / 2 \
            - (v + d) / 2 * np.log1p(e @ np.linalg.solve(c, e) / v)
    if family in ("wishart", "invwishart"):
        s, v = p["scale"], float(p["df"])
        d = len(s)
        x = spd(r, d)
        ls, lx = np.linalg.slogdet(s)[1], np.linalg.slogdet(x)[1]
        if family == "wishart":
            e = (v - d - 1) / 2 * lx - np.trace(np.linalg.solve(s, x)) / 2 - v * d / 2 * np.log(2) - v / 2 * ls \
                - multigammaln(v / 2, d)
        else:
            e = v / 2 * ls - v * d / 2 * np.log(2) - multigammaln(v / 2, d) - (v + d + 1) / 2 * lx \
                - np.trace(np.linalg.solve(x, s)) / 2
        return (x if d > 1 else x), e
    if family == "dirichlet":
        a = p["alpha"]
        x = r.dirichlet(np.ones(len(a)))
        x = np.clip(x, 1e-6, None)
        x = x / x.sum()
        return x, gammaln(a.sum()) - gammaln(a).sum() + ((a - 1) * np.log(x)).sum()
    if family == "multinomial":
        n, q = int(p["n"]), p["p"]
        x = r.multinomial(n, q)
        return x, gammaln(n + 1) - gammaln(x + 1).sum() + (x * np.log(q)).sum()
    if family == "dirichlet_multinomial":
        a, n = p["alpha"], int(p["n"])
        x = r.multinomial(n, r.dirichlet(a))
        A = a.sum()
        return x, gammaln(n + 1) + gammaln(A) - gammaln(A + n) + (gammaln(x + a) - gammaln(a) - gammaln(x + 1)).sum()
    raise KeyError(family)
