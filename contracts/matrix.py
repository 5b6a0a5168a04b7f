"""Densities of the multivariate laws and likelihoods, written with h's matrix operations."""


def quad(h, v, m):
    return v @ m @ v


def nig(h, o, b, s, B):
    """b | s ~ N(o.mu, s o.delta_inverse), s ~ InverseGamma(o.alpha, o.beta); normalised"""
    n = h.dimnum(B)
    return (-n / 2 * h.log(2 * h.pi * s) - h.logdet(o.delta_inverse) / 2 - quad(h, b - o.mu, h.inv(o.delta_inverse)) / (2 * s)
            + o.alpha * h.log(o.beta) - h.lgamma(o.alpha) - (o.alpha + 1) * h.log(s) - o.beta / s)


def mvn(h, x, mu, cov, D):
    n = h.dimnum(D)
    return -n / 2 * h.log(2 * h.pi) - h.logdet(cov) / 2 - quad(h, x - mu, h.inv(cov)) / 2


def mvt(h, x, mu, sigma, nu, D):
    n = h.dimnum(D)
    return (h.lgamma((nu + n) / 2) - h.lgamma(nu / 2) - n / 2 * h.log(nu * h.pi) - h.logdet(sigma) / 2
            - (nu + n) / 2 * h.log(1 + quad(h, x - mu, h.inv(sigma)) / nu))


def inverse_wishart_kernel(h, nu, psi, cov, D):
    """in cov, without the constant"""
    n = h.dimnum(D)
    return -(nu + n + 1) / 2 * h.logdet(cov) - h.trace(psi @ h.inv(cov)) / 2


def niw_kernel(h, o, m, cov, D):
    """m | cov ~ N(o.mu, cov / o.kappa), cov ~ InverseWishart(o.nu, o.psi)"""
    return (-h.logdet(cov) / 2 - o.kappa * quad(h, m - o.mu, h.inv(cov)) / 2
            + inverse_wishart_kernel(h, o.nu, o.psi, cov, D))


def rows_ll(h, X, m, cov, N):
    """N rows, each N(m, cov); without the constant"""
    return -h.dimnum(N) / 2 * h.logdet(cov) - h.trace((X - m) @ h.inv(cov) @ (X - m).T) / 2
