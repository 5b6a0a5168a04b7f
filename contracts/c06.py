"""C06: multivariate predictive distributions.

Location, scale matrix and degrees of freedom determine the law, so each function's postcondition is that it returns
those of the mixture; that these are the mixture is a lemma on the densities, proved below for every dimension:
predictive(x) posterior(theta | x) = likelihood(x | theta) prior(theta)."""
from engine.registry import add, contract
from .matrix import mvn, mvt, nig, niw_kernel

LEAN = ["Rules.lean", "Laws.lean"]


class O:
    def __init__(self, **k):
        self.__dict__.update(k)


def linear_regression_predictive(rows):
    def f(h):
        B, N = h.dim("B"), (h.dim("N") if rows else 0)
        X, mu, V = h.mat("X", N, B), h.vec("mu", B), h.spd("V", B)
        a, b = h.pos("alpha", scalar=True), h.pos("beta", scalar=True)
        q = h.call(h.M.linear_regression_predictive, X=X,
                   distribution=h.make("NormalInverseGamma", mu=mu, delta_inverse=V, alpha=a, beta=b))
        h.check_class("predictive is MultivariateStudentT", q, "MultivariateStudentT")
        h.mat_eq("location is X mu", q.mu, X @ mu)
        h.mat_eq("scale is (beta / alpha) (I + X V X')", q.sigma, (h.eye(N) + X @ V @ X.T) * (b / a))
        h.eq("degrees of freedom are twice alpha", q.nu, 2 * a)
    return f


@contract("C06", "lemma: regression mixture is multivariate t")
def lr_lemma(h):
    B, N = h.dim("B"), h.dim("N")
    X, mu, V = h.mat("X", N, B), h.vec("mu", B), h.spd("V", B)
    a, b = h.pos("alpha", scalar=True), h.pos("beta", scalar=True)
    y, t, s = h.vec("y", N, ghost=True), h.vec("t", B, ghost=True), h.pos("s", scalar=True, ghost=True)
    M = h.eye(N) + X @ V @ X.T
    A = h.inv(V) + X.T @ X
    Q = h.inv(A)
    h.inverse_is("inverse of I + X V X'", M, h.eye(N) - X @ Q @ X.T)
    h.trusted("det(I + X V X') = det V det(V^-1 + X'X)", h.equal(h.logdet(M), h.logdet(V) + h.logdet(A)),
              by="Det.det_regression")
    r = y - X @ mu
    mp = Q @ (h.inv(V) @ mu + X.T @ y)
    bp = b + r @ h.inv(M) @ r / 2
    h.lemma("the posterior rate in the residual form", h.equal(
        bp, b + (y @ y + mu @ h.inv(V) @ mu - mp @ A @ mp) / 2))
    rss = h.square("rss", y - X @ mp)
    dist = h.square("dist", mp - mu, h.inv(V))
    h.lemma("posterior rate is the prior's plus squares", h.equal(bp, b + (rss + dist) / 2))
    h.lemma("posterior rate is positive", h.lt(0, bp))
    BP = h.name("posterior_rate", bp)
    post = O(mu=mp, delta_inverse=Q, alpha=a + h.dimnum(N) / 2, beta=BP)
    e = y - X @ t
    lik = -h.dimnum(N) / 2 * h.log(2 * h.pi * s) - e @ e / (2 * s)
    n = h.dimnum(N)
    nu = 2 * a
    # log(1 + quadratic / nu) is log(posterior rate / prior rate)
    h.lemma("the quadratic form of the t law in the posterior rate",
            h.equal(1 + r @ h.inv(M * (b / a)) @ r / nu, bp / b))
    pred = (h.lgamma((nu + n) / 2) - h.lgamma(nu / 2) - n / 2 * h.log(nu * h.pi) - h.logdet(M * (b / a)) / 2
            - (nu + n) / 2 * (h.log(BP) - h.log(b)))
    h.eq("predictive times posterior is likelihood times prior",
         pred + nig(h, post, t, s, B), lik + nig(h, O(mu=mu, delta_inverse=V, alpha=a, beta=b), t, s, B))


for n_, v_ in (("", True), (" (no rows)", False)):
    add("C06", "linear_regression_predictive" + n_, linear_regression_predictive(v_))


def known(kind):
    def f(h):
        D = h.dim("D")
        K, mu, S0 = h.spd("known", D), h.vec("mu", D), h.spd("S0", D)
        q = h.call(getattr(h.M, f"multivariate_normal_known_{kind}_predictive"),
                   distribution=h.make("MultivariateNormal", mu=mu, cov=S0),
                   **{("cov" if kind == "covariance" else "precision"): K})
        h.check_class("predictive is MultivariateNormal", q, "MultivariateNormal")
        h.mat_eq("location is the distribution's mean", q.mu, mu)
        h.mat_eq("covariance is the sum of both", q.cov, S0 + (K if kind == "covariance" else h.inv(K)))
    return f


for k_ in ("covariance", "precision"):
    add("C06", f"multivariate_normal_known_{k_}_predictive", known(k_))


@contract("C06", "lemma: normal mixture of normals")
def mvn_lemma(h):
    D = h.dim("D")
    S, S0, mu = h.spd("S", D), h.spd("S0", D), h.vec("mu", D)
    x, m = h.vec("x", D, ghost=True), h.vec("m", D, ghost=True)
    P = h.inv(S0) + h.inv(S)
    Q = h.inv(P)
    h.inverse_is("inverse of S0 + S", S0 + S, h.inv(S) - h.inv(S) @ Q @ h.inv(S))
    h.trusted("det(S0 + S) = det S0 det S det(S0^-1 + S^-1)",
              h.equal(h.logdet(S0 + S), h.logdet(S0) + h.logdet(S) + h.logdet(P)), by="Det.det_sum")
    mp = Q @ (h.inv(S0) @ mu + h.inv(S) @ x)
    h.eq("predictive times posterior is likelihood times prior", mvn(h, x, mu, S0 + S, D) + mvn(h, m, mp, Q, D),
         mvn(h, x, m, S, D) + mvn(h, m, mu, S0, D))


def niw(h, D):
    return h.make("NormalInverseWishart", mu=h.vec("mu", D), kappa=h.pos("kappa", scalar=True),
                  nu=h.pos("nu_extra", scalar=True) + (h.dimnum(D) - 1), psi=h.spd("psi", D))


@contract("C06", "multivariate_normal_predictive")
def unknown(h):
    D = h.dim("D")
    p = niw(h, D)
    q = h.call(h.M.multivariate_normal_predictive, distribution=p)
    h.check_class("predictive is MultivariateStudentT", q, "MultivariateStudentT")
    nu = p.nu - h.dimnum(D) + 1
    h.mat_eq("location is the distribution's mean", q.mu, p.mu)
    h.eq("degrees of freedom are nu - D + 1", q.nu, nu)
    h.mat_eq("scale is psi (kappa + 1) / (kappa (nu - D + 1))", q.sigma, p.psi * ((p.kappa + 1) / (p.kappa * nu)))


@contract("C06", "lemma: normal inverse Wishart mixture is multivariate t")
def niw_lemma(h):
    """with the normalising constants: the inverse Wishart's is |psi|^(nu/2) / (2^(nu D/2) Gamma_D(nu/2))"""
    D = h.dim("D")
    d = h.dimnum(D)
    mu, psi = h.vec("mu", D), h.spd("psi", D)
    k, ex = h.pos("kappa", scalar=True), h.pos("nu_extra", scalar=True)
    nu = ex + (d - 1)
    x, m, S = h.vec("x", D, ghost=True), h.vec("m", D, ghost=True), h.spd("S", D, ghost=True)
    r = x - mu
    c = k / (k + 1)
    u = h.square("u", r, h.inv(psi))
    psi2 = psi + h.outer(r, r) * c
    h.trusted("det(psi + c r r') = det psi (1 + c r' psi^-1 r)",
              h.equal(h.logdet(psi2), h.logdet(psi) + h.log(1 + c * u)), by="Det.det_rank_one")
    prior, post = O(mu=mu, kappa=k, nu=nu, psi=psi), O(mu=(mu * k + x) / (k + 1), kappa=k + 1, nu=nu + 1, psi=psi2)

    def const(o, logdet_psi):
        return (d / 2 * h.log(o.kappa) - d / 2 * h.log(2 * h.pi) + o.nu / 2 * logdet_psi - o.nu * d / 2 * h.log(2))
    # Gamma_D((nu+1)/2) / Gamma_D(nu/2) = Gamma((nu+1)/2) / Gamma((nu+1-D)/2), the lemma below
    ratio = h.lgamma((nu + 1) / 2) - h.lgamma((nu + 1 - d) / 2)
    nut = nu - d + 1
    q = h.name("q", 1 + c * u)
    h.lemma("the quadratic form of the t law", h.equal(
        1 + r @ h.inv(psi * ((k + 1) / (k * nut))) @ r / nut, 1 + c * u))
    pred = (h.lgamma((nut + d) / 2) - h.lgamma(nut / 2) - d / 2 * h.log(nut * h.pi)
            - h.logdet(psi * ((k + 1) / (k * nut))) / 2 - (nut + d) / 2 * h.log(q))
    left = pred + niw_kernel(h, post, m, S, D) + const(post, h.logdet(psi) + h.log(q)) - ratio
    right = mvn(h, x, m, S, D) + niw_kernel(h, prior, m, S, D) + const(prior, h.logdet(psi))
    h.eq("predictive times posterior is likelihood times prior", left, right)


@contract("C06", "lemma: ratio of multivariate gamma functions")
def gamma_ratio(h):
    """log Gamma_D(a) = D(D-1)/4 log pi + sum_{j=1..D} log Gamma(a + (1-j)/2); by induction over D:
    log Gamma_D(a + 1/2) - log Gamma_D(a) = log Gamma(a + 1/2) - log Gamma(a + (1-D)/2)"""
    a, d = h.pos("a", scalar=True), h.count("d", 1, scalar=True)
    h.assume(h.lt(d, 2 * a))

    def claim(dd):
        return h.lgamma(a + h.rat(1, 2)) - h.lgamma(a + (1 - dd) / 2)

    def term(v, j):
        return h.lgamma(v + (1 - j) / 2)
    h.eq("one dimension", term(a + h.rat(1, 2), h.num(1)) - term(a, h.num(1)), claim(h.num(1)))
    h.eq("one more dimension", claim(d) + term(a + h.rat(1, 2), d + 1) - term(a, d + 1), claim(d + 1))
