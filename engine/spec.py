"""The documented meaning of every distribution class, by its named parameters: parameter domain, log density (or log
mass) and support.  Written against an interface h with two interpretations: terms of the logic (proof) and floats
(execution of the real code)."""


def choose(h, n, k):
    return h.lgamma(n + 1) - h.lgamma(k + 1) - h.lgamma(n - k + 1)


def whole(h, x, *more):
    return h.and_(h.isint(x), *more)


class Law:
    discrete = False

    def __init__(self, params, domain, logd, supp, discrete=False):
        self.params, self.domain, self.logd, self.supp, self.discrete = params, domain, logd, supp, discrete


def pos(*names):
    return lambda h, o: [(f"{n} > 0", h.lt(0, getattr(o, n))) for n in names]


def both(*fs):
    return lambda h, o: [c for f in fs for c in f(h, o)]


def count(*names):
    return lambda h, o: [(f"{n} is a count", h.and_(h.isint(getattr(o, n)), h.le(0, getattr(o, n)))) for n in names]


def prob(n):
    return lambda h, o: [(f"0 < {n}", h.lt(0, getattr(o, n))), (f"{n} < 1", h.lt(getattr(o, n), 1))]


def real(*names):
    return lambda h, o: [(f"{n} is a number", h.defined(getattr(o, n))) for n in names]


def start(o):
    return 1 if o.one_start else 0


LAWS = {
    "Beta": Law(["alpha", "beta"], pos("alpha", "beta"),
                lambda h, o, x: (o.alpha - 1) * h.log(x) + (o.beta - 1) * h.log(1 - x) - h.betaln(o.alpha, o.beta),
                lambda h, o, x: h.and_(h.lt(0, x), h.lt(x, 1))),
    "Binomial": Law(["n", "p"], both(count("n"), prob("p")),
                    lambda h, o, x: choose(h, o.n, x) + x * h.log(o.p) + (o.n - x) * h.log(1 - o.p),
                    lambda h, o, x: whole(h, x, h.le(0, x), h.le(x, o.n)), True),
    "Exponential": Law(["lam"], pos("lam"), lambda h, o, x: h.log(o.lam) - o.lam * x, lambda h, o, x: h.le(0, x)),
    "Gamma": Law(["alpha", "beta"], pos("alpha", "beta"),
                 lambda h, o, x: o.alpha * h.log(o.beta) - h.lgamma(o.alpha) + (o.alpha - 1) * h.log(x) - o.beta * x,
                 lambda h, o, x: h.lt(0, x)),
    "NegativeBinomial": Law(["n", "p"], both(pos("n"), prob("p")),
                            lambda h, o, x: h.lgamma(o.n + x) - h.lgamma(x + 1) - h.lgamma(o.n) + o.n * h.log(o.p)
                            + x * h.log(1 - o.p), lambda h, o, x: whole(h, x, h.le(0, x)), True),
    "Hypergeometric": Law(["N", "k", "n"], both(count("N", "k", "n"), lambda h, o: [
        ("k <= N", h.le(o.k, o.N)), ("n <= N", h.le(o.n, o.N))]),
                          lambda h, o, x: choose(h, o.k, x) + choose(h, o.N - o.k, o.n - x) - choose(h, o.N, o.n),
                          lambda h, o, x: whole(h, x, h.le(0, x), h.le(o.n - (o.N - o.k), x), h.le(x, o.k), h.le(x, o.n)),
                          True),
    "Poisson": Law(["lam"], pos("lam"), lambda h, o, x: x * h.log(o.lam) - o.lam - h.lgamma(x + 1),
                   lambda h, o, x: whole(h, x, h.le(0, x)), True),
    "BetaBinomial": Law(["n", "alpha", "beta"], both(count("n"), pos("alpha", "beta")),
                        lambda h, o, x: choose(h, o.n, x) + h.betaln(x + o.alpha, o.n - x + o.beta)
                        - h.betaln(o.alpha, o.beta), lambda h, o, x: whole(h, x, h.le(0, x), h.le(x, o.n)), True),
    "BetaNegativeBinomial": Law(["n", "alpha", "beta"], pos("n", "alpha", "beta"),
                                lambda h, o, x: h.lgamma(o.n + x) - h.lgamma(x + 1) - h.lgamma(o.n)
                                + h.betaln(o.alpha + o.n, o.beta + x) - h.betaln(o.alpha, o.beta),
                                lambda h, o, x: whole(h, x, h.le(0, x)), True),
    "Geometric": Law(["p"], prob("p"), lambda h, o, x: h.log(o.p) + (x - start(o)) * h.log(1 - o.p),
                     lambda h, o, x: whole(h, x, h.le(start(o), x)), True),
    "BetaGeometric": Law(["alpha", "beta"], pos("alpha", "beta"),
                         lambda h, o, x: h.betaln(o.alpha + 1, o.beta + x - start(o)) - h.betaln(o.alpha, o.beta),
                         lambda h, o, x: whole(h, x, h.le(start(o), x)), True),
    "Normal": Law(["mu", "sigma"], both(real("mu"), pos("sigma")),
                  lambda h, o, x: -h.log(o.sigma) - h.log(2 * h.pi) / 2 - ((x - o.mu) / o.sigma) ** 2 / 2,
                  lambda h, o, x: h.true),
    "Uniform": Law(["low", "high"], lambda h, o: [("low < high", h.lt(o.low, o.high))],
                   lambda h, o, x: -h.log(o.high - o.low), lambda h, o, x: h.and_(h.le(o.low, x), h.le(x, o.high))),
    "Pareto": Law(["x_m", "alpha"], pos("x_m", "alpha"),
                  lambda h, o, x: h.log(o.alpha) + o.alpha * h.log(o.x_m) - (o.alpha + 1) * h.log(x),
                  lambda h, o, x: h.le(o.x_m, x)),
    "InverseGamma": Law(["alpha", "beta"], pos("alpha", "beta"),
                        lambda h, o, x: o.alpha * h.log(o.beta) - h.lgamma(o.alpha) - (o.alpha + 1) * h.log(x) - o.beta / x,
                        lambda h, o, x: h.lt(0, x)),
    "StudentT": Law(["mu", "sigma", "nu"], both(real("mu"), pos("sigma", "nu")),
                    lambda h, o, x: h.lgamma((o.nu + 1) / 2) - h.lgamma(o.nu / 2) - h.log(o.nu * h.pi) / 2 - h.log(o.sigma)
                    - (o.nu + 1) / 2 * h.log(1 + ((x - o.mu) / o.sigma) ** 2 / o.nu), lambda h, o, x: h.true),
    "Lomax": Law(["alpha", "lam"], pos("alpha", "lam"),
                 lambda h, o, x: h.log(o.alpha) - h.log(o.lam) - (o.alpha + 1) * h.log(1 + x / o.lam),
                 lambda h, o, x: h.le(0, x)),
    # shape alpha with a rate that has shape beta and rate lam: the rate integrated out
    "CompoundGamma": Law(["alpha", "beta", "lam"], pos("alpha", "beta", "lam"),
                         lambda h, o, x: (o.alpha - 1) * h.log(x) + o.beta * h.log(o.lam)
                         - (o.alpha + o.beta) * h.log(o.lam + x) - h.betaln(o.alpha, o.beta),
                         lambda h, o, x: h.lt(0, x)),
    "VonMises": Law(["mu", "kappa"], both(real("mu"), pos("kappa")),
                    lambda h, o, x: o.kappa * h.cos(x - o.mu) - h.log(2 * h.pi) - h.log(h.i0(o.kappa)),
                    lambda h, o, x: h.true),
    "ScaledInverseChiSquared": Law(["nu", "sigma2"], pos("nu", "sigma2"),
                                   lambda h, o, x: (o.nu / 2) * h.log(o.nu * o.sigma2 / 2) - h.lgamma(o.nu / 2)
                                   - (1 + o.nu / 2) * h.log(x) - o.nu * o.sigma2 / (2 * x), lambda h, o, x: h.lt(0, x)),
    "LogNormal": Law(["mu", "sigma"], both(real("mu"), pos("sigma")),
                     lambda h, o, x: -h.log(x) - h.log(o.sigma) - h.log(2 * h.pi) / 2
                     - ((h.log(x) - o.mu) / o.sigma) ** 2 / 2, lambda h, o, x: h.lt(0, x)),
    # density (beta/theta) x^(beta-1) exp(-x^beta/theta)
    "Weibull": Law(["beta", "theta"], pos("beta", "theta"),
                   lambda h, o, x: h.log(o.beta) - h.log(o.theta) + (o.beta - 1) * h.log(x) - x ** o.beta / o.theta,
                   lambda h, o, x: h.lt(0, x)),
}


# joint laws (unnormalised log densities in the unknowns), written with their normalising terms in the unknowns
def normal_inverse_gamma(h, o, mu, s2):
    """mu | s2 ~ N(o.mu, s2/o.nu),  s2 ~ InverseGamma(o.alpha, o.beta)"""
    return h.log(o.nu) / 2 - h.log(s2) / 2 - o.nu * (mu - o.mu) ** 2 / (2 * s2) \
        + LAWS["InverseGamma"].logd(h, o, s2)


def normal_gamma(h, o, mu, tau):
    """mu | tau ~ N(o.mu, 1/(o.lam tau)),  tau ~ Gamma(o.alpha, o.beta)"""
    return h.log(o.lam) / 2 + h.log(tau) / 2 - o.lam * tau * (mu - o.mu) ** 2 / 2 + LAWS["Gamma"].logd(h, o, tau)


JOINT_DOMAIN = {
    "NormalInverseGamma": both(real("mu"), pos("nu", "alpha", "beta")),
    "NormalGamma": both(real("mu"), pos("lam", "alpha", "beta")),
    "GammaProportional": pos("p", "q", "r", "s"),
    "GammaKnownRateProportional": pos("a", "b", "c"),
    "BetaProportional": pos("p", "q", "k"),
    "VonMisesKnownConcentration": both(lambda h, o: [("a >= 0", h.le(0, o.a))], real("b")),
    # exp(kappa r) / I0(kappa)^c has a finite total whenever r < c
    "VonMisesKnownDirectionProportional": both(pos("c"), lambda h, o: [("r < c", h.lt(o.r, o.c))]),
}
