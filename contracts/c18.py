"""C18: supplied numerical functions are used everywhere they stand for.

Each operation is called with every subset of its replaceable functions supplied by the caller.  A supplied function is
any callable object; its value is the built-in one's scaled by an arbitrary positive constant of its own (a logarithm to
another base, say), so a use that bypasses it shows in the result.  The postcondition is the documented formula with the
supplied function in every place of the operation; a ghost record of library calls shows that the built-in one was not
called.  With nothing supplied the formula has the exact functions."""
import itertools

from engine.registry import add


class Given:
    def __init__(self, h, op, roles):
        self.h, self.roles, self.k, self.fs = h, roles, {}, {}
        for r in roles:
            self.k[r] = h.pos("factor_" + r, scalar=True, lo=2, hi=4)
            self.fs[r] = h.supplied(r, self.k[r])

    def __getattr__(self, r):
        """the function that stands for r"""
        m = self.h.meaning(r)
        if r not in self.roles:
            return m
        k = self.k[r]
        return (lambda *a: m(*a) + k) if r in ("max_fn", "arctan2") else (lambda *a: m(*a) * k)

    def call(self, f, **k):
        return self.h.watched("call", self.roles, f, **k, **self.fs)


def numbers(h, form):
    """the values the formulas take: numbers of any kind, or arrays over one axis"""
    a = h.axis("A") if form == "arrays" else None

    def get(name, dom="pos"):
        return h.arr(name, a, dom=dom) if a is not None else getattr(h, dom)(name)
    return get


# univariate operations ------------------------------------------------------------------------------
def pareto_gamma(h, g, x):
    n, L, xm, a, b = x("n", "count"), x("ln_x_total", "real"), x("x_m"), x("alpha0"), x("beta0")
    q = g.call(h.M.pareto_gamma, n=n, ln_x_total=L, x_m=xm, prior=h.make("Gamma", alpha=a, beta=b))
    h.check_class("posterior is Gamma", q, "Gamma")
    h.eq("shape", q.alpha, a + n)
    h.eq("rate", q.beta, b + L - n * g.ln(xm))


def uniform_pareto(h, g, x):
    n, m, xm, a = x("n", "count"), x("x_max"), x("x_m0"), x("alpha0")
    q = g.call(h.M.uniform_pareto, x_max=m, n=n, prior=h.make("Pareto", x_m=xm, alpha=a))
    h.check_class("posterior is Pareto", q, "Pareto")
    h.eq("scale", q.x_m, g.max_fn(xm, m))
    h.eq("shape", q.alpha, a + n)


def von_mises_known_concentration(h, g, x):
    c, s, n, k, a, b = x("cos_total", "real"), x("sin_total", "real"), x("n", "count"), x("kappa"), x("a0"), x("b0")
    q = g.call(h.M.von_mises_known_concentration, cos_total=c, sin_total=s, n=n, kappa=k,
               prior=h.make("VonMisesKnownConcentration", a=a, b=b))
    h.check_class("posterior is VonMisesKnownConcentration", q, "VonMisesKnownConcentration")
    S, C = a * g.sin(b) + k * s, a * g.cos(b) + k * c
    h.eq("concentration", q.a, (S ** 2 + C ** 2) ** 0.5)
    h.eq("direction", q.b, g.arctan2(S, C))


def known_rate(h, g, x):
    a, b, c, al, be = x("a"), x("b"), x("c"), x("alpha"), x("beta")
    o = h.make("GammaKnownRateProportional", a=a, b=b, c=c)
    h.eq("log likelihood", g.call(o.approx_log_likelihood, alpha=al, beta=be),
         (al - 1) * g.ln(a) + al * c * g.ln(be) - b * g.gammaln(al))


def gamma(h, g, x):
    p, q, r, s, al, be = x("p"), x("q"), x("r"), x("s"), x("alpha"), x("beta")
    o = h.make("GammaProportional", p=p, q=q, r=r, s=s)
    h.eq("log likelihood", g.call(o.approx_log_likelihood, alpha=al, beta=be),
         (al - 1) * g.ln(p) - q * be - r * g.gammaln(al) + s * al * g.ln(be))


def beta(h, g, x):
    p, q, k, al, be = x("p"), x("q"), x("k"), x("alpha"), x("beta")
    o = h.make("BetaProportional", p=p, q=q, k=k)
    h.eq("log likelihood", g.call(o.approx_log_likelihood, alpha=al, beta=be),
         k * g.gammaln(al + be) + al * g.ln(p) + be * g.ln(q) - k * g.gammaln(al) - k * g.gammaln(be))


def known_concentration(h, g, x):
    a, b, mu = x("a"), x("b"), x("mu", "real")
    o = h.make("VonMisesKnownConcentration", a=a, b=b)
    h.eq("log likelihood", g.call(o.log_likelihood, mu=mu), a * g.cos(mu - b) - g.ln(g.i0(a)))


def known_direction(h, g, x):
    c, r, k = x("c"), x("r", "real"), x("kappa")
    o = h.make("VonMisesKnownDirectionProportional", c=c, r=r)
    h.eq("log likelihood", g.call(o.approx_log_likelihood, kappa=k), k * r - c * g.ln(g.i0(k)))


UNIVARIATE = {
    "pareto_gamma": (pareto_gamma, ("ln",)), "uniform_pareto": (uniform_pareto, ("max_fn",)),
    "von_mises_known_concentration": (von_mises_known_concentration, ("sin", "cos", "arctan2")),
    "GammaKnownRateProportional.approx_log_likelihood": (known_rate, ("ln", "gammaln")),
    "GammaProportional.approx_log_likelihood": (gamma, ("ln", "gammaln")),
    "BetaProportional.approx_log_likelihood": (beta, ("ln", "gammaln")),
    "VonMisesKnownConcentration.log_likelihood": (known_concentration, ("cos", "ln", "i0")),
    "VonMisesKnownDirectionProportional.approx_log_likelihood": (known_direction, ("ln", "i0"))}


# matrices -------------------------------------------------------------------------------------------
def linear_regression(h, g, rows):
    B, N = h.dim("B"), h.dim("N") if rows else 0
    X, y, mu, V = h.mat("X", N, B), h.vec("y", N), h.vec("mu0", B), h.spd("D0", B)
    a, b = h.pos("alpha0", scalar=True), h.pos("beta0", scalar=True)
    q = g.call(h.M.linear_regression, X=X, y=y, prior=h.make("NormalInverseGamma", mu=mu, delta_inverse=V, alpha=a, beta=b))
    h.check_class("posterior is NormalInverseGamma", q, "NormalInverseGamma")
    P0 = g.inv(V)
    P = X.T @ X + P0
    V1 = g.inv(P)
    h.mat_eq("delta_inverse", q.delta_inverse, V1)
    h.mat_eq("mean", q.mu, V1 @ (P0 @ mu + X.T @ y))
    h.eq("shape", q.alpha, a + h.dimnum(N) / 2)


def exact_rate(h, g, rows):
    """the rate in any form that is exact when the supplied function is another inverse"""
    B, N = h.dim("B"), h.dim("N") if rows else 0
    X, y, mu, V = h.mat("X", N, B), h.vec("y", N), h.vec("mu0", B), h.spd("D0", B)
    a, b = h.pos("alpha0", scalar=True), h.pos("beta0", scalar=True)
    q = h.watched("call", g.roles, h.M.linear_regression, X=X, y=y, inv=h.supplied("inv", 1),
                  prior=h.make("NormalInverseGamma", mu=mu, delta_inverse=V, alpha=a, beta=b))
    P0 = h.inv(V)
    m = h.inv(X.T @ X + P0) @ (P0 @ mu + X.T @ y)
    h.eq("rate", q.beta, b + (y @ y + mu @ P0 @ mu - m @ (X.T @ X + P0) @ m) / 2)


def predictive(h, g, rows):
    B, N = h.dim("B"), h.dim("N") if rows else 0
    X, mu, V = h.mat("X", N, B), h.vec("mu", B), h.spd("V", B)
    a, b = h.pos("alpha", scalar=True), h.pos("beta", scalar=True)
    q = g.call(h.M.linear_regression_predictive, X=X,
               distribution=h.make("NormalInverseGamma", mu=mu, delta_inverse=V, alpha=a, beta=b))
    h.check_class("predictive is MultivariateStudentT", q, "MultivariateStudentT")
    h.mat_eq("location", q.mu, X @ mu)
    h.mat_eq("scale", q.sigma, (g.eye(h.dimnum(N)) + X @ V @ X.T) * (b / a))
    h.eq("degrees of freedom", q.nu, 2 * a)


def known(kind):
    def f(h, g, _):
        D = h.dim("D")
        K, mu, V = h.spd("known", D), h.vec("mu0", D), h.spd("cov0", D)
        n, xb = h.count("n", 0, scalar=True), h.vec("xbar", D)
        q = g.call(getattr(h.M, f"multivariate_normal_known_{kind}"), n=n, x_bar=xb,
                   prior=h.make("MultivariateNormal", mu=mu, cov=V), **{("cov" if kind == "covariance" else "precision"): K})
        h.check_class("posterior is MultivariateNormal", q, "MultivariateNormal")
        P0, P = g.inv(V), g.inv(K) if kind == "covariance" else K
        S = g.inv(P0 + P * n)
        h.mat_eq("mean", q.mu, S @ (P0 @ mu + (P @ xb) * n))
        h.mat_eq("cov", q.cov, S)
    return f


def known_precision_predictive(h, g, _):
    D = h.dim("D")
    K, mu, V = h.spd("known", D), h.vec("mu0", D), h.spd("cov0", D)
    q = g.call(h.M.multivariate_normal_known_precision_predictive, precision=K,
               distribution=h.make("MultivariateNormal", mu=mu, cov=V))
    h.check_class("predictive is MultivariateNormal", q, "MultivariateNormal")
    h.mat_eq("mean", q.mu, mu)
    h.mat_eq("cov", q.cov, V + g.inv(K))


def multivariate_normal(h, g, rows):
    D, N = h.dim("D"), h.dim("N") if rows else 0
    X, mu, psi = h.mat("X", N, D), h.vec("mu0", D), h.spd("psi0", D)
    k, nu = h.pos("kappa0", scalar=True), h.pos("nu_extra", scalar=True) + (h.dimnum(D) - 1)
    q = g.call(h.M.multivariate_normal, X=X, prior=h.make("NormalInverseWishart", mu=mu, kappa=k, nu=nu, psi=psi))
    h.check_class("posterior is NormalInverseWishart", q, "NormalInverseWishart")
    n = h.dimnum(N)
    if rows:
        m = h.call(lambda: X.sum(axis=0)) / n
        C = X.T @ X - h.meaning("outer")(m, m) * n
        d = m - mu
    else:
        m, d = mu * 0, -mu
        C = psi * 0
    h.mat_eq("scale matrix", q.psi, psi + C + g.outer(d, d) * (n * k / (k + n)))
    h.mat_eq("mean", q.mu, (mu * k + m * n) / (k + n))
    h.eq("mean's weight", q.kappa, k + n)
    h.eq("degrees of freedom", q.nu, nu + n)


def sample_variance(src):
    def f(h, g, _):
        d = h.dim("d", 2)
        nu = h.dimnum(d) - 1 + h.pos("extra", scalar=True, lo=2)
        o = h.make("NormalWishart", mu=h.vec("mu", d), lam=h.pos("lam", scalar=True), W=h.spd("W", d), nu=nu)
        n = h.nsamples("size")
        v = g.call(o.sample_variance, size=n, random_state=h.rng_(src))
        h.drawn_wishart("variance", v / g.k["inv"] if g.roles else v, n, "wishart", o.nu, o.W, inverted=True)
    return f


MATRIX = {
    "linear_regression": (linear_regression, ("inv",), (True, False)),
    "linear_regression: rate": (exact_rate, ("inv",), (True, False)),
    "linear_regression_predictive": (predictive, ("eye",), (True, False)),
    "multivariate_normal_known_covariance": (known("covariance"), ("inv",), (True,)),
    "multivariate_normal_known_precision": (known("precision"), ("inv",), (True,)),
    "multivariate_normal_known_precision_predictive": (known_precision_predictive, ("inv",), (True,)),
    "multivariate_normal": (multivariate_normal, ("outer",), (True, False)),
    "NormalWishart.sample_variance": (sample_variance("Generator"), ("inv",), (True,)),
    "NormalWishart.sample_variance (seed)": (sample_variance("seed"), ("inv",), (True,))}


def subsets(roles):
    for n in range(len(roles) + 1):
        yield from itertools.combinations(roles, n)


def operation(f, roles, how, make):
    def g(h):
        f(h, Given(h, f, roles), make(h, how))
    return g


for name_, (f_, roles_) in UNIVARIATE.items():
    for sub_ in subsets(roles_):
        for form_ in ("numbers", "arrays"):
            add("C18", f"{name_}: {', '.join(sub_) or 'nothing'} supplied, {form_}", operation(f_, sub_, form_, numbers))
for name_, (f_, roles_, hows_) in MATRIX.items():
    for sub_ in subsets(roles_):
        if name_.endswith(": rate") and not sub_:
            continue
        for how_ in hows_:
            add("C18", f"{name_}: {', '.join(sub_) or 'nothing'} supplied" + ("" if how_ else " (no rows)"),
                operation(f_, sub_, how_, lambda h, how: how))
