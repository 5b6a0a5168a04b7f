"""C08: valid prior and attainable data always give a valid posterior and predictive"""
from engine.registry import add
from .c05 import PREDS
from .common import CONTINUOUS_MODELS, COUNT_MODELS, HYPER, PROPORTIONAL_MODELS, domain, prior
from .posterior import name_of


def valid(h, what, o):
    for label, c in domain(h, o):
        h.check(f"{what}: {label}", c)


def assume_valid(h, o):
    """the rest of the domain, where it relates several parameters"""
    if h.cls(o) == "VonMisesKnownDirectionProportional":
        h.assume(h.lt(o.r, o.c))


def posterior(m, cls):
    def f(h):
        p = prior(h, cls)
        assume_valid(h, p)
        d = m.data(h, "", {})
        if m is HYPER:
            h.assume(h.le(d["n"], p.n))
            h.assume(h.le(d["x_total"], d["n"]))
        for a, b in (("x_total", "x2_total"), ("ln_x_total", "ln_x2_total")):
            if b in d:
                if "mu" in d:
                    h.hint("the sum of squared deviations is not negative",
                            h.le(0, d[b] - 2 * d["mu"] * d[a] + d["n"] * d["mu"] ** 2))
        q = h.call(getattr(h.M, m.fn), prior=p, **d, **m.extra)
        h.check_class(f"posterior family is that of the prior ({cls})", q, cls)
        if h.cls(q) in ("NormalInverseGamma", "NormalGamma"):
            # the added rate is half of (squared deviations about the mean + shrunken squared distance to the prior mean)
            a = "x" if "x_total" in d else "ln_x"
            s, t, n = d[a + "_total"], d[a + "2_total"], d["n"]
            nu = p.nu if cls == "NormalInverseGamma" else p.lam
            ss = h.ite(h.equal(n, 0), 0, t - s ** 2 / h.max(n, 1))
            h.hint("squared deviations about the mean are not negative", h.le(0, ss))
            dist = h.ite(h.equal(n, 0), 0, nu * (s - n * p.mu) ** 2 / (h.max(n, 1) * (nu + n)))
            h.hint("shrunken squared distance is not negative", h.le(0, dist))
            h.hint("rate is the prior's plus half of both", h.equal(q.beta, p.beta + (ss + dist) / 2))
        valid(h, "posterior", q)
    return f


for m_ in COUNT_MODELS + [HYPER] + CONTINUOUS_MODELS + PROPORTIONAL_MODELS:
    for c_ in m_.priors:
        add("C08", name_of(m_, c_), posterior(m_, c_))


def predictive(m, cls):
    def f(h):
        p = prior(h, cls)
        d = m.args(h)
        q = h.call(getattr(h.M, m.fn), distribution=p, **d)
        h.check_class(f"predictive family is {m.out}", q, m.out)
        valid(h, "predictive", q)
    return f


for m_ in PREDS:
    for c_ in m_.dist:
        add("C08", m_.name + (f"<{c_}>" if len(m_.dist) > 1 else ""), predictive(m_, c_))


# ------------------------------------------------------------------------------------------------ categories
def weights(h, form, k):
    return h.arr("alpha", k, dom="pos") if form == "array" else h.seq("alpha", k, form, "pos")


def dirichlet(fn, form, data_form):
    def f(h):
        k = h.axis("K", 1)
        x = h.arr("x", k, dom="count") if data_form == "array" else h.seq("x", k, data_form, "count")
        q = h.call(getattr(h.M, fn), x=x, prior=h.make("Dirichlet", alpha=weights(h, form, k)))
        h.check_class("posterior is Dirichlet", q, "Dirichlet")
        h.all_pos("posterior: every weight is positive", q.alpha)
    return f


def dirichlet_predictive(fn, form, with_n):
    def f(h):
        k = h.axis("K", 1)
        d = {"n": h.count("n", 0, scalar=True)} if with_n else {}
        q = h.call(getattr(h.M, fn), distribution=h.make("Dirichlet", alpha=weights(h, form, k)), **d)
        h.check_class("predictive is DirichletMultinomial", q, "DirichletMultinomial")
        h.all_pos("predictive: every weight is positive", q.alpha)
        h.check("predictive: n is a count", h.and_(h.le(0, q.n), h.isint(q.n)))
    return f


for fn_ in ("categorical_dirichlet", "multinomial_dirichlet"):
    for a_ in ("array", "list", "tuple"):
        for b_ in ("array", "list"):
            add("C08", f"{fn_}[{a_} weights, {b_} counts]", dirichlet(fn_, a_, b_))
        for w_ in (False, True):
            add("C08", f"{fn_}_predictive[{a_} weights{', n' if w_ else ''}]", dirichlet_predictive(fn_ + "_predictive", a_, w_))


# ------------------------------------------------------------------------------------------------ matrices
def linear_regression(rows):
    def f(h):
        B, N = h.dim("B"), (h.dim("N") if rows else 0)
        X, y = h.mat("X", N, B), h.vec("y", N)
        m0, D0 = h.vec("mu0", B), h.spd("D0", B)
        p = h.make("NormalInverseGamma", mu=m0, delta_inverse=D0, alpha=h.pos("alpha0", scalar=True),
                   beta=h.pos("beta0", scalar=True))
        q = h.call(h.M.linear_regression, X=X, y=y, prior=p)
        h.check_class("posterior is NormalInverseGamma", q, "NormalInverseGamma")
        h.shape_is("posterior: one mean per column", q.mu, B)
        h.pos_def("posterior: delta_inverse is positive definite", q.delta_inverse)
        h.check("posterior: alpha > 0", h.lt(0, q.alpha))
        mu = h.inv(h.inv(D0) + X.T @ X) @ (h.inv(D0) @ m0 + X.T @ y)
        rss = h.square("rss", y - X @ mu)
        dist = h.square("dist", mu - m0, h.inv(D0))
        h.hint("rate is the prior's plus half the residual squares plus half the distance to the prior mean",
                h.equal(q.beta, p.beta + (rss + dist) / 2))
        h.check("posterior: beta > 0", h.lt(0, q.beta))
        g = h.call(h.M.linear_regression_predictive, distribution=p, X=X)
        h.check_class("predictive is MultivariateStudentT", g, "MultivariateStudentT")
        h.shape_is("predictive: one location per new row", g.mu, N)
        h.pos_def("predictive: sigma is positive definite", g.sigma)
        h.check("predictive: nu > 0", h.lt(0, g.nu))
    return f


add("C08", "linear_regression", linear_regression(True))
add("C08", "linear_regression (no rows)", linear_regression(False))


def known(kind):
    def f(h):
        D = h.dim("D")
        p = h.make("MultivariateNormal", mu=h.vec("mu0", D), cov=h.spd("cov0", D))
        k = {("cov" if kind == "covariance" else "precision"): h.spd("known", D)}
        q = h.call(getattr(h.M, f"multivariate_normal_known_{kind}"), prior=p, n=h.count("n", 0, scalar=True),
                   x_bar=h.vec("xbar", D), **k)
        h.check_class("posterior is MultivariateNormal", q, "MultivariateNormal")
        h.shape_is("posterior: mean has the dimension of the prior's", q.mu, D)
        h.pos_def("posterior: cov is positive definite", q.cov)
        g = h.call(getattr(h.M, f"multivariate_normal_known_{kind}_predictive"), distribution=p, **k)
        h.check_class("predictive is MultivariateNormal", g, "MultivariateNormal")
        h.shape_is("predictive: mean has the dimension of the distribution's", g.mu, D)
        h.pos_def("predictive: cov is positive definite", g.cov)
    return f


for k_ in ("covariance", "precision"):
    add("C08", f"multivariate_normal_known_{k_}", known(k_))


def known_mean(rows):
    def f(h):
        D, N = h.dim("D"), (h.dim("N") if rows else 0)
        X, mu, psi = h.mat("X", N, D), h.vec("mu", D), h.spd("psi0", D)
        p = h.make("InverseWishart", nu=h.pos("nu_extra", scalar=True) + (h.dimnum(D) - 1), psi=psi)
        q = h.call(h.M.multivariate_normal_known_mean, X=X, mu=mu, prior=p)
        h.check_class("posterior is InverseWishart", q, "InverseWishart")
        h.check("posterior: nu > D - 1", h.lt(h.dimnum(D) - 1, q.nu))
        h.pos_def("posterior: psi is positive definite", q.psi, psi, [(1, X - mu)])
    return f


def niw(h, D):
    return h.make("NormalInverseWishart", mu=h.vec("mu0", D), kappa=h.pos("kappa0", scalar=True),
                  nu=h.pos("nu_extra", scalar=True) + (h.dimnum(D) - 1), psi=h.spd("psi0", D))


def unknown(rows):
    def f(h):
        D, N = h.dim("D"), (h.dim("N") if rows else 0)
        X = h.mat("X", N, D)
        p = niw(h, D)
        q = h.call(h.M.multivariate_normal, X=X, prior=p)
        h.check_class("posterior is NormalInverseWishart", q, "NormalInverseWishart")
        h.shape_is("posterior: mean has the dimension of the prior's", q.mu, D)
        h.check("posterior: kappa > 0", h.lt(0, q.kappa))
        h.check("posterior: nu > D - 1", h.lt(h.dimnum(D) - 1, q.nu))
        if rows:
            n = h.dimnum(N)
            mean = X.sum(axis=0) / n
            h.pos_def("posterior: psi is positive definite", q.psi, p.psi,
                      [(1, X - mean), (n * p.kappa / (n + p.kappa), h.row(mean - p.mu))])
        else:
            h.pos_def("posterior: psi is positive definite", q.psi)
    return f


def unknown_predictive(h):
    D = h.dim("D")
    q = h.call(h.M.multivariate_normal_predictive, distribution=niw(h, D))
    h.check_class("predictive is MultivariateStudentT", q, "MultivariateStudentT")
    h.shape_is("predictive: location has the dimension of the distribution's", q.mu, D)
    h.check("predictive: nu > 0", h.lt(0, q.nu))
    h.pos_def("predictive: sigma is positive definite", q.sigma)


for n_, v_ in (("", True), (" (no rows)", False)):
    add("C08", "multivariate_normal_known_mean" + n_, known_mean(v_))
    add("C08", "multivariate_normal" + n_, unknown(v_))
add("C08", "multivariate_normal_predictive", unknown_predictive)
