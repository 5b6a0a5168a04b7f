"""C03: posteriors of multivariate and regression models"""
from engine.registry import add
from .matrix import mvn, nig, niw_kernel, inverse_wishart_kernel, quad, rows_ll

POST = "posterior density is proportional to prior times likelihood"


def compare(h, q, p, dens, ll, ts):
    """both sides change alike between any two parameter values"""
    post = dens(q, ts[0]) - dens(q, ts[1])
    pri = dens(p, ts[0]) - dens(p, ts[1])
    h.eq(POST, post, pri + ll(ts[0]) - ll(ts[1]))


def dims(h, rows, *names):
    return [h.dim(n) if (n != "N" or rows) else 0 for n in names]


def linear_regression(rows):
    def f(h):
        B, N = dims(h, rows, "B", "N")
        X, y = h.mat("X", N, B), h.vec("y", N)
        p = h.make("NormalInverseGamma", mu=h.vec("mu0", B), delta_inverse=h.spd("D0", B), alpha=h.pos("alpha0", scalar=True),
                   beta=h.pos("beta0", scalar=True))
        q = h.call(h.M.linear_regression, X=X, y=y, prior=p)
        h.check_class("posterior is NormalInverseGamma", q, "NormalInverseGamma")
        ts = [dict(b=h.vec(f"b{k}", B, ghost=True), s=h.pos(f"s{k}", scalar=True, ghost=True)) for k in ("_1", "_2")]

        def ll(t):
            e = y - X @ t["b"]
            return -h.dimnum(N) / 2 * h.log(t["s"]) - e @ e / (2 * t["s"])
        h.shape_is("one mean per column", q.mu, B)
        h.shape_is("one row and column of delta_inverse per column", q.delta_inverse, B, B)
        h.pos_def("delta_inverse is positive definite", q.delta_inverse)
        compare(h, q, p, lambda o, t: nig(h, o, t["b"], t["s"], B), ll, ts)
    return f


def known(kind):
    def f(h):
        D = h.dim("D")
        K = h.spd("known", D)
        p = h.make("MultivariateNormal", mu=h.vec("mu0", D), cov=h.spd("cov0", D))
        n, xb = h.count("n", 0, scalar=True), h.vec("xbar", D)
        q = h.call(getattr(h.M, f"multivariate_normal_known_{kind}"), n=n, x_bar=xb, prior=p,
                   **{("cov" if kind == "covariance" else "precision"): K})
        h.check_class("posterior is MultivariateNormal", q, "MultivariateNormal")
        P = h.inv(K) if kind == "covariance" else K
        h.shape_is("mean has the prior's dimension", q.mu, D)
        h.shape_is("cov has the prior's dimension", q.cov, D, D)
        ts = [h.vec(f"m{k}", D, ghost=True) for k in ("_1", "_2")]
        compare(h, q, p, lambda o, t: mvn(h, t, o.mu, o.cov, D), lambda t: -n / 2 * quad(h, t - xb, P), ts)
    return f


def known_mean(rows):
    def f(h):
        D, N = dims(h, rows, "D", "N")
        X, mu = h.mat("X", N, D), h.vec("mu", D)
        p = h.make("InverseWishart", nu=h.pos("nu_extra", scalar=True) + (h.dimnum(D) - 1), psi=h.spd("psi0", D))
        q = h.call(h.M.multivariate_normal_known_mean, X=X, mu=mu, prior=p)
        h.check_class("posterior is InverseWishart", q, "InverseWishart")
        h.shape_is("psi has the prior's dimension", q.psi, D, D)
        ts = [h.spd(f"S{k}", D, ghost=True) for k in ("_1", "_2")]
        compare(h, q, p, lambda o, t: inverse_wishart_kernel(h, o.nu, o.psi, t, D), lambda t: rows_ll(h, X, mu, t, N), ts)
        # the trace sees only the symmetric part: the parameter itself must be symmetric
        h.mat_eq("psi is symmetric", q.psi, q.psi.T)
    return f


def unknown(rows):
    def f(h):
        D, N = dims(h, rows, "D", "N")
        X = h.mat("X", N, D)
        p = h.make("NormalInverseWishart", mu=h.vec("mu0", D), kappa=h.pos("kappa0", scalar=True),
                   nu=h.pos("nu_extra", scalar=True) + (h.dimnum(D) - 1), psi=h.spd("psi0", D))
        q = h.call(h.M.multivariate_normal, X=X, prior=p)
        h.check_class("posterior is NormalInverseWishart", q, "NormalInverseWishart")
        h.shape_is("mean has the prior's dimension", q.mu, D)
        h.shape_is("psi has the prior's dimension", q.psi, D, D)
        ts = [dict(m=h.vec(f"m{k}", D, ghost=True), S=h.spd(f"S{k}", D, ghost=True)) for k in ("_1", "_2")]
        compare(h, q, p, lambda o, t: niw_kernel(h, o, t["m"], t["S"], D), lambda t: rows_ll(h, X, t["m"], t["S"], N), ts)
        h.mat_eq("psi is symmetric", q.psi, q.psi.T)
    return f


for n_, v_ in (("", True), (" (no rows)", False)):
    add("C03", "linear_regression" + n_, linear_regression(v_), weight=9)
    add("C03", "multivariate_normal_known_mean" + n_, known_mean(v_))
    add("C03", "multivariate_normal" + n_, unknown(v_), weight=5)
for k_ in ("covariance", "precision"):
    add("C03", f"multivariate_normal_known_{k_}", known(k_))
