"""C07: updating in batches equals updating once; an empty batch changes nothing"""
from engine.registry import add
from .common import CONTINUOUS_MODELS, COUNT_MODELS, HYPER, PROPORTIONAL_MODELS, Model, prior
from .posterior import name_of

FIELDS = {
    "Beta": ["alpha", "beta"], "Gamma": ["alpha", "beta"], "InverseGamma": ["alpha", "beta"],
    "BetaBinomial": ["n", "alpha", "beta"], "Normal": ["mu", "sigma"], "ScaledInverseChiSquared": ["nu", "sigma2"],
    "NormalInverseGamma": ["mu", "nu", "alpha", "beta"], "NormalGamma": ["mu", "lam", "alpha", "beta"],
    "Pareto": ["x_m", "alpha"], "GammaProportional": ["p", "q", "r", "s"], "GammaKnownRateProportional": ["a", "b", "c"],
    "BetaProportional": ["p", "q", "k"], "VonMisesKnownDirectionProportional": ["c", "r"],
    "MultivariateNormal": ["mu", "cov"], "InverseWishart": ["nu", "psi"], "NormalInverseWishart": ["mu", "kappa", "nu", "psi"],
}


def fields(h, o):
    """what determines the law, by name"""
    cls = h.cls(o)
    if cls == "VonMisesKnownConcentration":      # the direction is a point on the circle
        return {"a cos b": o.a * h.cos(o.b), "a sin b": o.a * h.sin(o.b)}
    if cls == "NormalInverseGamma" and o.nu is None:
        return {k: getattr(o, k) for k in ("mu", "delta_inverse", "alpha", "beta")}
    return {k: getattr(o, k) for k in FIELDS[cls]}


def same_law(h, label, a, b):
    h.check_class(f"{label}: family", a, h.cls(b))
    fa, fb = fields(h, a), fields(h, b)
    for k in fb:
        h.eq(f"{label}: {k}", fa[k], fb[k])


def batches(m, cls):
    def f(h):
        p = prior(h, cls)
        fn = getattr(h.M, m.fn)
        d1 = m.data(h, "_1", {})
        d2 = m.data(h, "_2", m.shared(d1))
        if m is HYPER:
            h.assume(h.le(d1["n"] + d2["n"], p.n))
        p1 = h.call(fn, prior=p, **d1, **m.extra)
        q12 = h.call(fn, prior=p1, **d2, **m.extra)
        q21 = h.call(fn, prior=h.call(fn, prior=p, **d2, **m.extra), **d1, **m.extra)
        pooled = h.call(fn, prior=p, **m.pool(h, d1, d2), **m.extra)
        if m is HYPER:      # what is recorded as a known finding: an overlap of the batches is counted twice
            N = p.n
            h.recorded("recorded formula", h.and_(
                h.equal(q12.n, N), h.equal(q12.alpha, p.alpha + d1["x_total"] + d2["x_total"]),
                h.equal(q12.beta, p.beta + (N - d1["x_total"]) + (N - d2["x_total"])),
                h.equal(pooled.beta, p.beta + (N - d1["x_total"] - d2["x_total"]))))
        same_law(h, "two batches equal one", q12, pooled)
        same_law(h, "the other order gives the same", q21, q12)
    return f


def empty(m, cls):
    def f(h):
        p = prior(h, cls)
        d = m.empty_summary(h, m.data(h, "", {}))
        q = h.call(getattr(h.M, m.fn), prior=p, **d, **m.extra)
        if m is HYPER:
            h.recorded("recorded formula", h.and_(h.equal(q.n, p.n), h.equal(q.alpha, p.alpha), h.equal(q.beta, p.beta + p.n)))
        same_law(h, "an empty batch changes nothing", q, p)
    return f


for m_ in COUNT_MODELS + [HYPER] + CONTINUOUS_MODELS + PROPORTIONAL_MODELS:
    if m_.fn == "bernoulli_beta":
        continue
    for c_ in m_.priors:
        if m_.fn != "von_mises_known_concentration":
            add("C07", name_of(m_, c_), batches(m_, c_))
        if m_.empty:
            add("C07", name_of(m_, c_) + " (empty batch)", empty(m_, c_))


def von_mises(h):
    """by the contract of one update: (a cos b, a sin b) moves by kappa (sum cos, sum sin)"""
    p = prior(h, "VonMisesKnownConcentration")
    fn = h.M.von_mises_known_concentration
    from .common import PROPORTIONAL_MODELS
    (m,) = [m for m in PROPORTIONAL_MODELS if m.fn == "von_mises_known_concentration"]
    d1 = m.data(h, "_1", {})
    d2 = m.data(h, "_2", m.shared(d1))

    def update(p, d, sfx):
        q = h.call(fn, prior=p, **d)
        h.check_class("family", q, "VonMisesKnownConcentration")
        want = [p.a * h.cos(p.b) + d["kappa"] * d["cos_total"], p.a * h.sin(p.b) + d["kappa"] * d["sin_total"]]

        def post(o):
            f = fields(h, o)
            return f["a cos b"], f["a sin b"]
        for k, got, w in zip(("cosine", "sine"), post(q), want):
            h.eq(f"one update adds the weighted {k} total", got, w)
        h.check("one update keeps the concentration non-negative", h.le(0, q.a))
        q = h.abstract(q, sfx, a="nonneg", b="real")
        for got, w in zip(post(q), want):
            h.assume(h.equal(got, w))
        return q
    q12 = update(update(p, d1, "_p1"), d2, "_p12")
    q21 = update(update(p, d2, "_p2"), d1, "_p21")
    pooled = update(p, m.pool(h, d1, d2), "_p")
    for label, a, b in (("two batches equal one", q12, pooled), ("the other order gives the same", q21, q12)):
        fa, fb = fields(h, a), fields(h, b)
        for k in fb:
            h.check(f"{label}: {k}", h.equal(fa[k], fb[k]))


add("C07", "von_mises_known_concentration", von_mises)


def bernoulli(h):
    """two single trials, one after the other, are one batch of two trials"""
    p = prior(h, "Beta")
    x = [h.count("x_1", 0, 1), h.count("x_2", 0, 1)]
    q = [h.call(h.M.bernoulli_beta, prior=h.call(h.M.bernoulli_beta, prior=p, x=a), x=b) for a, b in (x, x[::-1])]
    pooled = h.call(h.M.binomial_beta, prior=p, n=2, x=x[0] + x[1])
    same_law(h, "two batches equal one", q[0], pooled)
    same_law(h, "the other order gives the same", q[1], q[0])


add("C07", "bernoulli_beta", bernoulli)


# ------------------------------------------------------------------------------------------------ categories
def dirichlet(fn, form, data_form):
    def val(h, name, k, f, dom):
        return h.arr(name, k, dom=dom) if f == "array" else h.seq(name, k, f, dom)

    def f(h):
        k = h.axis("K", 1)
        p = h.make("Dirichlet", alpha=val(h, "alpha", k, form, "pos"))
        x, y = [val(h, n, k, data_form, "count") for n in ("x", "y")]
        g = getattr(h.M, fn)
        s = h.vec_add(x, y)
        a = h.call(g, x=y, prior=h.call(g, x=x, prior=p))
        b = h.call(g, x=x, prior=h.call(g, x=y, prior=p))
        c = h.call(g, x=s, prior=p)
        h.vec_eq("two batches equal one", a.alpha, c.alpha)
        h.vec_eq("the other order gives the same", b.alpha, a.alpha)
    return f


def dirichlet_empty(fn, form):
    def f(h):
        k = h.axis("K", 1)
        al = h.arr("alpha", k, dom="pos") if form == "array" else h.seq("alpha", k, form, "pos")
        q = h.call(getattr(h.M, fn), x=h.zeros(k), prior=h.make("Dirichlet", alpha=al))
        h.vec_eq("an empty batch changes nothing", q.alpha, al)
    return f


for fn_ in ("categorical_dirichlet", "multinomial_dirichlet"):
    for a_ in ("array", "list", "tuple"):
        for b_ in ("array", "list"):
            add("C07", f"{fn_}[{a_} weights, {b_} counts]", dirichlet(fn_, a_, b_))
        add("C07", f"{fn_}[{a_} weights] (empty batch)", dirichlet_empty(fn_, a_))


# ------------------------------------------------------------------------------------------------ matrices
def lr(h, rows):
    B = h.dim("B")
    p = h.make("NormalInverseGamma", mu=h.vec("mu0", B), delta_inverse=h.spd("D0", B), alpha=h.pos("alpha0", scalar=True),
               beta=h.pos("beta0", scalar=True))
    return p, [dict(X=h.mat(f"X{s}", n, B), y=h.vec(f"y{s}", n)) for s, n in rows(h)]


def two(h):
    return [("_1", h.dim("N_1")), ("_2", h.dim("N_2"))]


def none(h):
    return [("", 0)]


def linear_regression(h):
    p, (d1, d2) = lr(h, two)
    fn = h.M.linear_regression
    a = h.call(fn, prior=h.call(fn, prior=p, **d1), **d2)
    b = h.call(fn, prior=h.call(fn, prior=p, **d2), **d1)
    c = h.call(fn, prior=p, X=h.stack(d1["X"], d2["X"]), y=h.stack(d1["y"], d2["y"]))
    same_law(h, "two batches equal one", a, c)
    same_law(h, "the other order gives the same", b, a)


def linear_regression_empty(h):
    p, (d,) = lr(h, none)
    same_law(h, "an empty batch changes nothing", h.call(h.M.linear_regression, prior=p, **d), p)


add("C07", "linear_regression", linear_regression, weight=9)
add("C07", "linear_regression (empty batch)", linear_regression_empty)


def mvn_mean(known):
    def f(h):
        D = h.dim("D")
        fn = getattr(h.M, f"multivariate_normal_known_{known}")
        p = h.make("MultivariateNormal", mu=h.vec("mu0", D), cov=h.spd("cov0", D))
        k = {("cov" if known == "covariance" else "precision"): h.spd("known", D)}
        n, m = h.count("n_1", 0, scalar=True), h.count("n_2", 0, scalar=True)
        x, y = h.vec("xbar_1", D), h.vec("xbar_2", D)
        h.assume(h.le(1, n + m))
        a = h.call(fn, prior=h.call(fn, prior=p, n=n, x_bar=x, **k), n=m, x_bar=y, **k)
        b = h.call(fn, prior=h.call(fn, prior=p, n=m, x_bar=y, **k), n=n, x_bar=x, **k)
        c = h.call(fn, prior=p, n=n + m, x_bar=(x * n + y * m) / (n + m), **k)
        same_law(h, "two batches equal one", a, c)
        same_law(h, "the other order gives the same", b, a)

    def g(h):
        D = h.dim("D")
        p = h.make("MultivariateNormal", mu=h.vec("mu0", D), cov=h.spd("cov0", D))
        k = {("cov" if known == "covariance" else "precision"): h.spd("known", D)}
        q = h.call(getattr(h.M, f"multivariate_normal_known_{known}"), prior=p, n=0, x_bar=h.vec("anything", D), **k)
        same_law(h, "an empty batch changes nothing", q, p)
    return f, g


for k_ in ("covariance", "precision"):
    f_, g_ = mvn_mean(k_)
    add("C07", f"multivariate_normal_known_{k_}", f_, weight=9)
    add("C07", f"multivariate_normal_known_{k_} (empty batch)", g_)


def rows_model(fn, mk, extra):
    def f(h):
        D = h.dim("D")
        g = getattr(h.M, fn)
        p, e = mk(h, D), extra(h, D)
        X, Y = [h.mat(f"X{s}", n, D) for s, n in two(h)]
        a = h.call(g, prior=h.call(g, prior=p, X=X, **e), X=Y, **e)
        b = h.call(g, prior=h.call(g, prior=p, X=Y, **e), X=X, **e)
        c = h.call(g, prior=p, X=h.stack(X, Y), **e)
        same_law(h, "two batches equal one", a, c)
        same_law(h, "the other order gives the same", b, a)

    def z(h):
        D = h.dim("D")
        p, e = mk(h, D), extra(h, D)
        same_law(h, "an empty batch changes nothing", h.call(getattr(h.M, fn), prior=p, X=h.mat("X", 0, D), **e), p)
    add("C07", fn, f, weight=9)
    add("C07", fn + " (empty batch)", z)


rows_model("multivariate_normal_known_mean",
           lambda h, D: h.make("InverseWishart", nu=h.pos("nu_extra", scalar=True) + h.dimnum(D), psi=h.spd("psi0", D)),
           lambda h, D: {"mu": h.vec("mu", D)})
rows_model("multivariate_normal",
           lambda h, D: h.make("NormalInverseWishart", mu=h.vec("mu0", D), kappa=h.pos("kappa0", scalar=True),
                               nu=h.pos("nu_extra", scalar=True) + h.dimnum(D), psi=h.spd("psi0", D)),
           lambda h, D: {})
