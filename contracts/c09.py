"""C09: every distribution object's law is the documented one.

For each class: for all parameters in the class's domain and every real x, the support of the object's `dist` and its log
density or log mass there equal the documented ones (engine/spec.py, written down from the documentation by parameter
name).  The laws of scipy enter through their documented densities (engine/ext_scipy.py FAMILIES); the two laws of this
package are executed.
"""
import numpy as np

from engine.registry import add, contract
from engine.spec import LAWS

DOMS = {
    "Beta": "alpha+ beta+", "Exponential": "lam+", "Gamma": "alpha+ beta+", "NegativeBinomial": "n+ p%", "Poisson": "lam+",
    "BetaNegativeBinomial": "n! alpha+ beta+", "Geometric": "p%", "BetaGeometric": "alpha+ beta+", "Normal": "mu~ sigma+",
    "Pareto": "x_m+ alpha+", "InverseGamma": "alpha+ beta+", "StudentT": "mu~ sigma+ nu+", "Lomax": "alpha+ lam+",
    "CompoundGamma": "alpha+ beta+ lam+", "VonMises": "mu~ kappa+", "ScaledInverseChiSquared": "nu+ sigma2+",
    "LogNormal": "mu~ sigma+", "Weibull": "beta+ theta+", "Binomial": "n# p%", "BetaBinomial": "n# alpha+ beta+",
}


def params(h, cls, sfx="", **o):
    if cls == "Uniform":
        low, w = h.real("low" + sfx, **o), h.pos("width" + sfx, **o)
        return {"low": low, "high": low + w}
    if cls == "Hypergeometric":
        N = h.count("N" + sfx, 1, **o)      # scipy has no law for an empty population
        return {"N": N, "k": h.count("k" + sfx, 0, N, **o), "n": h.count("n" + sfx, 0, N, **o)}
    mk = {"+": h.pos, "~": h.real, "%": h.prob, "#": lambda n, **k: h.count(n, 0, **k), "!": lambda n, **k: h.count(n, 1, **k)}
    return {s[:-1]: mk[s[-1]](s[:-1] + sfx, **o) for s in DOMS[cls].split()}


# points where a density may be set either way (single points of a continuous law)
EDGES = {"Beta": lambda o: [0, 1], "Gamma": lambda o: [0], "InverseGamma": lambda o: [0], "Exponential": lambda o: [0],
         "Lomax": lambda o: [0], "CompoundGamma": lambda o: [0], "ScaledInverseChiSquared": lambda o: [0],
         "LogNormal": lambda o: [0], "Weibull": lambda o: [0], "Uniform": lambda o: [o.low, o.high],
         "Pareto": lambda o: [o.x_m]}


def inner(h, cls, o):
    """a point of the support (for executions; the proof has an arbitrary point)"""
    if cls == "Beta":
        return h.prob("x", ghost=True)
    if cls == "Uniform":
        return o.low + h.prob("u", ghost=True) * (o.high - o.low)
    if cls == "Pareto":
        return o.x_m + h.pos("u", ghost=True)
    if LAWS[cls].discrete:
        return h.int("x", ghost=True)
    if cls in EDGES:
        return h.pos("x", ghost=True)
    return h.real("x", ghost=True)


def make(h, cls, extra):
    o = h.make(cls, **params(h, cls), **extra)
    return o, h.get(o, "dist")


def law(cls, extra):
    spec = LAWS[cls]

    def density(h):
        o, q = make(h, cls, extra)
        x = inner(h, cls, o)
        h.check("a mass or a density as documented", h.law_discrete(q) if spec.discrete else h.not_(h.law_discrete(q)))
        h.assume(spec.supp(h, o, x))
        h.assume(h.not_(h.or_(h.not_(h.true), *[h.equal(x, e) for e in EDGES.get(cls, lambda o: [])(o)])))
        h.eq("log density at every point of the support", h.law_logd(q, x), spec.logd(h, o, x))

    def support(h):
        o, q = make(h, cls, extra)
        x = h.real("x", ghost=True)
        h.assume(h.not_(h.or_(h.not_(h.true), *[h.equal(x, e) for e in EDGES.get(cls, lambda o: [])(o)])))
        h.check("positive exactly on the documented support", h.iff(h.law_supp(q, x), spec.supp(h, o, x)))
    return density, support


CASES = [(c, {}) for c in LAWS] + [(c, {"one_start": b}) for c in ("Geometric", "BetaGeometric") for b in (True, False, np.True_, np.False_)]
for c_, x_ in CASES:
    tag = c_ + "".join(f"[{k}={v!r}]" for k, v in x_.items())
    d_, s_ = law(c_, x_)
    add("C09", f"{tag}: density", d_)
    add("C09", f"{tag}: support", s_)


def own(cls, extra):
    """the masses of the package's own discrete law are given off the support too: exactly zero"""
    def f(h):
        o, q = make(h, cls, extra)
        x = h.real("x", ghost=True)
        h.assume(h.not_(LAWS[cls].supp(h, o, x)))
        h.assume(h.not_(h.equal(x, 0)) if cls == "CompoundGamma" else h.true)
        h.eq("zero off the support", h.law_value(q, x), 0)
    return f


for c_, x_ in [("BetaGeometric", {}), ("BetaGeometric", {"one_start": False}), ("CompoundGamma", {})]:
    add("C09", c_ + "".join(f"[{k}={v}]" for k, v in x_.items()) + ": zero off the support", own(c_, x_))


@contract("C09", "CompoundGamma: nothing at zero")
def at_zero(h):
    """the density x^(alpha-1) (...) of shape two passes through the origin"""
    p = params(h, "CompoundGamma")
    o = h.make("CompoundGamma", **{**p, "alpha": 2})
    h.eq("zero at the origin", h.law_value(h.get(o, "dist"), 0), 0)


# the total mass of the beta-geometric law is one: its partial sums telescope
@contract("C09", "BetaGeometric: total mass")
def total(h):
    """P(X > k) = B(alpha, beta + k + 1)/B(alpha, beta): the tail after k failures falls by exactly the mass at k, is one
    before the first and tends to zero (it is a ratio of gamma functions of order k^-alpha), so the masses sum to one"""
    o = h.make("BetaGeometric", **params(h, "BetaGeometric"), one_start=False)
    q = h.get(o, "dist")
    k = h.count("k", 0, ghost=True)

    def log_tail(j):
        return h.betaln(o.alpha, o.beta + j) - h.betaln(o.alpha, o.beta)
    s = o.alpha + o.beta + k
    h.eq("mass as a share of the tail", h.law_logd(q, k), log_tail(k) + h.log(o.alpha) - h.log(s))
    h.eq("next tail as a share of the tail", log_tail(k + 1), log_tail(k) + h.log(o.beta + k) - h.log(s))
    t = h.pos("tail", ghost=True)
    h.eq("mass is the fall of the tail", t * (o.alpha / s), t - t * ((o.beta + k) / s))
    h.eq("tail is one at the start", log_tail(h.num(0)), 0)


# ------------------------------------------------------------------------------------------------ multivariate
@contract("C09", "MultivariateNormal")
def mvn(h):
    d = h.dim("d", 1)
    m, c = h.vec("mu", d), h.spd("cov", d)
    o = h.make("MultivariateNormal", mu=m, cov=c)
    h.mv_law("normal law with mean mu and covariance cov", h.get(o, "dist"), "multivariate_normal", mean=m, cov=c)


@contract("C09", "MultivariateStudentT")
def mvt(h):
    d = h.dim("d", 1)
    m, c, v = h.vec("mu", d), h.spd("sigma", d), h.pos("nu", scalar=True)
    o = h.make("MultivariateStudentT", mu=m, sigma=c, nu=v)
    h.mv_law("t law with location mu, shape sigma and nu degrees of freedom", h.get(o, "dist"), "multivariate_t", loc=m,
             shape=c, df=v)


def wish(cls, family, field):
    def f(h):
        d = h.dim("d", 1)
        s, e = h.spd("S", d), h.pos("e", scalar=True)
        nu = e + h.dimnum(d)
        o = h.make(cls, nu=nu, **{field: s})
        h.mv_law(f"{cls} law with nu degrees of freedom and scale {field}", h.get(o, "dist"), family, df=nu, scale=s)
    return f


add("C09", "Wishart", wish("Wishart", "wishart", "V"))
add("C09", "InverseWishart", wish("InverseWishart", "invwishart", "psi"))


def cats(h, form, name="alpha"):
    k = h.axis("K", 2)
    return h.seq(name, k, form, "pos") if form != "array" else h.arr(name, k, dom="pos")


for form_ in ("array", "list", "tuple"):
    def dirichlet(h, form=form_):
        al = cats(h, form)
        o = h.make("Dirichlet", alpha=al)
        h.mv_law("Dirichlet law with concentrations alpha", h.get(o, "dist"), "dirichlet", alpha=al)
    add("C09", f"Dirichlet[{form_}]", dirichlet)

    if form_ == "tuple":
        continue

    def dm(h, form=form_):
        al, n = cats(h, form), h.count("n", 1, scalar=True)
        o = h.make("DirichletMultinomial", alpha=al, n=n)
        h.mv_law("Dirichlet-multinomial law of n draws", h.get(o, "dist"), "dirichlet_multinomial", alpha=al, n=n)
    add("C09", f"DirichletMultinomial[{form_}]", dm)


@contract("C09", "Multinomial")
def multinomial(h):
    k = h.axis("K", 2)
    n, w = h.count("n", 1, scalar=True), h.arr("w", k, dom="pos")
    p = w / w.sum()
    o = h.make("Multinomial", n=n, p=p)
    h.mv_law("multinomial law of n draws", h.get(o, "dist"), "multinomial", n=n, p=p)


@contract("C09", "Dirichlet: several rows")
def rows(h):
    """each row of a table of concentrations has the mean of its own Dirichlet law"""
    r, k = h.axis("R", 1), h.axis("K", 2)
    al = h.arr("alpha", r, k, dom="pos")
    o = h.make("Dirichlet", alpha=al)
    m = h.call(h.get(h.get(o, "dist"), "mean"))
    h.eq("mean of every row", m, al / al.sum(axis=1, keepdims=True))


# ------------------------------------------------------------------------------------------------ parts of joint priors
def part(cls, attr, out, fields, mk):
    def f(h):
        o = h.make(cls, **mk(h))
        p = h.get(o, attr)
        h.check_class(f"{attr} is {out}", p, out)
        for new, old in fields.items():
            h.eq(f"{new} of the {attr}", getattr(p, new), getattr(o, old))
    return f


def nig1(h):
    return dict(mu=h.real("mu"), nu=h.pos("nu"), alpha=h.pos("alpha"), beta=h.pos("beta"))


def nigd(h):
    d = h.dim("d", 1)
    return dict(mu=h.vec("mu", d), delta_inverse=h.spd("D", d), alpha=h.pos("alpha"), beta=h.pos("beta"))


def ng(h):
    return dict(mu=h.real("mu"), lam=h.pos("lam"), alpha=h.pos("alpha"), beta=h.pos("beta"))


def nw(h):
    d = h.dim("d", 1)
    return dict(mu=h.vec("mu", d), lam=h.pos("lam"), W=h.spd("W", d), nu=h.pos("e") + h.dimnum(d))


def niw(h):
    d = h.dim("d", 1)
    return dict(mu=h.vec("mu", d), kappa=h.pos("kappa"), psi=h.spd("psi", d), nu=h.pos("e") + h.dimnum(d))


add("C09", "NormalInverseGamma.inverse_gamma", part("NormalInverseGamma", "inverse_gamma", "InverseGamma",
                                                    {"alpha": "alpha", "beta": "beta"}, nig1))
add("C09", "NormalInverseGamma.inverse_gamma[d]", part("NormalInverseGamma", "inverse_gamma", "InverseGamma",
                                                       {"alpha": "alpha", "beta": "beta"}, nigd))
add("C09", "NormalGamma.gamma", part("NormalGamma", "gamma", "Gamma", {"alpha": "alpha", "beta": "beta"}, ng))
add("C09", "NormalWishart.wishart", part("NormalWishart", "wishart", "Wishart", {"nu": "nu", "V": "W"}, nw))
add("C09", "NormalInverseWishart.inverse_wishart", part("NormalInverseWishart", "inverse_wishart", "InverseWishart",
                                                        {"nu": "nu", "psi": "psi"}, niw))
