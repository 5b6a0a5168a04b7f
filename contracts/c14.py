"""C14: alternative constructors and conversions."""
from engine.registry import add, contract
from engine.spec import LAWS


@contract("C14", "Beta.from_mean")
def from_mean(h):
    m, a = h.prob("mean"), h.pos("alpha")
    o = h.call(h.D.Beta.from_mean, mean=m, alpha=a)
    h.check_class("a Beta", o, "Beta")
    h.eq("the given first shape", o.alpha, a)
    h.check("valid second shape", h.lt(0, o.beta))
    h.eq("the given mean", o.alpha / (o.alpha + o.beta), m)


@contract("C14", "get_beta_param_from_mean_and_alpha")
def beta_param(h):
    m, a = h.prob("mean"), h.pos("alpha")
    b = h.call(h.D.get_beta_param_from_mean_and_alpha, mean=m, alpha=a)
    h.eq("the shape that gives the mean", a / (a + b), m)


@contract("C14", "Beta.uninformative")
def beta_flat(h):
    o = h.call(h.D.Beta.uninformative)
    h.check_class("a Beta", o, "Beta")
    x, y = h.prob("x", ghost=True), h.prob("y", ghost=True)
    h.eq("the same density everywhere", LAWS["Beta"].logd(h, o, x), LAWS["Beta"].logd(h, o, y))


@contract("C14", "Beta.from_successes_and_failures")
def successes(h):
    s, f = h.count("s", 0), h.count("f", 0)
    o = h.call(h.D.Beta.from_successes_and_failures, successes=s, failures=f)
    h.check_class("a Beta", o, "Beta")
    flat = h.call(h.D.Beta.uninformative)
    post = h.call(h.M.binomial_beta, n=s + f, x=s, prior=flat)
    x = h.prob("x", ghost=True)
    h.eq("the uniform prior updated with the outcomes", LAWS["Beta"].logd(h, o, x), LAWS["Beta"].logd(h, post, x))
    h.eq("first shape", o.alpha, s + 1)
    h.eq("second shape", o.beta, f + 1)


@contract("C14", "Gamma.from_occurrences_in_intervals")
def occurrences(h):
    a, b = h.pos("occurrences"), h.pos("intervals")
    o = h.call(h.D.Gamma.from_occurrences_in_intervals, occurrences=a, intervals=b)
    h.check_class("a Gamma", o, "Gamma")
    h.eq("shape is the occurrences", o.alpha, a)
    h.eq("rate is the intervals", o.beta, b)


@contract("C14", "Normal.from_mean_and_variance")
def variance(h):
    m, v = h.real("mean"), h.pos("variance")
    o = h.call(h.D.Normal.from_mean_and_variance, mean=m, variance=v)
    h.check_class("a Normal", o, "Normal")
    h.eq("the mean", o.mu, m)
    h.check("positive standard deviation", h.lt(0, o.sigma))
    h.eq("the variance", o.sigma ** 2, v)


@contract("C14", "Normal.from_mean_and_precision")
def precision(h):
    m, v = h.real("mean"), h.pos("precision")
    o = h.call(h.D.Normal.from_mean_and_precision, mean=m, precision=v)
    h.check_class("a Normal", o, "Normal")
    h.eq("the mean", o.mu, m)
    h.check("positive standard deviation", h.lt(0, o.sigma))
    h.eq("the precision", o.sigma ** -2, v)


@contract("C14", "Normal.uninformative")
def normal_std(h):
    o = h.call(h.D.Normal.uninformative)
    h.check_class("a Normal", o, "Normal")
    h.eq("standard mean", o.mu, 0)
    h.eq("standard deviation one", o.sigma, 1)
    s = h.pos("sigma")
    for q in (h.call(h.D.Normal.uninformative, sigma=s), h.call(h.D.Normal.uninformative, s)):
        h.check_class("a Normal", q, "Normal")
        h.eq("mean zero", q.mu, 0)
        h.eq("the given standard deviation", q.sigma, s)


@contract("C14", "Dirichlet.uninformative")
def dirichlet_flat(h):
    n = h.count("n", 1, scalar=True)
    o = h.call(h.D.Dirichlet.uninformative, n)
    h.check_class("a Dirichlet", o, "Dirichlet")
    h.eq("requested number of categories", h.length(o.alpha), n)
    h.vec_eq("every concentration is one", o.alpha, h.ones(n))
    p = h.call(h.D.Dirichlet.uninformative, n=n)
    h.vec_eq("by keyword too", p.alpha, h.ones(n))


# ------------------------------------------------------------------------------------------------ conversions
def same_law(h, label, a, b):
    """the inverse gamma law in either parametrisation"""
    x = h.pos("x", ghost=True)
    h.eq(label, LAWS[h.cls(a)].logd(h, a, x), LAWS[h.cls(b)].logd(h, b, x))


@contract("C14", "ScaledInverseChiSquared.from_inverse_gamma")
def to_chi(h):
    ig = h.make("InverseGamma", alpha=h.pos("alpha"), beta=h.pos("beta"))
    was = h.snapshot(ig)
    o = h.call(h.D.ScaledInverseChiSquared.from_inverse_gamma, ig)
    h.check_class("a ScaledInverseChiSquared", o, "ScaledInverseChiSquared")
    h.check("valid parameters", h.and_(h.lt(0, o.nu), h.lt(0, o.sigma2)))
    same_law(h, "the same law", o, ig)
    back = h.call(o.to_inverse_gamma)
    h.check_class("an InverseGamma", back, "InverseGamma")
    h.eq("and back: shape", back.alpha, ig.alpha)
    h.eq("and back: scale", back.beta, ig.beta)
    h.unchanged("the argument is left as it was", was)


@contract("C14", "ScaledInverseChiSquared.to_inverse_gamma")
def to_ig(h):
    o = h.make("ScaledInverseChiSquared", nu=h.pos("nu"), sigma2=h.pos("sigma2"))
    was = h.snapshot(o)
    ig = h.call(o.to_inverse_gamma)
    h.check_class("an InverseGamma", ig, "InverseGamma")
    h.check("valid parameters", h.and_(h.lt(0, ig.alpha), h.lt(0, ig.beta)))
    same_law(h, "the same law", ig, o)
    back = h.call(h.D.ScaledInverseChiSquared.from_inverse_gamma, inverse_gamma=ig)
    h.check_class("a ScaledInverseChiSquared", back, "ScaledInverseChiSquared")
    h.eq("and back: degrees of freedom", back.nu, o.nu)
    h.eq("and back: scale", back.sigma2, o.sigma2)
    h.unchanged("the object is left as it was", was)


# ------------------------------------------------------------------------------------------------ joint priors
def joint(which):
    def f(h):
        ig = h.make("InverseGamma", alpha=h.pos("alpha"), beta=h.pos("beta"))
        if which == "nu":
            mu, extra = h.real("mu"), {"nu": h.nonneg("nu")}
        else:
            d = h.dim("d")
            mu, extra = h.vec("mu", d), {"delta_inverse": h.spd("D", d)}
        was = h.snapshot(ig)
        o = h.call(h.D.NormalInverseGamma.from_inverse_gamma, mu=mu, inverse_gamma=ig, **extra)
        h.check_class("a NormalInverseGamma", o, "NormalInverseGamma")
        h.eq("the mean", o.mu, mu)
        h.eq("the scale argument", getattr(o, which), extra[which])
        h.check("the other scale argument stays unset",
                (o.nu if which == "delta_inverse" else o.delta_inverse) is None)
        back = h.get(o, "inverse_gamma")
        h.check_class("gives back an InverseGamma", back, "InverseGamma")
        h.eq("gives back the shape", back.alpha, ig.alpha)
        h.eq("gives back the scale", back.beta, ig.beta)
        h.unchanged("the argument is left as it was", was)
    return f


add("C14", "NormalInverseGamma.from_inverse_gamma[nu]", joint("nu"))
add("C14", "NormalInverseGamma.from_inverse_gamma[delta_inverse]", joint("delta_inverse"))


def one_scale(form):
    def f(h):
        a, b = h.pos("alpha"), h.pos("beta")
        nu = h.nonneg("nu")
        if form == "number":
            mu, dl = h.real("mu"), h.nonneg("delta")
        else:
            d = h.dim("d")
            mu, dl = h.vec("mu", d), h.spd("D", d)
        C = h.D.NormalInverseGamma
        ig = h.make("InverseGamma", alpha=a, beta=b)
        h.raises("neither scale argument", ValueError, C, mu=mu, alpha=a, beta=b)
        h.raises("neither scale argument (both None)", ValueError, C, mu=mu, alpha=a, beta=b, nu=None, delta_inverse=None)
        h.raises("both scale arguments", ValueError, C, mu=mu, alpha=a, beta=b, nu=nu, delta_inverse=dl)
        h.raises("neither, from an inverse gamma", ValueError, C.from_inverse_gamma, mu=mu, inverse_gamma=ig)
        h.raises("both, from an inverse gamma", ValueError, C.from_inverse_gamma, mu=mu, inverse_gamma=ig, nu=nu,
                 delta_inverse=dl)
        o = h.call(C, mu=mu, alpha=a, beta=b, nu=nu)
        h.eq("only nu: kept", o.nu, nu)
        h.check("only nu: the other unset", o.delta_inverse is None)
        o = h.call(C, mu=mu, alpha=a, beta=b, delta_inverse=dl)
        h.eq("only delta_inverse: kept", o.delta_inverse, dl)
        h.check("only delta_inverse: the other unset", o.nu is None)
    return f


add("C14", "NormalInverseGamma: exactly one scale argument[number]", one_scale("number"))
add("C14", "NormalInverseGamma: exactly one scale argument[matrix]", one_scale("matrix"))


@contract("C14", "NormalInverseWishart.from_inverse_wishart")
def from_iw(h):
    d = h.dim("d")
    psi = h.spd("psi", d)
    iw = h.make("InverseWishart", nu=h.pos("e", scalar=True) + h.dimnum(d), psi=psi)
    mu, k = h.vec("mu", d), h.pos("kappa", scalar=True)
    was = h.snapshot(iw)
    o = h.call(h.D.NormalInverseWishart.from_inverse_wishart, mu=mu, kappa=k, inverse_wishart=iw)
    h.check_class("a NormalInverseWishart", o, "NormalInverseWishart")
    h.mat_eq("the mean", o.mu, mu)
    h.eq("the precision of the mean", o.kappa, k)
    back = h.get(o, "inverse_wishart")
    h.check_class("gives back an InverseWishart", back, "InverseWishart")
    h.eq("gives back the degrees of freedom", back.nu, iw.nu)
    h.mat_eq("gives back the scale", back.psi, psi)
    h.unchanged("the argument is left as it was", was)
