"""C10: a prior or distribution of the wrong type is rejected with a ValueError before anything is computed.

A value is: missing, None, an instance of one of the package's families, an instance of a subclass of one, or something
else.  The last is an opaque object here: the code may test it against the package's classes and ask for its type's
name, nothing more, so the proof holds whatever it is.  The data arguments raise when they are touched at all.
"""
import inspect

from engine.registry import add
from .c05 import PREDS
from .common import CONTINUOUS_MODELS, COUNT_MODELS, HYPER, PROPORTIONAL_MODELS, prior

ACCEPTED = {
    "binomial_beta": ["Beta"], "bernoulli_beta": ["Beta"], "negative_binomial_beta": ["Beta"],
    "hypergeometric_beta_binomial": ["BetaBinomial"], "geometric_beta": ["Beta"], "categorical_dirichlet": ["Dirichlet"],
    "multinomial_dirichlet": ["Dirichlet"], "poisson_gamma": ["Gamma"], "exponential_gamma": ["Gamma"],
    "gamma_known_shape": ["Gamma"], "inverse_gamma_known_rate": ["Gamma"], "normal_known_variance": ["Normal"],
    "normal_known_precision": ["Normal"], "normal_known_mean": ["InverseGamma", "ScaledInverseChiSquared"],
    "normal": ["NormalInverseGamma", "NormalGamma"], "normal_normal_inverse_gamma": ["NormalInverseGamma"],
    "linear_regression": ["NormalInverseGamma"], "uniform_pareto": ["Pareto"], "pareto_gamma": ["Gamma"],
    "gamma": ["GammaProportional"], "gamma_known_rate": ["GammaKnownRateProportional"], "beta": ["BetaProportional"],
    "von_mises_known_concentration": ["VonMisesKnownConcentration"],
    "von_mises_known_direction": ["VonMisesKnownDirectionProportional"],
    "multivariate_normal_known_covariance": ["MultivariateNormal"],
    "multivariate_normal_known_precision": ["MultivariateNormal"], "multivariate_normal_known_mean": ["InverseWishart"],
    "multivariate_normal": ["NormalInverseWishart"], "log_normal": ["NormalInverseGamma", "NormalGamma"],
    "weibull_inverse_gamma_known_shape": ["InverseGamma"],
}
ACCEPTED_PREDICTIVE = {
    "binomial_beta_predictive": ["Beta"], "bernoulli_beta_predictive": ["Beta"], "negative_binomial_beta_predictive": ["Beta"],
    "geometric_beta_predictive": ["Beta"], "categorical_dirichlet_predictive": ["Dirichlet"],
    "multinomial_dirichlet_predictive": ["Dirichlet"], "poisson_gamma_predictive": ["Gamma"],
    "exponential_gamma_predictive": ["Gamma"], "gamma_known_shape_predictive": ["Gamma"],
    "normal_known_variance_predictive": ["Normal"], "normal_known_precision_predictive": ["Normal"],
    "normal_known_mean_predictive": ["InverseGamma", "ScaledInverseChiSquared"],
    "normal_predictive": ["NormalInverseGamma", "NormalGamma"],
    "normal_normal_inverse_gamma_predictive": ["NormalInverseGamma"], "linear_regression_predictive": ["NormalInverseGamma"],
    "multivariate_normal_known_covariance_predictive": ["MultivariateNormal"],
    "multivariate_normal_known_precision_predictive": ["MultivariateNormal"],
    "multivariate_normal_predictive": ["NormalInverseWishart"],
}
FAMILIES = ["Beta", "Binomial", "Dirichlet", "Multinomial", "DirichletMultinomial", "Exponential", "Gamma",
            "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric",
            "BetaGeometric", "Normal", "MultivariateNormal", "Uniform", "Pareto", "InverseGamma", "NormalInverseGamma",
            "StudentT", "MultivariateStudentT", "Lomax", "CompoundGamma", "GammaKnownRateProportional",
            "GammaProportional", "BetaProportional", "VonMises", "VonMisesKnownConcentration",
            "VonMisesKnownDirectionProportional", "ScaledInverseChiSquared", "NormalGamma", "InverseWishart", "Wishart",
            "NormalWishart", "NormalInverseWishart", "LogNormal", "Weibull"]


class Touched(Exception):
    pass


class Untouchable:
    """a data argument: any use of it is an error"""
    __array_ufunc__ = None

    def __getattribute__(self, n):
        if n == "__class__":
            return Untouchable
        raise Touched(f"data used ({n})")


def _touch(self, *a):
    raise Touched("data used")


for op_ in ("add radd sub rsub mul rmul truediv rtruediv floordiv pow rpow neg matmul rmatmul eq ne lt le gt ge bool len "
            "iter getitem call float int index abs").split():
    setattr(Untouchable, f"__{op_}__", _touch)


def blank(h, cls):
    """an object of the family whose parameters are untouchable"""
    c = getattr(h.D, cls)
    o = object.__new__(c)
    for f in c.__dataclass_fields__:
        object.__setattr__(o, f, Untouchable())
    return o


def reject(fn, par, accepted):
    def f(h):
        code = getattr(h.M, fn)
        data = {k: Untouchable() for k in inspect.signature(code).parameters if k != par}

        def one(what, typename, *value):
            kw = dict(data)
            if value:
                kw[par] = value[0]
            h.raises(f"{what} is rejected with ValueError", ValueError, code, contains=[par, *accepted, typename], **kw)
        one("a missing argument", "NoneType")
        one("None", "NoneType", None)
        if h.symbolic:
            one("an instance of an unknown type", h.opaque.typename, h.opaque())
        else:
            for v in (3, 2.5, "Beta", b"x", [1, 2], (1,), {"alpha": 1}, True, object(), getattr(h.D, accepted[0]), len,
                      h.nrng):
                one(f"a {type(v).__name__}", type(v).__name__, v)
        acc = tuple(getattr(h.D, a) for a in accepted)
        for cls in FAMILIES:
            c = getattr(h.D, cls, None)
            if c is None or issubclass(c, acc):
                continue
            one(f"a {cls}", cls, blank(h, cls))
            sub = type(f"My{cls}", (c,), {})
            o = object.__new__(sub)
            one(f"a subclass of {cls}", f"My{cls}", o)
    return f


for fn_, a_ in ACCEPTED.items():
    add("C10", f"{fn_}: wrong prior", reject(fn_, "prior", a_), trials="once")
for fn_, a_ in ACCEPTED_PREDICTIVE.items():
    add("C10", f"{fn_}: wrong distribution", reject(fn_, "distribution", a_), trials="once")


# ------------------------------------------------------------------------------------------------ accepted
def sub_of(h, o):
    """the same object as an instance of a subclass of its family"""
    c = type(o)
    s = type(f"My{c.__name__}", (c,), {})
    return s(**{f: getattr(o, f) for f in c.__dataclass_fields__})


def accept(fn, par, mk, data):
    def f(h):
        o = mk(h)
        d = data(h)
        for what, v in (("an instance", o), ("an instance of a subclass", sub_of(h, o))):
            h.accepts(f"{what} of {h.cls(o)} is accepted", getattr(h.M, fn), par, v, d)
    return f


def cases():
    for m in COUNT_MODELS + [HYPER] + CONTINUOUS_MODELS + PROPORTIONAL_MODELS:
        if not m.extra:
            for c in m.priors:
                yield m.fn, "prior", c, (lambda h, c=c: prior(h, c)), (lambda h, m=m: m.data(h, "", {}))
    for m in PREDS:
        if "[" not in m.name:
            for c in m.dist:
                yield m.fn, "distribution", c, (lambda h, c=c: prior(h, c)), m.args

    def dirichlet(h):
        return h.make("Dirichlet", alpha=h.arr("alpha", h.axis("K", 1), dom="pos"))

    for fn in ("categorical_dirichlet", "multinomial_dirichlet"):
        yield fn, "prior", "Dirichlet", dirichlet, lambda h: {"x": h.count("x", 0, scalar=True)}
        yield fn + "_predictive", "distribution", "Dirichlet", dirichlet, lambda h: {}
    D = lambda h: h.dim("D")   # noqa: E731

    def nig(h):
        d = D(h)
        h.d = d
        return h.make("NormalInverseGamma", mu=h.vec("mu0", d), delta_inverse=h.spd("D0", d), alpha=h.pos("alpha0", scalar=True),
                      beta=h.pos("beta0", scalar=True))

    def mvn(h):
        h.d = D(h)
        return h.make("MultivariateNormal", mu=h.vec("mu0", h.d), cov=h.spd("cov0", h.d))

    def iw(h):
        h.d = D(h)
        return h.make("InverseWishart", nu=h.pos("e", scalar=True) + h.dimnum(h.d), psi=h.spd("psi", h.d))

    def niw(h):
        h.d = D(h)
        return h.make("NormalInverseWishart", mu=h.vec("mu0", h.d), kappa=h.pos("kappa0", scalar=True),
                      nu=h.pos("e", scalar=True) + h.dimnum(h.d), psi=h.spd("psi", h.d))
    X = lambda h: h.mat("X", h.dim("N"), h.d)   # noqa: E731
    yield "linear_regression", "prior", "NormalInverseGamma", nig, lambda h: (
        lambda n: {"X": h.mat("X", n, h.d), "y": h.vec("y", n)})(h.dim("N"))
    yield "linear_regression_predictive", "distribution", "NormalInverseGamma", nig, lambda h: {"X": X(h)}
    for k, kw in (("covariance", "cov"), ("precision", "precision")):
        yield f"multivariate_normal_known_{k}", "prior", "MultivariateNormal", mvn, lambda h, kw=kw: {
            "n": h.count("n", 0, scalar=True), "x_bar": h.vec("xbar", h.d), kw: h.spd("known", h.d)}
        yield f"multivariate_normal_known_{k}_predictive", "distribution", "MultivariateNormal", mvn, lambda h, kw=kw: {
            kw: h.spd("known", h.d)}
    yield "multivariate_normal_known_mean", "prior", "InverseWishart", iw, lambda h: {"X": X(h), "mu": h.vec("mu", h.d)}
    yield "multivariate_normal", "prior", "NormalInverseWishart", niw, lambda h: {"X": X(h)}
    yield "multivariate_normal_predictive", "distribution", "NormalInverseWishart", niw, lambda h: {}


SEEN = set()
for fn_, par_, c_, mk_, data_ in cases():
    if (fn_, c_) not in SEEN:
        SEEN.add((fn_, c_))
        add("C10", f"{fn_}: {c_} accepted", accept(fn_, par_, mk_, data_), trials=0.2)
for table_ in (ACCEPTED, ACCEPTED_PREDICTIVE):
    for fn_, a_ in table_.items():
        for c_ in a_:
            assert (fn_, c_) in SEEN, (fn_, c_)
