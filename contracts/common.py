"""What the models mean: for every model function its prior families, the attainable summaries of real data and the
log likelihood of that data in the unknown parameters.  Independent of the code in /repo."""
import numpy as np

from engine.spec import JOINT_DOMAIN, LAWS, normal_gamma, normal_inverse_gamma


# ------------------------------------------------------------------------------------------------ priors
def params(h, cls, sfx="", **o):
    """valid parameters of a family, as keyword arguments of its constructor"""
    k = dict(o)
    if cls == "Beta" or cls == "Gamma" or cls == "InverseGamma":
        return {"alpha": h.pos("alpha0" + sfx, **k), "beta": h.pos("beta0" + sfx, **k)}
    if cls == "BetaBinomial":
        return {"n": h.count("N0" + sfx, 0, **k), "alpha": h.pos("alpha0" + sfx, **k), "beta": h.pos("beta0" + sfx, **k)}
    if cls == "Normal":
        return {"mu": h.real("mu0" + sfx, **k), "sigma": h.pos("sigma0" + sfx, **k)}
    if cls == "ScaledInverseChiSquared":
        return {"nu": h.pos("nu0" + sfx, **k), "sigma2": h.pos("s20" + sfx, **k)}
    if cls == "NormalInverseGamma":
        return {"mu": h.real("mu0" + sfx, **k), "nu": h.pos("nu0" + sfx, **k), "alpha": h.pos("alpha0" + sfx, **k),
                "beta": h.pos("beta0" + sfx, **k)}
    if cls == "NormalGamma":
        return {"mu": h.real("mu0" + sfx, **k), "lam": h.pos("lam0" + sfx, **k), "alpha": h.pos("alpha0" + sfx, **k),
                "beta": h.pos("beta0" + sfx, **k)}
    if cls == "Pareto":
        return {"x_m": h.pos("xm0" + sfx, **k), "alpha": h.pos("alpha0" + sfx, **k)}
    if cls == "GammaProportional":
        return {"p": h.pos("p0" + sfx, **k), "q": h.pos("q0" + sfx, **k), "r": h.pos("r0" + sfx, **k),
                "s": h.pos("s0" + sfx, **k)}
    if cls == "GammaKnownRateProportional":
        return {"a": h.pos("a0" + sfx, **k), "b": h.pos("b0" + sfx, **k), "c": h.pos("c0" + sfx, **k)}
    if cls == "BetaProportional":
        return {"p": h.pos("p0" + sfx, **k), "q": h.pos("q0" + sfx, **k), "k": h.pos("k0" + sfx, **k)}
    if cls == "VonMisesKnownConcentration":
        return {"a": h.pos("a0" + sfx, **k), "b": h.real("b0" + sfx, **k)}
    if cls == "VonMisesKnownDirectionProportional":
        return {"c": h.pos("c0" + sfx, **k), "r": h.real("r0" + sfx, **k)}
    raise KeyError(cls)


def prior(h, cls, sfx="", **o):
    return h.make(cls, **params(h, cls, sfx, **o))


# ------------------------------------------------------------------------------------------------ parameters
def theta_prob(h, k):
    return {"p": h.prob("p" + k, ghost=True)}


def theta_pos(h, k):
    return {"t": h.pos("t" + k, ghost=True)}


def theta_real(h, k):
    return {"t": h.real("t" + k, ghost=True)}


def theta_joint(h, k):
    return {"mu": h.real("m" + k, ghost=True), "s2": h.pos("v" + k, ghost=True)}


def theta_two(h, k):
    return {"a": h.pos("a" + k, ghost=True), "b": h.pos("b" + k, ghost=True)}


def log_density(h, o, t):
    """documented log density of a parameter distribution at a parameter value"""
    cls = h.cls(o)
    if cls == "NormalInverseGamma":
        return normal_inverse_gamma(h, o, t["mu"], t["s2"])
    if cls == "NormalGamma":
        # in the coordinates (mean, variance): the precision is 1/s2 and contributes its Jacobian
        return normal_gamma(h, o, t["mu"], 1 / t["s2"]) - 2 * h.log(t["s2"])
    if cls in LAWS:
        return LAWS[cls].logd(h, o, one(t))
    raise KeyError(cls)


def support(h, o, t):
    cls = h.cls(o)
    if cls in ("NormalInverseGamma", "NormalGamma"):
        return h.true
    return LAWS[cls].supp(h, o, one(t))


def one(t):
    (v,) = t.values()
    return v


def domain(h, o):
    cls = h.cls(o)
    return (JOINT_DOMAIN[cls] if cls in JOINT_DOMAIN else LAWS[cls].domain)(h, o)


# ------------------------------------------------------------------------------------------------ data
# every keyword: (name, role); role: sum, prod, max (statistics that add up, multiply, take the maximum over
# batches) or const (known quantities shared by all batches)
class Model:
    def __init__(self, fn, priors, roles, data, ll, theta, lik_support=None, extra=None, predictive=False, empty=True,
                 library=(), posterior=None):
        self.fn, self.priors, self.roles, self.data, self.ll, self.theta = fn, priors, roles, data, ll, theta
        self.lik_support = lik_support or (lambda h, d, t: h.true)
        self.extra = extra or {}
        self.empty = empty
        self.posterior = posterior

    def stats(self, d):
        return {k: v for k, v in d.items() if k in self.roles}

    def shared(self, d):
        return {k: v for k, v in d.items() if self.roles.get(k) == "const"}

    def pool(self, h, d1, d2):
        out = {}
        for k, role in self.roles.items():
            if role == "sum":
                out[k] = d1[k] + d2[k]
            elif role == "prod":
                out[k] = d1[k] * d2[k]
            elif role == "max":
                out[k] = h.max(d1[k], d2[k])
            else:
                out[k] = d1[k]
        return out

    def empty_summary(self, h, d):
        return {k: {"sum": 0, "prod": 1, "max": 0}[r] if r != "const" else d[k] for k, r in self.roles.items()}


def moments(h, n, sfx, a="x_total", b="x2_total"):
    s, q = h.moments(n, a + sfx, b + sfx)
    return {a: s, b: q, "n": n}


def d_binomial(h, s, c):
    n = h.count("n" + s, 0)
    return {"n": n, "x": h.count("x" + s, 0, n)}


def d_geometric(one_start):
    def f(h, s, c):
        n = h.count("n" + s, 0)
        extra = h.count("failures" + s, 0)
        h.assume(h.implies(h.equal(n, 0), h.equal(extra, 0)))
        return {"x_total": extra + n if one_start else extra, "n": n}
    return f


def d_negbin(h, s, c):
    r = c.get("r")
    r = h.count("r", 1) if r is None else r
    n = h.count("n" + s, 0)
    x = h.count("x" + s, 0)
    h.assume(h.implies(h.equal(n, 0), h.equal(x, 0)))
    return {"r": r, "n": n, "x": x}


def d_hyper(h, s, c):
    n = h.count("n" + s, 0)
    x = h.count("x" + s, 0, n)
    return {"x_total": x, "n": n}


def d_counts(h, s, c):
    n = h.count("n" + s, 0)
    x = h.count("x_total" + s, 0)
    h.assume(h.implies(h.equal(n, 0), h.equal(x, 0)))
    return {"x_total": x, "n": n}


def positive_sum(h, name, n):
    """the sum of n positive observations"""
    x = h.nonneg(name)
    h.assume(h.iff(h.equal(n, 0), h.equal(x, 0)))
    return x


def d_exponential(h, s, c):
    n = h.count("n" + s, 0)
    return {"x_total": positive_sum(h, "x_total" + s, n), "n": n}


def shared(h, c, k, mk):
    v = c.get(k)
    return mk() if v is None else v


def d_gamma_known_shape(h, s, c):
    n = h.count("n" + s, 0)
    return {"x_total": positive_sum(h, "x_total" + s, n), "n": n, "alpha": shared(h, c, "alpha", lambda: h.pos("alpha"))}


def d_inverse_gamma(h, s, c):
    n = h.count("n" + s, 0)
    return {"reciprocal_x_total": positive_sum(h, "reciprocal_x_total" + s, n), "n": n,
            "alpha": shared(h, c, "alpha", lambda: h.pos("alpha"))}


def real_sum(h, name, n):
    x = h.real(name)
    h.assume(h.implies(h.equal(n, 0), h.equal(x, 0)))
    return x


def d_normal(known, mk):
    def f(h, s, c):
        n = h.count("n" + s, 0)
        return {"x_total": real_sum(h, "x_total" + s, n), "n": n, known: shared(h, c, known, lambda: mk(h, known))}
    return f


def d_normal_mean(h, s, c):
    n = h.count("n" + s, 0)
    return {**moments(h, n, s), "mu": shared(h, c, "mu", lambda: h.real("mu"))}


def d_moments(a, b):
    def f(h, s, c):
        n = h.count("n" + s, 0)
        return moments(h, n, s, a, b)
    return f


def d_uniform(h, s, c):
    n = h.count("n" + s, 0)
    x = h.nonneg("x_max" + s)
    h.assume(h.iff(h.equal(n, 0), h.equal(x, 0)))
    return {"x_max": x, "n": n}


def d_pareto(h, s, c):
    n = h.count("n" + s, 0)
    xm = shared(h, c, "x_m", lambda: h.pos("x_m"))
    over = h.nonneg("excess" + s)       # sum of log(x / x_m)
    h.assume(h.implies(h.equal(n, 0), h.equal(over, 0)))
    return {"n": n, "ln_x_total": over + n * h.log(xm), "x_m": xm}


def d_weibull(h, s, c):
    n = h.count("n" + s, 0)
    return {"n": n, "x_beta_total": positive_sum(h, "x_beta_total" + s, n)}


def product(h, name, n, hi=None):
    """the product of n positive observations"""
    p = h.pos(name) if hi is None else h.prob1(name)
    h.assume(h.implies(h.equal(n, 0), h.equal(p, 1)))
    return p


def d_gamma(h, s, c):
    n = h.count("n" + s, 0)
    return {"x_total": positive_sum(h, "x_total" + s, n), "x_prod": product(h, "x_prod" + s, n), "n": n}


def d_gamma_known_rate(h, s, c):
    n = h.count("n" + s, 0)
    return {"x_prod": product(h, "x_prod" + s, n), "n": n, "beta": shared(h, c, "beta", lambda: h.pos("beta"))}


def d_beta(h, s, c):
    n = h.count("n" + s, 0)
    return {"x_prod": product(h, "x_prod" + s, n, 1), "one_minus_x_prod": product(h, "one_minus_x_prod" + s, n, 1), "n": n}


def d_vm_concentration(h, s, c):
    n = h.count("n" + s, 0)
    co, si = h.real("cos_total" + s), h.real("sin_total" + s)
    h.assume(h.le(co * co + si * si, n * n))
    return {"cos_total": co, "sin_total": si, "n": n, "kappa": shared(h, c, "kappa", lambda: h.pos("kappa"))}


def d_vm_direction(h, s, c):
    n = h.count("n" + s, 0)
    r = h.real("centered_cos_total" + s)
    h.assume(h.and_(h.le(r, n), h.le(-n, r)))
    return {"centered_cos_total": r, "n": n}


# ------------------------------------------------------------------------------------------------ likelihoods
def ll_trials(h, d, t):
    return d["x"] * h.log(t["p"]) + (d["n"] - d["x"]) * h.log(1 - t["p"])


def ll_negbin(h, d, t):
    return d["r"] * d["n"] * h.log(t["p"]) + d["x"] * h.log(1 - t["p"])


def ll_geometric(one_start):
    def f(h, d, t):
        return d["n"] * h.log(t["p"]) + (d["x_total"] - (d["n"] if one_start else 0)) * h.log(1 - t["p"])
    return f


def ll_poisson(h, d, t):
    return d["x_total"] * h.log(t["t"]) - d["n"] * t["t"]


def ll_exponential(h, d, t):
    return d["n"] * h.log(t["t"]) - d["x_total"] * t["t"]


def ll_gamma_shape(h, d, t):
    return d["n"] * d["alpha"] * h.log(t["t"]) - d["x_total"] * t["t"]


def ll_inverse_gamma(h, d, t):
    return d["n"] * d["alpha"] * h.log(t["t"]) - d["reciprocal_x_total"] * t["t"]


def ll_normal_var(h, d, t):
    return -(d["n"] * t["t"] ** 2 - 2 * t["t"] * d["x_total"]) / (2 * d["var"])


def ll_normal_prec(h, d, t):
    return -(d["n"] * t["t"] ** 2 - 2 * t["t"] * d["x_total"]) * d["precision"] / 2


def ll_normal_mean(h, d, t):
    return -d["n"] / 2 * h.log(t["t"]) - (d["x2_total"] - 2 * d["mu"] * d["x_total"] + d["n"] * d["mu"] ** 2) / (2 * t["t"])


def ll_moments(a, b):
    def f(h, d, t):
        return -d["n"] / 2 * h.log(t["s2"]) - (d[b] - 2 * t["mu"] * d[a] + d["n"] * t["mu"] ** 2) / (2 * t["s2"])
    return f


def ll_uniform(h, d, t):
    return -d["n"] * h.log(t["t"])


def ll_pareto(h, d, t):
    return d["n"] * h.log(t["t"]) + d["n"] * t["t"] * h.log(d["x_m"]) - (t["t"] + 1) * d["ln_x_total"]


def ll_weibull(h, d, t):
    return -d["n"] * h.log(t["t"]) - d["x_beta_total"] / t["t"]


S, C = "sum", "const"
COUNT_MODELS = [
    Model("bernoulli_beta", ["Beta"], {"x": S}, lambda h, s, c: {"x": h.count("x" + s, 0, 1)},
          lambda h, d, t: d["x"] * h.log(t["p"]) + (1 - d["x"]) * h.log(1 - t["p"]), theta_prob, empty=False),
    Model("binomial_beta", ["Beta"], {"n": S, "x": S}, d_binomial, ll_trials, theta_prob),
    Model("negative_binomial_beta", ["Beta"], {"r": C, "n": S, "x": S}, d_negbin, ll_negbin, theta_prob),
    Model("geometric_beta", ["Beta"], {"x_total": S, "n": S}, d_geometric(True), ll_geometric(True), theta_prob),
    Model("geometric_beta", ["Beta"], {"x_total": S, "n": S}, d_geometric(True), ll_geometric(True), theta_prob,
          extra={"one_start": True}),
    Model("geometric_beta", ["Beta"], {"x_total": S, "n": S}, d_geometric(False), ll_geometric(False), theta_prob,
          extra={"one_start": False}),
    Model("geometric_beta", ["Beta"], {"x_total": S, "n": S}, d_geometric(True), ll_geometric(True), theta_prob,
          extra={"one_start": np.True_}),
    Model("geometric_beta", ["Beta"], {"x_total": S, "n": S}, d_geometric(False), ll_geometric(False), theta_prob,
          extra={"one_start": np.False_}),
    Model("poisson_gamma", ["Gamma"], {"x_total": S, "n": S}, d_counts, ll_poisson, theta_pos),
]
HYPER = Model("hypergeometric_beta_binomial", ["BetaBinomial"], {"x_total": S, "n": S}, d_hyper, None, None)
CONTINUOUS_MODELS = [
    Model("exponential_gamma", ["Gamma"], {"x_total": S, "n": S}, d_exponential, ll_exponential, theta_pos),
    Model("gamma_known_shape", ["Gamma"], {"x_total": S, "n": S, "alpha": C}, d_gamma_known_shape, ll_gamma_shape, theta_pos),
    Model("inverse_gamma_known_rate", ["Gamma"], {"reciprocal_x_total": S, "n": S, "alpha": C}, d_inverse_gamma,
          ll_inverse_gamma, theta_pos),
    Model("normal_known_variance", ["Normal"], {"x_total": S, "n": S, "var": C}, d_normal("var", lambda h, k: h.pos(k)),
          ll_normal_var, theta_real),
    Model("normal_known_precision", ["Normal"], {"x_total": S, "n": S, "precision": C},
          d_normal("precision", lambda h, k: h.pos(k)), ll_normal_prec, theta_real),
    Model("normal_known_mean", ["InverseGamma", "ScaledInverseChiSquared"], {"x_total": S, "x2_total": S, "n": S, "mu": C},
          d_normal_mean, ll_normal_mean, theta_pos),
    Model("normal", ["NormalInverseGamma", "NormalGamma"], {"x_total": S, "x2_total": S, "n": S},
          d_moments("x_total", "x2_total"), ll_moments("x_total", "x2_total"), theta_joint),
    Model("normal_normal_inverse_gamma", ["NormalInverseGamma"], {"x_total": S, "x2_total": S, "n": S},
          d_moments("x_total", "x2_total"), ll_moments("x_total", "x2_total"), theta_joint),
    Model("log_normal", ["NormalInverseGamma", "NormalGamma"], {"ln_x_total": S, "ln_x2_total": S, "n": S},
          d_moments("ln_x_total", "ln_x2_total"), ll_moments("ln_x_total", "ln_x2_total"), theta_joint),
    Model("uniform_pareto", ["Pareto"], {"x_max": "max", "n": S}, d_uniform, ll_uniform, theta_pos,
          lambda h, d, t: h.le(d["x_max"], t["t"])),
    Model("pareto_gamma", ["Gamma"], {"n": S, "ln_x_total": S, "x_m": C}, d_pareto, ll_pareto, theta_pos),
    Model("weibull_inverse_gamma_known_shape", ["InverseGamma"], {"n": S, "x_beta_total": S}, d_weibull, ll_weibull, theta_pos),
]
# unnormalised families: how the object reports its log density, and the likelihood
PROPORTIONAL_MODELS = [
    Model("gamma", ["GammaProportional"], {"x_total": S, "x_prod": "prod", "n": S}, d_gamma,
          lambda h, d, t: (t["a"] - 1) * h.log(d["x_prod"]) - t["b"] * d["x_total"] - d["n"] * h.lgamma(t["a"])
          + d["n"] * t["a"] * h.log(t["b"]), theta_two),
    Model("gamma_known_rate", ["GammaKnownRateProportional"], {"x_prod": "prod", "n": S, "beta": C}, d_gamma_known_rate,
          lambda h, d, t: (t["a"] - 1) * h.log(d["x_prod"]) - d["n"] * h.lgamma(t["a"])
          + d["n"] * t["a"] * h.log(d["beta"]), lambda h, k: {"a": h.pos("a" + k, ghost=True)}),
    Model("beta", ["BetaProportional"], {"x_prod": "prod", "one_minus_x_prod": "prod", "n": S}, d_beta,
          lambda h, d, t: (t["a"] - 1) * h.log(d["x_prod"]) + (t["b"] - 1) * h.log(d["one_minus_x_prod"])
          - d["n"] * (h.lgamma(t["a"]) + h.lgamma(t["b"]) - h.lgamma(t["a"] + t["b"])), theta_two),
    Model("von_mises_known_concentration", ["VonMisesKnownConcentration"],
          {"cos_total": S, "sin_total": S, "n": S, "kappa": C}, d_vm_concentration,
          lambda h, d, t: d["kappa"] * (h.cos(t["t"]) * d["cos_total"] + h.sin(t["t"]) * d["sin_total"]), theta_real),
    Model("von_mises_known_direction", ["VonMisesKnownDirectionProportional"], {"centered_cos_total": S, "n": S},
          d_vm_direction, lambda h, d, t: t["t"] * d["centered_cos_total"] - d["n"] * h.log(h.i0(t["t"])), theta_pos),
]


def reported(h, o, d, t):
    """the log density that an unnormalised family reports"""
    cls = h.cls(o)
    if cls in ("GammaProportional", "BetaProportional"):
        return h.call(o.approx_log_likelihood, alpha=t["a"], beta=t["b"])
    if cls == "GammaKnownRateProportional":
        return h.call(o.approx_log_likelihood, alpha=t["a"], beta=d["beta"])
    if cls == "VonMisesKnownConcentration":
        return h.call(o.log_likelihood, mu=t["t"])
    if cls == "VonMisesKnownDirectionProportional":
        return h.call(o.approx_log_likelihood, kappa=t["t"])
    raise KeyError(cls)


def variant(m):
    return "".join(f"[{k}={v!r}]" for k, v in m.extra.items())
