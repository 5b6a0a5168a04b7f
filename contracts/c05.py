"""C05: univariate predictive distributions are exact mixtures.

predictive(x) q(theta) = likelihood(x | theta) p(theta) for all theta, with q a normalised density of the conjugate
family (the exact posterior after x, written down here, not taken from the code): integrating over theta gives
predictive(x) = integral of likelihood times p.
"""
import numpy as np

from engine.registry import add, contract
from engine.spec import LAWS, choose, normal_gamma, normal_inverse_gamma
from .common import log_density, prior, support, theta_joint, theta_pos, theta_prob, theta_real

# the posteriors have total one, and the identity is the mixture integral: lean/Laws.lean
LEAN = ["Rules.lean", "Laws.lean"]


class O:
    """parameters of a law, by name"""

    def __init__(self, **k):
        self.__dict__.update(k)


class Pred:
    def __init__(self, name, fn, dist, out, args, outcome, lik, lik_supp, witness, theta):
        self.name, self.fn, self.dist, self.out, self.args = name, fn, dist, out, args
        self.outcome, self.lik, self.lik_supp, self.witness, self.theta = outcome, lik, lik_supp, witness, theta


def beta_w(da, db):
    return lambda h, p, d, x, t: LAWS["Beta"].logd(h, O(alpha=p.alpha + da(d, x), beta=p.beta + db(d, x)), t["p"])


def gamma_w(da, db):
    return lambda h, p, d, x, t: LAWS["Gamma"].logd(h, O(alpha=p.alpha + da(d, x), beta=p.beta + db(d, x)), t["t"])


def start(d):
    return 1 if d.get("one_start", True) else 0


def lik(law, **ps):
    """likelihood as a documented law whose parameters are functions of (data, theta)"""
    return (lambda h, d, t, x: LAWS[law].logd(h, O(**{k: f(h, d, t) for k, f in ps.items()}), x),
            lambda h, d, t, x: LAWS[law].supp(h, O(**{k: f(h, d, t) for k, f in ps.items()}), x))


def normal_w(var):
    def f(h, p, d, x, t):
        v = var(d)
        prec = 1 / p.sigma ** 2 + 1 / v
        m = (p.mu / p.sigma ** 2 + x / v) / prec
        # log density of N(m, 1/prec) at t
        return h.log(prec) / 2 - h.log(2 * h.pi) / 2 - prec * (t["t"] - m) ** 2 / 2
    return f


def normal_lik(mu, var):
    return (lambda h, d, t, x: -h.log(var(d, t)) / 2 - h.log(2 * h.pi) / 2 - (x - mu(d, t)) ** 2 / (2 * var(d, t)),
            lambda h, d, t, x: h.true)


def known_mean_w(h, p, d, x, t):
    if h.cls(p) == "InverseGamma":
        a, b = p.alpha, p.beta
    else:
        a, b = p.nu / 2, p.nu * p.sigma2 / 2
    return LAWS["InverseGamma"].logd(h, O(alpha=a + h.rat(1, 2), beta=b + (x - d["mu"]) ** 2 / 2), t["t"])


def normal_joint_w(h, p, d, x, t):
    gam = h.cls(p) == "NormalGamma"
    nu = p.lam if gam else p.nu
    o = O(mu=(nu * p.mu + x) / (nu + 1), nu=nu + 1, lam=nu + 1, alpha=p.alpha + h.rat(1, 2),
          beta=p.beta + nu * (x - p.mu) ** 2 / (2 * (nu + 1)))
    if gam:
        return normal_gamma(h, o, t["mu"], 1 / t["s2"]) - 2 * h.log(t["s2"])
    return normal_inverse_gamma(h, o, t["mu"], t["s2"])


def cnt(h):
    return h.count("x", 0, ghost=True)


def anyint(h):
    return h.int("x", ghost=True)


def real(h):
    return h.real("x", ghost=True)


bern = lik("Binomial", n=lambda h, d, t: h.num(1), p=lambda h, d, t: t["p"])
bino = lik("Binomial", n=lambda h, d, t: d["n"], p=lambda h, d, t: t["p"])
nega = lik("NegativeBinomial", n=lambda h, d, t: d["r"], p=lambda h, d, t: t["p"])
pois = lik("Poisson", lam=lambda h, d, t: d.get("n", 1) * t["t"])
expo = lik("Exponential", lam=lambda h, d, t: t["t"])
gamm = lik("Gamma", alpha=lambda h, d, t: d["alpha"], beta=lambda h, d, t: t["t"])


def geom(d_):
    o = d_.get("one_start", True)
    return (lambda h, d, t, x: LAWS["Geometric"].logd(h, O(p=t["p"], one_start=o), x),
            lambda h, d, t, x: LAWS["Geometric"].supp(h, O(p=t["p"], one_start=o), x))


none = lambda h: {}   # noqa: E731
PREDS = [
    Pred("bernoulli_beta_predictive", "bernoulli_beta_predictive", ["Beta"], "BetaBinomial", none, anyint, *bern,
         beta_w(lambda d, x: x, lambda d, x: 1 - x), theta_prob),
    Pred("binomial_beta_predictive", "binomial_beta_predictive", ["Beta"], "BetaBinomial",
         lambda h: {"n": h.count("n", 0)}, anyint, *bino, beta_w(lambda d, x: x, lambda d, x: d["n"] - x), theta_prob),
    Pred("negative_binomial_beta_predictive", "negative_binomial_beta_predictive", ["Beta"], "BetaNegativeBinomial",
         lambda h: {"r": h.count("r", 1)}, anyint, *nega, beta_w(lambda d, x: d["r"], lambda d, x: x), theta_prob),
    Pred("poisson_gamma_predictive", "poisson_gamma_predictive", ["Gamma"], "NegativeBinomial", none, anyint, *pois,
         gamma_w(lambda d, x: x, lambda d, x: 1), theta_pos),
    Pred("poisson_gamma_predictive[n]", "poisson_gamma_predictive", ["Gamma"], "NegativeBinomial",
         lambda h: {"n": h.pos("n")}, anyint, *pois, gamma_w(lambda d, x: x, lambda d, x: d["n"]), theta_pos),
    Pred("exponential_gamma_predictive", "exponential_gamma_predictive", ["Gamma"], "Lomax", none, real, *expo,
         gamma_w(lambda d, x: 1, lambda d, x: x), theta_pos),
    Pred("gamma_known_shape_predictive", "gamma_known_shape_predictive", ["Gamma"], "CompoundGamma",
         lambda h: {"alpha": h.pos("alpha")}, real, *gamm, gamma_w(lambda d, x: d["alpha"], lambda d, x: x), theta_pos),
    Pred("normal_known_variance_predictive", "normal_known_variance_predictive", ["Normal"], "Normal",
         lambda h: {"var": h.pos("var")}, real, *normal_lik(lambda d, t: t["t"], lambda d, t: d["var"]),
         normal_w(lambda d: d["var"]), theta_real),
    Pred("normal_known_precision_predictive", "normal_known_precision_predictive", ["Normal"], "Normal",
         lambda h: {"precision": h.pos("precision")}, real,
         *normal_lik(lambda d, t: t["t"], lambda d, t: 1 / d["precision"]), normal_w(lambda d: 1 / d["precision"]), theta_real),
    Pred("normal_known_mean_predictive", "normal_known_mean_predictive", ["InverseGamma", "ScaledInverseChiSquared"],
         "StudentT", lambda h: {"mu": h.real("mu")}, real, *normal_lik(lambda d, t: d["mu"], lambda d, t: t["t"]),
         known_mean_w, theta_pos),
    Pred("normal_predictive", "normal_predictive", ["NormalInverseGamma", "NormalGamma"], "StudentT", none, real,
         *normal_lik(lambda d, t: t["mu"], lambda d, t: t["s2"]), normal_joint_w, theta_joint),
    Pred("normal_normal_inverse_gamma_predictive", "normal_normal_inverse_gamma_predictive", ["NormalInverseGamma"],
         "StudentT", none, real, *normal_lik(lambda d, t: t["mu"], lambda d, t: t["s2"]), normal_joint_w, theta_joint),
]
for o_ in (None, True, False, np.True_, np.False_):
    d_ = {} if o_ is None else {"one_start": o_}
    PREDS.append(Pred("geometric_beta_predictive" + ("" if o_ is None else f"[one_start={o_!r}]"), "geometric_beta_predictive",
                      ["Beta"], "BetaGeometric", lambda h, d_=d_: dict(d_), anyint, *geom(d_),
                      beta_w(lambda d, x: 1, lambda d, x: x - start(d)), theta_prob))


def mk(m, cls):
    def f(h):
        p = prior(h, cls)
        d = m.args(h)
        x = m.outcome(h)
        t = m.theta(h, "_1")
        h.assume(support(h, p, t))
        q = h.call(getattr(h.M, m.fn), distribution=p, **d)
        h.check_class(f"predictive family is {m.out}", q, m.out)
        law = LAWS[m.out]
        inside = m.lik_supp(h, d, t, x)
        h.check("support of the predictive is that of the likelihood", h.or_(h.iff(law.supp(h, q, x), inside), h.equal(x, 0))
                if m.out == "CompoundGamma" else h.iff(law.supp(h, q, x), inside))
        h.assume(inside)
        h.eq("predictive times posterior is likelihood times prior", law.logd(h, q, x) + m.witness(h, p, d, x, t),
             m.lik(h, d, t, x) + log_density(h, p, t))
    return f


for m_ in PREDS:
    for c_ in m_.dist:
        add("C05", m_.name + (f"<{c_}>" if len(m_.dist) > 1 else ""), mk(m_, c_))


# categories: the predictive of n draws is DirichletMultinomial(n, alpha) with the distribution's own weights; that
# this law is the mixture is shown by the same identity, category by category, plus the part free of the category
def dm(fn, form, with_n):
    def f(h):
        k = h.axis("K", 1)
        al = h.seq("alpha", k, form, "pos") if form != "array" else h.arr("alpha", k, dom="pos")
        p = h.make("Dirichlet", alpha=al)
        d = {"n": h.count("n", 0, scalar=True)} if with_n else {}
        q = h.call(getattr(h.M, fn), distribution=p, **d)
        h.check_class("predictive is DirichletMultinomial", q, "DirichletMultinomial")
        h.eq("number of draws", q.n, d.get("n", 1))
        h.vec_eq("weights are the distribution's", q.alpha, al)
    return f


for fn_ in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
    for form_ in ("array", "list"):
        for w_ in (False, True):
            add("C05", f"{fn_}[{form_}{', n' if w_ else ''}]", dm(fn_, form_, w_))


@contract("C05", "lemma: DirichletMultinomial is the mixture of multinomials")
def dm_lemma(h):
    """log DM(x) + log Dirichlet(alpha + x)(p) = log multinomial(x | p) + log Dirichlet(alpha)(p): the terms of one
    category, and the terms free of the category (A = sum alpha, n = sum x, so sum (alpha + x) = A + n)"""
    a, x, p = h.pos("alpha_k"), h.count("x_k", 0), h.prob("p_k")
    A, n = h.pos("A"), h.count("n", 0)
    h.eq("one category", (h.lgamma(a + x) - h.lgamma(a) - h.lgamma(x + 1)) + ((a + x - 1) * h.log(p) - h.lgamma(a + x)),
         (x * h.log(p) - h.lgamma(x + 1)) + ((a - 1) * h.log(p) - h.lgamma(a)))
    h.eq("free of the category", h.lgamma(n + 1) + h.lgamma(A) - h.lgamma(A + n) + h.lgamma(A + n), h.lgamma(n + 1) + h.lgamma(A))
