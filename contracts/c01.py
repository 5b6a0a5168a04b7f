"""C01: posteriors of count-data models"""
from engine.registry import add, contract
from engine.spec import LAWS
from .common import COUNT_MODELS, HYPER, prior
from .posterior import register

register("C01", COUNT_MODELS)


# Dirichlet: the density at p is prod_k p_k^(alpha_k - 1), the likelihood prod_k p_k^(x_k).  The functions log p_k are
# linearly independent modulo constants on the open simplex, so posterior proportional to prior times likelihood is
# exactly alpha'_k = alpha_k + x_k for every category k.
def dirichlet(fn, form, data_form):
    def f(h):
        k = h.axis("K", 1)
        al = h.seq("alpha", k, form, "pos") if form != "array" else h.arr("alpha", k, dom="pos")
        x = h.seq("x", k, data_form, "count") if data_form != "array" else h.arr("x", k, dom="count")
        p = h.make("Dirichlet", alpha=al)
        q = h.call(getattr(h.M, fn), x=x, prior=p)
        h.check_class("posterior is Dirichlet", q, "Dirichlet")
        h.vec_sum("each category's count is added to its weight", q.alpha, al, x)
    return f


def dirichlet_rows(fn, form, data_form):
    """several priors at once: rows of weights, rows of counts"""
    def f(h):
        r, k = h.axis("R", 1), h.axis("K", 1)
        al = h.arr("alpha", r, k, dom="pos") if form == "array" else h.rows("alpha", r, k, form, "pos")
        x = h.arr("x", r, k, dom="count") if data_form == "array" else h.rows("x", r, k, data_form, "count")
        p = h.make("Dirichlet", alpha=al)
        q = h.call(getattr(h.M, fn), x=x, prior=p)
        h.check_class("posterior is Dirichlet", q, "Dirichlet")
        h.vec_sum("each category's count is added to its weight", q.alpha, al, x, 2)
    return f


for fn_ in ("categorical_dirichlet", "multinomial_dirichlet"):
    for a, b in (("array", "array"), ("list", "list"), ("list", "array"), ("array", "list"), ("tuple", "list"),
                 ("list", "tuple"), ("tuple", "tuple"), ("tuple", "array"), ("array", "tuple")):
        add("C01", f"{fn_}[{a} weights, {b} counts]", dirichlet(fn_, a, b))
    for a, b in (("array", "array"), ("list", "list")):
        add("C01", f"{fn_}[rows of {a} weights, {b} counts]", dirichlet_rows(fn_, a, b))


@contract("C01", "get_categorical_dirichlet_posterior_params")
def categorical_params(h):
    params_(h, h.M.get_categorical_dirichlet_posterior_params)


@contract("C01", "get_multi_categorical_dirichlet_posterior_params")
def multi_categorical_params(h):
    params_(h, h.M.get_multi_categorical_dirichlet_posterior_params)


def params_(h, fn):
    k = h.axis("K", 1)
    al, x = h.arr("alpha", k, dom="pos"), h.arr("x", k, dom="count")
    h.vec_sum("each category's count is added to its weight", h.call(fn, alpha_prior=al, x=x), al, x)


@contract("C01", "hypergeometric_beta_binomial")
def hyper(h):
    """K good items among N, K ~ BetaBinomial(N, a, b); n drawn without replacement, x of them good"""
    p = prior(h, "BetaBinomial")
    d = HYPER.data(h, "", {})
    N = p.n
    h.assume(h.le(d["n"], N))
    ks = [h.count(k, 0, N, ghost=True) for k in ("K_1", "K_2")]
    for k in ks:     # values of K compatible with the data
        h.assume(h.and_(h.le(d["x_total"], k), h.le(k, N - d["n"] + d["x_total"])))
    q = h.call(h.M.hypergeometric_beta_binomial, prior=p, **d)
    h.check_class("posterior is BetaBinomial", q, "BetaBinomial")
    h.recorded("recorded formula", h.and_(h.equal(q.n, N), h.equal(q.alpha, p.alpha + d["x_total"]),
                                          h.equal(q.beta, p.beta + (N - d["x_total"]))))

    def choose(n, k):
        return h.lgamma(n + 1) - h.lgamma(k + 1) - h.lgamma(n - k + 1)

    def ll(k):
        return choose(k, d["x_total"]) + choose(N - k, d["n"] - d["x_total"])
    ld = LAWS["BetaBinomial"].logd
    h.eq("posterior density is proportional to prior times likelihood", ld(h, q, ks[0]) - ld(h, q, ks[1]),
         ld(h, p, ks[0]) - ld(h, p, ks[1]) + ll(ks[0]) - ll(ks[1]))
