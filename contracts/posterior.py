from engine.registry import add
from .common import log_density, prior, support, variant


def posterior_contract(m, cls):
    def f(h):
        p = prior(h, cls)
        d = m.data(h, "", {})
        t, u = m.theta(h, "_1"), m.theta(h, "_2")
        for v in (t, u):
            h.assume(support(h, p, v))
        q = h.call(getattr(h.M, m.fn), prior=p, **d, **m.extra)
        h.check_class(f"posterior family is that of the prior ({cls})", q, cls)
        h.check("support of the posterior is the prior's where the likelihood is positive",
                h.iff(support(h, q, t), m.lik_support(h, d, t)))
        h.assume(h.and_(m.lik_support(h, d, t), m.lik_support(h, d, u)))
        post = log_density(h, q, t) - log_density(h, q, u)
        pri = log_density(h, p, t) - log_density(h, p, u)
        lik = m.ll(h, d, t) - m.ll(h, d, u)
        h.eq("posterior density is proportional to prior times likelihood", post, pri + lik)
    return f


def name_of(m, cls):
    return m.fn + variant(m) + (f"<{cls}>" if len(m.priors) > 1 else "")


def register(prop, models):
    for m in models:
        for cls in m.priors:
            add(prop, name_of(m, cls), posterior_contract(m, cls))
