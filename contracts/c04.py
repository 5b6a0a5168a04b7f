"""C04: unnormalised families report prior plus log likelihood"""
from engine.registry import add
from .common import PROPORTIONAL_MODELS, prior, reported


def mk(m, cls):
    def f(h):
        p = prior(h, cls)
        d = m.data(h, "", {})
        t, u = m.theta(h, "_1"), m.theta(h, "_2")
        q = h.call(getattr(h.M, m.fn), prior=p, **d)
        h.check_class(f"posterior is {cls}", q, cls)
        post = reported(h, q, d, t) - reported(h, q, d, u)
        pri = reported(h, p, d, t) - reported(h, p, d, u)
        h.eq("the reported log density changes by the log likelihood", post, pri + m.ll(h, d, t) - m.ll(h, d, u))
    return f


for m_ in PROPORTIONAL_MODELS:
    for c_ in m_.priors:
        add("C04", m_.fn, mk(m_, c_))
