"""C15: sampling draws from the joint law, with independent stages, for any random state.

The samplers run on a ghost random stream: every draw is a fresh token (stream, position, loop iteration) and the value
drawn is a fresh symbol.  Proved of each sampler: the first stage is a draw of the variance's own marginal law; the second
is a draw of the normal law given exactly the draw it is paired with; no two draws share randomness; all of it comes from
the given source; the requested number of samples is returned; the same seed gives the same samples and another call with
a generator draws anew."""
import numpy as np

from engine.registry import add
from .c09 import params

SOURCES = ["none", "seed", "numpy seed", "Generator", "RandomState"]


def nig1(h):
    o = h.make("NormalInverseGamma", mu=h.real("mu", scalar=True), alpha=h.pos("alpha", scalar=True),
               beta=h.pos("beta", scalar=True), nu=h.pos("nu", scalar=True))

    def variance(l, v, n):
        h.drawn(l, v, "invgamma", n, a=o.alpha, scale=o.beta)

    def mean(l, m, v, n):
        h.drawn(l, m, "norm", n, loc=o.mu, scale=h.sqrt(v / o.nu))
    return o, variance, mean


def ng(h):
    o = h.make("NormalGamma", mu=h.real("mu", scalar=True), lam=h.pos("lam", scalar=True), alpha=h.pos("alpha", scalar=True),
               beta=h.pos("beta", scalar=True))

    def variance(l, v, n):      # the precision is Gamma(alpha, rate beta)
        h.drawn(l, v, "invgamma", n, a=o.alpha, scale=o.beta)

    def mean(l, m, v, n):
        h.drawn(l, m, "norm", n, loc=o.mu, scale=h.sqrt(v / o.lam))
    return o, variance, mean


def nigd(h):
    d = h.dim("d", 2)
    o = h.make("NormalInverseGamma", mu=h.vec("mu", d), delta_inverse=h.spd("delta_inverse", d),
               alpha=h.pos("alpha", scalar=True), beta=h.pos("beta", scalar=True))

    def variance(l, v, n):
        h.drawn(l, v, "invgamma", n, a=o.alpha, scale=o.beta)

    def mean(l, m, v, n):
        h.drawn_mvn(l, m, n, o.mu, lambda s: s * o.delta_inverse, v)
    return o, variance, mean


def nw(h):
    d = h.dim("d", 2)
    nu = h.dimnum(d) - 1 + h.pos("extra", scalar=True, lo=2)
    o = h.make("NormalWishart", mu=h.vec("mu", d), lam=h.pos("lam", scalar=True), W=h.spd("W", d), nu=nu)

    def variance(l, v, n):
        h.drawn_wishart(l, v, n, "wishart", o.nu, o.W, inverted=True)

    def mean(l, m, v, n):
        h.drawn_mvn(l, m, n, o.mu, lambda s: s / o.lam, v)
    return o, variance, mean


def niw(h):
    d = h.dim("d", 2)
    nu = h.dimnum(d) - 1 + h.pos("extra", scalar=True, lo=2)
    o = h.make("NormalInverseWishart", mu=h.vec("mu", d), kappa=h.pos("kappa", scalar=True), nu=nu, psi=h.spd("psi", d))

    def variance(l, v, n):
        h.drawn_wishart(l, v, n, "invwishart", o.nu, o.psi)

    def mean(l, m, v, n):
        h.drawn_mvn(l, m, n, o.mu, lambda s: s / o.kappa, v)
    return o, variance, mean


def one_coordinate(cls):
    """vectors and matrices of one coordinate, of which scipy's samplers drop the axes"""
    def make(h):
        one = h.one()
        mu, m = h.arr("mu", one), h.arr("matrix", one, one, dom="pos")
        s = h.entry(m)
        if cls == "NormalInverseGamma":
            o = h.make(cls, mu=mu, delta_inverse=m, alpha=h.pos("alpha", scalar=True), beta=h.pos("beta", scalar=True))
            a, b, each = o.alpha, o.beta, lambda v: v * s
        elif cls == "NormalWishart":
            o = h.make(cls, mu=mu, lam=h.pos("lam", scalar=True), W=m, nu=h.pos("nu", scalar=True, lo=1))
            a, b, each = o.nu / 2, 1 / (2 * s), lambda v: v / o.lam
        else:
            o = h.make(cls, mu=mu, kappa=h.pos("kappa", scalar=True), psi=m, nu=h.pos("nu", scalar=True, lo=1))
            a, b, each = o.nu / 2, s / 2, lambda v: v / o.kappa

        def variance(l, v, n):
            h.drawn(l, h.entries(v), "invgamma", n, a=a, scale=b)

        def mean(l, m, v, n):
            h.drawn(l, h.entries(m), "norm", n, loc=h.entry(mu), scale=h.sqrt(each(h.entries(v))))
        return o, variance, mean
    return make


JOINT = {"NormalInverseGamma, one dimension": (nig1, ("sample_mean", "sample_beta")),
         "NormalInverseGamma, more dimensions": (nigd, ("sample_mean", "sample_beta")),
         "NormalGamma": (ng, ("sample_mean", "sample_beta")),
         "NormalWishart": (nw, ("sample_mean",)), "NormalInverseWishart": (niw, ("sample_mean",)),
         **{f"{c}, one coordinate": (one_coordinate(c), ("sample_mean", *ms)) for c, *ms in
            (("NormalInverseGamma", "sample_beta"), ("NormalWishart",), ("NormalInverseWishart",))}}


def first(make, src):
    def f(h):
        o, variance, _ = make(h)
        n = h.nsamples("size")
        for i in range(2):
            v = h.sampled("variance", src, h.get(o, "sample_variance"), size=n, random_state=h.rng_(src))
            if not i:
                variance("variance", v, n)
        h.repeated("variance", src)
    return f


def both(make, method, src):
    def f(h):
        o, variance, mean = make(h)
        n = h.nsamples("size")
        for i in range(2):
            r = h.sampled("pairs", src, h.get(o, method), size=n, return_variance=True, random_state=h.rng_(src))
            if not i:
                m, v = r
                variance("variance", v, n)
                mean("mean", m, v, n)
        h.repeated("pairs", src)
    return f


def alone(make, method, src):
    """without the variances the means are the same"""
    def f(h):
        o, variance, mean = make(h)
        n = h.nsamples("size")
        m, _ = h.sampled("means", src, h.get(o, method), size=n, return_variance=True, random_state=h.rng_(src))
        h.sampled("means", src, h.get(o, method), size=n, random_state=h.rng_(src))
        h.alone("means")
        h.repeated("means", src)
    return f


for name_, (make_, methods_) in JOINT.items():
    for s_ in SOURCES:
        add("C15", f"{name_}: sample_variance, random state {s_}", first(make_, s_), trials=0.15)
        for m_ in methods_:
            add("C15", f"{name_}: {m_}, random state {s_}", both(make_, m_, s_), trials=0.15)
    for m_ in methods_:
        for s_ in ("seed", "numpy seed"):
            add("C15", f"{name_}: {m_} without variances, random state {s_}", alone(make_, m_, s_), trials=0.15)


def size_left_out(src):
    """NormalWishart's sample size defaults to one sample"""
    def f(h):
        o, variance, mean = nw(h)
        for i in range(2):
            v = h.sampled("variance", src, h.get(o, "sample_variance"), random_state=h.rng_(src))
            if not i:
                variance("variance", v, 1)
        h.repeated("variance", src)
        for i in range(2):
            r = h.sampled("pairs", src, h.get(o, "sample_mean"), return_variance=True, random_state=h.rng_(src))
            if not i:
                m, v = r
                variance("variance of the pair", v, 1)
                mean("mean of the pair", m, v, 1)
        h.repeated("pairs", src)
    return f


for s_ in SOURCES:
    add("C15", f"NormalWishart: one sample unless told otherwise, random state {s_}", size_left_out(s_), trials=0.05)


def mixture(cls, extra, src, layout):
    """the samplers of the two laws that the package defines: mixing parameter, then outcome"""
    def f(h):
        arrays = layout == "array parameters"
        if arrays:
            k = h.axis("k")
            o = h.make(cls, **{n: h.arr(n, k, dom="pos") for n in
                               (("alpha", "beta") if cls == "BetaGeometric" else ("alpha", "beta", "lam"))}, **extra)
        else:
            o = h.make(cls, **params(h, cls, scalar=True), **extra)
        n = h.nsamples("size") if layout == "size given" else None
        q = h.get(o, "dist")
        for i in range(2):
            kw = {} if n is None else dict(size=n)
            x = h.sampled("samples", src, q.rvs, random_state=h.rng_(src), **kw)
            if i:
                continue
            if cls == "BetaGeometric":
                h.drawn("samples", x, "geom of beta", n, a=o.alpha, b=o.beta, loc=0 if extra.get("one_start", True) else -1)
            else:
                h.drawn("samples", x, "betaprime", n, a=o.alpha, b=o.beta, scale=o.lam)
            if arrays:
                h.shape_is("one sample for each parameter", x, k)
            elif n is None:
                h.shape_is("a single sample", x)
        h.repeated("samples", src)
    return f


for c_, x_ in [("BetaGeometric", {}), ("BetaGeometric", {"one_start": True}), ("BetaGeometric", {"one_start": False}),
               ("BetaGeometric", {"one_start": np.False_}),
               ("CompoundGamma", {})]:
    t_ = c_ + "".join(f"[{k}={v!r}]" for k, v in x_.items())
    for s_ in SOURCES:
        for l_ in ("size given", "default size", "array parameters"):
            add("C15", f"{t_}.dist.rvs, {l_}, random state {s_}", mixture(c_, x_, s_, l_), trials=0.15)


def dirichlet(rows, src):
    def f(h):
        k = h.axis("k", 2)
        alpha = h.arr("alpha", h.axis("r"), k, dom="pos") if rows else h.arr("alpha", k, dom="pos")
        o = h.make("Dirichlet", alpha=alpha)
        q = h.get(o, "dist")
        n = h.nsamples("size")
        for i in range(2):
            x = h.sampled("samples", src, q.rvs, size=n, random_state=h.rng_(src))
            if not i:
                h.drawn_dirichlet("samples", x, n, alpha, rows)
        h.repeated("samples", src)
    return f


for r_ in (False, True):
    for s_ in SOURCES:
        add("C15", f"Dirichlet.dist.rvs, {'a table' if r_ else 'a vector'} of concentrations, random state {s_}", dirichlet(r_, s_),
            trials=0.15)
