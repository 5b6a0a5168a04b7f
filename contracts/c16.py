"""C16: plots show the true curve over the requested bounds.

The plotting methods run on axes that record what is drawn (the contract of Axes.plot: one curve for each column).  Proved,
for all parameters, bounds and numbers of settings: exactly one curve for each parameter setting; its x runs from the lower
to the upper bound (every integer for discrete laws); at each of its points y is the law's own function there (rescaled by
its total over the bounds in a conditional plot); the axes are the given (or the current) ones and are returned; labels go
to the curves in order.  Bounds are an abstract state (lower, upper) with one contract for each operation on it."""
import numpy as np

from engine.registry import add
from .c09 import DOMS, params

CONT = ["Beta", "Exponential", "Gamma", "Normal", "Uniform", "Pareto", "InverseGamma", "StudentT", "Lomax", "CompoundGamma",
        "VonMises", "ScaledInverseChiSquared", "LogNormal", "Weibull"]
DISC = ["Binomial", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric",
        "BetaGeometric"]
NAMES = {c: [s[:-1] for s in d.split()] for c, d in DOMS.items()}
NAMES["Uniform"], NAMES["Hypergeometric"] = ["low", "width"], ["N", "k", "n"]
OPTS = {"Geometric": [{}, {"one_start": False}], "BetaGeometric": [{}, {"one_start": False}]}


def build(h, cls, layout, extra):
    """an object with bare number parameters, with one vector among them, or with vectors throughout; the vector's axis"""
    if layout == "numbers":
        return h.make(cls, **params(h, cls, scalar=True), **extra), None
    k = h.axis("k")
    with h.laid_out(k, NAMES[cls] if layout == "vectors" else {"first vector": NAMES[cls][:1], "last vector": NAMES[cls][-1:]}[layout]):
        return h.make(cls, **params(h, cls), **extra), k


def bounds(h, discrete):
    if discrete:
        lo = h.int("lower", scalar=True)
        return lo, lo + h.count("extent", 0, scalar=True)
    lo = h.real("lower", scalar=True)
    return lo, lo + h.pos("extent", scalar=True)


def fun(kind):
    def f(o, x):
        return getattr(o.dist, kind)(x)
    f.__name__ = kind
    return f


def plain(cls, method, layout, axes, extra):
    kind = method[5:]
    whole = cls in DISC

    def f(h):
        o, k = build(h, cls, layout, extra)
        lo, hi = bounds(h, whole)
        h.call(o.set_bounds, lo, hi)
        ax = h.axes(axes)
        r = h.call(getattr(o, method), **({} if ax is None else {"ax": ax}))
        h.same("the axes are returned", r, h.used_axes(ax))
        c = h.curves("curve", r, k)
        h.runs_over("x", c, lo, hi, whole)
        h.on_curve("every point is on the law's own function", c, o, fun(kind))
    return f


def conditional(cls, method, layout, extra):
    def f(h):
        o, k = build(h, cls, layout, extra)
        lo, hi = bounds(h, True)
        h.call(o.set_bounds, lo, hi)
        pmf, cdf = fun("pmf"), fun("cdf")
        total = h.total(pmf, o, lo, hi)
        for t in total:
            h.assume(h.lt(1e-9, t))
        if method == "plot_cdf":        # the running totals are positive as well then
            ftotal = h.total(cdf, o, lo, hi)
            for t in ftotal:
                h.assume(h.lt(0, t))
        ax = h.axes("given")
        r = h.call(getattr(o, method), ax=ax, conditional=True)
        h.same("the axes are returned", r, ax)
        c = h.curves("curve", r, k)
        h.runs_over("x", c, lo, hi, True)
        if method == "plot_pmf":
            h.on_curve("the mass given the bounds", c, o, pmf, total)
            return

        def given(q, x):
            return (cdf(q, x) - cdf(q, lo - 1)) / (cdf(q, hi) - cdf(q, lo - 1))
        given.__name__ = "cdf"
        for q in h.each(o):
            h.assume(h.lt(1e-9, cdf(q, hi) - cdf(q, lo - 1)))
        h.on_curve("the cumulative probability given the bounds", c, o, given)
        h.on_curve_is("recorded formula", c, o, lambda q, x: cdf(q, x) / next(t for p, t in zip(h.each(o), ftotal) if h.same_object(p, q)))
    return f


def labels(cls, method, layout, form):
    def f(h):
        o, k = build(h, cls, layout, {})
        lo, hi = bounds(h, cls in DISC)
        h.call(o.set_bounds, lo, hi)
        if k is not None:
            h.assume(h.lt(1, h.size(k)))
        lab = h.label_form(form, k)
        ax = h.call(getattr(o, method), ax=h.axes("given"), **({} if form == "none" else {"label": lab}))
        c = h.curves("curve", ax, k)
        h.labelled("labels in order", c, form, lab)
    return f


for c_ in CONT + DISC:
    for m_ in ("plot_pmf" if c_ in DISC else "plot_pdf", "plot_cdf"):
        for x_ in OPTS.get(c_, [{}]):
            tag = f"{c_}{''.join(f'[{a}={b!r}]' for a, b in x_.items())}.{m_}"
            for l_ in ("numbers", "first vector", "last vector", "vectors"):
                if l_ == "last vector" and len(NAMES[c_]) == 1 or l_ == "vectors" and len(NAMES[c_]) == 1:
                    continue
                add("C16", f"{tag}, {l_}", plain(c_, m_, l_, "given", x_), trials=0.2)
                if c_ in DISC and l_ in ("numbers", "vectors", "first vector"):
                    add("C16", f"{tag}, conditional, {l_}", conditional(c_, m_, l_, x_), trials=0.2)
    for a_ in ("polar", "default"):
        add("C16", f"{c_}.{'plot_pmf' if c_ in DISC else 'plot_pdf'}, {a_} axes", plain(c_, "plot_pmf" if c_ in DISC else "plot_pdf",
                                                                                   "numbers", a_, {}), trials=0.2)
    if c_ in OPTS:
        for m_ in ("plot_pmf", "plot_cdf"):
            add("C16", f"{c_}[one_start=np.False_].{m_}, numbers", plain(c_, m_, "numbers", "given", {"one_start": np.False_}), trials=0.2)

for c_, m_ in (("Gamma", "plot_pdf"), ("Gamma", "plot_cdf"), ("VonMises", "plot_pdf"), ("Poisson", "plot_pmf"),
               ("Poisson", "plot_cdf"), ("BetaBinomial", "plot_pmf")):
    for l_ in ("numbers", "first vector"):
        for f_ in ("none", "text", "list", "tuple", "function", "array", "generator"):
            add("C16", f"{c_}.{m_}, label: {f_}, {l_}", labels(c_, m_, l_, f_), trials=0.2)


def colours(cls, method, layout, form):
    def f(h):
        o, k = build(h, cls, layout, {})
        lo, hi = bounds(h, cls in DISC)
        h.call(o.set_bounds, lo, hi)
        cs = {"name": "C3", "numbers": (0.25, 0.5, 0.75), "list": ["red", "green", "#0000ff"], "tuple": ("red", "green", "#0000ff"),
              "array": np.array(["red", "green", "#0000ff"]), "none": None}[form]
        ax = h.call(getattr(o, method), ax=h.axes("given"), linewidth=3.5, **({} if cs is None else {"color": cs}))
        c = h.curves("curve", ax, k)
        if cs is not None:
            h.coloured("colours in order", c, cs)
        h.option("line options apply to each curve", c, "linewidth", 3.5)
    return f


for c_, m_ in (("Gamma", "plot_pdf"), ("Gamma", "plot_cdf"), ("Normal", "plot_pdf"), ("Poisson", "plot_pmf"), ("Poisson", "plot_cdf"),
               ("Binomial", "plot_pmf")):
    for l_ in ("numbers", "first vector"):
        for f_ in ("none", "name", "numbers", "list", "tuple", "array"):
            add("C16", f"{c_}.{m_}, colour: {f_}, {l_}", colours(c_, m_, l_, f_), trials=0.2)


# bounds ------------------------------------------------------------------------------------------------
IMPLIED = {"Beta": lambda h, o: (0, 1), "Dirichlet": lambda h, o: (0, 1),
           "Binomial": lambda h, o: (0, h.greatest(o.n)), "BetaBinomial": lambda h, o: (0, h.greatest(o.n)),
           "BetaNegativeBinomial": lambda h, o: (0, h.greatest(o.n)),
           "Hypergeometric": lambda h, o: (0, h.greatest(o.N)),
           "Uniform": lambda h, o: (h.least(o.low), h.greatest(o.high)),
           "VonMises": lambda h, o: (-h.pi, h.pi)}
VECTOR = {"Binomial": "n", "BetaBinomial": "n", "BetaNegativeBinomial": "n", "Hypergeometric": "N", "Uniform": "low"}


def concentrations(h):
    k = h.axis("k", 2)
    return h.make("Dirichlet", alpha=h.arr("alpha", k, dom="pos")), k


def any_build(h, cls, layout):
    return concentrations(h) if cls == "Dirichlet" else build(h, cls, layout, {})


def setting(cls):
    """the bounds are two cells: each operation changes what it names, and nothing else"""
    def f(h):
        o, _ = any_build(h, cls, "numbers")
        a, b, c, d, e, g = (h.real(s, scalar=True) for s in "abcdeg")
        fields = h.snapshot(o)
        lower, upper = (lambda: o.min_value), (lambda: o.max_value)
        h.same("set_bounds returns the object", h.call(o.set_bounds, a, b), o)
        h.eq("set_bounds sets the lower bound", h.call(lower), a)
        h.eq("set_bounds sets the upper bound", h.call(upper), b)
        h.same("set_min_value returns the object", h.call(o.set_min_value, c), o)
        h.eq("set_min_value sets the lower bound", h.call(lower), c)
        h.eq("set_min_value leaves the upper bound", h.call(upper), b)
        h.same("set_max_value returns the object", h.call(o.set_max_value, d), o)
        h.eq("set_max_value sets the upper bound", h.call(upper), d)
        h.eq("set_max_value leaves the lower bound", h.call(lower), c)
        h.call(setattr, o, "min_value", e)
        h.eq("assigning min_value sets the lower bound", h.call(lower), e)
        h.eq("assigning min_value leaves the upper bound", h.call(upper), d)
        h.call(setattr, o, "max_value", g)
        h.eq("assigning max_value sets the upper bound", h.call(upper), g)
        h.eq("assigning max_value leaves the lower bound", h.call(lower), e)
        q, _ = any_build(h, cls, "numbers") if cls not in IMPLIED else (None, None)
        if q is not None:
            h.eq("another object keeps its own bounds", h.call(lambda: q.min_value), 0)
    return f


def defaults(cls, layout):
    def f(h):
        o, k = any_build(h, cls, layout)
        if cls in IMPLIED:
            lo, hi = IMPLIED[cls](h, o)
            h.eq("implied upper bound", h.call(lambda: o.max_value), hi)
        else:
            lo = 0
            h.raises("an upper bound has to be set", ValueError, lambda: o.max_value)
        h.eq("lower bound unless set", h.call(lambda: o.min_value), lo)
    return f


def indexed_bounds(cls):
    """the implied bounds are those of the selected parameters"""
    def f(h):
        o, k = build(h, cls, "vectors", {})
        q = h.call(lambda: o[h.position("i", k)])
        lo, hi = IMPLIED[cls](h, q)
        h.eq("implied lower bound", h.call(lambda: q.min_value), lo)
        h.eq("implied upper bound", h.call(lambda: q.max_value), hi)
    return f


for c_ in IMPLIED:
    if c_ != "Dirichlet":
        add("C16", f"{c_} default bounds, one of the vectors' entries", indexed_bounds(c_), trials=0.5)


def no_upper(cls, method, lower):
    def f(h):
        o, k = build(h, cls, "numbers", {})
        if lower:
            h.call(o.set_min_value, h.int("lower", scalar=True))
        ax = h.axes("given")
        h.raises("plotting without an upper bound", ValueError, lambda: getattr(o, method)(ax=ax))
    return f


def default_bounds(cls, method, layout):
    """plots over the implied bounds, or over those from 0 to the upper bound; they stay what they are"""
    whole = cls in DISC

    def f(h):
        o, k = build(h, cls, layout, {})
        if cls in IMPLIED:
            lo, hi = IMPLIED[cls](h, o)
        else:
            lo = 0
            hi = h.count("upper", 0, scalar=True) if whole else h.pos("upper", scalar=True)
            h.call(o.set_max_value, hi)
        if cls == "Uniform":
            h.assume(h.lt(lo, hi))
        r = h.call(getattr(o, method), ax=h.axes("given"))
        c = h.curves("curve", r, k)
        h.runs_over("x", c, lo, hi, whole)
        h.on_curve("every point is on the law's own function", c, o, fun(method[5:]))
        h.eq("the lower bound is unchanged", h.call(lambda: o.min_value), lo)
        h.eq("the upper bound is unchanged", h.call(lambda: o.max_value), hi)
    return f


for c_ in CONT + DISC + ["Dirichlet"]:
    add("C16", f"{c_} bounds", setting(c_), trials=0.5)
    add("C16", f"{c_} default bounds", defaults(c_, "numbers"), trials=0.5)
    if c_ in VECTOR:
        add("C16", f"{c_} default bounds, first vector", defaults(c_, "first vector"), trials=0.5)
        add("C16", f"{c_} default bounds, vectors", defaults(c_, "vectors"), trials=0.5)
for c_ in CONT + DISC:
    for m_ in ("plot_pmf" if c_ in DISC else "plot_pdf", "plot_cdf"):
        for l_ in ("numbers", "vectors"):
            add("C16", f"{c_}.{m_} over the default bounds, {l_}", default_bounds(c_, m_, l_), trials=0.2)
        if c_ not in IMPLIED:
            for b_ in (False, True):
                add("C16", f"{c_}.{m_} without an upper bound{', lower bound set' if b_ else ''}", no_upper(c_, m_, b_), trials=0.2)


def dirichlet(src, chosen, form, axes="given", default=False):
    def f(h):
        o, k = concentrations(h)
        lo, hi = 0, 1
        if chosen:
            lo, hi = bounds(h, False)
            h.call(o.set_bounds, lo, hi)
        ax = h.axes(axes)
        n = 1000 if default else h.sample_number("samples")
        lab = h.label_form(form, k)
        r = h.sampled("samples", src, lambda: o.plot_pdf(random_state=h.rng_(src), **({} if axes == "default" else {"ax": ax}),
                                                         **({} if default else {"samples": n}),
                                                         **({} if form == "none" else {"label": lab})))
        h.same("the axes are returned, the current ones by default", r, h.used_axes(ax))
        c = h.curves("curve", r, k)
        h.runs_over("x", c, lo, hi, False)
        h.density_estimate("each curve", c, o, n, src)
        h.labelled("labels in order", c, form, lab)
    return f


for s_ in ("seed", "Generator", "RandomState"):
    for b_ in (False, True):
        add("C16", f"Dirichlet.plot_pdf, random state {s_}{', chosen bounds' if b_ else ''}", dirichlet(s_, b_, "none"), trials=0.2)
for a_ in ("default", "polar"):
    add("C16", f"Dirichlet.plot_pdf, {a_} axes", dirichlet("seed", False, "none", a_), trials=0.2)
add("C16", "Dirichlet.plot_pdf, default number of samples", dirichlet("seed", False, "none", default=True), trials=0.2)
for f_ in ("text", "list", "tuple", "function", "array", "generator"):
    add("C16", f"Dirichlet.plot_pdf, label: {f_}", dirichlet("seed", False, f_), trials=0.2)


# the cumulative functions that the package defines itself -----------------------------------------------
def summed(one_start):
    """zero before the first outcome, and each step adds that outcome's probability: the sum of the masses, by induction"""
    start = 1 if one_start else 0

    def f(h):
        o = h.make("BetaGeometric", **params(h, "BetaGeometric", scalar=True), one_start=one_start)
        q = h.get(o, "dist")
        k = start + h.count("k", 0, scalar=True)
        x = h.real("x", scalar=True)
        h.eq("nothing before the first outcome", h.call(q.cdf, start - 1), 0)
        h.eq("each outcome adds its probability", h.call(q.cdf, k) - h.call(q.cdf, k - 1), h.call(q.pmf, k))
        h.assume(h.lt(x, start))
        h.eq("nothing before the first outcome, between the integers too", h.call(q.cdf, x), 0)
    return f


def flat(one_start):
    """between the outcomes the cumulative function stays at the value of the outcome before"""
    def f(h):
        o = h.make("BetaGeometric", **params(h, "BetaGeometric", scalar=True), one_start=one_start)
        q = h.get(o, "dist")
        k, t = h.count("k", 1, scalar=True), h.prob("t", scalar=True)
        h.assume(h.lt(t, 1))
        h.eq("constant between the outcomes", h.call(q.cdf, k + t), h.call(q.cdf, k))
    return f


def beta_prime(h):
    o = h.make("CompoundGamma", **params(h, "CompoundGamma", scalar=True))
    q = h.get(o, "dist")
    x, y = h.pos("x", scalar=True), h.pos("y", scalar=True)
    h.eq("incomplete beta function of x / (x + scale)", h.call(q.cdf, x), h.betainc(o.alpha, o.beta, x / (x + o.lam)))
    h.eq("nothing below 0", h.call(q.cdf, -y), 0)


for s_ in (True, False):
    add("C16", f"BetaGeometric[one_start={s_}] cumulative function", summed(s_), trials=0.5)
    add("C16", f"BetaGeometric[one_start={s_}] cumulative function between the outcomes", flat(s_), trials=0.5)
add("C16", "CompoundGamma cumulative function", beta_prime, trials=0.5)
