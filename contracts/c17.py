"""C17: no call changes its inputs or depends on earlier calls.

Frame conditions.  Every operation is called on inputs of any kind; afterwards the inputs, the results of earlier calls,
the settings of the process and everything the package's modules hold are as they were.  An operation that leaves all of
that alone cannot be noticed by any later call, so equal arguments give equal results in every history.  On top of the
frame the same call is made again after others, in a package that has called nothing yet, with every single argument
replaced, with objects whose fields or arrays the caller has changed, and compared with what a fresh package gives."""
from engine.registry import add
from engine.spec import LAWS
from . import c09
from .c05 import PREDS
from .c12 import FIELDS
from .common import CONTINUOUS_MODELS, COUNT_MODELS, HYPER, PROPORTIONAL_MODELS, params
from .posterior import name_of

ASSUMPTIONS = ["C17: memory kept outside the package and the process settings listed in engine/state.py (files, other "
               "libraries' private caches) is not looked at"]


class Op:
    """values: the arguments by name; objects: the inputs made of them; run: the call"""

    def __init__(self, name, values, objects, run, related=(), assume=None, chain=None, opts=None):
        self.name, self.values, self.objects, self.run = name, values, objects, run
        self.related, self.chain, self.opts = set(related), chain, opts or {}


OPS = {}


def op(name, values, objects, run, related=(), chain=None, **opts):
    OPS[name] = Op(name, values, objects, run, related, chain=chain, opts=opts)
    add("C17", name, mk(OPS[name]), **{"trials": 0.35, **opts})


def mk(o):
    def f(h):
        before = h.memory()
        a = o.values(h)
        with h.renamed("_b"):
            b = o.values(h)
        objs, other = o.objects(h, a), o.objects(h, b)
        given = h.snapshot(*objs)
        r = h.call(lambda: o.run(h, objs))
        h.unchanged("the arguments are left as they were", given)
        h.nothing_hidden("nothing is kept in the arguments", objs)
        first, was = h.result_of(r), h.snapshot(r)

        # called again after calls with other arguments
        r2 = h.call(lambda: o.run(h, other))
        second = h.result_of(r2)
        h.history(OPS, o)
        again = h.call(lambda: o.run(h, objs))
        h.same_result("called again: the same result", h.result_of(again), first)
        h.unchanged("the arguments are left as they were by later calls", given)
        h.unchanged("an earlier result is left as it was by later calls", was)
        with h.fresh_package():
            fresh = o.objects(h, a)
            h.same_result("called before anything else: the same result",
                          h.result_of(h.call(lambda: o.run(h, fresh))), first)
            h.same_result("called after that: the same result",
                          h.result_of(h.call(lambda: o.run(h, o.objects(h, b)))), second)

        # a result as the argument of a later update
        if o.chain:
            h.lend(r)
            objs2 = o.chain(h, r, objs)
            held = h.snapshot(*objs2, *objs, r)
            h.call(lambda: o.run(h, objs2))
            h.unchanged("an update of a result leaves it and what it came from as they were", held)

        # every single argument replaced, then everything again
        with h.any_arguments():
            for k in h.some(a):
                v = {**a, k: b[k]}
                here = h.attempt(lambda: o.run(h, o.objects(h, v)))
                with h.fresh_package():
                    there = h.attempt(lambda: o.run(h, o.objects(h, v)))
                h.same_result(f"another {k}: what a fresh package gives", here, there)

        # the caller's own changes to what it handed in
        if h.overwrite(objs, other):
            h.same_result("fields changed by the caller: what new arguments give",
                          h.result_of(h.call(lambda: o.run(h, objs))), second)
        mine = o.objects(h, a)
        r3 = h.call(lambda: o.run(h, mine))
        h.same_result("new equal arguments: the same result", h.result_of(r3), first)
        del mine, objs
        for _ in range(2):                  # objects that may take the place of discarded ones
            h.same_result("after discarded objects: the same result",
                          h.result_of(h.call(lambda: o.run(h, o.objects(h, b)))), second)
            h.same_result("after discarded objects: the same result",
                          h.result_of(h.call(lambda: o.run(h, o.objects(h, a)))), first)
        apart = o.objects(h, h.apart(a))
        if h.overwrite_result(h.call(lambda: o.run(h, apart))):
            h.same_result("arrays of a result changed by the caller: the same result",
                          h.result_of(h.call(lambda: o.run(h, o.objects(h, a)))), first)
        mine, other = o.objects(h, a), o.objects(h, b)
        h.call(lambda: o.run(h, mine))
        if h.overwrite_arrays(mine, other):
            h.same_result("arrays changed by the caller: what new arguments give",
                          h.result_of(h.call(lambda: o.run(h, mine))), second)
        h.no_memory("nothing is remembered", before)
    return f


# ------------------------------------------------------------------------------------------------ updates
def split(vals, key):
    return {k[len(key) + 1:]: v for k, v in vals.items() if k.startswith(key + ".")}


def join(key, vals):
    return {f"{key}.{k}": v for k, v in vals.items()}


def model_op(name, fn, par, cls, mkp, mkd, extra=None, chain=False, assume=None):
    def values(h):
        p, d = mkp(h), mkd(h)
        if assume:
            assume(h, p, d)
        return {**join(par, p), **join("data", d)}

    def objects(h, v):
        return [h.make(cls, **split(v, par)), split(v, "data")]

    def run(h, objs):
        return getattr(h.M, fn)(**{par: objs[0]}, **objs[1], **(extra or {}))
    op(name, values, objects, run, {cls, fn.replace("_predictive", "")}, (lambda h, r, objs: [r, objs[1]]) if chain else None)


def hyper_fits(h, p, d):
    h.assume(h.le(d["n"], p["n"]))


for m_ in COUNT_MODELS + [HYPER] + CONTINUOUS_MODELS + PROPORTIONAL_MODELS:
    for c_ in m_.priors:
        model_op(name_of(m_, c_), m_.fn, "prior", c_, lambda h, c=c_: params(h, c), lambda h, m=m_: m.data(h, "", {}),
                 m_.extra, True, hyper_fits if m_ is HYPER else None)
for m_ in PREDS:
    for c_ in m_.dist:
        model_op(m_.name + (f"<{c_}>" if len(m_.dist) > 1 else ""), m_.fn, "distribution", c_,
                 lambda h, c=c_: params(h, c), lambda h, m=m_: m.args(h))


def weights(h, form, name="alpha", dom="pos"):
    k = h.axis("K", 1)
    return h.arr(name, k, dom=dom) if form == "array" else h.seq(name, k, form, dom)


for fn_ in ("categorical_dirichlet", "multinomial_dirichlet"):
    for a_ in ("array", "list", "tuple"):
        for b_ in ("array", "list"):
            model_op(f"{fn_}[{a_} weights, {b_} counts]", fn_, "prior", "Dirichlet", lambda h, a=a_: {"alpha": weights(h, a)},
                     lambda h, b=b_: {"x": weights(h, b, "x", "count")}, None, True)
        model_op(f"{fn_}_predictive[{a_} weights]", fn_ + "_predictive", "distribution", "Dirichlet",
                 lambda h, a=a_: {"alpha": weights(h, a)}, lambda h: {"n": h.count("n", 0, scalar=True)})


def tables(h, name, dom):
    return h.arr(name, h.axis("R", 1), h.axis("K", 1), dom=dom)


for fn_ in ("categorical_dirichlet", "multinomial_dirichlet"):
    model_op(f"{fn_}[table of weights]", fn_, "prior", "Dirichlet", lambda h: {"alpha": tables(h, "alpha", "pos")},
             lambda h: {"x": weights(h, "array", "x", "count")}, None, True)
    model_op(f"{fn_}[tables]", fn_, "prior", "Dirichlet", lambda h: {"alpha": tables(h, "alpha", "pos")},
             lambda h: {"x": tables(h, "x", "count")}, None, True)


# ------------------------------------------------------------------------------------------------ matrices
def nig(h):
    B = h.dim("B")
    return {"mu": h.vec("mu0", B), "delta_inverse": h.spd("D0", B), "alpha": h.pos("alpha0", scalar=True),
            "beta": h.pos("beta0", scalar=True)}


def mvn(h):
    D = h.dim("D")
    return {"mu": h.vec("mu0", D), "cov": h.spd("cov0", D)}


def iw(h):
    D = h.dim("D")
    return {"nu": h.pos("nu_extra", scalar=True) + (h.dimnum(D) - 1), "psi": h.spd("psi0", D)}


def niw(h):
    return {**iw(h), "mu": h.vec("mu0", h.dim("D")), "kappa": h.pos("kappa0", scalar=True)}


def xy(h):
    B, N = h.dim("B"), h.dim("N")
    return {"X": h.mat("X", N, B), "y": h.vec("y", N)}


model_op("linear_regression", "linear_regression", "prior", "NormalInverseGamma", nig, xy, None, True)
model_op("linear_regression_predictive", "linear_regression_predictive", "distribution", "NormalInverseGamma", nig,
         lambda h: {"X": h.mat("X", h.dim("N"), h.dim("B"))})
for k_ in ("covariance", "precision"):
    arg_ = {"covariance": "cov", "precision": "precision"}[k_]
    model_op(f"multivariate_normal_known_{k_}", f"multivariate_normal_known_{k_}", "prior", "MultivariateNormal", mvn,
             lambda h, a=arg_: {"n": h.count("n", 0, scalar=True), "x_bar": h.vec("xbar", h.dim("D")), a: h.spd("known", h.dim("D"))},
             None, True)
    model_op(f"multivariate_normal_known_{k_}_predictive", f"multivariate_normal_known_{k_}_predictive", "distribution",
             "MultivariateNormal", mvn, lambda h, a=arg_: {a: h.spd("known", h.dim("D"))})
model_op("multivariate_normal_known_mean", "multivariate_normal_known_mean", "prior", "InverseWishart", iw,
         lambda h: {"X": h.mat("X", h.dim("N"), h.dim("D")), "mu": h.vec("mu", h.dim("D"))}, None, True)
model_op("multivariate_normal", "multivariate_normal", "prior", "NormalInverseWishart", niw,
         lambda h: {"X": h.mat("X", h.dim("N"), h.dim("D"))}, None, True)
model_op("multivariate_normal_predictive", "multivariate_normal_predictive", "distribution", "NormalInverseWishart", niw,
         lambda h: {})


# ------------------------------------------------------------------------------------------------ objects
def object_op(name, cls, mkp, extra, run, related=()):
    """an operation of one object and further arguments"""
    def values(h):
        return {**join("of", mkp(h)), **join("data", extra(h))}

    def objects(h, v):
        return [h.make(cls, **split(v, "of")), split(v, "data")]
    op(name, values, objects, lambda h, objs: run(h, objs[0], **objs[1]), {cls, *related})


# densities
for c_ in LAWS:
    for x_ in [{}] + ([{"one_start": False}] if c_ in ("Geometric", "BetaGeometric") else []):
        def point(h, c=c_):
            return {"x": h.count("x", 0) if LAWS[c].discrete else h.pos("x")}

        def density(h, o, x, c=c_):
            q = o.dist
            return getattr(q, "pmf" if LAWS[c].discrete else "pdf")(x)

        def values_of(h, c=c_, x=x_):
            return {**c09.params(h, c), **x}
        object_op(f"{c_}{'[zero start]' if x_ else ''}: density", c_, values_of, point, density)


def law_of(cls, mkp, form=""):
    object_op(f"{cls}{form}: law", cls, mkp, lambda h: {}, lambda h, o: h.law_view(o.dist))


law_of("MultivariateNormal", mvn)
law_of("MultivariateStudentT", lambda h: {"mu": h.vec("mu", h.dim("D")), "sigma": h.spd("S", h.dim("D")), "nu": h.pos("nu", scalar=True)})
law_of("Wishart", lambda h: {"nu": h.pos("e", scalar=True) + h.dimnum(h.dim("D")), "V": h.spd("S", h.dim("D"))})
law_of("InverseWishart", iw)
for f_ in ("array", "list", "tuple"):
    def ws(h, f=f_):
        k = h.axis("K", 2)
        return {"alpha": h.arr("alpha", k, dom="pos") if f == "array" else h.seq("alpha", k, f, "pos")}
    law_of("Dirichlet", ws, f"[{f_}]")
    if f_ != "tuple":
        law_of("DirichletMultinomial", lambda h, w=ws: {**w(h), "n": h.count("n", 1, scalar=True)}, f"[{f_}]")


def normalised(h):
    w = h.arr("w", h.axis("K", 2), dom="pos")
    return {"n": h.count("n", 1, scalar=True), "p": w / w.sum()}


law_of("Multinomial", normalised)
object_op("Dirichlet: mean of rows", "Dirichlet", lambda h: {"alpha": h.arr("alpha", h.axis("R", 1), h.axis("K", 2), dom="pos")},
          lambda h: {}, lambda h, o: o.dist.mean())

# unnormalised families
for c_, f_, t_ in [("GammaProportional", "approx_log_likelihood", ("alpha", "beta")),
                   ("BetaProportional", "approx_log_likelihood", ("alpha", "beta")),
                   ("GammaKnownRateProportional", "approx_log_likelihood", ("alpha", "beta")),
                   ("VonMisesKnownConcentration", "log_likelihood", ("mu",)),
                   ("VonMisesKnownDirectionProportional", "approx_log_likelihood", ("kappa",))]:
    object_op(f"{c_}.{f_}", c_, lambda h, c=c_: params(h, c), lambda h, t=t_: {k: h.pos("at_" + k) for k in t},
              lambda h, o, f=f_, **k: getattr(o, f)(**k))

# scaling and adding
for c_ in ("Poisson", "Gamma", "Exponential", "NegativeBinomial", "Normal"):
    object_op(f"{c_}: scaled", c_, lambda h, c=c_: c09.params(h, c), lambda h: {"k": h.pos("k", scalar=True)}, lambda h, o, k: o * k)
    object_op(f"{c_}: scaled from the left", c_, lambda h, c=c_: c09.params(h, c), lambda h: {"k": h.pos("k", scalar=True)},
              lambda h, o, k: k * o)
op("Poisson: added", lambda h: {"lam1": h.pos("lam1"), "lam2": h.pos("lam2")},
   lambda h, v: [h.make("Poisson", lam=v["lam1"]), h.make("Poisson", lam=v["lam2"])], lambda h, objs: objs[0] + objs[1], {"Poisson"},
   lambda h, r, objs: [r, objs[1]])


# indexing
def vectors(h, cls, form, ax):
    fs = FIELDS[cls]
    return {f: h.arr(f, *ax, dom="pos") if form == "array" else h.seq(f, ax[0], form, "pos") for f in fs}


def index_op(cls, form, kind, two):
    def values(h):
        ax = (h.axis("R", 1), h.axis("A", 2)) if two else (h.axis("A", 2),)
        return {**join("of", vectors(h, cls, form, ax)), "key.key": h.index(kind, "key", ax)}

    def objects(h, v):
        return [h.make(cls, **split(v, "of")), v["key.key"]]
    op(f"{cls}<{form}>[{kind}{' of tables' if two else ''}]", values, objects, lambda h, objs: objs[0][objs[1]], {cls})


for c_ in FIELDS:
    for k_ in ("slice", "list", "mask", "int"):
        index_op(c_, "array", k_, False)
    index_op(c_, "list", "slice", False)
    index_op(c_, "array", "slice", True)
for c_, mat_, extra_ in [("MultivariateNormal", "cov", lambda h: {}),
                         ("MultivariateStudentT", "sigma", lambda h: {"nu": h.pos("nu", scalar=True)})]:
    for k_ in ("slice", "list", "mask", "int"):
        def mv_values(h, k=k_, m=mat_, e=extra_):
            a = h.axis("A", 2)
            S, key = h.table("S", a), h.index(k, "key", (a,))
            if k == "int":
                h.assume(h.lt(0, h.select(S, (key, key))))
            return {**join("of", {"mu": h.arr("mu", a), m: S, **e(h)}), "key.key": key}

        def mv_objects(h, v, c=c_):
            return [h.make(c, **split(v, "of")), v["key.key"]]
        op(f"{c_}[{k_}]", mv_values, mv_objects, lambda h, objs: objs[0][objs[1]], {c_})


# constructors and conversions
def function_op(name, values, run, related=()):
    op(name, values, lambda h, v: [dict(v)], lambda h, objs: run(h, **objs[0]), related)


D = "distributions"
for c_, n_, v_ in [("Beta", "from_mean", lambda h: {"mean": h.prob("mean"), "alpha": h.pos("alpha")}),
                   ("Beta", "from_successes_and_failures", lambda h: {"successes": h.count("s", 0), "failures": h.count("f", 0)}),
                   ("Beta", "uninformative", lambda h: {}),
                   ("Gamma", "from_occurrences_in_intervals", lambda h: {"occurrences": h.pos("occurrences"), "intervals": h.pos("intervals")}),
                   ("Normal", "from_mean_and_variance", lambda h: {"mean": h.real("mean"), "variance": h.pos("variance")}),
                   ("Normal", "from_mean_and_precision", lambda h: {"mean": h.real("mean"), "precision": h.pos("precision")}),
                   ("Normal", "uninformative", lambda h: {"sigma": h.pos("sigma")}),
                   ("Dirichlet", "uninformative", lambda h: {"n": h.count("n", 1, scalar=True)})]:
    function_op(f"{c_}.{n_}", v_, lambda h, cls_=c_, name_=n_, **k: getattr(getattr(h.D, cls_), name_)(**k), {c_})
function_op("get_beta_param_from_mean_and_alpha", lambda h: {"mean": h.prob("mean"), "alpha": h.pos("alpha")},
            lambda h, **k: h.D.get_beta_param_from_mean_and_alpha(**k), {"Beta"})
object_op("ScaledInverseChiSquared.from_inverse_gamma", "InverseGamma", lambda h: c09.params(h, "InverseGamma"), lambda h: {},
          lambda h, o: h.D.ScaledInverseChiSquared.from_inverse_gamma(o))
object_op("ScaledInverseChiSquared.to_inverse_gamma", "ScaledInverseChiSquared",
          lambda h: c09.params(h, "ScaledInverseChiSquared"), lambda h: {}, lambda h, o: o.to_inverse_gamma())
object_op("NormalInverseGamma.from_inverse_gamma", "InverseGamma", lambda h: c09.params(h, "InverseGamma"),
          lambda h: {"mu": h.real("mu"), "nu": h.pos("nu")},
          lambda h, o, mu, nu: h.D.NormalInverseGamma.from_inverse_gamma(mu=mu, inverse_gamma=o, nu=nu))
object_op("NormalInverseWishart.from_inverse_wishart", "InverseWishart", iw,
          lambda h: {"mu": h.vec("mu", h.dim("D")), "kappa": h.pos("kappa", scalar=True)},
          lambda h, o, mu, kappa: h.D.NormalInverseWishart.from_inverse_wishart(mu=mu, kappa=kappa, inverse_wishart=o))
for c_, a_, v_ in [("NormalInverseGamma", "inverse_gamma", lambda h: params(h, "NormalInverseGamma")),
                   ("NormalInverseGamma", "inverse_gamma[d]", nig), ("NormalGamma", "gamma", lambda h: params(h, "NormalGamma")),
                   ("NormalInverseWishart", "inverse_wishart", niw),
                   ("NormalWishart", "wishart", lambda h: {"mu": h.vec("mu", h.dim("D")), "lam": h.pos("lam", scalar=True),
                                                           "W": h.spd("W", h.dim("D")),
                                                           "nu": h.pos("e", scalar=True) + h.dimnum(h.dim("D"))})]:
    object_op(f"{c_}.{a_}", c_, v_, lambda h: {}, lambda h, o, a=a_.split("[")[0]: getattr(o, a))
