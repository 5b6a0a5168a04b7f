"""C11: the univariate models use numbers only through operators and replaceable functions.

Three calls of the same function are related: with numbers of unknown kind (any Python or numpy number or any element of
an array), with values that implement the operators and nothing else, and with arrays of symbolic length that broadcast
against each other.  All three give the same parameters, element by element."""
import inspect

from engine.registry import add
from .c05 import PREDS
from .common import CONTINUOUS_MODELS, COUNT_MODELS, HYPER, PROPORTIONAL_MODELS, prior, variant

# what a field that a class computes for itself may look at: nothing here
LAYOUTS = ["all vectors", "vector data, scalar prior", "vector prior, scalar data", "column prior, row data",
           "row prior, column data", "table prior, row data", "scalar prior, table data"]


def functions(h, fn):
    """replacements for every function argument"""
    out = {}
    for k, p in inspect.signature(fn).parameters.items():
        if p.default is not inspect.Parameter.empty and callable(p.default):
            out[k] = h.replacement(p.default)
    return out


def fields(o):
    return [f for f in type(o).__dataclass_fields__]


def operators(fn, par, build, extra):
    def f(h):
        h.shape = None
        code = getattr(h.M, fn)
        p, d = build(h)
        q = h.call(code, **{par: p}, **d, **extra)
        h.strict()
        h.restrict_events()
        fs = functions(h, code)
        r = h.call(code, **{par: h.operators(p)}, **h.operators(d), **extra, **fs)
        h.check_class("the same family", r, h.cls(q))
        h.no_inspection("no input is compared, truth-tested, converted, inspected or given to a fixed library function")
        for k in fields(q):
            h.same_number(f"{k} is what numbers give", h.plain(getattr(r, k)), getattr(q, k))
    return f


def elementwise(fn, par, build, extra, layout):
    def f(h):
        code = getattr(h.M, fn)

        def run():
            p, d = build(h)
            return h.call(code, **{par: p}, **d, **extra)
        for k, got, want in h.elementwise(run, layout, par_of(build, h)):
            h.eq(f"{k}: every element is what the scalar call gives", got, want)
    return f


def par_of(build, h):
    return {"alpha0", "beta0", "N0", "mu0", "sigma0", "nu0", "s20", "lam0", "xm0", "p0", "q0", "r0", "s0", "a0", "b0", "c0", "k0"}


def cases():
    for m in COUNT_MODELS + [HYPER] + CONTINUOUS_MODELS + PROPORTIONAL_MODELS:
        for c in m.priors:
            yield (m.fn + variant(m) + (f"<{c}>" if len(m.priors) > 1 else ""), m.fn, "prior",
                   lambda h, m=m, c=c: (prior(h, c), m.data(h, "", {})), m.extra)
    for m in PREDS:
        for c in m.dist:
            yield (m.name + (f"<{c}>" if len(m.dist) > 1 else ""), m.fn, "distribution",
                   lambda h, m=m, c=c: (prior(h, c), m.args(h)), {})


for name_, fn_, par_, build_, extra_ in cases():
    add("C11", f"{name_}: operators only", operators(fn_, par_, build_, extra_))
    for l_ in LAYOUTS:
        add("C11", f"{name_}: {l_}", elementwise(fn_, par_, build_, extra_, l_), trials=0.3)
