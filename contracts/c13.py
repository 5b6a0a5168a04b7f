"""C13: scaling and adding distributions.

The law of a sum of independent copies is characterised by its log moment generating function: k copies multiply it by
k, independent summands add it.  Each operator's postcondition is this identity between the generating functions of
the returned and the given objects (by their documented laws, C09), at every argument where they exist."""
from engine.registry import add
from .c09 import params

LOGMGF = {
    "Poisson": lambda h, o, t: o.lam * (h.exp(t) - 1),
    "Gamma": lambda h, o, t: -o.alpha * h.log(1 - t / o.beta),
    "Exponential": lambda h, o, t: -h.log(1 - t / o.lam),
    "NegativeBinomial": lambda h, o, t: o.n * (h.log(o.p) - h.log(1 - (1 - o.p) * h.exp(t))),
    "Normal": lambda h, o, t: o.mu * t + o.sigma ** 2 * t ** 2 / 2,
}
RESULT = {"Poisson": "Poisson", "Gamma": "Gamma", "Exponential": "Gamma", "NegativeBinomial": "NegativeBinomial",
          "Normal": "Normal"}


def argument(h, cls, o):
    """an argument at which the generating function exists"""
    if cls == "Gamma":
        return o.beta * (1 - h.pos("u", ghost=True))
    if cls == "Exponential":
        return o.lam * (1 - h.pos("u", ghost=True))
    if cls == "NegativeBinomial":
        return h.log(h.prob("w", ghost=True) / (1 - o.p))
    return h.real("t", ghost=True)


def valid(h, o):
    cls = h.cls(o)
    if cls == "Normal":
        return h.lt(0, o.sigma)
    if cls == "NegativeBinomial":
        return h.and_(h.lt(0, o.n), h.lt(0, o.p), h.lt(o.p, 1))
    if cls == "Gamma":
        return h.and_(h.lt(0, o.alpha), h.lt(0, o.beta))
    return h.lt(0, o.lam)


def scaled(cls, side, kind):
    def f(h):
        o = h.make(cls, **params(h, cls))
        k = h.count("k", 1, scalar=True) if kind == "whole" else h.pos("k", scalar=kind == "real")
        was = h.snapshot(o)
        r = h.call(lambda: o * k if side == "right" else k * o)
        h.unchanged("the operand is left as it was", was)
        h.check_class(f"result is {RESULT[cls]}", r, RESULT[cls])
        h.check("parameters of the result are valid", valid(h, r))
        t = argument(h, cls, o)
        h.eq("the law of the sum of k independent copies", LOGMGF[RESULT[cls]](h, r, t), k * LOGMGF[cls](h, o, t))
        again = h.call(lambda: o * k if side == "right" else k * o)
        h.eq("again: the same law", LOGMGF[RESULT[cls]](h, again, t), k * LOGMGF[cls](h, o, t))
    return f


for c_ in LOGMGF:
    for s_ in ("right", "left"):
        for n_ in ("real", "whole"):
            add("C13", f"{c_}: multiplied from the {s_} by a {n_} number", scaled(c_, s_, n_))
    # numbers of any shape, each scaling its own parameters (an array on the left multiplies entry by entry itself)
    add("C13", f"{c_}: multiplied from the right by numbers of any shape", scaled(c_, "right", "any"))


def added(h):
    p, q = h.make("Poisson", lam=h.pos("lam1")), h.make("Poisson", lam=h.pos("lam2"))
    was = h.snapshot(p, q)
    r = h.call(lambda: p + q)
    h.unchanged("the operands are left as they were", was)
    h.check_class("result is Poisson", r, "Poisson")
    h.check("parameters of the result are valid", valid(h, r))
    t = h.real("t", ghost=True)
    m = LOGMGF["Poisson"]
    h.eq("the law of the sum of independent draws", m(h, r, t), m(h, p, t) + m(h, q, t))
    u = h.call(lambda: q + p)
    h.eq("in the other order too", m(h, u, t), m(h, p, t) + m(h, q, t))
    # a longer sum, also reusing one operand
    w = h.call(lambda: p + q + p)
    h.eq("of three", m(h, w, t), 2 * m(h, p, t) + m(h, q, t))
    h.unchanged("the operands are left as they were after that", was)


add("C13", "Poisson: added", added)


def combined(h):
    """k p + q"""
    p, q, k = h.make("Poisson", lam=h.pos("lam1")), h.make("Poisson", lam=h.pos("lam2")), h.pos("k", scalar=True)
    r = h.call(lambda: k * p + q * k)
    t = h.real("t", ghost=True)
    m = LOGMGF["Poisson"]
    h.eq("law of k p + k q", m(h, r, t), k * m(h, p, t) + k * m(h, q, t))


add("C13", "Poisson: scaled and added", combined)
