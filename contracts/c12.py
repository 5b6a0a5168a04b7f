"""C12: indexing.

An index is: any integer in range (from either end), any integer out of range, any slice, list or mask (an arbitrary
map from new to old positions), a list of given integers, a tuple; parameters are mixtures of numbers and vectors."""
from itertools import product

import numpy as np

from engine.registry import add
from .c09 import DOMS

FIELDS = {c: [s[:-1] for s in d.split()] for c, d in DOMS.items()}
FIELDS.update(Uniform=["low", "high"], Hypergeometric=["N", "k", "n"])
VECTORS = {"Multinomial": (["n"], "p"), "DirichletMultinomial": (["n"], "alpha")}
EXTRA = {"Geometric": [{}, {"one_start": False}, {"one_start": np.False_}], "BetaGeometric": [{}, {"one_start": False}, {"one_start": np.False_}]}


def value(h, name, form, ax):
    if form == "scalar":
        return h.pos(name, scalar=True)
    if form == "array":
        return h.arr(name, *ax, dom="pos")
    return h.seq(name, ax[0], form, "pos")


def mixtures(cls, two):
    fs = FIELDS[cls]
    for pat in product(("scalar", "vector"), repeat=len(fs)):
        if "vector" not in pat:
            continue
        for form in (("array",) if two else ("array", "list", "tuple")):
            yield [form if p == "vector" else "scalar" for p in pat]


KEYS = ["slice", "list", "mask", "array", "int", "negative int", "numpy int", "picked", "ellipsis"]
KEYS2 = ["slice", "list", "mask", "int", "tuple of ints", "tuple of int and slice", "tuple of slice and int"]
BAD = ["too high", "too low", "list too high", "tuple too long"]


def objects(h, cls, two):
    a = h.axis("A", 1)
    ax = (h.axis("R", 1), a) if two else (a,)
    for extra in EXTRA.get(cls, [{}]):
        for j, forms in enumerate(mixtures(cls, two)):
            vals = {f: value(h, f"{f}_{j}{'x' if extra else ''}", g, ax) for f, g in zip(FIELDS[cls], forms)}
            # in the order of the class, by keyword
            yield ax, forms, extra, h.make(cls, **vals, **extra)


def check(h, cls, o, forms, extra, key, r):
    h.check_class(f"the same family ({cls})", r, cls)
    for f, g in zip(FIELDS[cls], forms):
        got, was = getattr(r, f), getattr(o, f)
        if g == "scalar":
            h.eq(f"scalar parameter {f} unchanged", got, was)
            h.check(f"scalar parameter {f} stays a scalar", h.ndim(got) == 0)
        else:
            want = h.select(was, key)
            h.vec_eq(f"vector parameter {f} is exactly the selected entries", h.select(got, ...), want, h.ndim(want))
    for k, v in extra.items():
        h.check(f"{k} unchanged", getattr(r, k) is v)


def good(cls, kind, two=False):
    def f(h):
        for ax, forms, extra, o in objects(h, cls, two):
            was = h.snapshot(o)
            key = h.index(kind, "key", ax)
            check(h, cls, o, forms, extra, key, h.item(o, key))
            h.unchanged("the distribution is left as it was", was)
    return f


def bad(cls, kind):
    def f(h):
        for ax, forms, extra, o in objects(h, cls, False):
            key = h.index(kind, "key", ax)
            h.raises(f"an index {kind} raises", Exception, lambda: o[key])
    return f


for c_ in FIELDS:
    for k_ in KEYS:
        add("C12", f"{c_}[{k_}]", good(c_, k_), trials=0.5)
    for k_ in BAD:
        add("C12", f"{c_}[{k_}]", bad(c_, k_), trials=0.5)
    for k_ in KEYS2:
        add("C12", f"{c_} of tables[{k_}]", good(c_, k_, True), trials=0.5)


def vector(cls, kind, form):
    scal, vec = VECTORS[cls]

    def f(h):
        ax = h.axis("A", 1)
        v = value(h, vec, form, (ax,))
        n = h.count("n", 0, scalar=True)
        o = h.make(cls, **{vec: v, scal[0]: n})
        key = h.index(kind, "key", (ax,))
        if kind in BAD:
            h.raises(f"an index {kind} raises", Exception, lambda: o[key])
            return
        r = h.item(o, key)
        h.check_class(f"the same family ({cls})", r, cls)
        h.eq("scalar parameter unchanged", getattr(r, scal[0]), n)
        want = h.select(v, key)
        h.vec_eq("vector parameter is exactly the selected entries", h.select(getattr(r, vec), ...), want, h.ndim(want))
    return f


for c_ in VECTORS:
    for form_ in ("array", "list"):
        for k_ in KEYS + BAD:
            add("C12", f"{c_}<{form_}>[{k_}]", vector(c_, k_, form_), trials=0.5)


# ------------------------------------------------------------------------------------------------ multivariate
MV = {"MultivariateNormal": ("cov", "Normal"), "MultivariateStudentT": ("sigma", "StudentT")}


def square(h, a):
    """a symmetric matrix as a table over two axes of the same length, positive on the diagonal"""
    return h.table("S", a)


def mv(cls, kind):
    mat, uni = MV[cls]

    def f(h):
        a = h.axis("A", 2 if kind == "picked" else 1)
        mu, S = h.arr("mu", a), square(h, a)
        extra = {"nu": h.pos("nu", scalar=True)} if cls == "MultivariateStudentT" else {}
        o = h.make(cls, mu=mu, **{mat: S}, **extra)
        key = h.index(kind, "key", (a,))
        was = h.snapshot(o)
        if kind in BAD:
            h.raises(f"an index {kind} raises", Exception, lambda: o[key])
            return
        if kind in ("int", "negative int", "numpy int"):
            h.assume(h.lt(0, h.select(S, (key, key))))
            r = h.item(o, key)
            h.check_class(f"the univariate family {uni}", r, uni)
            h.eq("location of the coordinate", r.mu, h.select(mu, key))
            h.check("scale is positive", h.lt(0, r.sigma))
            h.eq("squared scale is the entry of the diagonal", r.sigma ** 2, h.select(S, (key, key)))
        else:
            r = h.item(o, key)
            h.check_class(f"the same family ({cls})", r, cls)
            h.vec_eq("locations of the coordinates in the requested order", r.mu, h.select(mu, key))
            want = h.select(h.select(S, key), (slice(None), key))
            h.vec_eq("scale matrix of the coordinates in the requested order", getattr(r, mat), want, 2)
        for k, v in extra.items():
            h.eq("degrees of freedom unchanged", getattr(r, k), v)
        h.unchanged("the distribution is left as it was", was)
    return f


for c_ in MV:
    for k_ in [k for k in KEYS if k != "ellipsis"] + BAD[:3]:
        add("C12", f"{c_}[{k_}]", mv(c_, k_))
