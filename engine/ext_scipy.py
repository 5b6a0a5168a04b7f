"""Contract stub of scipy: densities, masses, supports and samplers of the scipy.stats families the code may use, and
the scipy.special functions.  The tables state scipy's documented parametrisation; they are assumptions of the proofs
and are cross-checked against the installed scipy by `conc.py crosscheck` on every run."""
import types

import numpy as _np

from . import expr as X
from .core import UNIT, Axis, Cond, Num, Unsupported, bcast, ctx, kind_in, lift
from .ext_numpy import (RandomState, Stream, array_of, asarray, is_sym, lib, shape_axes, size_axis, to_num, ufunc1,
                        ufunc2, ufuncn, need_pos)
from .loops import SymSeq, as_array
from .mats import Letter, Mat, MatStack, item

SCIPY_VERSION = "1.14.0"
log = lambda e: X.fn("log", e)  # noqa: E731
lg = lambda e: X.fn("lgamma", e)  # noqa: E731
A, S, M, D, N, P = X.add, X.sub, X.mul, X.div, X.neg, X.power
ONE, HALF, PI = X.ONE, X.HALF, X.PI


def betaln(a, b):
    return A(lg(a), lg(b), N(lg(A(a, b))))


def lchoose(n, k):
    return S(lg(A(n, ONE)), A(lg(A(k, ONE)), lg(A(S(n, k), ONE))))


# family -> (shape names, discrete, log density of the standard law at z, support condition at z)
def F(shapes, discrete, logd, supp):
    return dict(shapes=shapes, discrete=discrete, logd=logd, supp=supp)


def _int(z, *c):
    return X.and_(X.isint(z), *c)


T = X.TRUE
FAMILIES = {
    "beta": F(["a", "b"], False, lambda z, a, b: A(M(S(a, ONE), log(z)), M(S(b, ONE), log(S(ONE, z))), N(betaln(a, b))),
              lambda z, a, b: X.and_(X.lt(X.ZERO, z), X.lt(z, ONE))),
    "betaprime": F(["a", "b"], False, lambda z, a, b: A(M(S(a, ONE), log(z)), N(M(A(a, b), log(A(ONE, z)))),
                                                     N(betaln(a, b))), lambda z, a, b: X.lt(X.ZERO, z)),
    "binom": F(["n", "p"], True, lambda z, n, p: A(lchoose(n, z), M(z, log(p)), M(S(n, z), log(S(ONE, p)))),
               lambda z, n, p: _int(z, X.le(X.ZERO, z), X.le(z, n))),
    "bernoulli": F(["p"], True, lambda z, p: A(M(z, log(p)), M(S(ONE, z), log(S(ONE, p)))),
                   lambda z, p: _int(z, X.le(X.ZERO, z), X.le(z, ONE))),
    "expon": F([], False, lambda z: N(z), lambda z: X.le(X.ZERO, z)),
    "gamma": F(["a"], False, lambda z, a: A(M(S(a, ONE), log(z)), N(z), N(lg(a))), lambda z, a: X.lt(X.ZERO, z)),
    "chi2": F(["df"], False, lambda z, k: A(M(S(M(HALF, k), ONE), log(z)), N(M(HALF, z)), N(lg(M(HALF, k))),
                                            N(M(HALF, k, log(X.TWO)))), lambda z, k: X.lt(X.ZERO, z)),
    "nbinom": F(["n", "p"], True, lambda z, n, p: A(lg(A(z, n)), N(lg(A(z, ONE))), N(lg(n)), M(n, log(p)),
                                                   M(z, log(S(ONE, p)))), lambda z, n, p: _int(z, X.le(X.ZERO, z))),
    "hypergeom": F(["M", "n", "N"], True, lambda z, m, n, k: A(lchoose(n, z), lchoose(S(m, n), S(k, z)), N(lchoose(m, k))),
                   lambda z, m, n, k: _int(z, X.le(X.ZERO, z), X.le(S(k, S(m, n)), z), X.le(z, n), X.le(z, k))),
    "poisson": F(["mu"], True, lambda z, m: A(M(z, log(m)), N(m), N(lg(A(z, ONE)))), lambda z, m: _int(z, X.le(X.ZERO, z))),
    "betabinom": F(["n", "a", "b"], True, lambda z, n, a, b: A(lchoose(n, z), betaln(A(z, a), A(S(n, z), b)), N(betaln(a, b))),
                   lambda z, n, a, b: _int(z, X.le(X.ZERO, z), X.le(z, n))),
    "betanbinom": F(["n", "a", "b"], True, lambda z, n, a, b: A(lg(A(n, z)), N(lg(A(z, ONE))), N(lg(n)),
                                                                betaln(A(a, n), A(b, z)), N(betaln(a, b))),
                    lambda z, n, a, b: _int(z, X.le(X.ZERO, z))),
    "geom": F(["p"], True, lambda z, p: A(M(S(z, ONE), log(S(ONE, p))), log(p)), lambda z, p: _int(z, X.le(ONE, z))),
    "norm": F([], False, lambda z: A(N(M(HALF, P(z, X.TWO))), N(M(HALF, log(M(X.TWO, PI))))), lambda z: T),
    "uniform": F([], False, lambda z: X.ZERO, lambda z: X.and_(X.le(X.ZERO, z), X.le(z, ONE))),
    "pareto": F(["b"], False, lambda z, b: S(log(b), M(A(b, ONE), log(z))), lambda z, b: X.le(ONE, z)),
    "invgamma": F(["a"], False, lambda z, a: A(N(M(A(a, ONE), log(z))), N(lg(a)), N(D(ONE, z))), lambda z, a: X.lt(X.ZERO, z)),
    "t": F(["df"], False, lambda z, v: A(lg(M(HALF, A(v, ONE))), N(lg(M(HALF, v))), N(M(HALF, log(M(PI, v)))),
                                        N(M(HALF, A(v, ONE), log(A(ONE, D(P(z, X.TWO), v)))))), lambda z, v: T),
    "lomax": F(["c"], False, lambda z, c: S(log(c), M(A(c, ONE), log(A(ONE, z)))), lambda z, c: X.le(X.ZERO, z)),
    "vonmises": F(["kappa"], False, lambda z, k: S(M(k, X.fn("cos", z)), log(M(X.TWO, PI, X.fn("i0", k)))), lambda z, k: T),
    "lognorm": F(["s"], False, lambda z, s: A(N(D(P(log(z), X.TWO), M(X.TWO, P(s, X.TWO)))), N(log(s)), N(log(z)),
                                             N(M(HALF, log(M(X.TWO, PI))))), lambda z, s: X.lt(X.ZERO, z)),
    "weibull_min": F(["c"], False, lambda z, c: A(log(c), M(S(c, ONE), log(z)), N(P(z, c))), lambda z, c: X.lt(X.ZERO, z)),
    "invweibull": F(["c"], False, lambda z, c: A(log(c), N(M(A(c, ONE), log(z))), N(P(z, N(c)))), lambda z, c: X.lt(X.ZERO, z)),
    "cauchy": F([], False, lambda z: N(A(log(PI), log(A(ONE, P(z, X.TWO))))), lambda z: T),
    "laplace": F([], False, lambda z: N(A(log(X.TWO), X.fn("abs", z))), lambda z: T),
    "logistic": F([], False, lambda z: N(A(z, M(X.TWO, log(A(ONE, X.fn("exp", N(z))))))), lambda z: T),
}
FULL_SUPPORT = {"norm", "t", "vonmises", "cauchy", "laplace", "logistic"}


class Draw:
    def __init__(self, family, params, size, stream, pos, loops, value, kind):
        self.family, self.params, self.size, self.stream, self.pos = family, params, size, stream, pos
        self.loops, self.value, self.kind = loops, value, kind
        self.within = tuple(ctx().loops)        # the loops the draw is made in

    def token(self):
        return (self.stream, self.pos)

    def __repr__(self):
        return f"Draw({self.family},{self.size},{self.stream}#{self.pos},loops={self.loops})"


def global_stream():
    c = ctx()
    if "global" not in c.streams:
        c.streams["global"] = Stream("global", "global")
        c.streams["global"].born = ()
    return c.streams["global"]


def take(random_state):
    """stream and position of a fresh draw, and whether positions differ between loop iterations"""
    c = ctx()
    if random_state is None:
        s = global_stream()
    elif isinstance(random_state, Stream):
        s = random_state
    elif isinstance(random_state, Num) or isinstance(random_state, (int, _np.integer)):
        # scipy builds RandomState(seed) anew in every call
        s = RandomState(random_state)
        return s.sid, 0, ()
    elif hasattr(random_state, "is_module_random"):
        s = global_stream()
    else:
        raise ValueError("random_state cannot be used to seed a numpy.random.RandomState instance")
    p = s.pos
    s.pos += 1
    # a stream made from a seed inside a loop starts again in every iteration
    return s.sid, p, tuple(a for a in c.loops if all(a is not b for b in s.born))


def std_draw(family, params, axes, random_state):
    """elementwise standard draw; returns Num over axes"""
    c = ctx()
    sid, pos, loops = take(random_state)
    name = f"draw:{len(c.draws)}"
    idx = [a.idx for a in loops] + [a.idx for a in axes if a is not UNIT and a.length is not X.ONE]
    val = X.fn(name, *idx)
    c.draws.append(Draw(family, params, axes, sid, pos, loops, val, "std"))
    if family in ("gamma", "beta"):
        c.assume(X.lt(X.ZERO, val))
    if family == "beta":
        c.assume(X.lt(val, X.ONE))
    if family == "geom":
        c.assume(X.isint(val))
        c.assume(X.le(X.ONE, val))
    return val


def sample(family, shapes, loc, scale, size, random_state):
    nums = [to_num(x) for x in list(shapes) + [loc, scale]]
    if any(isinstance(n, (Mat, MatStack)) for n in nums):
        raise Unsupported("sampling with a matrix parameter of a univariate law")
    terms, pax = bcast([(n.e, n.axes) for n in nums])
    if pax is None:
        pax = ()
    if size is None:
        axes = pax
        # scipy drops leading axes of length one
        while axes and (axes[0].length is X.ONE or not axes[0].length.op == "c"
                        and ctx().decide(X.eq(axes[0].length, X.ONE), "one sample")):
            axes = axes[1:]
    else:
        saxes = shape_axes(size)
        if len(saxes) == 1 and saxes[0] is UNIT and not pax:
            axes = ()          # rvs(size=1) returns an array of length one; see below
            axes = (UNIT,)
        else:
            terms2, axes = bcast([(t, pax) for t in terms] + [(X.ZERO, saxes)])
            if len(axes) != len(saxes):
                raise ValueError("size does not match the broadcast shape of the parameters")
            terms = terms2[:-1]
    shp, loc_e, sc_e = terms[:-2], terms[-2], terms[-1]
    kind = "array" if axes else "npfloat"
    if family == "norm":
        z = std_draw("norm", (), axes, random_state)
        return Num(A(loc_e, M(sc_e, z)), axes, kind)
    if family == "gamma":
        g = std_draw("gamma", tuple(shp), axes, random_state)
        return Num(A(loc_e, M(sc_e, g)), axes, kind)
    if family == "invgamma":
        g = std_draw("gamma", tuple(shp), axes, random_state)
        return Num(A(loc_e, D(sc_e, g)), axes, kind)
    if family == "expon":
        g = std_draw("gamma", (ONE,), axes, random_state)
        return Num(A(loc_e, M(sc_e, g)), axes, kind)
    if family == "chi2":
        g = std_draw("gamma", (M(HALF, shp[0]),), axes, random_state)
        return Num(A(loc_e, M(X.TWO, sc_e, g)), axes, kind)
    v = std_draw(family, tuple(shp), axes, random_state)
    return Num(A(loc_e, M(sc_e, v)), axes, kind)


class Law:
    """frozen univariate distribution"""
    __symbolic__ = True

    def __init__(self, family, shapes, loc, scale):
        self.family, self.shapes, self.loc, self.scale = family, shapes, loc, scale

    def _z(self, x):
        x = to_num(x)
        ps = [to_num(p) for p in self.shapes]
        loc, sc = to_num(self.loc), to_num(self.scale)
        terms, ax = bcast([(v.e, v.axes) for v in [x, *ps, loc, sc]])
        return terms, ax

    def curve(self, kind, x):
        """pdf, cdf, ... as uninterpreted functions of the point and the parameters"""
        terms, ax = self._z(x)
        f = FAMILIES[self.family]
        if kind in ("pdf", "pmf") and (kind == "pmf") != f["discrete"]:
            raise AttributeError(f"'rv_frozen' object has no attribute {kind!r}")
        r = Num(X.fn(f"{kind}:{self.family}", *terms), ax, "array" if ax else None)
        r.flt = True
        return r

    def pdf(self, x):
        return self.curve("pdf", x)

    def pmf(self, x):
        return self.curve("pmf", x)

    def cdf(self, x):
        return self.curve("cdf", x)

    def sf(self, x):
        return self.curve("sf", x)

    def ppf(self, x):
        return self.curve("ppf", x)

    def logpdf(self, x):
        return self.curve("logpdf", x)

    def logpmf(self, x):
        return self.curve("logpmf", x)

    # used by the contracts
    def log_density_e(self, x):
        terms, _ = self._z(x)
        x, shp, loc, sc = terms[0], terms[1:-2], terms[-2], terms[-1]
        f = FAMILIES[self.family]
        z = D(S(x, loc), sc) if sc is not ONE else S(x, loc)
        e = f["logd"](z, *shp)
        return e if f["discrete"] or sc is ONE else S(e, log(sc))

    def support_e(self, x):
        terms, _ = self._z(x)
        x, shp, loc, sc = terms[0], terms[1:-2], terms[-2], terms[-1]
        z = D(S(x, loc), sc) if sc is not ONE else S(x, loc)
        return FAMILIES[self.family]["supp"](z, *shp)

    def rvs(self, size=1, random_state=None):
        return sample(self.family, self.shapes, self.loc, self.scale, size, random_state)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.family} law attribute {n}")

    def __repr__(self):
        return f"Law({self.family},{self.shapes},loc={self.loc},scale={self.scale})"


class Family:
    __symbolic__ = True

    def __init__(self, name):
        self.name = self.__name__ = name

    def _bind(self, a, k, extra=()):
        f = FAMILIES[self.name]
        names = f["shapes"] + (["loc"] if f["discrete"] else ["loc", "scale"])
        vals = dict(zip(names, a))
        if len(a) > len(names):
            raise TypeError("too many arguments")
        for n, v in k.items():
            if n in vals or n not in names:
                raise TypeError(f"unexpected argument {n!r}")
            vals[n] = v
        for n in f["shapes"]:
            if n not in vals:
                raise TypeError(f"missing argument {n!r}")
        lib(f"stats.{self.name}", *[v for v in vals.values() if isinstance(v, Num)])
        return [vals[n] for n in f["shapes"]], vals.get("loc", 0), vals.get("scale", 1)

    def __call__(self, *a, **k):
        return Law(self.name, *self._bind(a, k))

    freeze = __call__

    def rvs(self, *a, size=None, random_state=None, **k):
        f = FAMILIES[self.name]
        names = f["shapes"] + (["loc"] if f["discrete"] else ["loc", "scale"]) + ["size", "random_state"]
        if len(a) > len(names) - 2:
            extra = dict(zip(names[-2:], a[len(names) - 2:]))
            size, random_state, a = extra.get("size", size), extra.get("random_state", random_state), a[:len(names) - 2]
        sh, loc, sc = self._bind(a, k)
        return sample(self.name, sh, loc, sc, size, random_state)

    def __getattr__(self, n):
        if n in ("pdf", "pmf", "cdf", "sf", "ppf", "logpdf", "logpmf"):
            return lambda x, *a, **k: getattr(Law(self.name, *self._bind(a, k)), n)(x)
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"stats.{self.name}.{n}")


# ------------------------------------------------------------------------------------------------ multivariate
class MLaw:
    __symbolic__ = True

    def __init__(self, family, **params):
        self.family, self.params = family, params
        self.__dict__.update({"p_" + k: v for k, v in params.items()})

    def rvs(self, size=1, random_state=None):
        c = ctx()
        if self.family in ("multivariate_normal", "wishart", "invwishart"):
            u = self._one_coordinate()
            if u is not None:
                alone = size == 1 if isinstance(size, int) else isinstance(size, Num) and c.decide(X.eq(size.e, X.ONE), "size is one")
                return sample(*u, None if alone else size, random_state)
        sid, pos, loops = take(random_state)
        axes = shape_axes(size)
        one = size == 1 if isinstance(size, int) else False
        if isinstance(size, Num) and not one and c.decide(X.eq(size.e, X.ONE), "size is one"):
            one = True
        k = len(c.draws)
        idx = "" .join(f"@{a.name}" for a in loops)
        if self.family == "multivariate_normal":
            d = self.params["mean"].r if isinstance(self.params["mean"], Mat) else None
            if d is None:
                raise Unsupported("multivariate normal with a scalar mean")
            m = Mat.letter(f"draw:{k}{idx}", d, X.ONE, 1, owner="fresh")
        elif self.family in ("invwishart", "wishart"):
            sc = self.params["scale"]
            if not isinstance(sc, Mat):
                raise Unsupported("Wishart with a scalar scale")
            m = Mat.letter(f"draw:{k}{idx}", sc.r, sc.r, 2, sym=True, pd=True, owner="fresh")
        elif self.family == "dirichlet":
            al = to_num(self.params["alpha"])
            if isinstance(al, Mat) or al.axes is None or len(al.axes) != 1:
                raise Unsupported("Dirichlet sampling")
            ax = axes + tuple(al.axes)
            ii = [a.idx for a in loops] + [a.idx for a in ax if a is not UNIT]
            v = Num(X.fn(f"draw:{k}", *ii), ax, "array")
            c.draws.append(Draw(self.family, self.params, axes, sid, pos, loops, v, "multi"))
            return v
        else:
            raise Unsupported(f"{self.family}.rvs")
        c.draws.append(Draw(self.family, self.params, axes, sid, pos, loops, m, "multi"))
        if one:
            return m
        if len(axes) != 1:
            raise Unsupported("multivariate draws of this size")
        return MatStack(axes[0], m)

    def _one_coordinate(self):
        """with 1 x 1 parameters: the univariate law, in whose samples scipy drops the matrix axes"""
        ps = self.params.values()
        if not all(isinstance(v, (int, float)) or isinstance(v, Num) and v.axes is not None and all(a is UNIT for a in v.axes) for v in ps):
            return None
        p = {n: Num(lift(v).e, ()) for n, v in self.params.items()}
        if self.family == "multivariate_normal":
            return "norm", [], p["mean"], p["cov"] ** 0.5
        half = p["df"] / 2
        return ("gamma", [half], 0, 2 * p["scale"]) if self.family == "wishart" else ("invgamma", [half], 0, p["scale"] / 2)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("pdf", "pmf", "logpdf", "logpmf", "mean", "cdf"):
            if n == "mean" and self.family == "dirichlet":
                return self._dirichlet_mean
            raise Unsupported(f"{self.family}.{n}")
        raise AttributeError(n)

    def _dirichlet_mean(self):
        al = to_num(self.params["alpha"])
        if isinstance(al, (Mat, MatStack)) or al.axes is None or len(al.axes) != 1:
            raise Unsupported("mean of a Dirichlet law")
        return al / al.sum()

    def __repr__(self):
        return f"MLaw({self.family},{self.params})"


class MFamily:
    __symbolic__ = True

    def __init__(self, name, names, defaults):
        self.name, self.names, self.defaults = name, names, defaults

    def _bind(self, a, k):
        vals = dict(zip(self.names, a))
        if len(a) > len(self.names):
            raise TypeError("too many arguments")
        for n, v in k.items():
            if n in vals or n not in self.names:
                if n in ("allow_singular", "seed"):
                    raise Unsupported(n)
                raise TypeError(f"unexpected argument {n!r}")
            vals[n] = v
        for n in self.names:
            if n not in vals:
                if n in self.defaults:
                    vals[n] = self.defaults[n]
                else:
                    raise TypeError(f"missing argument {n!r}")
        return vals

    def __call__(self, *a, **k):
        v = self._bind(a, k)
        if self.name == "dirichlet":
            al = to_num(v["alpha"])
            if isinstance(al, Num) and al.axes is not None and len(al.axes) != 1:
                raise ValueError("Parameter vector 'a' must be one dimensional")
            v["alpha"] = al
        return MLaw(self.name, **v)

    def rvs(self, *a, size=1, random_state=None, **k):
        if len(a) > len(self.names):
            extra = dict(zip(["size", "random_state"], a[len(self.names):]))
            size, random_state, a = extra.get("size", size), extra.get("random_state", random_state), a[:len(self.names)]
        return self(*a, **k).rvs(size=size, random_state=random_state)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"stats.{self.name}.{n}")


MFAMILIES = {
    "multivariate_normal": (["mean", "cov"], {"mean": None, "cov": 1}),
    "multivariate_t": (["loc", "shape", "df"], {"loc": None, "shape": 1, "df": 1}),
    "invwishart": (["df", "scale"], {}), "wishart": (["df", "scale"], {}),
    "dirichlet": (["alpha"], {}), "multinomial": (["n", "p"], {}),
    "dirichlet_multinomial": (["alpha", "n"], {}),
}


def generator_method(stream, n):
    """methods of numpy.random.Generator / RandomState"""
    sized = {
        "normal": ("norm", lambda loc=0.0, scale=1.0: ((), loc, scale)),
        "standard_normal": ("norm", lambda: ((), 0, 1)),
        "gamma": ("gamma", lambda shape, scale=1.0: ((shape,), 0, scale)),
        "standard_gamma": ("gamma", lambda shape: ((shape,), 0, 1)),
        "exponential": ("expon", lambda scale=1.0: ((), 0, scale)),
        "beta": ("beta", lambda a, b: ((a, b), 0, 1)),
        "chisquare": ("chi2", lambda df: ((df,), 0, 1)),
        "geometric": ("geom", lambda p: ((p,), 0, 1)),
        "poisson": ("poisson", lambda lam=1.0: ((lam,), 0, 1)),
        "uniform": ("uniform", lambda low=0.0, high=1.0: ((), low, high - low)),
    }
    if n in sized:
        fam, sig = sized[n]

        def f(*a, size=None, **k):
            import inspect
            np_ = len(inspect.signature(sig).parameters)
            if len(a) > np_:
                size, a = a[np_], a[:np_]
            sh, loc, sc = sig(*a, **k)
            return sample(fam, sh, loc, sc, size, stream)
        return f
    if n == "multivariate_normal":
        def g(mean, cov, size=None, **k):
            m = MLaw("multivariate_normal", mean=mean, cov=cov)
            return m.rvs(size=1 if size is None else size, random_state=stream)
        return g
    raise Unsupported(f"random generator method {n}")


class _Stats(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in FAMILIES:
            return _fam(n)
        if n in MFAMILIES:
            return _fam(n)
        if n == "gaussian_kde":
            return GaussianKde
        return UnknownFamily(n)


class UnknownFamily:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported(f"scipy.stats.{self.n}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"scipy.stats.{self.n}.{n}")


_fams = {}


def _fam(n):
    if n not in _fams:
        _fams[n] = Family(n) if n in FAMILIES else MFamily(n, *MFAMILIES[n])
    return _fams[n]


class GaussianKde:
    """kernel density estimate: an opaque function of its data and of the points"""

    def __init__(self, data, *a, **k):
        if a or k:
            raise Unsupported("options of gaussian_kde")
        self.data = d = to_num(data)
        if d.axes is None or len(d.axes) != 1 or d.axes[0].idx is None:
            raise Unsupported("gaussian_kde of other than a vector")

    def __call__(self, x):
        x = to_num(x)
        a = self.data.axes[0]
        data = X.subst(self.data.e, {a.idx.args[0]: X.var("b#kde")})
        r = Num(X.fn("kde", data, a.length, x.e), x.axes, "array")
        r.flt = True
        return r

    evaluate = pdf = __call__


def sp1(name, term, need=None):
    f = ufunc1(name, term, need)
    return SpFun(name, f)


class SpFun:
    def __init__(self, name, f):
        self.name = self.__name__ = name
        self.f = f

    def __call__(self, *a, **k):
        if is_sym(a) or ctx() is not None and ctx().in_code:
            return self.f(*a, **k)
        import scipy.special
        return getattr(scipy.special, self.name)(*a, **k)


SPECIAL = {
    "gammaln": sp1("gammaln", lg), "loggamma": sp1("loggamma", lg), "gamma": sp1("gamma", lambda e: X.fn("exp", lg(e))),
    "i0": sp1("i0", lambda e: X.fn("i0", e)),
    "i0e": sp1("i0e", lambda e: M(X.fn("i0", e), X.fn("exp", N(X.fn("abs", e))))),
    "expit": sp1("expit", lambda e: D(ONE, A(ONE, X.fn("exp", N(e))))),
    "logit": sp1("logit", lambda e: log(D(e, S(ONE, e)))),
    "log1p": sp1("log1p", lambda e: log(A(ONE, e))), "expm1": sp1("expm1", lambda e: S(X.fn("exp", e), ONE)),
    "factorial": sp1("factorial", lambda e: X.fn("exp", lg(A(e, ONE)))),
    "digamma": sp1("digamma", lambda e: X.fn("digamma", e)), "psi": sp1("psi", lambda e: X.fn("digamma", e)),
    "beta": SpFun("beta", ufunc2("beta", lambda a, b: X.fn("exp", betaln(a, b)))),
    "betaln": SpFun("betaln", ufunc2("betaln", betaln)),
    "betainc": SpFun("betainc", ufuncn("betainc", lambda a, b, x: X.ZERO if x is X.ZERO else X.fn("betainc", a, b, x))),
    "xlogy": SpFun("xlogy", ufunc2("xlogy", lambda a, b: M(a, log(b)))),
    "xlog1py": SpFun("xlog1py", ufunc2("xlog1py", lambda a, b: M(a, log(A(ONE, b))))),
    "binom": SpFun("binom", ufunc2("binom", lambda a, b: X.fn("exp", lchoose(a, b)))),
    "comb": SpFun("comb", ufunc2("comb", lambda a, b: X.fn("exp", lchoose(a, b)))),
    "poch": SpFun("poch", ufunc2("poch", lambda a, b: X.fn("exp", S(lg(A(a, b)), lg(a))))),
}


class _Special(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in SPECIAL:
            return SPECIAL[n]
        import scipy.special
        f = getattr(scipy.special, n)

        def g(*a, **k):
            if is_sym(a) or is_sym(k):
                raise Unsupported(f"scipy.special.{n}")
            return f(*a, **k)
        return g


class _LinalgSp(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from .ext_numpy import invert, solve_
        if n == "inv":
            return invert
        if n == "solve":
            return lambda a, b, **k: solve_(a, b)
        return UnknownFamily("linalg." + n)


class _Scipy(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return UnknownFamily(n)


STATS, SPECIAL_MOD, LINALG_SP = _Stats("scipy.stats"), _Special("scipy.special"), _LinalgSp("scipy.linalg")
SCIPY = _Scipy("scipy")
SCIPY.stats, SCIPY.special, SCIPY.linalg = STATS, SPECIAL_MOD, LINALG_SP
SCIPY.__version__ = SCIPY_VERSION
STATS.__path__ = SPECIAL_MOD.__path__ = SCIPY.__path__ = []
