"""Contract stub of numpy: what the verifier assumes about the library functions the code may call."""
import numbers
import inspect
import types

import numpy as _np

from . import expr as X
from .core import (UNIT, Axis, Cond, Num, Shape, Unsupported, as_cond, bcast, bind_reduce, ctx, kind_in, lift,
                   prod_len, same_len)
from .loops import Concat, SymSeq, as_array, map_terms
from .mats import LinAlgError, Mat, MatStack, Product, inverse_any, invertible, logdet_e, outer as mat_outer, trace_e


class generic:
    pass


class number(generic):
    pass


class integer(number):
    pass


class floating(number):
    pass


class float64(floating):
    pass


class int64(integer):
    pass


class ndarray:
    pass


class bool_(generic):
    pass


REAL_TYPES = {generic: _np.generic, number: _np.number, integer: _np.integer, floating: _np.floating,
              float64: _np.float64, int64: _np.int64, ndarray: _np.ndarray, bool_: _np.bool_}


def is_sym(v):
    from .load import TrackedList
    if isinstance(v, (Num, Cond, Mat, MatStack, Product, SymSeq, Concat, Stream)):
        return True
    if isinstance(v, TrackedList) and v.sym is not None:
        return True
    if isinstance(v, (list, tuple)):
        return any(is_sym(x) for x in list.__iter__(v) if True) if isinstance(v, list) else any(is_sym(x) for x in v)
    if isinstance(v, dict):
        return any(is_sym(x) for x in v.values())
    return False


def lib(name, *args):
    """record that a number handed to the code reaches a fixed library function"""
    c = ctx()
    if c is not None and c.in_code:
        c.event("library", name)
        if any(isinstance(a, (Num, Cond)) for a in args):
            c.event("library-call", name)


def to_num(v):
    """number-like -> Num (or Mat/MatStack unchanged)"""
    from .load import TrackedList
    if isinstance(v, Cond):
        return v.as_num()
    if isinstance(v, (Num, Mat, MatStack)):
        return v
    if isinstance(v, TrackedList) and v.sym is not None:
        v = v.sym
    if isinstance(v, SymSeq):
        return as_array(v)
    if isinstance(v, (list, tuple)):
        return array_of(list(v))
    n = lift(v)
    if n is None:
        raise Unsupported(f"numpy function on {type(v).__name__}")
    return n


def array_of(items):
    """array from a list of known length"""
    if not items:
        return Num(X.ZERO, (Axis("empty", X.ZERO),), "array")
    els = [to_num(i) for i in items]
    if any(isinstance(e, (Mat, MatStack)) for e in els):
        if len(els) == 1 and isinstance(els[0], Mat):
            return MatStack(UNIT, els[0])
        raise Unsupported("array of matrices")
    if len(els) == 1:
        return Num(els[0].e, (UNIT,) + tuple(els[0].axes), "array")
    terms, ax = bcast([(e.e, e.axes) for e in els])
    if ax is None:
        raise Unsupported("array of values of unknown shape")
    new = Axis(f"stk{ctx().fresh('')}", X.const(len(els)))
    e = terms[-1]
    for k, t in reversed(list(enumerate(terms[:-1]))):
        e = X.ite(X.eq(new.idx, X.const(k)), t, e)
    return Num(e, (new,) + tuple(ax), "array")


def ufunc1(name, term, need=None):
    def f(x, *a, **k):
        if k or a:
            raise Unsupported(f"options of numpy.{name}")
        if isinstance(x, (Mat, MatStack)):
            raise Unsupported(f"elementwise {name} of a matrix")
        x = to_num(x)
        lib(name, x)
        c = ctx()
        if c and c.strict and c.in_code and x.axes is None and kind_in(x, {"object"}):
            raise TypeError(f"loop of ufunc does not support argument 0 of type object which has no callable {name} method")
        if need and c and c.in_code:
            need(x.e)
        r = Num(term(x.e), x.axes, "array" if x.axes else "npfloat" if x.axes == () else None)
        r.flt = x.flt or name in FLOATS
        return r
    f.__name__ = name
    return f


# functions whose results are floating point numbers whatever their arguments
FLOATS = {"log", "exp", "log2", "log10", "log1p", "expm1", "sqrt", "fabs", "sin", "cos", "rint", "i0", "divide",
          "true_divide", "float_power", "arctan2", "hypot", "gammaln", "loggamma", "gamma", "i0e", "expit", "logit",
          "factorial", "digamma", "psi", "beta", "betaln", "xlogy", "xlog1py", "binom", "comb", "poch"}


def ufunc2(name, term, code=None):
    def f(x, y, *a, **k):
        if k or a:
            raise Unsupported(f"options of numpy.{name}")
        if isinstance(x, (Mat, MatStack)) or isinstance(y, (Mat, MatStack)):
            lib(name)
            op = {"add": lambda: x + y, "subtract": lambda: x - y, "multiply": lambda: x * y,
                  "divide": lambda: x / y, "true_divide": lambda: x / y, "matmul": lambda: x @ y}.get(name)
            if op is None:
                raise Unsupported(f"elementwise {name} of a matrix")
            return op()
        x, y = to_num(x), to_num(y)
        lib(name, x, y)
        c = ctx()
        if c and c.strict and c.in_code and any(v.axes is None and kind_in(v, {"object"}) for v in (x, y)):
            raise TypeError(f"operand does not support ufuncs ({name})")
        if c and c.in_code and code:
            code(x.e, y.e)
        (p, q), ax = bcast([(x.e, x.axes), (y.e, y.axes)])
        r = Num(term(p, q), ax, "array" if ax else "npfloat" if ax == () else None)
        r.flt = x.flt or y.flt or "float" in (x.kind, y.kind) or name in FLOATS
        return r
    f.__name__ = name
    return f


def ufuncn(name, term):
    """elementwise function of several arguments, total on the domain it is used in"""
    def f(*xs):
        xs = [to_num(x) for x in xs]
        lib(name, *xs)
        c = ctx()
        if c and c.strict and c.in_code and any(v.axes is None and kind_in(v, {"object"}) for v in xs):
            raise TypeError(f"operand does not support ufuncs ({name})")
        es, ax = bcast([(x.e, x.axes) for x in xs])
        r = Num(term(*es), ax, "array" if ax else "npfloat" if ax == () else None)
        r.flt = True
        return r
    f.__name__ = name
    return f


def compare(name, term):
    def f(x, y):
        x, y = to_num(x), to_num(y)
        lib(name, x, y)
        (p, q), ax = bcast([(x.e, x.axes), (y.e, y.axes)])
        return Cond(term(p, q), ax)
    return f


def need_pos(e):
    ctx().obl("logarithm of a non-positive number", X.lt(X.ZERO, e), "defined", f"log({e})")


def need_nonneg(e):
    ctx().obl("square root of a negative number", X.le(X.ZERO, e), "defined", f"sqrt({e})")


from .core import need_nonzero, need_pow  # noqa: E402

UF1 = {
    "log": (lambda e: X.fn("log", e), need_pos), "exp": (lambda e: X.fn("exp", e), None),
    "log2": (lambda e: X.div(X.fn("log", e), X.fn("log", X.TWO)), need_pos),
    "log10": (lambda e: X.div(X.fn("log", e), X.fn("log", X.const(10))), need_pos),
    "log1p": (lambda e: X.fn("log", X.add(e, X.ONE)), None),
    "expm1": (lambda e: X.sub(X.fn("exp", e), X.ONE), None),
    "sqrt": (X.sqrt, need_nonneg), "square": (lambda e: X.power(e, X.TWO), None),
    "reciprocal": (lambda e: X.div(X.ONE, e), None), "negative": (X.neg, None), "positive": (lambda e: e, None),
    "abs": (lambda e: X.fn("abs", e), None), "absolute": (lambda e: X.fn("abs", e), None),
    "fabs": (lambda e: X.fn("abs", e), None),
    "sin": (lambda e: X.fn("sin", e), None), "cos": (lambda e: X.fn("cos", e), None),
    "floor": (lambda e: X.fn("floor", e), None), "ceil": (lambda e: X.fn("ceil", e), None),
    "trunc": (lambda e: X.fn("trunc", e), None), "rint": (lambda e: X.fn("round", e), None),
    "round": (lambda e: X.fn("round", e), None), "i0": (lambda e: X.fn("i0", e), None),
}
def _max(a, b):
    return X.ite(X.le(b, a), a, b)


def _min(a, b):
    return X.ite(X.le(a, b), a, b)


UF2 = {
    "add": (X.add, None), "subtract": (X.sub, None), "multiply": (X.mul, None),
    "divide": (X.div, need_nonzero), "true_divide": (X.div, need_nonzero), "power": (X.power, need_pow),
    "float_power": (X.power, need_pow), "maximum": (_max, None), "minimum": (_min, None), "fmax": (_max, None),
    "fmin": (_min, None), "arctan2": (lambda a, b: X.fn("atan2", a, b), None),
    "hypot": (lambda a, b: X.sqrt(X.add(X.power(a, X.TWO), X.power(b, X.TWO))), None), "matmul": (X.mul, None),
    "floor_divide": (lambda a, b: X.fn("floor", X.div(a, b)), need_nonzero),
}


def asarray(a, dtype=None):
    v = a
    if not is_sym(v):
        return _np.asarray(v, dtype=dtype)
    if dtype not in (None, float, float64):
        raise Unsupported("dtype of an array")
    from .load import TrackedList
    if isinstance(v, (Mat, MatStack)):
        return v
    if isinstance(v, TrackedList) and v.sym is not None:
        v = v.sym
    if isinstance(v, SymSeq):
        return as_array(v)
    if isinstance(v, Num):
        lib("asarray", v)
        if v.axes == ():
            return v if v.kind == "array" else Num(v.e, (), "array", "fresh", v.name, v.dom)
        if v.axes is None:
            return v.view(v.e, None, v.kind)
        return v
    return to_num(v)


def array(object, dtype=None):
    v = object
    r = asarray(v, dtype)
    if isinstance(r, (Num, Mat)) and is_sym(v):
        import copy
        return copy.copy(r)
    return _np.array(r) if not is_sym(v) else r


def where(condition, x=None, y=None):
    c, a, b = condition, x, y
    if a is None:
        raise Unsupported("where with one argument")
    c = as_cond(c) if as_cond(c) is not None else Cond(X.not_(X.eq(to_num(c).e, X.ZERO)), to_num(c).axes)
    a, b = to_num(a), to_num(b)
    lib("where", Num(X.ZERO), a, b)
    (p, q, r), ax = bcast([(c.e, c.axes), (a.e, a.axes), (b.e, b.axes)])
    v = Num(X.ite(p, q, r), ax, "array" if ax else "npfloat" if ax == () else None)
    v.flt = any(z.flt or z.kind in ("float", "npfloat") for z in (a, b))
    return v


def broadcast_arrays(*vs):
    vs = [to_num(v) for v in vs]
    lib("broadcast_arrays", *vs)
    ts, ax = bcast([(v.e, v.axes) for v in vs])
    return tuple(v.view(t, ax, "array" if ax is not None else None) for v, t in zip(vs, ts))


def broadcast_shapes(*shapes):
    axes = []
    for s in shapes:
        axes.append(shape_axes(s))
    nd = max([len(a) for a in axes] or [0])
    _, out = bcast([(X.ZERO, a) for a in axes]) if axes else (None, ())
    return Shape(out)


def shape_axes(s):
    if isinstance(s, Shape):
        return s.axes
    if isinstance(s, (int, _np.integer)) or isinstance(s, Num):
        s = (s,)
    out = []
    for d in s:
        if isinstance(d, Num):
            out.append(size_axis(d.e))
        else:
            out.append(UNIT if d == 1 else size_axis(X.const(int(d))))
    return tuple(out)


def size_axis(e):
    """one axis object per length term within a path: equal sizes broadcast together position by position"""
    c = ctx()
    t = c.state.setdefault("size_axes", {})
    if e not in t:
        if c.unsat(X.le(e, X.ZERO)) and False:
            pass
        t[e] = Axis(f"n:{e}", e)
    return t[e]


def full_like_shape(shape, e):
    r = Num(e, shape_axes(shape), "array")
    r.flt = True
    return r


def ones(shape, dtype=None):
    if dtype not in (None, float):
        raise Unsupported("dtype of an array")
    return full_like_shape(shape, X.ONE) if is_sym(shape) else _np.ones(shape)


def zeros(shape, dtype=None):
    if dtype not in (None, float):
        raise Unsupported("dtype of an array")
    return full_like_shape(shape, X.ZERO) if is_sym(shape) else _np.zeros(shape)


def full(shape, fill_value, dtype=None):
    v = fill_value
    if dtype not in (None, float, float64):
        raise Unsupported("dtype of an array")
    return Num(to_num(v).e, shape_axes(shape), "array") if is_sym(shape) or is_sym(v) else _np.full(shape, v)


def like(e):
    def f(a, dtype=None):
        if dtype not in (None, float, float64):
            raise Unsupported("dtype of an array")
        v = a if isinstance(a, Mat) else to_num(a)
        if isinstance(v, Mat):
            r = Mat({}, v.r, v.c, v.nd) + Num(e, ())
            r.flt = dtype is not None or v.flt
            return r
        r = Num(e, v.axes, "array")
        r.flt = dtype is not None or v.flt
        return r
    return f


def einsum(subscripts, *ops):
    """products and traces: every index is summed over two operands, or belongs to one of them and the result"""
    if not isinstance(subscripts, str) or not all(isinstance(o, Mat) for o in ops):
        raise Unsupported("einsum of these operands")
    lib("einsum", *ops)
    ins, arrow, out = subscripts.replace(" ", "").partition("->")
    ins = ins.split(",")
    if len(ins) != len(ops) or any(len(s) != o.nd for s, o in zip(ins, ops)) or not "".join(ins).isalpha():
        raise Unsupported(f"einsum {subscripts}")
    every = "".join(ins)
    if not arrow:
        out = "".join(sorted(i for i in set(every) if every.count(i) == 1))
    if len(out) > 2 or len(set(out)) != len(out) or any(every.count(i) + out.count(i) > 2 or every.count(i) == 0 for i in every + out):
        raise Unsupported(f"einsum {subscripts}")
    chains = []             # matrices with a row and a column index, None where there is a single row or column
    for s, o in zip(ins, ops):
        m = Mat(o.terms, o.r, o.c, 2)
        i, j = (s[0], s[1]) if o.nd == 2 else (s[0], None)
        for k in (0, 1):
            x = (i, j)[k]
            if x is not None and every.count(x) == 1 and x not in out:       # summed alone
                m = m.sum(axis=k, keepdims=True)
                i, j = (None, j) if k == 0 else (i, None)
        chains.append((m, i, j))
    scalar = Num(X.ONE, ())
    done = []
    while chains:
        m, i, j = chains.pop()
        if i is not None and i == j:
            scalar = scalar * Num(trace_e(m), ())
            continue
        hit = None
        for n, (q, k, l) in enumerate(chains):
            if j is not None and j in (k, l) or i is not None and i in (k, l):
                hit = n
                break
        if hit is None:
            if i is None and j is None:
                scalar = scalar * Num(m.scalar_e(), ())
            else:
                done.append((m, i, j))
            continue
        q, k, l = chains.pop(hit)
        if not (j is not None and j in (k, l)):
            m, i, j = m.tr(), j, i
        if j != k:
            q, k, l = q.tr(), l, k
        chains.append((m @ q, i, l))
    if not out:
        return Num(scalar.e, (), "npfloat")
    if len(done) == 1 and len(out) == 2:
        m, i, j = done[0]
        r = m if (i, j) == tuple(out) else m.tr()
        r = Mat(r.terms, r.r, r.c, 2)
    else:
        vs = {}
        for m, i, j in done:
            if i is None:
                m, i, j = m.tr(), j, i
            vs[i] = Mat(m.terms, m.r, X.ONE, 1)
        r = vs[out] if len(out) == 1 else mat_outer(vs[out[0]], vs[out[1]])
    r = r * scalar
    r.flt = any(o.flt for o in ops)
    return r


def eye(N):
    n = N
    lib("eye")
    if isinstance(n, Num):
        r = Mat.eye(n.e)
        r.flt = True
        return r
    if isinstance(n, int):
        return Mat.eye(X.const(n)) if ctx() is not None else _np.eye(n)
    raise TypeError("expected an integer")


def ndim(a):
    v = a
    from .load import TrackedList
    if isinstance(v, TrackedList) and v.sym is not None:
        v = v.sym
    if isinstance(v, (Mat, MatStack)):
        return v.ndim
    if isinstance(v, Num):
        ctx().event("shape", "ndim")
        if v.axes is None:
            if kind_in(v, {"float", "int", "npfloat", "npint", "object"}):
                return 0
            raise Unsupported("ndim of a value of unknown shape")
        return len(v.axes)
    if isinstance(v, SymSeq):
        return as_array(v).ndim
    if isinstance(v, (list, tuple)) and is_sym(v):
        return 1 + max(ndim(x) for x in v)
    return _np.ndim(v)


def shape(a):
    v = a
    from .load import TrackedList
    if isinstance(v, TrackedList) and v.sym is not None:
        v = v.sym
    if isinstance(v, SymSeq):
        v = as_array(v)
    if isinstance(v, (Mat, MatStack)):
        return v.shape
    if isinstance(v, Num):
        ctx().event("shape", "shape")
        if v.axes is None:
            raise Unsupported("shape of a value of unknown shape")
        return Shape(v.axes)
    if is_sym(v):
        return to_num(v).shape
    return _np.shape(v)


def isscalar(element):
    v = element
    if isinstance(v, Num):
        return kind_in(v, {"float", "int", "npfloat", "npint"})
    return not is_sym(v) and _np.isscalar(v)


def size(a, axis=None):
    v = a
    if axis is None and isinstance(v, Num) and v.axes is not None:
        return prod_len(v.axes)
    if axis is None and isinstance(v, Mat):
        return v.size
    if isinstance(v, (Num, Mat)):
        s = shape(v)
        return s[axis]
    if isinstance(v, MatStack):
        raise Unsupported("size of a stack of matrices")
    return _np.size(v, axis)


def reduction(name):
    def f(a, axis=None, keepdims=False):
        v = a
        from .load import TrackedList
        if isinstance(v, TrackedList) and v.sym is not None:
            v = v.sym
        if isinstance(v, (Mat, MatStack, Product)):
            return getattr(v, name)(axis=axis, keepdims=keepdims)
        v = to_num(v)
        lib(name, v)
        if isinstance(v, Mat):
            return getattr(v, name)(axis=axis)
        return getattr(v, name)(axis=axis, keepdims=keepdims)
    return f


def stack(arrays, axis=0):
    from .load import TrackedList
    if isinstance(arrays, TrackedList) and arrays.sym is not None:
        arrays = arrays.sym
    if axis != 0:
        raise Unsupported("stack along another axis")
    if isinstance(arrays, SymSeq):
        return as_array(arrays)
    if not is_sym(arrays):
        return _np.stack(arrays)
    return array_of(list(arrays))


def linspace(start, stop, num=50, endpoint=True):
    if not isinstance(num, int):
        raise Unsupported("options of numpy.linspace")
    a, b = to_num(start), to_num(stop)
    if a.axes != () or b.axes != ():
        if a.axes is None or b.axes is None:
            raise Unsupported("linspace between values of unknown shape")
        raise Unsupported("linspace between arrays")
    ax = Axis(f"linspace{ctx().fresh('')}", X.const(num))
    step = X.div(X.sub(b.e, a.e), X.const(num - 1 if endpoint else num))
    return Num(X.add(a.e, X.mul(ax.idx, step)), (ax,), "array")


def arange(*a, start=None, stop=None, step=None):
    if start is not None or stop is not None or step is not None:
        if len(a) + sum(x is not None for x in (start, stop, step)) == 1:
            a = (stop if start is None else start,)
        else:
            a += tuple(x for x in (start, stop) if x is not None)
            a += (step,) if step is not None else ()
    a = [to_num(x) for x in a]
    lo, hi, st = (lift(0), a[0], lift(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else lift(1))
    if any(x.axes != () for x in (lo, hi, st)):
        raise Unsupported("arange between arrays")
    d = X.sub(hi.e, lo.e)
    if st.e is not X.ONE:
        d = X.div(d, st.e)
    c = ctx()
    n = d if c.unsat(X.not_(X.isint(d))) else X.fn("ceil", d)
    ax = Axis(f"arange{c.fresh('')}", n)
    return Num(X.add(lo.e, X.mul(st.e, ax.idx)), (ax,), "array")


def outer(a, b):
    lib("outer")
    if isinstance(a, (Mat,)) or isinstance(b, Mat):
        return mat_outer(a, b)
    raise Unsupported("outer product of plain arrays")


def dot(a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        return a @ b
    raise Unsupported("dot of plain arrays")


def transpose(a):
    return a.T if is_sym(a) else _np.transpose(a)


def trace(a):
    return a.trace() if isinstance(a, Mat) else _np.trace(a)


def diag(a):
    raise Unsupported("diag")


def expand_dims(a, axis):
    a = to_num(a)
    if isinstance(a, (Mat, MatStack)):
        return a[None, ...] if axis == 0 else (_ for _ in ()).throw(Unsupported("expand_dims of a matrix"))
    nd = len(a.axes) + 1
    axis %= nd
    return a[tuple([slice(None)] * axis + [None])]


def ravel(a):
    return to_num(a).ravel()


def squeeze(a):
    return to_num(a).squeeze()


def ix_(*keys):
    from .index import IxKey
    return tuple(IxKey(k, i, len(keys)) for i, k in enumerate(keys))


def divide_kw(a, b, **k):
    return UFS["divide"](a, b)


def isnan(x):
    x = to_num(x)
    lib("isnan", x)
    return Cond(X.FALSE, x.axes)


def isfinite(x):
    x = to_num(x)
    lib("isfinite", x)
    return Cond(X.TRUE, x.axes)


def clip(a, a_min=None, a_max=None, min=None, max=None):
    r, lo, hi = a, a_min if min is None else min, a_max if max is None else max
    if lo is not None:
        r = UFS["maximum"](r, lo)
    if hi is not None:
        r = UFS["minimum"](r, hi)
    return r


def average(a, axis=None):
    return reduction("mean")(a, axis=axis)


def copy_(a):
    return array(a)


def reshape(a, shape):
    return to_num(a).reshape(shape)


# the signatures of numpy: arguments are bound as numpy binds them, and an option the stub does not know is Unsupported
SIGNATURES = """
asarray(a, dtype=None, order=None, *, device=None, copy=None, like=None)
asanyarray(a, dtype=None, order=None, *, device=None, copy=None, like=None)
array(object, dtype=None, *, copy=True, order='K', subok=False, ndmin=0, like=None)
where(condition, x=None, y=None, /)
ones(shape, dtype=None, order='C', *, device=None, like=None)
zeros(shape, dtype=None, order='C', *, device=None, like=None)
full(shape, fill_value, dtype=None, order='C', *, device=None, like=None)
ones_like(a, dtype=None, order='K', subok=True, shape=None, *, device=None)
zeros_like(a, dtype=None, order='K', subok=True, shape=None, *, device=None)
eye(N, M=None, k=0, dtype=None, order='C', *, device=None, like=None)
identity(n, dtype=None, *, like=None)
ndim(a)
shape(a)
isscalar(element)
size(a, axis=None)
sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True)
mean(a, axis=None, dtype=None, out=None, keepdims=False, *, where=True)
max(a, axis=None, out=None, keepdims=False, initial=None, where=True)
min(a, axis=None, out=None, keepdims=False, initial=None, where=True)
amax(a, axis=None, out=None, keepdims=False, initial=None, where=True)
amin(a, axis=None, out=None, keepdims=False, initial=None, where=True)
average(a, axis=None, weights=None, returned=False, *, keepdims=False)
stack(arrays, axis=0, out=None, *, dtype=None, casting='same_kind')
linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, *, device=None)
outer(a, b, out=None)
dot(a, b, out=None)
transpose(a, axes=None)
trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None)
diag(v, k=0)
expand_dims(a, axis)
ravel(a, order='C')
squeeze(a, axis=None)
clip(a, a_min=None, a_max=None, out=None, *, min=None, max=None)
copy(a, order='K', subok=False)
vstack(tup, *, dtype=None, casting='same_kind')
reshape(a, shape, order='C')
"""


def adapted(name, f):
    """f called as numpy binds the arguments"""
    if name not in SIGS:
        return f
    sig, mine = SIGS[name], inspect.signature(f).parameters

    def g(*a, **k):
        try:
            ba = sig.bind(*a, **k)
        except TypeError as ex:
            raise TypeError(f"{name}() {ex}")
        pos, kw = [], {}
        for n, v in ba.arguments.items():
            d = sig.parameters[n].default
            if d is not inspect.Parameter.empty and (v is d or type(v) is type(d) and v == d):
                continue
            if n not in mine:
                raise Unsupported(f"option {n} of numpy.{name}")
            kw[n] = v
        return f(*pos, **kw)
    g.__name__ = name
    return g


def signature_of(line):
    name, _, rest = line.partition("(")
    return name, inspect.signature(eval(f"lambda {rest[:-1]}: 0"))


SIGS = dict(signature_of(line) for line in SIGNATURES.strip().splitlines())


def identity(n):
    return eye(n)


def logical(name):
    def f(*a):
        cs = [as_cond(x) for x in a]
        if any(c is None for c in cs):
            raise Unsupported(name)
        r = cs[0]
        if name == "not":
            return ~r
        for c in cs[1:]:
            r = r & c if name == "and" else r | c
        return r
    return f


UFS = {k: ufunc1(k, *v) for k, v in UF1.items()}
UFS.update({k: ufunc2(k, *v) for k, v in UF2.items()})
UFS.update(less=compare("less", X.lt), less_equal=compare("less_equal", X.le),
           greater=compare("greater", lambda a, b: X.lt(b, a)),
           greater_equal=compare("greater_equal", lambda a, b: X.le(b, a)), equal=compare("equal", X.eq),
           not_equal=compare("not_equal", lambda a, b: X.not_(X.eq(a, b))),
           logical_and=logical("and"), logical_or=logical("or"), logical_not=logical("not"),
           clip=clip, isnan=isnan, isfinite=isfinite, where=where, broadcast_arrays=broadcast_arrays,
           sum=reduction("sum"), mean=reduction("mean"), max=reduction("max"), min=reduction("min"),
           amax=reduction("max"), amin=reduction("min"), average=average,
           stack=stack, linspace=linspace, arange=arange, outer=outer, dot=dot, transpose=transpose, trace=trace,
           diag=diag, expand_dims=expand_dims, ravel=ravel, squeeze=squeeze, ones_like=like(X.ONE),
           zeros_like=like(X.ZERO), copy=copy_, reshape=reshape, einsum=einsum)
UFS = {k: adapted(k, v) for k, v in UFS.items()}

# functions that take symbolic and concrete arguments alike
ALWAYS = dict(asarray=asarray, array=array, ndim=ndim, shape=shape, isscalar=isscalar, size=size, ones=ones,
              zeros=zeros, full=full, eye=eye, identity=identity, broadcast_shapes=broadcast_shapes, ix_=ix_,
              linspace=linspace, arange=arange, asanyarray=asarray, atleast_1d=lambda v: (v if ndim(v) else array_of([v])) if is_sym(v)
              else _np.atleast_1d(v))
ALWAYS = {k: adapted(k, v) for k, v in ALWAYS.items()}


def invert(m):
    c = ctx()
    if not is_sym(m):
        return _np.linalg.inv(m)
    c.event("library", "inv")
    c.event("library-call", "linalg.inv")
    if isinstance(m, Num) and m.axes is not None:
        if len(m.axes) < 2:
            raise LinAlgError(f"{len(m.axes)}-dimensional array given. Array must be at least two-dimensional")
        if all(a is UNIT for a in m.axes[-2:]):
            return 1 / m
    r = inverse_any(m)
    if isinstance(r, Mat):
        r.flt = True
    if not invertible(m):
        c.obl("matrix to invert is nonsingular", X.E("bv", f"nonsingular({m!r})"), "defined")
    return r


def solve_(a, b):
    if not is_sym((a, b)):
        return _np.linalg.solve(a, b)
    return invert(a) @ b


def slogdet(m):
    raise Unsupported("slogdet")


def multi_dot(ms):
    r = ms[0]
    for m in ms[1:]:
        r = r @ m
    return r


def pinv(m):
    return invert(m)


class Stream:
    """ghost random stream: its position advances with every draw"""

    def __init__(self, sid, owner="code"):
        self.sid, self.pos, self.owner = sid, 0, owner
        c = ctx()
        self.born = tuple(c.loops) if c and not sid.startswith(("entropy", "derived")) else ()

    def __deepcopy__(self, memo):
        s = Stream(self.sid, self.owner)
        s.pos, s.born = self.pos, self.born
        return s

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from .ext_scipy import generator_method
        return generator_method(self, n)

    def __repr__(self):
        return f"<stream {self.sid}>"


class RandomState(Stream):
    def __init__(self, seed=None, _sid=None):
        c = ctx()
        if _sid is None:
            _sid = f"seed:{seed_id(seed)}" if seed is not None else f"entropy:{c.fresh('os')}"
            if isinstance(seed, Stream):
                _sid = f"derived:{seed.sid}:{seed.pos}"
                seed.pos += 1
        Stream.__init__(self, _sid)


class Generator(RandomState):
    pass


REAL_TYPES.update({})


def seed_id(seed):
    return X.show(seed.e) if isinstance(seed, Num) else repr(seed)


def default_rng(seed=None):
    if isinstance(seed, Generator):
        return seed
    if seed is None:
        return Generator(None)
    return Generator(None, _sid=f"rng:{seed_id(seed)}")


class _Random(types.ModuleType):
    RandomState, Generator, default_rng = RandomState, Generator, staticmethod(default_rng)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from .ext_scipy import generator_method, global_stream
        if n in ("seed", "set_state"):
            raise_effect("numpy.random." + n)
        return generator_method(global_stream(), n)


def raise_effect(what):
    c = ctx()
    c.events.append(("global-effect", what))
    raise Unsupported(what)


class _Linalg(types.ModuleType):
    inv, solve, pinv, multi_dot, slogdet = (staticmethod(invert), staticmethod(solve_), staticmethod(pinv),
                                           staticmethod(multi_dot), staticmethod(slogdet))
    LinAlgError = LinAlgError

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return guarded(f"linalg.{n}", getattr(_np.linalg, n))


def guarded(name, f):
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **k):
        if is_sym(a) or is_sym(k):
            raise Unsupported(f"numpy.{name}")
        return f(*a, **k)
    g.__name__ = name
    return g


class _NP(types.ModuleType):
    pi = Num(X.PI, (), "float")
    inf = float("inf")
    nan = float("nan")
    newaxis = None
    e = Num(X.fn("exp", X.ONE), (), "float")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("random", "linalg"):
            return {"random": _random, "linalg": _linalg}[n]
        if n in ALWAYS:
            return ALWAYS[n]
        if n in UFS:
            return dual(n)
        if not hasattr(_np, n):
            raise AttributeError(f"module 'numpy' has no attribute {n!r}")
        v = getattr(_np, n)
        for s, r in REAL_TYPES.items():
            if r is v:
                return s
        return guarded(n, v)


_duals = {}


class UFunc:
    def __init__(self, name):
        self.name = self.__name__ = name
        self.sym = UFS[name]
        self.real = getattr(_np, name)

    def __call__(self, *a, **k):
        if is_sym(a) or is_sym(k) or any(hasattr(x, "__symbolic__") for x in a):
            return self.sym(*a, **k)
        c = ctx()
        if self.name in UF1 and c and c.in_code and len(a) == 1 and not k and isinstance(a[0], (int, float)):
            return self.sym(to_num(a[0]))       # exact: a term, not a rounded number
        return self.real(*a, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"numpy.{self.name}.{n}")


def dual(n):
    if n not in _duals:
        _duals[n] = UFunc(n)
    return _duals[n]


_random = _Random("numpy.random")
_linalg = _Linalg("numpy.linalg")
NP = _NP("numpy")
NP.__version__ = "2.0.0"
NP.ndarray, NP.integer, NP.floating, NP.generic, NP.number = ndarray, integer, floating, generic, number
NP.float64, NP.int64, NP.bool_ = float64, int64, bool_
