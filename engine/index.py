"""numpy indexing of symbolic arrays: an index selects entries through an index map, axis by axis."""
import numbers

from . import expr as X
from .core import Axis, Num, Cond, Unsupported, UNIT, ctx, lift


class SymKey:
    """An arbitrary index of one of the kinds slice, list, mask: a map from new positions to old ones that
    depends only on the key and the length of the axis it is applied to."""
    __array_ufunc__ = None

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def apply(self, axis):
        new = Axis(f"{self.name}@{axis.name}", X.fn(f"sellen:{self.name}", axis.length))
        return new, X.fn(f"sel:{self.name}", new.idx, axis.length)

    def __iter__(self):
        raise Unsupported("iterating over an arbitrary index")

    def __len__(self):
        raise Unsupported("length of an arbitrary index")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of an arbitrary index")

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


class IxKey:
    def __init__(self, key, pos, n):
        self.key, self.pos, self.n = key, pos, n


def in_range(k, axis):
    """normalised index term, raising IndexError when the position does not exist"""
    c = ctx()
    if c.decide(X.and_(X.le(X.ZERO, k), X.lt(k, axis.length)), "index in range"):
        return k
    if c.decide(X.and_(X.lt(k, X.ZERO), X.le(X.neg(axis.length), k)), "negative index in range"):
        return X.add(k, axis.length)
    raise IndexError("index out of bounds")


def is_scalar_index(k):
    return isinstance(k, numbers.Integral) and not isinstance(k, bool) or isinstance(k, Num) and k.axes == ()


def getitem(v, key):
    ax = v.axes
    keys = key if isinstance(key, tuple) else (key,)
    if ax is None:
        if all(k is Ellipsis for k in keys):
            return v.view(v.e, None, v.kind)
        c = ctx()
        from .core import kind_in
        if c.strict and kind_in(v, {"float", "int", "object"}):
            raise TypeError("number is not subscriptable")
        raise Unsupported("indexing a value of unknown shape")
    if ax == ():
        if all(k is None or k is Ellipsis for k in keys):
            if v.kind in ("npfloat", "npint", "array"):
                return v.view(v.e, tuple(UNIT for k in keys if k is None), v.kind)
            raise TypeError("number is not subscriptable")
        if v.kind in ("npfloat", "npint", "array"):
            raise IndexError("invalid index to scalar variable.")
        raise TypeError("number is not subscriptable")
    nreal = sum(1 for k in keys if k is not None and k is not Ellipsis)
    if nreal > len(ax):
        raise IndexError("too many indices for array")
    if Ellipsis in [k for k in keys if k is Ellipsis]:
        p = [i for i, k in enumerate(keys) if k is Ellipsis][0]
        keys = keys[:p] + (slice(None),) * (len(ax) - nreal) + keys[p + 1:]
    else:
        keys = keys + (slice(None),) * (len(ax) - nreal)
    e, out, src = v.e, [], list(ax)
    fancy = None
    copies = False
    for k in keys:
        if k is None:
            out.append(UNIT)
            continue
        a = src.pop(0)
        i = a.idx.args[0]
        if isinstance(k, IxKey):
            k, copies = k.key, True
            new, m = fancy_map(k, a)
            out.append(new)
            e = X.subst(e, {i: m})
        elif is_scalar_index(k):
            m = in_range(lift(k).e, a)
            e = X.subst(e, {i: m})
        elif isinstance(k, slice):
            if k == slice(None):
                out.append(a)
                continue
            new, m = slice_map(k, a)
            out.append(new)
            e = X.subst(e, {i: m})
        else:
            if isinstance(k, SymKey) and k.kind == "slice":
                new, m = fancy_map(k, a)
            else:
                if fancy is not None:
                    raise Unsupported("two index arrays at once")
                fancy, copies = k, True
                new, m = fancy_map(k, a)
            out.append(new)
            e = X.subst(e, {i: m})
    if copies or not out:
        r = Num(e, tuple(out), "array" if out else "npfloat", "fresh", v.name)
        r.flt = v.flt
        return r
    return v.view(e, tuple(out), "array")


def fancy_map(k, a):
    if isinstance(k, SymKey):
        return k.apply(a)
    if isinstance(k, Num) and k.axes is not None and len(k.axes) == 1:
        return k.axes[0], k.e
    if isinstance(k, list) and all(is_scalar_index(x) for x in k):
        vals = [in_range(lift(x).e, a) for x in k]
        new = Axis(f"list{ctx().fresh('')}", X.const(len(vals)))
        m = vals[-1] if vals else X.ZERO
        for n, x in reversed(list(enumerate(vals[:-1]))):
            m = X.ite(X.eq(new.idx, X.const(n)), x, m)
        return new, m
    raise Unsupported(f"index of type {type(k).__name__}")


def slice_map(k, a):
    """the axis a slice selects and the positions it takes, by the rules of the language for its ends"""
    step = 1 if k.step is None else k.step
    n = a.length
    if isinstance(step, int) and step > 1 and k.start in (None, 0) and k.stop is None:
        new = Axis(f"{a.name}::{step}", X.fn("ceil", X.div(n, X.const(step))))
        return new, X.mul(X.const(step), new.idx)
    if step == -1 and k.start is None and k.stop is None:
        new = Axis(f"{a.name}::-1", n)
        return new, X.sub(X.sub(n, X.ONE), new.idx)
    if step != 1 or not all(x is None or is_scalar_index(x) for x in (k.start, k.stop)):
        raise Unsupported("slice of a symbolic array")
    c = ctx()

    def end(x, default):
        if x is None:
            return default
        e = lift(x).e
        if c.decide(X.lt(e, X.ZERO), "negative end of a slice"):
            e = X.add(n, e)
            return X.ZERO if c.decide(X.lt(e, X.ZERO), "slice from before the start") else e
        return n if c.decide(X.le(n, e), "slice past the end") else e
    lo, hi = end(k.start, X.ZERO), end(k.stop, n)
    if lo is X.ZERO and hi is n:
        return a, a.idx
    if not c.decide(X.le(lo, hi), "slice that selects something"):
        hi = lo
    new = Axis(f"{a.name}[{lo}:{hi}]", X.sub(hi, lo))
    return new, X.add(new.idx, lo)


class Marker:
    pass
