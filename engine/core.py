"""Symbolic execution core: path exploration and the symbolic number that the real code of /repo computes with.

A Num stands for a scalar, for an array with symbolic axes (its term is the element at generic indices), or, with
axes None, for "any numeric value": a Python or numpy scalar or one generic element of an array of any shape.
"""
import numbers
import os
import operator
import sys
import traceback
import weakref
from fractions import Fraction

import numpy as _np

from . import expr as X
from . import smt
from .expr import E


class Unsupported(BaseException):
    """The code uses something the verifier has no semantics for: the obligation stays undecided."""


class PathEnd(BaseException):
    """The path is infeasible or already judged."""


class TimeUp(BaseException):
    """The time for this contract is over (raised again and again: foreign code may swallow it)."""
    late = False


ROOT = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "conjugate")
REPEATS = 24


class Obl:
    __slots__ = ("label", "hyps", "goal", "detail", "kind", "path", "status", "backend", "env", "why", "time", "paths")

    def __init__(self, label, hyps, goal, kind="ensures", detail="", path=""):
        self.label, self.hyps, self.goal, self.kind, self.detail, self.path = label, hyps, goal, kind, detail, path
        self.status = None
        self.backend = self.env = self.why = None
        self.time = 0.0


class Ctx:
    cur = None

    def __init__(self, prefix=(), forced=()):
        self.prefix, self.taken, self.pending = list(prefix), [], []
        self.forced_prefix, self.forced = list(forced), []      # decisions the path left no choice about
        self.forced_conds = set()
        self.pc, self.assumed, self.obls, self.events = [], [], [], []
        self.notes = []
        self.inputs = {}
        self.counter = {}
        self.kinds = {}
        self.in_code = 0
        self.strict = False
        self.feas = {}
        self.called = []
        self.draws = []
        self.effects = []
        self.loops = []
        self.state = {}
        self.streams = {}
        self.sites = {}
        self.unsupported = self.trace = None

    # naming ---------------------------------------------------------------------------------------
    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    # logic ----------------------------------------------------------------------------------------
    def hyps(self):
        return self.assumed + self.pc

    def assume(self, f):
        if f is X.FALSE:
            raise PathEnd()
        if f is not X.TRUE:
            self.assumed.append(f)

    def unsat(self, extra):
        from .discharge import array_facts
        hs = self.hyps() + [extra]
        r, _, _ = smt.solve(hs + array_facts(hs, self.inputs), timeout=2500, use_cvc5=False)
        return r == "unsat"

    def decide(self, c, why=""):
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        hy = set(self.hyps())
        if c in hy:
            return True
        if X.not_(c) in hy:
            return False
        if self.in_code:
            self.repeated()
        i = len(self.taken)
        forced = True
        if i < len(self.prefix):
            v, forced = self.prefix[i], self.forced_prefix[i]
        elif self.unsat(c):
            v = False
        elif self.unsat(X.not_(c)):
            v = True
        else:
            v, forced = True, False
            self.pending.append((self.taken + [False], self.forced + [False]))
        self.taken.append(v)
        self.forced.append(forced)
        self.pc.append(c if v else X.not_(c))
        if forced:
            self.forced_conds.add(self.pc[-1])
        return v

    def repeated(self):
        """a loop of the code whose end is decided anew in each turn is left after a number of turns"""
        f = sys._getframe(2)
        while f is not None and not f.f_code.co_filename.startswith(ROOT):
            f = f.f_back
        if f is not None:
            site = (f.f_code.co_filename, f.f_lineno)
            self.sites[site] = k = self.sites.get(site, 0) + 1
            if k > REPEATS:
                raise Unsupported("a loop whose number of turns depends on the inputs")

    def choose(self, n, why=""):
        if n == 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(1, n):
                self.pending.append((self.taken + [k], self.forced + [False]))
        self.taken.append(v)
        self.forced.append(False)
        self.notes.append(f"{why}={v}")
        return v

    def event(self, kind, what):
        if self.in_code:
            self.events.append((kind, what))

    def obl(self, label, goal, kind="ensures", detail=""):
        self.obls.append(Obl(label, self.hyps(), goal, kind, detail, "/".join(map(str, self.taken)) or "-"))


def ctx():
    return Ctx.cur


def explore(fn, max_paths=80):
    """Run fn on every feasible path.  Yields the contexts."""
    todo = [([], [])]
    n = 0
    while todo:
        pre = todo.pop()
        c = Ctx(*pre)
        Ctx.cur = c
        try:
            fn(c)
        except PathEnd:
            pass
        except Unsupported as ex:           # this path is out of reach; the others are not
            c.unsupported = str(ex) or "unsupported"
            c.trace = traceback.format_exc()
        finally:
            Ctx.cur = None
        todo.extend(c.pending)
        n += 1
        yield c
        if n >= max_paths and todo:
            raise Unsupported(f"more than {max_paths} paths")


# ------------------------------------------------------------------------------------------------ axes
class Axis:
    def __init__(self, name, length):
        self.name, self.length = name, length
        self.idx = X.var("i#" + name)

    def __repr__(self):
        return f"<{self.name}:{self.length}>"


UNIT = Axis("unit", X.ONE)


def same_len(a, b):
    if a is b or a.length is b.length:
        return True
    if a.length.op == "c" and b.length.op == "c":
        return a.length.args[0] == b.length.args[0]
    return ctx().decide(X.eq(a.length, b.length), "axis lengths")


def bcast(items):
    """items: list of (term, axes) -> (terms, axes)"""
    if any(ax is None for _, ax in items):
        return [t for t, _ in items], None
    nd = max(len(ax) for _, ax in items)
    out = [UNIT] * nd
    terms = []
    maps = []
    for t, ax in items:
        m = {}
        off = nd - len(ax)
        for k, a in enumerate(ax):
            cur = out[off + k]
            if a.length is X.ONE or a is UNIT:
                if a is not UNIT:
                    m[a.idx.args[0]] = X.ZERO
                continue
            if cur is UNIT or cur.length is X.ONE:
                out[off + k] = a
            elif cur is not a:
                if not same_len(cur, a):
                    raise ValueError("operands could not be broadcast together")
                m[a.idx.args[0]] = cur.idx
        maps.append(m)
    for (t, ax), m in zip(items, maps):
        terms.append(X.subst(t, m) if m else t)
    # one axis used twice (an outer product of a vector with itself) needs distinct index names
    if len({id(a) for a in out if a is not UNIT}) != len([a for a in out if a is not UNIT]):
        raise Unsupported("one axis broadcast against itself")
    return terms, tuple(out)


# ------------------------------------------------------------------------------------------------ conditions
def _unsupported(what):
    raise Unsupported(what)


class Cond:
    __array_ufunc__ = None

    def __init__(self, e, axes=()):
        self.e, self.axes = e, axes

    def __bool__(self):
        c = ctx()
        if c is None:
            raise Unsupported("truth value outside a path")
        if self.axes:
            if len(self.axes) and not all(a is UNIT for a in self.axes):
                raise ValueError("The truth value of an array with more than one element is ambiguous.")
        c.event("truth-test", str(self.e))
        if self.axes is None and c.strict and c.in_code:
            if kind_in(self, {"array", "object"}):
                raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return c.decide(self.e, "branch")

    def _bin(self, o, f):
        o = as_cond(o)
        if o is None:
            return NotImplemented
        (a, b), ax = bcast([(self.e, self.axes), (o.e, o.axes)])
        return Cond(f(a, b), ax)

    def __and__(self, o):
        return self._bin(o, X.and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, X.or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: X.not_(X.iff(a, b)))

    def __invert__(self):
        return Cond(X.not_(self.e), self.axes)

    def as_num(self):
        return Num(X.ite(self.e, X.ONE, X.ZERO), self.axes, kind="int")

    def __add__(self, o):
        return self.as_num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_num() - o

    def __rsub__(self, o):
        return o - self.as_num()

    def __getattr__(self, n):
        if n.startswith("__") or n in ("e", "axes"):
            raise AttributeError(n)
        raise Unsupported(f"truth value attribute {n}")

    def astype(self, t, **k):
        return self.as_num().astype(t, **k)

    def all(self, *a, **k):
        raise Unsupported("all over a symbolic array")

    any = all

    def __getitem__(self, k):
        n = Num(X.ZERO, self.axes)[k]
        return Cond(self.e, n.axes)

    @property
    def shape(self):
        return Num(X.ZERO, self.axes).shape

    @property
    def ndim(self):
        return Num(X.ZERO, self.axes).ndim

    __hash__ = None

    def __repr__(self):
        return f"Cond({self.e})"


def as_cond(o):
    if isinstance(o, Cond):
        return o
    if isinstance(o, bool):
        return Cond(X.TRUE if o else X.FALSE)
    if isinstance(o, Num):
        return Cond(X.not_(X.eq(o.e, X.ZERO)), o.axes)
    return None


# ------------------------------------------------------------------------------------------------ numbers
TEXT = {}        # numbers that were written into a text, by what was written


def text_parts(s):
    """a text as its literal parts and the numbers written into it"""
    import re
    out = []
    for i, p in enumerate(re.split(r"(\{[^{}]*\})", s)):
        out.append(TEXT[p] if i % 2 and p in TEXT else p)
    return out


ALL_KINDS = ("float", "array", "int", "npfloat", "npint", "object")


def as_e(o):
    """term of a plain number or Num, else None"""
    if isinstance(o, Num):
        return o.e
    if isinstance(o, bool):
        return X.ONE if o else X.ZERO
    if isinstance(o, (int, float, Fraction)):
        return X.const(o)
    if isinstance(o, numbers.Number) and not isinstance(o, complex):
        try:
            return X.const(Fraction(float(o))) if not float(o).is_integer() else X.const(int(o))
        except Exception:
            return None
    return None


def lift(o):
    if isinstance(o, Num):
        return o
    if isinstance(o, Cond):
        return o.as_num()
    e = as_e(o)
    if e is not None:
        return Num(e, (), kind="int" if isinstance(o, int) else "float")
    if type(o).__module__ == "numpy" and hasattr(o, "ndim"):
        if o.ndim == 0:
            return Num(as_e(o.item()), (), kind="npfloat")
        import numpy
        if o.size and (o == o.flat[0]).all():
            return Num(as_e(o.flat[0].item()), tuple(Axis(f"d{k}", X.const(n)) for n in o.shape for k in [str(n)]),
                       kind="array")
    return None


def same_memory(a, b):
    if a.group is None:
        a.group = [weakref.ref(a)]
    a.group.append(weakref.ref(b))
    b.group = a.group


def is_shared(a):
    return a.group is not None and any(r() is not None and r() is not a for r in a.group)


class Num:
    __slots__ = ("e", "axes", "kind", "owner", "name", "dom", "seq", "group", "flt", "__weakref__")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e, axes=(), kind=None, owner="fresh", name=None, dom=None, seq=None):
        self.e, self.axes, self.kind, self.owner, self.name, self.dom = e, axes, kind, owner, name, dom
        self.seq = seq
        self.group = None       # arrays over the same memory
        self.flt = False        # its entries are known to be floating point numbers

    # construction of results ------------------------------------------------------------------------
    def _np(self):
        return self.kind in ("npfloat", "npint", "array")

    def __getattr__(self, n):
        """what a number or an array has beyond the methods modelled here"""
        if n.startswith("__") or n in Num.__slots__:
            raise AttributeError(n)
        if hasattr(float, n) and n not in ("real", "imag", "conjugate"):
            raise Unsupported(f"attribute {n} of a number")
        if hasattr(_np.ndarray, n):
            if n not in ("real", "imag", "conjugate") and self.axes in (None, ()) and \
                    kind_in(self, {"float", "int", "object"}):
                raise AttributeError(f"number has no attribute {n!r}")
            if n == "real":
                return self
            if n in ("conj", "conjugate"):
                return lambda: self
            if n == "transpose":
                return lambda *a: self.T if not a else _unsupported("transpose with axes")
            if n == "clip":
                from .ext_numpy import UFS
                return lambda *a, **k: UFS["clip"](self, *a, **k)
            raise Unsupported(f"array attribute {n}")
        raise AttributeError(f"number has no attribute {n!r}")

    def __and__(self, o):
        raise Unsupported("bitwise operation")

    __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rshift__ = __divmod__ = __rdivmod__ = __and__

    def _bin(self, o, f, code=None, swap=False):
        if isinstance(o, Cond):
            o = o.as_num()
        if not isinstance(o, Num):
            l = lift(o)
            if l is None:
                return NotImplemented
            o = l
        a, b = (o, self) if swap else (self, o)
        (x, y), ax = bcast([(a.e, a.axes), (b.e, b.axes)])
        if code:
            code(x, y)
        kind = None
        if ax:
            kind = "array"
        elif ax is None and "object" in (self.kind, o.kind):
            kind = "object"
        elif ax == () and (self._np() or o._np()):
            kind = "npfloat"
        elif ax == () and self.kind == "int" and o.kind == "int" and f in (X.add, X.sub, X.mul):
            kind = "int"
        r = Num(f(x, y), ax, kind)
        r.flt = a.flt or b.flt or "float" in (a.kind, b.kind) or f is X.div
        return r

    def __add__(self, o):
        return self._bin(o, X.add)

    def __radd__(self, o):
        return self._bin(o, X.add, swap=True)

    def __sub__(self, o):
        return self._bin(o, X.sub)

    def __rsub__(self, o):
        return self._bin(o, X.sub, swap=True)

    def __mul__(self, o):
        return self._bin(o, X.mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and len(o) == 1 and self.axes == () and self.dom in ("count", "int"):
            from .ext_numpy import size_axis
            from .loops import SymSeq
            return SymSeq(size_axis(self.e), o[0], "tuple" if isinstance(o, tuple) else "list")
        return self._bin(o, X.mul, swap=True)

    def __truediv__(self, o):
        return self._bin(o, X.div, need_nonzero)

    def __rtruediv__(self, o):
        return self._bin(o, X.div, need_nonzero, swap=True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: X.fn("floor", X.div(a, b)), need_nonzero)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: X.fn("floor", X.div(a, b)), need_nonzero, swap=True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: X.sub(a, X.mul(b, X.fn("floor", X.div(a, b)))), need_nonzero)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: X.sub(a, X.mul(b, X.fn("floor", X.div(a, b)))), need_nonzero, swap=True)

    def __pow__(self, o, mod=None):
        return self._bin(o, X.power, need_pow)

    def __rpow__(self, o):
        return self._bin(o, X.power, need_pow, swap=True)

    def _of(self, e):
        r = Num(e, self.axes, self.kind)
        r.flt = self.flt
        return r

    def __neg__(self):
        return self._of(X.neg(self.e))

    def __pos__(self):
        return self._of(self.e)

    def __abs__(self):
        return self._of(X.fn("abs", self.e))

    def __matmul__(self, o):
        from .mats import Mat
        if isinstance(o, Mat):
            return NotImplemented
        raise Unsupported("@ on plain numbers")

    def isarray(self):
        """is this an object that changes in place?"""
        if self.axes:
            return True
        return kind_in(self, {"array"})

    def view(self, e, axes, kind):
        """an array over (part of) the same memory"""
        r = Num(e, axes, kind, self.owner, self.name, self.dom)
        r.flt = self.flt
        if self.axes or self.kind == "array" or self.axes is None:
            same_memory(self, r)
        return r

    @property
    def shared(self):
        """may its memory be seen through another array?"""
        return is_shared(self)

    def _inplace(self, op, o):
        c = ctx()
        if c is None or not self.isarray():
            return op(self, o)
        if self.owner == "input":
            c.event("mutates-input", f"{self.name or self.e} changed in place")
        r = op(self, o)
        if not isinstance(r, Num):
            raise Unsupported(f"in-place operation with {type(o).__name__}")
        if self.axes is not None and (r.axes is None or len(r.axes) != len(self.axes) or any(
                not same_len(p, q) for p, q in zip(r.axes, self.axes))):
            if r.axes is None:
                raise Unsupported("in-place operation with a value of unknown shape")
            raise ValueError("non-broadcastable output operand")
        l = lift(o)
        whole = l is not None and (l.kind == "int" or l.dom in ("int", "count")) and op in (operator.add, operator.sub, operator.mul)
        if self.owner != "input" and not self.flt and not whole:
            raise Unsupported("in-place operation on an array whose numbers may be integers")
        if self.shared:
            raise Unsupported("in-place operation on an array that shares its memory")
        if self.axes:
            r = Num(X.subst(r.e, {q.idx.args[0]: p.idx for p, q in zip(self.axes, r.axes) if p is not q and q is not UNIT}),
                    self.axes)
        self.e = r.e
        return self

    def __iadd__(self, o):
        return self._inplace(operator.add, o)

    def __isub__(self, o):
        return self._inplace(operator.sub, o)

    def __imul__(self, o):
        return self._inplace(operator.mul, o)

    def __itruediv__(self, o):
        return self._inplace(operator.truediv, o)

    def __ipow__(self, o):
        return self._inplace(operator.pow, o)

    def __ifloordiv__(self, o):
        return self._inplace(operator.floordiv, o)

    # comparisons ------------------------------------------------------------------------------------
    def _cmp(self, o, f):
        if isinstance(o, Cond):
            o = o.as_num()
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return NotImplemented
        l = lift(o)
        if l is None:
            return NotImplemented
        (x, y), ax = bcast([(self.e, self.axes), (l.e, l.axes)])
        if self.axes is None or l.axes is None:
            ctx() and ctx().event("comparison", f"{self.e} ~ {l.e}")
        return Cond(f(x, y), ax)

    def __lt__(self, o):
        return self._cmp(o, X.lt)

    def __le__(self, o):
        return self._cmp(o, X.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: X.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: X.le(b, a))

    def __eq__(self, o):
        r = self._cmp(o, X.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: X.not_(X.eq(a, b)))
        return True if r is NotImplemented else r

    def __hash__(self):
        c = ctx()
        if c is not None and c.in_code:
            if self.axes or self.kind == "array" or self.axes is None and kind_in(self, {"array"}):
                raise TypeError("unhashable type: 'numpy.ndarray'")
        return hash(self.e)

    def __bool__(self):
        ctx().event("truth-test", str(self.e))
        return bool(Cond(X.not_(X.eq(self.e, X.ZERO)), self.axes))

    # conversions ------------------------------------------------------------------------------------
    def to_int(self):
        c = ctx()
        c.event("conversion", f"int({self.e})")
        self._scalar_conv()
        if self.dom in ("int", "count") or self.e.op == "c" and self.e.args[0].denominator == 1:
            return Num(self.e, (), "int", dom=self.dom)
        return Num(X.fn("trunc", self.e), (), "int", dom="int")

    def to_float(self):
        ctx().event("conversion", f"float({self.e})")
        self._scalar_conv()
        return Num(self.e, (), "float", dom=self.dom)

    def _scalar_conv(self):
        if self.axes is None:
            if kind_in(self, {"array", "object"}):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
        elif self.axes and not all(a is UNIT for a in self.axes):
            raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __float__(self):
        raise Unsupported("conversion to a machine float")

    def __int__(self):
        if self.e.op == "c" and self.e.args[0].denominator == 1:
            return int(self.e.args[0])
        raise Unsupported("conversion to a machine int")

    __index__ = __int__

    def __round__(self, n=None):
        ctx().event("conversion", f"round({self.e})")
        if n in (None, 0):
            return Num(X.fn("round", self.e), self.axes, "int", dom="int")
        k = X.const(10 ** n)
        return Num(X.div(X.fn("round", X.mul(self.e, k)), k), self.axes)

    def __floor__(self):
        return Num(X.fn("floor", self.e), self.axes, "int", dom="int")

    def __ceil__(self):
        return Num(X.fn("ceil", self.e), self.axes, "int", dom="int")

    def __trunc__(self):
        return Num(X.fn("trunc", self.e), self.axes, "int", dom="int")

    def __format__(self, spec):
        return str(self)

    def __str__(self):
        s = "{" + str(self.e) + "}"
        TEXT[s] = self.e
        return s

    def __repr__(self):
        return f"Num({self.e}{'' if self.axes == () else self.axes})"

    def __copy__(self):
        return Num(self.e, self.axes, self.kind, "fresh", self.name, self.dom)

    def __deepcopy__(self, memo):
        return Num(self.e, self.axes, self.kind, "fresh", self.name, self.dom, self.seq)

    # array protocol ---------------------------------------------------------------------------------
    def _need_axes(self, what):
        if self.axes is None:
            c = ctx()
            c.event("shape", what)
            if c.strict and kind_in(self, {"float", "int", "object"}):
                raise AttributeError(f"no attribute {what!r}")
            raise Unsupported(f"{what} of a value of unknown shape")
        return self.axes

    def _isarr(self, what):
        ax = self._need_axes(what)
        if ax == () and not self._np() and self.kind is not None:
            raise AttributeError(f"{self.kind!r} object has no attribute {what!r}")
        if ax == () and self.kind is None:
            if kind_in(self, {"int", "float", "object"}):
                raise AttributeError(f"number has no attribute {what!r}")
        return ax

    @property
    def shape(self):
        ax = self._isarr("shape")
        return Shape(tuple(ax))

    @property
    def ndim(self):
        return len(self._isarr("ndim"))

    @property
    def size(self):
        return prod_len(self._isarr("size"))

    @property
    def T(self):
        ax = self._isarr("T")
        return self.view(self.e, tuple(reversed(ax)), self.kind)

    @property
    def dtype(self):
        raise Unsupported("dtype")

    def __len__(self):
        raise Unsupported("len() of a symbolic array reached the builtin")

    def length(self):
        ax = self._need_axes("len")
        if not ax:
            raise TypeError("object of type 'float' has no len()")
        return Num(ax[0].length, (), "int", dom="count")

    def reduce(self, name, axis=None, keepdims=False):
        if self.axes is None:
            c = ctx()
            if c is not None and kind_in(self, {"int", "float", "object"}):
                raise AttributeError(name)
            n = c.fresh(f"{name}[{self.e}]")
            return Num(X.fn(f"reduce_{name}", self.e), (), "npfloat")
        ax = self._isarr(name)
        if ax == ():
            return Num(self.e, (), "npfloat")
        ks = list(range(len(ax))) if axis is None else [axis] if isinstance(axis, int) else list(axis)
        ks = [k % len(ax) for k in ks]
        e = self.e
        for k in ks:
            a = ax[k]
            if a is UNIT or a.length is X.ONE:
                continue
            c = ctx()
            if name in ("max", "min") and c and c.in_code:
                c.obl(f"{name} of an empty array", X.le(X.ONE, a.length), "defined")
            e = bind_reduce(name, e, a)
        out = tuple(UNIT if k in ks else a for k, a in enumerate(ax)) if keepdims else \
            tuple(a for k, a in enumerate(ax) if k not in ks)
        r = Num(e, out, "array" if out else "npfloat")
        r.flt = self.flt
        return r

    def sum(self, axis=None, keepdims=False, **k):
        return self.reduce("sum", axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        r = self.reduce("sum", axis, keepdims)
        ax = self.axes
        if axis is None:
            n = prod_len(ax or ())
        else:
            n = prod_len((ax[axis],))
        return r / n

    def max(self, axis=None, keepdims=False, **k):
        return self.reduce("max", axis, keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return self.reduce("min", axis, keepdims)

    def ravel(self, *a):
        ax = [a for a in self._isarr("ravel") if a is not UNIT]
        if len(ax) > 1:
            raise Unsupported("ravel of more than one long axis")
        return self.view(self.e, tuple(ax) or (UNIT,), "array")

    def flatten(self, *a):
        r = self.ravel(*a)
        return Num(r.e, r.axes, "array")

    def squeeze(self, *a):
        ax = tuple(a for a in self._isarr("squeeze") if a is not UNIT)
        return self.view(self.e, ax, self.kind)

    def item(self):
        self._isarr("item")
        return Num(self.e, (), "float")

    def tolist(self):
        raise Unsupported("tolist")

    def copy(self):
        self._isarr("copy")
        return Num(self.e, self.axes, self.kind)

    def astype(self, t, **k):
        self._isarr("astype")
        if getattr(t, "__name__", str(t)).startswith(("float", "double")):
            r = Num(self.e, self.axes, self.kind)
            r.flt = True
            return r
        if getattr(t, "__name__", str(t)).startswith("int"):
            e = self.e if ctx() and ctx().unsat(X.not_(X.isint(self.e))) else X.fn("trunc", self.e)
            return Num(e, self.axes, self.kind, dom="int")
        raise Unsupported(f"astype {t!r}")

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        ax = self._isarr("reshape")
        long = [a for a in ax if a is not UNIT]
        if len(long) <= 1 and all(s in (1, -1) for s in shape) and sum(s == -1 for s in shape) == 1:
            return self.view(self.e, tuple((long[0] if long else UNIT) if s == -1 else UNIT for s in shape), "array")
        raise Unsupported("reshape")

    def __iter__(self):
        from .loops import symbolic_iter
        return symbolic_iter(self)

    def __getitem__(self, key):
        from .index import getitem
        return getitem(self, key)

    def __setitem__(self, key, v):
        if not self.isarray():
            raise TypeError("a number does not support item assignment")
        if self.owner == "input":
            ctx().event("mutates-input", f"{self.name or self.e} assigned to")
        if (key is Ellipsis or isinstance(key, slice) and key == slice(None)) and self.flt and not self.shared:
            r = lift(v)
            if r is not None and self.axes and r.axes is not None:
                z = Num(X.ZERO, self.axes) + r
                if len(z.axes) == len(self.axes):
                    self.e = z.e
                    return
        raise Unsupported("assignment into an array")

    def __array__(self, *a, **k):
        raise Unsupported("conversion to a numpy array")


class Shape(tuple):
    """shape of a symbolic array: entries are Nums; keeps the axes"""

    def __new__(cls, axes):
        t = tuple.__new__(cls, tuple(1 if a is UNIT or a.length is X.ONE else
                                     int(a.length.args[0]) if a.length.op == "c" else
                                     Num(a.length, (), "int", dom="count") for a in axes))
        t.axes = tuple(axes)
        return t


def prod_len(axes):
    n = X.ONE
    for a in axes:
        n = X.mul(n, a.length)
    return Num(n, (), "int", dom="count")


def bind_reduce(name, e, axis):
    """reduction of e over the index of axis, as a term closed in that index"""
    i = axis.idx.args[0]
    if i not in X.free_vars(e):
        if name == "sum":
            return X.mul(axis.length, e)
        if name in ("max", "min", "mean"):
            return e
    c = ctx()
    if c is not None and c.in_code and i in c.state.get("split", ()):
        raise Unsupported("reduction over entries the code treated case by case")
    b = X.var("b#")
    return X.E("f", f"{name}_over", X.subst(e, {i: b}), axis.length)


def need_nonzero(x, y):
    c = ctx()
    if c and c.in_code and y.op != "c":
        c.obl("division by zero", X.not_(X.eq(y, X.ZERO)), "defined", f"divisor {y}")
    if c and c.in_code and y is X.ZERO:
        raise ZeroDivisionError("division by zero")


def need_pow(b, x):
    c = ctx()
    if not (c and c.in_code):
        return
    if x.op == "c":
        k = x.args[0]
        if k.denominator != 1:
            c.obl("root of a negative number", X.le(X.ZERO, b) if k > 0 else X.lt(X.ZERO, b), "defined", f"base {b}")
        elif k < 0:
            c.obl("division by zero", X.not_(X.eq(b, X.ZERO)), "defined", f"base {b}")
    elif b.op != "c":
        c.obl("power of a negative number", X.le(X.ZERO, b), "defined", f"base {b}")


# ------------------------------------------------------------------------------------------------ kinds
def possible_kinds(v):
    if isinstance(v, Cond):
        ax, kind, dom = v.axes, None, None
    else:
        ax, kind, dom = v.axes, v.kind, v.dom
    if kind is not None:
        return [kind]
    if ax:
        return ["array"]
    ks = list(ALL_KINDS)
    if ax == ():
        ks = ["float", "int", "npfloat", "npint"]
    if dom == "real":
        ks = [k for k in ks if k not in ("int", "npint")]
    c = ctx()
    f = c.kinds.get(v.e)
    if f is not None:
        ks = [k for k in ks if k in f]
    return ks


def kind_in(v, s):
    """decide whether the runtime kind of v lies in s, splitting the path when both are possible"""
    c = ctx()
    ks = possible_kinds(v)
    yes = [k for k in ks if k in s]
    no = [k for k in ks if k not in s]
    if not no:
        return True
    if not yes:
        return False
    c.event("type-test", str(v.e))
    r = c.choose(2, f"kind({v.e}) in {sorted(s)}") == 0
    c.kinds[v.e] = yes if r else no
    return r
