"""The proof interpretation of a contract: inputs are symbols, checks become obligations."""
import contextlib

import numpy as np
from numpy import array as _np_array, ndarray as _np_ndarray

from . import expr as X
from .core import Axis, Cond, Ctx, Num, PathEnd, TimeUp, UNIT, Unsupported, as_cond, ctx, lift
from .ext_numpy import to_num
from .loops import SymSeq, map_terms, unwrap
from .mats import Mat, MatStack, logdet_e, trace_e
from .index import SymKey


def deq_terms(a, b):
    """the same matrix"""
    from .mats import add_terms, czero, deq, scale_terms
    return a.nd == b.nd and deq(a.r, b.r) and deq(a.c, b.c) and \
        all(czero(k) for k in add_terms(a.terms, scale_terms(b.terms, X.const(-1))).values())


class SymH:
    symbolic = True

    def __init__(self, pkg, c, opts=None):
        self.pkg, self.c = pkg, c
        self.opts = opts or {}
        self.true = Cond(X.TRUE, None)
        self.pi = Num(X.PI, None)
        self.returned = 0
        self.state_ = {}
        self.runs = {}
        self.sfx = ""
        self.lengths = {}

    # the code under contract -----------------------------------------------------------------------
    D = property(lambda s: s.pkg.D)
    M = property(lambda s: s.pkg.M)
    P = property(lambda s: s.pkg.P)

    def mod(self, name):
        return self.pkg.get("conjugate." + name)

    # inputs -----------------------------------------------------------------------------------------
    layout = None

    @contextlib.contextmanager
    def renamed(self, sfx):
        """the same inputs under other names: other values, in arrays of the same lengths"""
        old, self.sfx = self.sfx, sfx
        try:
            yield
        finally:
            self.sfx = old

    def _in(self, name, dom, cond=None, axes=None, kind=None, lo=None, hi=None, ghost=False):
        name += self.sfx
        ax = self.layout(name) if self.layout and axes is None and not ghost else None
        if ax is not None:
            v = X.fn("arr:" + name, *[a.idx for a in ax if a is not UNIT]) if ax else X.var(name)
            self.c.inputs[name] = dict(dom=dom, lo=lo, hi=hi, ghost=False, axes=[a.name for a in ax if a is not UNIT],
                                       array=bool(ax))
            self.laid[name] = (v, ax)
            for f in cond or []:
                self.c.assume(f(v))
            return Num(v, ax, "array" if ax else "float", "input", name, dom)
        v = X.var(name)
        self.c.inputs[name] = dict(dom=dom, lo=lo, hi=hi, ghost=ghost)
        n = Num(v, axes, kind, "input", name, dom)
        for f in cond or []:
            self.c.assume(f(v))
        return n

    def real(self, name, scalar=False, ghost=False, kind=None):
        return self._in(name, "real", axes=() if scalar else None, ghost=ghost, kind=kind)

    def pos(self, name, scalar=False, ghost=False, kind=None, lo=None, hi=None):
        return self._in(name, "pos", [lambda v: X.lt(X.ZERO, v)], () if scalar else None, ghost=ghost, kind=kind, lo=lo, hi=hi)

    def nonneg(self, name, scalar=False, ghost=False, kind=None):
        return self._in(name, "nonneg", [lambda v: X.le(X.ZERO, v)], () if scalar else None, ghost=ghost, kind=kind)

    def prob(self, name, scalar=False, ghost=False, kind=None):
        return self._in(name, "prob", [lambda v: X.lt(X.ZERO, v), lambda v: X.lt(v, X.ONE)], () if scalar else None,
                        ghost=ghost, kind=kind)

    def count(self, name, lo=0, hi=None, scalar=False, ghost=False, kind=None):
        lo_e = lift(lo).e
        cs = [lambda v: X.isint(v), lambda v: X.le(lo_e, v)]
        if hi is not None:
            hi_e = lift(hi).e
            cs.append(lambda v: X.le(v, hi_e))
        return self._in(name, "count", cs, () if scalar else None, lo=lo if isinstance(lo, int) else 0,
                        hi=hi if isinstance(hi, int) else None, ghost=ghost, kind=kind)

    def sample_number(self, name):
        return self.count(name, 50, scalar=True, kind="int")

    def position(self, name, axis):
        return self.count(name, 0, Num(X.sub(axis.length, X.ONE), (), "int"), scalar=True, kind="int")

    def int(self, name, scalar=False, ghost=False, kind=None):
        return self._in(name, "int", [lambda v: X.isint(v)], () if scalar else None, ghost=ghost, kind=kind)

    def moments(self, n, a="x_total", b="x2_total"):
        """sum and sum of squares of n real observations"""
        s, q = self.real(a), self.real(b)
        n = lift(n)
        a, b = a + self.sfx, b + self.sfx
        self.c.inputs[a]["moments"] = (b, n.e)
        self.c.assume(X.le(X.power(s.e, X.TWO), X.mul(n.e, q.e)))
        self.c.assume(X.le(X.ZERO, q.e))
        self.c.assume(X.implies(X.eq(n.e, X.ZERO), X.and_(X.eq(s.e, X.ZERO), X.eq(q.e, X.ZERO))))
        return s, q

    def axis(self, name, lo=1, hi=None):
        """a symbolic length"""
        if name in self.lengths:
            return self.lengths[name]
        v = X.var(name)
        self.c.inputs[name] = dict(dom="dim", lo=lo, hi=hi, ghost=False)
        self.c.assume(X.isint(v))
        self.c.assume(X.le(X.const(lo), v))
        self.lengths[name] = Axis(name, v)
        return self.lengths[name]

    def arr(self, name, *axes, dom="real", kind="array"):
        name += self.sfx
        idx = [a.idx for a in axes]
        n = Num(X.fn("arr:" + name, *idx), tuple(axes), kind, "input", name, dom)
        self.c.inputs[name] = dict(dom=dom, axes=[a.name for a in axes], ghost=False, array=True)
        return n

    def one(self):
        """an axis of length one"""
        return UNIT

    def entries(self, v):
        """samples with one coordinate each"""
        if isinstance(v, Num) and v.axes and all(a is UNIT for a in v.axes[1:]):
            return Num(v.e, v.axes[:1], v.kind)
        return v

    def entry(self, v):
        return Num(v.e, ())

    def seq(self, name, axis, kind="list", dom="real"):
        name += self.sfx
        el = Num(X.fn("arr:" + name, axis.idx), (), None, dom=dom)
        self.c.inputs[name] = dict(dom=dom, axes=[axis.name], ghost=False, array=True)
        return SymSeq(axis, el, kind, "input", name)

    def rows(self, name, r, k, kind="list", dom="real"):
        """a list of lists"""
        name += self.sfx
        inner = Num(X.fn("arr:" + name, r.idx, k.idx), (), None, dom=dom)
        self.c.inputs[name] = dict(dom=dom, axes=[r.name, k.name], ghost=False, array=True)
        return SymSeq(r, SymSeq(k, inner, kind, "input", name), kind, "input", name)

    def vec_sum(self, label, a, b, c, depth=1):
        """a is, entry by entry, b + c; the three may be arrays or sequences"""
        from .loops import as_array

        def arr(v):
            if isinstance(v, SymSeq) or hasattr(v, "sym"):
                v = as_array(v if isinstance(v, SymSeq) else v.sym)
            return v
        a, b, c = arr(a), arr(b), arr(c)
        if not all(isinstance(v, Num) and v.axes is not None for v in (a, b, c)):
            self.c.obl(label, X.FALSE, detail=f"{a!r}")
            return
        if len(a.axes) != depth:
            self.c.obl(label + " (shape)", X.FALSE, detail=f"{a!r}")
            return
        from .core import same_len
        for p, q in zip(a.axes, b.axes):
            if not same_len(p, q):
                self.c.obl(label + " (shape)", X.FALSE, detail=f"{a!r}")
                return
        d = a - (b + c)
        self.c.obl(label, X.eq(d.e, X.ZERO))

    def vec_add(self, a, b):
        """entry by entry, in the form of a"""
        if isinstance(a, SymSeq):
            from .loops import as_array, rename
            e = lift(a.elem) + lift(rename(b.elem, b.axis, a.axis) if isinstance(b, SymSeq) else b)
            return SymSeq(a.axis, e, a.kind, "input", None)
        return a + b

    def zeros(self, axis):
        return Num(X.ZERO, (axis,), "array", "input", "zeros", "count")

    def vec_eq(self, label, a, b, depth=1):
        self.vec_sum(label, a, b, Num(X.ZERO, ()), depth)

    def num(self, v):
        return lift(v)

    def rat(self, a, b):
        return Num(X.div(X.const(a), X.const(b)), ())

    def key(self, kind, name="key"):
        self.c.inputs[name] = dict(dom="key", kind=kind, ghost=False)
        return SymKey(kind, name)

    def index(self, kind, name, axes):
        """an index of the given kind for an array over these axes; one object per name and kind"""
        a = axes[0]
        if kind in ("slice", "list", "mask", "array"):
            self.c.assume(X.le(X.ONE, X.fn(f"sellen:{name}", a.length)))      # something is selected
            return self.key(kind, name)
        n = Num(a.length, ())

        def whole(nm, k=None):
            return self.int(nm, scalar=True, kind=k)
        if kind in ("int", "numpy int", "negative int"):
            k = whole(name, "npint" if kind == "numpy int" else "int")
            self.assume(self.and_(self.le(-n, k), self.lt(k, 0)) if kind == "negative int" else
                        self.and_(self.le(0, k), self.lt(k, n)))
            return k
        if kind == "picked":
            ks = [whole(f"{name}{i}", "int") for i in range(3)]
            for k in ks:
                self.assume(self.and_(self.le(0, k), self.lt(k, n)))
            return ks
        if kind == "ellipsis":
            return Ellipsis
        if kind in ("too high", "too low"):
            k = whole(name, "int")
            self.assume(self.le(n, k) if kind == "too high" else self.lt(k, -n))
            return k
        if kind == "list too high":
            k, j = whole(name, "int"), whole(name + "0", "int")
            self.assume(self.le(n, k))
            self.assume(self.and_(self.le(0, j), self.lt(j, n)))
            return [j, k]
        if kind == "tuple too long":
            j = whole(name, "int")
            self.assume(self.and_(self.le(0, j), self.lt(j, n)))
            return (j, 0)
        if kind.startswith("tuple"):
            j, k = whole(name, "int"), whole(name + "1", "int")
            self.assume(self.and_(self.le(0, j), self.lt(j, n)))
            self.assume(self.and_(self.le(0, k), self.lt(k, Num(axes[1].length, ()))))
            return (j, k) if kind == "tuple of ints" else (j, slice(None)) if kind == "tuple of int and slice" else \
                (slice(None), k)
        raise KeyError(kind)

    def select(self, v, key):
        """v[key] by the rules of numpy"""
        from .index import getitem
        from .loops import as_array
        from .load import TrackedList
        if isinstance(v, TrackedList) and v.sym is not None:
            v = v.sym
        if isinstance(v, SymSeq):
            v = as_array(v)
        if isinstance(v, list):
            v = to_num(v)
        if not isinstance(v, Num):
            raise Unsupported(f"selection from {type(v).__name__}")
        return v if key is Ellipsis else getitem(v, key)

    def ndim(self, v):
        from .ext_numpy import ndim
        return ndim(v)

    def table(self, name, a):
        """a square table, positive on the diagonal"""
        b = Axis(a.name + "'", a.length)
        return self.arr(name, a, b)

    # matrices ---------------------------------------------------------------------------------------
    def dim(self, name, lo=1):
        if name in self.lengths:
            return self.lengths[name]
        v = self.lengths[name] = X.var(name)
        self.c.inputs[name] = dict(dom="dim", lo=lo, hi=None, ghost=False)
        self.c.assume(X.isint(v))
        self.c.assume(X.le(X.const(lo), v))
        return v

    def dimnum(self, d):
        return Num(d if isinstance(d, X.E) else X.const(d), (), "int", dom="count")

    def vec(self, name, d, ghost=False):
        name += self.sfx
        d = d if isinstance(d, X.E) else X.const(d)
        self.c.inputs[name] = dict(dom="vec", ghost=ghost)
        return Mat.letter(name, d, X.ONE, 1, owner="input")

    def mat(self, name, r, c, ghost=False):
        name += self.sfx
        r, c = [d if isinstance(d, X.E) else X.const(d) for d in (r, c)]
        self.c.inputs[name] = dict(dom="mat", ghost=ghost)
        return Mat.letter(name, r, c, 2, owner="input")

    def spd(self, name, d, ghost=False):
        name += self.sfx
        d = d if isinstance(d, X.E) else X.const(d)
        self.c.inputs[name] = dict(dom="spd", ghost=ghost)
        return Mat.letter(name, d, d, 2, sym=True, pd=True, owner="input")

    def stack(self, a, b):
        from .mats import stack
        return stack(a, b)

    def inv(self, m):
        from .mats import inverse_any
        return inverse_any(m)

    def eye(self, d):
        return Mat.eye(d if isinstance(d, X.E) else lift(d).e)

    def inverse_is(self, label, m, cand):
        """proved: cand is the inverse of m; from then on the inverse of m is read as cand"""
        from .mats import inverse_any, Mat as M_
        one = M_.eye(m.r)
        self.mat_eq("lemma: " + label, m @ cand, one, "lemma")
        p = inverse_any(m)
        (w, c), = p.terms.items()
        assert len(w) == 1 and w[0][0].inv_letter is not None
        w[0][0].alias = cand.scaled(X.div(X.ONE, c)).terms

    def trusted(self, label, cond, by):
        """a theorem of linear algebra that is not derived here: assumed, proved in lean/ under the name `by` (listed as
        unchecked in the evidence where Lean does not accept it), checked by execution as well"""
        self.c.assume(self._c(cond))
        n = f"trusted: {label} [{by}]"
        if n not in self.c.notes:
            self.c.notes.append(n)

    def logdet(self, m):
        return Num(logdet_e(m), None)

    def trace(self, m):
        return Num(trace_e(m), None)

    # logic ------------------------------------------------------------------------------------------
    def _c(self, v):
        c = as_cond(v)
        if c is None:
            raise Unsupported(f"not a condition: {v!r}")
        return c.e

    def lt(self, a, b):
        return Cond(X.lt(self.e(a), self.e(b)), None)

    def le(self, a, b):
        return Cond(X.le(self.e(a), self.e(b)), None)

    def equal(self, a, b):
        return Cond(X.eq(self.e(a), self.e(b)), None)

    def and_(self, *xs):
        return Cond(X.and_(*[self._c(x) for x in xs]), None)

    def or_(self, *xs):
        return Cond(X.or_(*[self._c(x) for x in xs]), None)

    def not_(self, x):
        return Cond(X.not_(self._c(x)), None)

    def implies(self, a, b):
        return Cond(X.implies(self._c(a), self._c(b)), None)

    def iff(self, a, b):
        return Cond(X.iff(self._c(a), self._c(b)), None)

    def isint(self, a):
        return Cond(X.isint(self.e(a)), None)

    def ite(self, c, a, b):
        return Num(X.ite(self._c(c), self.e(a), self.e(b)), None)

    def defined(self, a):
        e = self.e(a)
        return Cond(X.FALSE if X.free_vars(e) & {"inf", "-inf", "nan"} else X.TRUE, None)

    def e(self, a):
        n = lift(a)
        if n is None:
            raise Unsupported(f"not a number: {type(a).__name__}")
        return n.e

    # functions --------------------------------------------------------------------------------------
    def fn(self, name, *a):
        ns = [lift(x) for x in a]
        if any(n is None or n.axes is None for n in ns):
            return Num(X.fn(name, *[self.e(x) for x in a]), None)
        from .core import bcast
        es, ax = bcast([(n.e, n.axes) for n in ns])
        return Num(X.fn(name, *es), ax)

    def log(self, a):
        return self.fn("log", a)

    def exp(self, a):
        return self.fn("exp", a)

    def lgamma(self, a):
        return self.fn("lgamma", a)

    def betaln(self, a, b):
        a, b = lift(a), lift(b)
        return self.lgamma(a) + self.lgamma(b) - self.lgamma(a + b)

    def cos(self, a):
        return self.fn("cos", a)

    def sin(self, a):
        return self.fn("sin", a)

    def i0(self, a):
        return self.fn("i0", a)

    def betainc(self, a, b, x):
        return Num(X.fn("betainc", lift(a).e, lift(b).e, lift(x).e), None)

    def sqrt(self, a):
        return Num(X.sqrt(self.e(a)), None)

    def max(self, a, b):
        return self.ite(self.le(b, a), a, b)

    # objects of the package --------------------------------------------------------------------------
    def make(self, cls, **kw):
        """an object that the contract's precondition supplies (construction is not under scrutiny)"""
        return getattr(self.D, cls)(**kw)

    def abstract(self, o, sfx, **doms):
        """what a caller knows of a result: an object of its class with arbitrary parameters; the contract then assumes
        the callee's postcondition, proved before"""
        kw = {k: getattr(self, d)(f"{k}{sfx}", ghost=True) for k, d in doms.items()}
        for k in kw:
            self.c.inputs[k + sfx]["derived"] = True
        return type(o)(**kw)

    def cls(self, o):
        return type(o).__name__

    def check_class(self, label, o, *names):
        got = type(o).__name__
        ok = got in names and type(o).__module__ == "conjugate.distributions"
        self.c.obl(label, X.TRUE if ok else X.FALSE, detail=f"returned a {got}")
        if not ok:
            raise PathEnd()

    def prob1(self, name, **k):
        """in (0, 1]"""
        return self._in(name, "prob", [lambda v: X.lt(X.ZERO, v), lambda v: X.le(v, X.ONE)], **k)

    # execution --------------------------------------------------------------------------------------
    def call(self, f, *a, **k):
        c = self.c
        c.in_code += 1
        depth = len(c.loops)
        try:
            r = f(*a, **k)
        except Exception as ex:
            if TimeUp.late:
                raise TimeUp() from None
            del c.loops[depth:]
            if self.opts.get("debug"):
                raise
            c.obl("returns without an exception", X.FALSE, "returns", f"{getattr(f, '__name__', f)}: "
                  f"{type(ex).__name__}: {ex}")
            raise PathEnd()
        finally:
            c.in_code -= 1
        self.returned += 1
        return r

    def get(self, o, name):
        return self.call(lambda: getattr(o, name))

    def item(self, o, k):
        return self.call(lambda: o[k])

    def raises(self, label, exc, f, *a, contains=(), **k):
        c = self.c
        c.in_code += 1
        try:
            f(*a, **k)
        except Exception as ex:
            if TimeUp.late:
                raise TimeUp() from None
            ok = isinstance(ex, exc)
            msg = str(ex)
            self.returned += 1
            c.obl(label, X.TRUE if ok else X.FALSE, detail=f"{type(ex).__name__}: {ex}")
            for s in contains:
                c.obl(f"{label}: message names {s}", X.TRUE if s in msg else X.FALSE, detail=msg)
            return ex
        finally:
            c.in_code -= 1
        c.obl(label, X.FALSE, detail="no exception")
        return None

    class Opaque:
        """a value of a type nobody knows: only its type's name and its (non)membership in the package's classes may be
        asked for"""
        __array_ufunc__ = None
        __hash__ = None

        def __getattr__(self, n):
            if n.startswith("__") and n.endswith("__"):
                raise AttributeError(n)
            raise Unsupported(f"attribute {n} of a value of unknown type")

    opaque = type("T_unknown_type", (Opaque,), {})
    opaque.typename = "T_unknown_type"

    def accepts(self, label, f, par, v, data):
        """the call is not rejected (whatever else it does)"""
        c = self.c
        c.in_code += 1
        depth = len(c.loops)
        try:
            f(**{par: v}, **data)
        except ValueError as ex:
            del c.loops[depth:]
            c.obl(label, X.FALSE, detail=str(ex))
            return
        finally:
            c.in_code -= 1
        self.returned += 1
        c.obl(label, X.TRUE)

    # statements -------------------------------------------------------------------------------------
    def assume(self, c):
        self.c.assume(self._c(c))

    def check(self, label, cond, kind="ensures", detail=""):
        self.c.obl(label, X.TRUE if cond is True else X.FALSE if cond is False else self._c(cond), kind, detail)

    def lemma(self, label, cond):
        """proved first, then available to what follows"""
        f = self._c(cond)
        self.c.obl("lemma: " + label, f, "lemma")
        self.c.assume(f)

    def hint(self, label, cond):
        """a fact that helps the proof of what follows: used if it can be proved, otherwise not"""
        import random
        from . import discharge
        f = self._c(cond)
        r = discharge.prove(self.c.hyps(), f, self.c.inputs, random.Random(label))
        if r.status == "proved":
            self.c.obl("lemma: " + label, f, "lemma")
            self.c.assume(f)

    def eq(self, label, a, b, kind="ensures", tol=None):
        a, b = unwrap(a), unwrap(b)
        if isinstance(a, SymSeq) and isinstance(b, SymSeq):
            from .core import same_len
            if not same_len(a.axis, b.axis):
                self.c.obl(label + " (length)", X.FALSE, kind)
                return
            from .loops import rename
            return self.eq(label, a.elem, rename(b.elem, b.axis, a.axis), kind)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                self.c.obl(label + " (length)", X.FALSE, kind)
                return
            for i, (p, q) in enumerate(zip(a, b)):
                self.eq(f"{label}[{i}]", p, q, kind)
            return
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.mat_eq(label, a, b, kind)
        if isinstance(a, MatStack) or isinstance(b, MatStack):
            raise Unsupported("comparison of stacks")
        x, y = lift(a), lift(b)
        if x is None or y is None:
            self.c.obl(label, X.TRUE if a is b or type(a) is type(b) and a == b else X.FALSE, kind, f"{a!r} vs {b!r}")
            return
        if x.axes and y.axes and len(x.axes) == len(y.axes) and \
                all(p.length is q.length for p, q in zip(x.axes, y.axes)):
            y = map_terms(y, lambda e: X.subst(e, {q.idx.args[0]: p.idx for p, q in zip(x.axes, y.axes)
                                                   if p is not q and UNIT is not p and UNIT is not q}))
        self.c.obl(label, X.eq(x.e, y.e), kind)

    def mat_eq(self, label, a, b, kind="ensures"):
        from .mats import conform, add_terms, scale_terms, deq
        if not (isinstance(a, Mat) and isinstance(b, Mat)):
            self.c.obl(label, X.FALSE, kind, f"{a!r} vs {b!r}")
            return
        if a.nd != b.nd or not (deq(a.r, b.r) and deq(a.c, b.c)):
            self.c.obl(label + " (shape)", X.FALSE, kind, f"{a!r} vs {b!r}")
            return
        d = add_terms(a.terms, scale_terms(b.terms, X.const(-1)))
        self.c.obl(label, X.and_(*[X.eq(k, X.ZERO) for k in d.values()]), kind, "coefficient of every word")

    def same(self, label, a, b):
        self.c.obl(label, X.TRUE if a is b else X.FALSE, detail=f"{a!r} is {b!r}")

    def outer(self, a, b):
        from .mats import outer
        return outer(a, b)

    def name(self, name, e):
        """a positive number given a name of its own, with its value"""
        v = X.var(name)
        self.c.inputs[name] = dict(dom="pos", lo=None, hi=None, ghost=True, derived=True)
        self.c.assume(X.lt(X.ZERO, v))
        self.c.assume(X.eq(v, self.e(e)))
        self.c.obl("lemma: " + name + " is positive", X.lt(X.ZERO, self.e(e)), "lemma")
        return Num(v, None)

    def row(self, v):
        return v.row()

    def square(self, name, v, m=None):
        """v' m v with m positive semidefinite (or the identity): a number known to be nonnegative"""
        e = (v @ m @ v if m is not None else v @ v).e
        ok = m is None or m.definiteness(lambda c: "pos" if c.op == "c" and c.args[0] > 0 else None) is not None
        g = X.var(name)
        if ok:
            self.c.assume(X.le(X.ZERO, g))
        self.c.assume(X.eq(g, e))
        self.c.inputs[name] = dict(dom="nonneg", lo=0, hi=None, ghost=True, derived=True)
        return Num(g, None)

    def pos_def(self, label, m, base=None, squares=()):
        """m = base + sum_i c_i A_i' A_i with base symmetric positive definite by the shape of its terms and c_i >= 0"""
        from .mats import sign_of
        if not isinstance(m, Mat) or m.nd != 2:
            self.c.obl(label, X.FALSE, detail=f"{m!r}")
            return
        if m.symmetric() and m.definiteness(sign_of) == "pd":
            self.c.obl(label, X.TRUE)
            return
        if base is not None and base.symmetric() and base.definiteness(sign_of) == "pd":
            tot = base
            for c, a in squares:
                a2 = a if a.nd == 2 else a.row()
                tot = tot + (a2.tr() @ a2) * c
            if m.minus_is_zero(tot):
                for c, a in squares:
                    self.c.obl(label + ": weight of a square", X.le(X.ZERO, self.e(c)))
                self.c.obl(label, X.TRUE)
                return
        raise Unsupported(f"{label}: not of a form whose definiteness is decided: {m!r}"[:400])

    def all_pos(self, label, v):
        """every entry of a vector is positive"""
        from .loops import as_array
        if isinstance(v, SymSeq) or hasattr(v, "sym"):
            v = as_array(v if isinstance(v, SymSeq) else v.sym)
        self.c.obl(label, X.lt(X.ZERO, lift(v).e))

    def shape_is(self, label, v, *dims):
        from .mats import deq
        dims = [d if isinstance(d, X.E) else d.length if isinstance(d, Axis) else lift(d).e for d in dims]
        if isinstance(v, Num):
            ok = v.axes is not None and len(v.axes) == len(dims) and all(deq(a.length, b) for a, b in zip(v.axes, dims))
            self.c.obl(label, X.TRUE if ok else X.FALSE, detail=f"{v!r}")
            return
        got = v.shape if isinstance(v, Mat) else None
        ok = got is not None and len(got) == len(dims) and all(deq(lift(a).e, b) for a, b in zip(got, dims))
        self.c.obl(label, X.TRUE if ok else X.FALSE, detail=f"shape {got}")

    def length(self, v):
        from .load import len_
        return lift(len_(v))

    def ones(self, n):
        from .ext_numpy import size_axis
        return Num(X.ONE, (size_axis(lift(n).e),), "array")

    # values of any kind ------------------------------------------------------------------------------
    def strict(self):
        self.c.strict = True

    def restrict_events(self):
        self.mark = len(self.c.events)

    INSPECTIONS = ("comparison", "truth-test", "conversion", "shape", "iteration", "library-call")

    def no_inspection(self, label):
        ev = [f"{k}: {w}" for k, w in self.c.events[self.mark:] if k in self.INSPECTIONS]
        self.c.obl(label, X.FALSE if ev else X.TRUE, "effects", "; ".join(ev[:3]))

    def operators(self, v):
        """the same numbers as values that implement the arithmetic operators and nothing else"""
        if isinstance(v, Num):
            return Num(v.e, None, "object", "input", v.name, v.dom)
        if isinstance(v, (bool, np.bool_, str)) or v is None:
            return v
        if isinstance(v, dict):
            return {k: self.operators(x) for k, x in v.items()}
        if hasattr(type(v), "__dataclass_fields__"):
            return type(v)(**{f: self.operators(getattr(v, f)) for f in type(v).__dataclass_fields__})
        raise Unsupported(f"operator-only form of {type(v).__name__}")

    def plain(self, v):
        return v

    def same_number(self, label, a, b):
        if a is None or b is None or isinstance(a, (bool, np.bool_, str)):
            self.c.obl(label, X.TRUE if a is b or a == b else X.FALSE)
        else:
            self.eq(label, a, b)

    def replacement(self, default):
        """a function of the caller's with the value of the default one, for values of any kind"""
        name = getattr(default, "name", getattr(default, "__name__", None))
        from .ext_numpy import UF1, UF2
        from .ext_scipy import SPECIAL
        if name in UF1:
            t = UF1[name][0]
        elif name in UF2:
            t = UF2[name][0]
        elif name == "gammaln":
            t = lambda e: X.fn("lgamma", e)   # noqa: E731
        elif name == "i0":
            t = lambda e: X.fn("i0", e)   # noqa: E731
        else:
            raise Unsupported(f"replacement of {name}")

        def f(*a):
            return Num(t(*[self.e(x) for x in a]), None, "object")
        return f

    # replaceable functions ---------------------------------------------------------------------------
    BUILT_IN = {"inv": ("inv",), "eye": ("eye",), "outer": ("outer",), "max_fn": ("maximum", "fmax"), "ln": ("log",),
                "gammaln": ("gammaln", "loggamma", "lgamma"), "i0": ("i0",), "cos": ("cos",), "sin": ("sin",),
                "arctan2": ("arctan2", "atan2")}

    def meaning(self, role):
        """what the built-in function of this role computes (no library call of the code under contract)"""
        from .mats import inverse_any, outer

        def elementwise(name):
            return lambda *a: self.fn(name, *a)
        return {"inv": inverse_any, "eye": lambda n: Mat.eye(self.e(n)), "outer": outer,
                "max_fn": lambda a, b: self.array_max(a, b), "ln": elementwise("log"), "gammaln": elementwise("lgamma"),
                "i0": elementwise("i0"), "cos": elementwise("cos"), "sin": elementwise("sin"),
                "arctan2": elementwise("atan2")}[role]

    def array_max(self, a, b):
        from .core import bcast
        a, b = lift(a), lift(b)
        if a.axes is None or b.axes is None:
            return self.max(a, b)
        (p, q), ax = bcast([(a.e, a.axes), (b.e, b.axes)])
        return Num(X.ite(X.le(q, p), p, q), ax)

    def supplied(self, role, k):
        """a function of the caller's: the built-in one's value scaled (shifted) by k, of any callable form"""
        m = self.meaning(role)
        calls = self.supplied_calls = getattr(self, "supplied_calls", {})
        calls[role] = 0

        class Function:
            __slots__ = ()

            def __call__(_, *a):
                calls[role] += 1
                r = m(*a)
                return r + k if role in ("max_fn", "arctan2") else r * k
        return Function()

    def watched(self, label, roles, f, **k):
        """a call in which the built-in functions of these roles must not be called"""
        n = len(self.c.events)
        r = self.call(f, **k)
        for role in roles:
            bad = [w for e, w in self.c.events[n:] if e == "library" and w in self.BUILT_IN[role]]
            self.c.obl(f"{label}: the built-in {role} is not called", X.FALSE if bad else X.TRUE, "effects", f"calls {bad[:3]}")
            self.c.obl(f"{label}: the supplied {role} is called", X.TRUE if self.supplied_calls[role] else X.FALSE, "effects")
        return r

    def elementwise(self, run, layout, par):
        """fields of the call on numbers and on arrays laid out as stated"""
        q = run()
        a, r = Axis("A", X.var("len_A")), Axis("R", X.var("len_R"))
        for x in (a, r):
            self.c.inputs[x.length.args[0]] = dict(dom="dim", lo=1, hi=None, ghost=False)
            self.c.assume(X.isint(x.length))
            self.c.assume(X.le(X.ONE, x.length))
        pri, dat = {"all vectors": ((a,), (a,)), "vector data, scalar prior": ((), (a,)),
                    "vector prior, scalar data": ((a,), ()), "column prior, row data": ((r, UNIT), (a,)),
                    "row prior, column data": ((a,), (r, UNIT)), "table prior, row data": ((r, a), (a,)),
                    "scalar prior, table data": ((), (r, a))}[layout]
        self.laid = {}
        self.layout = lambda n: pri if n in par else dat
        try:
            o = run()
        finally:
            self.layout = None
        self.check_class("the same family", o, type(q).__name__)
        from .core import bcast
        for k in type(q).__dataclass_fields__:
            x, y = getattr(o, k), getattr(q, k)
            if y is None or isinstance(y, bool):
                self.c.obl(f"{k}: the same", X.TRUE if x is y else X.FALSE)
                continue
            x, y = lift(x), lift(y)
            used = [n for n in self.laid if n in X.free_vars(y.e)] if y is not None else []
            full = bcast([(X.ZERO, ax) for _, ax in self.laid.values()])[1] if self.laid else ()
            names = list(self.laid)
            terms = bcast([(self.laid[n][0], self.laid[n][1]) for n in names] + [(x.e, x.axes)])
            got, want = terms[0][-1], X.subst(y.e, dict(zip(names, terms[0])))
            same = x.axes is not None and len(terms[1]) == len(full) and all(p is s for p, s in zip(terms[1], full))
            self.c.obl(f"{k}: has the broadcast shape at most", X.TRUE if same else X.FALSE, detail=f"{x!r}")
            yield k, Num(got, None), Num(want, None)

    # frames ------------------------------------------------------------------------------------------
    def snapshot(self, *things):
        """what objects, sequences and arrays are now (symbolic values never change: in-place changes are recorded)"""
        out = [(t, self._state(t)) for t in things]
        return out, len(self.c.events)

    def _state(self, t):
        t = unwrap(t)
        if hasattr(type(t), "__dataclass_fields__"):
            return {f: (getattr(t, f), self._state(getattr(t, f))) for f in
                    list(type(t).__dataclass_fields__) + [n for n in ("_min_value", "_max_value") if n in vars(t)]}
        if isinstance(t, Num):
            return t.e
        if isinstance(t, SymSeq):
            return t.axis, t.elem
        if isinstance(t, Mat):
            return dict(t.terms)
        if isinstance(t, (list, tuple)):
            return [(x, self._state(x)) for x in t]
        if isinstance(t, dict):
            return {k: (x, self._state(x)) for k, x in t.items()}
        return None

    def nothing_hidden(self, label, objs):
        """no attribute beyond the fields was hung on an object handed in"""
        extra = [f"{type(o).__name__}.{n}" for o in objs if hasattr(type(o), "__dataclass_fields__")
                 for n in vars(o) if n not in type(o).__dataclass_fields__ and n not in ("_min_value", "_max_value")]
        self.c.obl(label, X.FALSE if extra else X.TRUE, "memory", f"written: {extra[:3]}")

    def some(self, xs):
        """all of them; executions look at a few"""
        return list(xs)

    def history(self, ops, this):
        """other operations in between: by the frame of every operation nothing is left behind; executions make some"""

    def overwrite(self, objs, others):
        """the caller gives its objects the fields of others"""
        done = False
        for o, p in zip(objs, others):
            if hasattr(type(o), "__dataclass_fields__"):
                for f in type(o).__dataclass_fields__:
                    setattr(o, f, getattr(p, f))
                    done = True
            elif isinstance(o, dict):
                o.update(p)
        return done and not any(isinstance(o, (Num, SymKey)) for o in objs)

    def apart(self, vals):
        return vals

    def overwrite_result(self, r):
        """only executed: that no array of the package's own is handed out is an obligation of the stores in the code"""
        return False

    def overwrite_arrays(self, objs, others):
        """the caller gives its arrays the contents of others"""
        done, rest = 0, 0

        def put(v, w):
            nonlocal done, rest
            if isinstance(v, Num) and isinstance(w, Num) and v.axes and w.axes and len(v.axes) == len(w.axes):
                v.e = X.subst(w.e, {q.idx.args[0]: p.idx for p, q in zip(v.axes, w.axes) if p is not q})
            elif isinstance(v, Mat) and isinstance(w, Mat):
                v.terms = dict(w.terms)
            else:
                rest += v is not w
                return
            done += 1
        for o, p in zip(objs, others):
            if hasattr(type(o), "__dataclass_fields__"):
                for f in type(o).__dataclass_fields__:
                    put(getattr(o, f), getattr(p, f))
            elif isinstance(o, dict):
                for k in o:
                    put(o[k], p[k])
            else:
                put(o, p)
        return done and not rest

    def law_view(self, q):
        """what is known of a law of the library"""
        from .ext_scipy import MLaw
        if isinstance(q, MLaw):
            return {"family": q.family, **q.params}
        raise Unsupported(f"law of type {type(q).__name__}")

    def _same_state(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            # a lower bound is settled on its first use
            return a.keys() == b.keys() - ({"_min_value"} - a.keys()) and all(self._same_state(a[k], b[k]) for k in a)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2:
            return a[0] is b[0] and self._same_state(a[1], b[1])
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self._same_state(x, y) for x, y in zip(a, b))
        return a is b or a == b

    @contextlib.contextmanager
    def fresh_package(self):
        """as in another process that has called nothing yet"""
        from .load import Package
        old, self.pkg = self.pkg, Package()
        try:
            yield
        finally:
            self.pkg = old

    def memory(self):
        from . import state
        return state.package(self.pkg.mods), state.process()

    def no_memory(self, label, before):
        """nothing outside the objects handed in and out is written: no later call can tell that this one was made"""
        from . import state
        now = self.memory()
        d = state.process_difference(before[1], now[1])
        self.c.obl(label, X.FALSE if d else X.TRUE, "frame", f"changes the process: {d}")
        d = state.difference(before[0], now[0])
        self.c.obl(label + " (package)", X.FALSE if d else X.TRUE, "memory", f"written: {d}")

    def result_of(self, r):
        """what a result is now"""
        return self._frozen(r)

    def _frozen(self, r):
        r = unwrap(r)
        if hasattr(type(r), "__dataclass_fields__"):
            v = {f: self._frozen(getattr(r, f)) for f in type(r).__dataclass_fields__}
            for n in ("_min_value", "_max_value"):
                if n in vars(r):
                    v[n] = self._frozen(vars(r)[n])
            return (type(r).__name__, v)
        if isinstance(r, (Num, Cond, Mat, MatStack, SymSeq)):
            import copy
            return copy.copy(r)
        if isinstance(r, (list, tuple)):
            return [self._frozen(x) for x in r]
        if isinstance(r, dict):
            return {k: self._frozen(v) for k, v in r.items()}
        return r

    def same_result(self, label, a, b):
        """two frozen results are equal"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] != b[0] or set(a[1]) - {"_min_value"} != set(b[1]) - {"_min_value"}:
                self.c.obl(f"{label}: the class", X.FALSE, detail=f"{a[0]} and {b[0]}")
                return
            for k in a[1]:
                if k in b[1]:
                    self.same_result(f"{label}: {k}", a[1][k], b[1][k])
        elif isinstance(a, dict) and isinstance(b, dict):
            self.c.obl(f"{label}: the entries", X.TRUE if a.keys() == b.keys() else X.FALSE)
            for k in a.keys() & b.keys():
                self.same_result(f"{label}: {k}", a[k], b[k])
        elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self.same_result(f"{label}: {i}", x, y)
        elif isinstance(a, Num) and isinstance(b, Num):
            from .core import same_len
            if a.axes is None or b.axes is None or len(a.axes) != len(b.axes):
                ok = a.axes is b.axes or a.axes is None and b.axes is None
            else:
                ok = all(p is q or same_len(p, q) for p, q in zip(a.axes, b.axes))
            if not ok:
                self.c.obl(f"{label} (shape)", X.FALSE, detail=f"{a!r} and {b!r}")
                return
            t = b.e
            if a.axes:
                t = X.subst(t, {q.idx.args[0]: p.idx for p, q in zip(a.axes, b.axes) if p is not q})
            self.c.obl(label, X.eq(a.e, t))
        elif isinstance(a, MatStack) or isinstance(b, MatStack):
            ok = isinstance(a, MatStack) and isinstance(b, MatStack) and a.axis.length is b.axis.length and a.trans == b.trans
            if not ok:
                self.c.obl(label, X.FALSE)
                return
            self.mat_eq(label, a.elem, b.elem)
        elif isinstance(a, (Num, Mat, SymSeq, Cond)) or isinstance(b, (Num, Mat, SymSeq, Cond)):
            self.eq(label, a, b)
        elif hasattr(a, "family") and hasattr(b, "family"):
            self.c.obl(label, X.TRUE if a.family == b.family else X.FALSE)
        else:
            self.c.obl(label, X.TRUE if a is b or type(a) is type(b) and a == b else X.FALSE, detail=f"{a!r} and {b!r}")

    @contextlib.contextmanager
    def any_arguments(self):
        """calls with arguments that need not fit together: only their equality with other calls matters"""
        n = len(self.c.obls)
        self.loose = True
        try:
            yield
        finally:
            self.loose = False
            self.c.obls[n:] = [o for o in self.c.obls[n:] if o.kind != "defined"]

    def attempt(self, f):
        """the frozen result, or the type of the exception"""
        c = self.c
        c.in_code += 1
        depth = len(c.loops)
        try:
            r = f()
        except Exception as ex:
            del c.loops[depth:]
            return ["raises", type(ex).__name__]
        finally:
            c.in_code -= 1
        self.returned += 1
        return self._frozen(r)

    def lend(self, r):
        """a result becomes an input: it belongs to the caller"""
        if hasattr(type(r), "__dataclass_fields__"):
            for f in type(r).__dataclass_fields__:
                self.lend(getattr(r, f))
        elif isinstance(r, (Num, Mat, SymSeq, MatStack)):
            r.owner = "input"
        elif isinstance(r, (list, tuple)):
            for x in list.__iter__(r) if isinstance(r, list) else r:
                self.lend(x)
        return r

    def unchanged(self, label, snap):
        objs, n = snap
        ev = [w for k, w in self.c.events[n:] if k in ("mutates-input", "global-effect")]
        ok = all(self._same_state(s, self._state(t)) for t, s in objs)
        self.c.obl(label, X.TRUE if ok and not ev else X.FALSE, "frame", "; ".join(map(str, ev)) or "a field was replaced")

    # laws --------------------------------------------------------------------------------------------
    def _own_law(self, q):
        if not type(q).__module__.startswith("conjugate"):
            raise Unsupported(f"law of type {type(q).__name__}")
        if hasattr(type(q), "pmf"):
            return "pmf"
        if hasattr(type(q), "pdf"):
            return "pdf"
        raise Unsupported(f"law without a density: {type(q).__name__}")

    def law_discrete(self, q):
        """does the law have a mass (rather than a density)?"""
        from .ext_scipy import FAMILIES, Law
        return self.true if (FAMILIES[q.family]["discrete"] if isinstance(q, Law) else self._own_law(q) == "pmf") else \
            self.not_(self.true)

    def law_value(self, q, x):
        """density or mass of a law of the package's own at x, by its own method"""
        return self.call(getattr(q, self._own_law(q)), x)

    def law_supp(self, q, x):
        from .ext_scipy import Law
        if isinstance(q, Law):
            return Cond(q.support_e(x), None)
        return self.lt(0, self.law_value(q, x))

    def law_logd(self, q, x):
        from .ext_scipy import Law
        if isinstance(q, Law):
            return Num(q.log_density_e(x), None)
        return self.log(self.law_value(q, x))

    def mv_law(self, label, q, family, **params):
        """a multivariate law of the library, of this family with these parameters"""
        from .ext_scipy import MLaw
        if not isinstance(q, MLaw):
            raise Unsupported(f"{label}: law of type {type(q).__name__}")
        self.c.obl(label + ": family", X.TRUE if q.family == family else X.FALSE, detail=q.family)
        if q.family != family:
            return
        for k, v in params.items():
            self.eq(f"{label}: {k}", q.params[k], v) if not isinstance(v, SymSeq) and not (
                isinstance(v, Num) and v.axes) else self.vec_eq(f"{label}: {k}", q.params[k], v)

    # plots ----------------------------------------------------------------------------------------------
    def laid_out(self, axis, names):
        """inputs of these names are arrays over the axis, the others bare numbers"""
        import contextlib

        @contextlib.contextmanager
        def m():
            self.laid = {}
            self.layout = lambda n: (axis,) if n in names else ()
            try:
                yield
            finally:
                self.layout = None
        return m()

    def size(self, axis):
        return Num(axis.length, (), "int", dom="count")

    def same_object(self, a, b):
        return True

    def axes(self, kind):
        from .ext_mpl import Axes, PolarAxes
        return {"given": lambda: Axes("ax"), "polar": lambda: PolarAxes("ax"), "default": lambda: None}[kind]()

    def used_axes(self, ax):
        """the axes a plot without axes goes to: the current ones"""
        return ax if ax is not None else self.c.state.get("gca")

    def each(self, o):
        """the distribution of one parameter setting (the one at an arbitrary position)"""
        f = type(o).__dataclass_fields__
        return [type(o)(**{k: Num(lift(getattr(o, k)).e, ()) if lift(getattr(o, k)) is not None and
                           not isinstance(getattr(o, k), (bool, np.bool_)) else getattr(o, k) for k in f})]

    def curves(self, label, ax, count):
        """what was drawn, by the contract of Axes.plot: the columns of y against x or against its columns"""
        from .core import same_len
        from .loops import rename
        recs = [r for r in ax.calls if r[0] == "plot"]
        if len(recs) > 1 and count is not None:
            raise Unsupported("curves drawn one by one")
        self.c.obl(f"{label}: drawn once", X.TRUE if len(recs) == 1 else X.FALSE, detail=f"{len(recs)} calls of plot")
        if len(recs) != 1:
            raise PathEnd()
        _, a, kw, loops = recs[0]
        x, y = (lift(v) for v in a[:2]) if len(a) >= 2 else (None, None)
        ok = x is not None and y is not None and x.axes and y.axes and same_len(x.axes[0], y.axes[0]) and len(loops) <= 1
        if ok:
            y = rename(Num(y.e, y.axes), y.axes[0], x.axes[0])
            col = [v.axes[1:] for v in (x, y)]
            ok = all(len(c) <= 1 for c in col) and (len(loops) == 0 or not any(col[0] + col[1]))
            wide = [c[0] for c in col if c and c[0] is not UNIT and c[0].length is not X.ONE]
            ok = ok and len(set(wide)) <= 1
        self.c.obl(f"{label}: x and y of matching shape", X.TRUE if ok else X.FALSE, detail=f"{a[:2]!r}")
        if not ok:
            raise PathEnd()
        k = loops[0] if loops else wide[0] if wide else None
        n = len(wide) + len(loops)
        self.c.obl(f"{label}: one for each parameter setting", X.TRUE if (k is None) == (count is None) and
                   (k is None or same_len(k, count)) else X.FALSE, detail=f"{k} for {count}")
        if (k is None) != (count is None) or n > 1:
            raise PathEnd()
        if k is not None:
            x, y = (rename(Num(v.e, (v.axes[0],)), k, count) for v in (x, y))
        return dict(x=Num(x.e, ()), y=Num(y.e, ()), axis=x.axes[0], ax=ax, options=kw, labels=kw.get("label"), k=k, count=count, looped=bool(loops))

    def runs_over(self, label, c, lo, hi, whole):
        a = c["axis"]
        i = a.idx.args[0]
        at = lambda e: Num(X.subst(c["x"].e, {i: e}), ())   # noqa: E731
        lo, hi = lift(lo), lift(hi)
        if whole:
            self.eq(f"{label}: from the lower bound on, every integer", c["x"], lo + Num(a.idx, ()))
            self.eq(f"{label}: to the upper bound", Num(a.length, ()), hi - lo + 1)
            return
        self.c.obl(f"{label}: at least two points", X.le(X.TWO, a.length))
        self.eq(f"{label}: from the lower bound on", at(X.ZERO), lo)
        self.eq(f"{label}: to the upper bound", at(X.sub(a.length, X.ONE)), hi)
        self.c.obl(f"{label}: without turning back", X.lt(c["x"].e, at(X.add(a.idx, X.ONE)).e))

    def over(self, axis, lo, hi):
        """a set of consecutive integers to sum over"""
        x = lift(hi) + 1
        b = Axis(f"over{self.c.fresh('')}", X.sub(x.e, lift(lo).e))
        return b, Num(X.add(lift(lo).e, b.idx), ())

    def total(self, f, o, lo, hi):
        """sum of the function over the integers of the bounds"""
        from .core import bind_reduce
        out = []
        for q in self.each(o):
            b, x = self.over(None, lo, hi)
            out.append(Num(bind_reduce("sum", lift(self.call(f, q, x)).e, b), ()))
        return out

    def on_curve(self, label, c, o, f, over=None):
        (q,) = self.each(o)
        want = lift(self.call(f, q, c["x"]))
        if over is not None:
            want = want / over[0]
        self.eq(label, c["y"], Num(want.e, ()))

    def on_curve_is(self, label, c, o, f):
        """whether (for a recorded finding)"""
        (q,) = self.each(o)
        self.recorded(label, self.equal(c["y"], Num(lift(self.call(f, q, c["x"])).e, ())))

    def density_estimate(self, label, c, o, n, src):
        """each curve is the kernel density estimate, at the curve's own points, of one coordinate of n joint samples"""
        y, count = c["y"].e, c["count"]
        ok = y.op == "f" and y.args[0] == "kde"
        self.c.obl(f"{label}: a kernel density estimate", X.TRUE if ok else X.FALSE, detail=f"{y}")
        if not ok:
            raise PathEnd()
        _, data, size, x = y.args
        self.eq(f"{label}: at the points of the curve", Num(x, ()), c["x"])
        self.eq(f"{label}: of the requested number of samples", Num(size, ()), n)
        ok = data.op == "f" and data.args[0].startswith("draw:") and set(data.args[1:]) == {X.var("b#kde"), count.idx}
        self.c.obl(f"{label}: of one coordinate of the samples", X.TRUE if ok else X.FALSE, detail=f"{data}")
        if not ok:
            raise PathEnd()
        d = self.c.draws[int(data.args[0][5:])]
        self.c.obl(f"{label}: of joint Dirichlet samples", X.TRUE if d.family == "dirichlet" else X.FALSE, detail=d.family)
        a = lift(d.params["alpha"])
        self.eq(f"{label}: of this distribution", Num(a.e, (count,)), o.alpha)

    def greatest(self, v):
        v = lift(v)
        return v.reduce("max") if v.axes else v

    def least(self, v):
        v = lift(v)
        return v.reduce("min") if v.axes else v

    def label_form(self, form, count):
        """a label argument of the given form"""
        forms = {"list": list, "tuple": tuple, "generator": lambda v: (x for x in v), "array": _np_array}
        lab = self.seq("labels", count, kind="list") if form in forms and count is not None else None
        if form in forms:
            return forms[form](["first"]) if lab is None else SymSeq(count, f"name {lab.elem}", form, "input", "labels")
        if form == "text":
            return "some text"
        if form == "function":
            return lambda i: f"number {i}"
        return None

    def coloured(self, label, c, given):
        """one colour for all curves, or the colours in order, from the first on again after the last"""
        calls = c["ax"].calls
        before = calls[:next(i for i, r in enumerate(calls) if r[0] == "plot")]
        cycles = [r for r in before if r[0] == "set_prop_cycle"]
        single = isinstance(given, str) or isinstance(given, tuple) and not isinstance(given[0], str)
        if single and c["options"].get("color") == given:
            got = c["options"]["color"]
        elif c["options"].get("color") is None and cycles and not cycles[-1][1] and set(cycles[-1][2]) == {"color"}:
            got = cycles[-1][2]["color"]
        elif c["looped"]:
            raise Unsupported("colours of curves drawn one by one")
        else:
            got = None
        if not isinstance(got, (str, list, tuple, _np_ndarray)) and got is not None:
            raise Unsupported("colours that are computed")
        if single:
            self.c.obl(label, X.TRUE if got == given or got == [given] else X.FALSE, detail=f"{got!r}, not {given!r}")
            return
        self.c.obl(label, X.TRUE if got is not None and list(_np_array(got, ndmin=1)) == list(_np_array(given, ndmin=1)) else X.FALSE,
                   detail=f"{got!r}, not {given!r}")

    def option(self, label, c, name, value):
        self.c.obl(label, X.TRUE if c["options"].get(name) == value else X.FALSE, detail=f"{c['options']!r}")

    def labelled(self, label, c, form, given):
        got, k, count = c["labels"], c["k"], c["count"]
        if count is None:
            if isinstance(got, (list, tuple, _np_ndarray)) and len(got) == 1:
                got = got[0]            # matplotlib takes the only label of the only curve
            want = {"none": None, "text": "some text", "function": None}.get(form, "first")
            if form == "function":
                want = given(0)
            return self._same_text(label, got, want)
        if not c["looped"]:
            if got is None:
                return self._same_text(label, None, None if form == "none" else 0)
            from .loops import as_seq, rename
            from .load import TrackedList
            s = got.sym if isinstance(got, TrackedList) and got.sym is not None else as_seq(got)
            if s is None and isinstance(got, (list, tuple)):        # a known number of labels
                n = len(got)
                self.c.obl(f"{label}: one for each curve", X.eq(count.length, X.const(n)), detail=f"{got!r}")
                for i, g in enumerate(list.__iter__(got) if isinstance(got, list) else got):
                    self._same_text(label, g, None if form == "none" else f"some text {i + 1}" if form == "text" else
                                    given(i) if form == "function" else map_terms(given.elem, lambda e, i=i: X.subst(e, {given.axis.idx.args[0]: X.const(i)})))
                return
            from .core import same_len
            ok = s is not None and same_len(s.axis, count) and s.kind != "generator"     # Axes.plot needs their number
            self.c.obl(f"{label}: one for each curve", X.TRUE if ok else X.FALSE, detail=f"{got!r}")
            if not ok:
                return
            got = rename(s.elem, s.axis, count)
        else:
            from .loops import rename
            got = rename(got, k, count)
        j = Num(count.idx, (), "int", dom="int")
        want = {"none": lambda: None, "text": lambda: f"some text {j + 1}", "function": lambda: given(j)}.get(
                    form, lambda: given.elem)()
        self._same_text(label, got, want)

    def _same_text(self, label, got, want):
        from .core import text_parts
        if isinstance(got, str) and isinstance(want, str):
            p, q = text_parts(got), text_parts(want)
            ok = len(p) == len(q) and all(isinstance(a, X.E) and isinstance(b, X.E) or a == b for a, b in zip(p, q))
            self.c.obl(label, X.and_(*[X.eq(a, b) for a, b in zip(p, q) if isinstance(a, X.E)]) if ok else X.FALSE,
                       detail=f"{got!r}, not {want!r}")
        else:
            self.eq(label, got, want)

    # sampling ------------------------------------------------------------------------------------------
    def rng_(self, kind):
        from .ext_numpy import Generator, RandomState
        if kind == "none":
            return None
        if kind in ("seed", "numpy seed"):
            if "seed" not in self.state_:
                self.state_["seed"] = self.count("seed", scalar=True, kind="int" if kind == "seed" else "npint")
            return self.state_["seed"]
        if kind not in self.state_:
            self.state_[kind] = (Generator if kind == "Generator" else RandomState)(None, _sid="caller")
        return self.state_[kind]

    def nsamples(self, name):
        return self.count(name, 1, scalar=True, kind="int")

    def sampled(self, label, kind, f, *a, **k):
        """the samples; every draw is fresh randomness of the given source"""
        first = len(self.c.draws)
        r = self.call(f, *a, **k)
        ds = self.c.draws[first:]
        ok = {"none": ("global", "entropy"), "seed": ("seed:", "rng:", "derived:seed", "derived:rng"),
              "Generator": ("caller", "derived:caller")}
        ok = ok.get(kind.replace("numpy ", ""), ok["Generator"])
        bad = [d for d in ds if not d.stream.startswith(ok)]
        self.c.obl(f"{label}: all randomness comes from the given source", X.FALSE if bad or not ds else X.TRUE, "effects",
                   str(bad[:2]) if ds else "nothing is drawn")
        seen, twice = set(), []
        for d in ds:
            if d.token() in seen or any(all(x is not y for y in d.loops) for x in d.within):
                twice.append(d)
            seen.add(d.token())
        self.c.obl(f"{label}: no two draws use the same randomness", X.FALSE if twice else X.TRUE, "effects", str(twice[:2]))
        self.runs.setdefault(label, []).append((ds, r))
        return r

    def _draws_in(self, e):
        out = {}
        stack, seen = [e], set()
        while stack:
            t = stack.pop()
            if not isinstance(t, X.E) or t in seen:
                continue
            seen.add(t)
            if t.op == "f" and str(t.args[0]).startswith("draw:"):
                out.setdefault(int(t.args[0][5:]), set()).add(t)
            stack.extend(t.args)
        return out

    def _size(self, label, axes, size):
        if size is None:
            return
        ok = axes is not None and len(axes) == 1
        self.c.obl(f"{label}: one axis of samples", X.TRUE if ok else X.FALSE, detail=f"{axes}")
        if ok:
            self.eq(f"{label}: the requested number of samples", Num(axes[0].length, ()), size)

    def drawn(self, label, v, family, size=None, given=(), **p):
        """v are independent draws, one for each element, from this law (given the draws that `given` was made from)"""
        v = lift(v)
        self._size(label, v.axes, size)
        known = set()
        for x in list(p.values()) + list(given):
            x = lift(x)
            known |= set(self._draws_in(x.e)) if x is not None else set()
        mine = {k: t for k, t in self._draws_in(v.e).items() if k not in known}
        want = 2 if family == "betaprime" else 1
        one = len(mine) == want and all(len(t) == 1 for t in mine.values())
        each = one and all(all(a.idx in t.args[1:] for a in v.axes or () if a.length is not X.ONE)
                           for t, in mine.values())
        self.c.obl(f"{label}: a fresh draw for each sample", X.TRUE if each else X.FALSE, detail=f"{v!r}")
        if not one:
            raise PathEnd()
        g = {k: Num(next(iter(t)), v.axes) for k, t in mine.items()}
        fam = [(self.c.draws[k].family, [Num(x, None) for x in self.c.draws[k].params], g[k]) for k in sorted(mine)]

        def base(name, i, *par):
            self.c.obl(f"{label}: a {name} draw", X.TRUE if fam[i][0] == name else X.FALSE, detail=fam[i][0])
            if fam[i][0] != name:
                raise PathEnd()
            for n, (got, exp) in enumerate(zip(fam[i][1], par)):
                self.eq(f"{label}: parameter {n + 1} of the {name} draw", got, exp)
            return fam[i][2]
        if family == "norm":
            self.eq(f"{label}: the draw", v, lift(p["loc"]) + p["scale"] * base("norm", 0))
        elif family == "gamma":
            self.eq(f"{label}: the draw", v, p["scale"] * base("gamma", 0, p["a"]))
        elif family == "invgamma":
            self.eq(f"{label}: the draw", v, p["scale"] / base("gamma", 0, p["a"]))
        elif family == "beta":
            self.eq(f"{label}: the draw", v, base("beta", 0, p["a"], p["b"]))
        elif family == "geom of beta":
            x = base("geom", 0)
            self.drawn(f"{label}, mixing", Num(fam[0][1][0].e, v.axes), "beta", a=p["a"], b=p["b"])
            self.eq(f"{label}: the draw", v, x + p["loc"])
        elif family == "betaprime":
            i = 0 if len(fam[0][1]) and fam[0][1][0].e is lift(p["a"]).e else 1
            x, y = base("gamma", i, p["a"]), base("gamma", 1 - i, p["b"])
            self.eq(f"{label}: the draw", v, p["scale"] * x / y)
        else:
            raise Unsupported(family)

    def _letter_draw(self, m):
        for d in self.c.draws:
            if isinstance(d.value, Mat) and isinstance(m, Mat) and deq_terms(d.value, m):
                return d

    def _stack(self, label, v, size):
        from .mats import MatStack
        ok = isinstance(v, MatStack) and not v.trans
        self.c.obl(f"{label}: a stack of samples", X.TRUE if ok else X.FALSE, detail=f"{type(v).__name__}")
        if not ok:
            raise PathEnd()
        n = v.length()
        self.eq(f"{label}: the requested number of samples", lift(n), size)
        return v.elem

    def _mdraw(self, label, m, v):
        d = self._letter_draw(m)
        each = d is not None and (v.axis in d.size or v.axis in d.loops or v.axis is UNIT)
        self.c.obl(f"{label}: a fresh draw for each sample", X.TRUE if each else X.FALSE, detail=f"{d}")
        if d is None:
            raise PathEnd()
        return d

    def drawn_mvn(self, label, v, size, mean, cov, given):
        m = self._stack(label, v, size)
        d = self._mdraw(label, m, v)
        self.c.obl(f"{label}: a normal draw", X.TRUE if d.family == "multivariate_normal" else X.FALSE, detail=d.family)
        self.mat_eq(f"{label}: mean", d.params["mean"], mean)
        axis, elem = (given.axis, given.elem) if isinstance(given, MatStack) else (given.axes[0], Num(given.e, ()))
        self.c.obl(f"{label}: each paired with its own", X.TRUE if axis is v.axis else X.FALSE, detail=f"{axis} {v.axis}")
        self.mat_eq(f"{label}: covariance", d.params["cov"], cov(elem))

    def drawn_wishart(self, label, v, size, family, df, scale, inverted=False):
        """draws (or the inverses of draws) of the (inverse) Wishart law"""
        m = self._stack(label, v, size)
        d = self._letter_draw(m)
        inv = False
        if d is None:
            d, inv = self._letter_draw(self.inv(m)), True
        if d is None:
            self.c.obl(f"{label}: a fresh draw for each sample", X.FALSE, detail=f"{m}")
            raise PathEnd()
        self._mdraw(label, d.value, v)
        got = d.family + (" inverted" if inv else "")
        same = {"wishart": ("wishart", "invwishart inverted"), "invwishart": ("invwishart", "wishart inverted")}[family]
        if inverted:
            same = {"wishart": ("wishart inverted", "invwishart"), "invwishart": ("wishart", "invwishart inverted")}[family]
        self.c.obl(f"{label}: the law's family", X.TRUE if got in same else X.FALSE, detail=got)
        if got not in same:
            raise PathEnd()
        self.eq(f"{label}: degrees of freedom", d.params["df"], df)
        self.mat_eq(f"{label}: scale", d.params["scale"], scale if d.family == family else self.inv(scale))

    def drawn_dirichlet(self, label, v, size, alpha, rows):
        v = lift(v)
        ds = self._draws_in(v.e)
        one = len(ds) == 1 and all(len(t) == 1 for t in ds.values())
        self.c.obl(f"{label}: one draw for each element", X.TRUE if one else X.FALSE, detail=f"{v!r}")
        if not one:
            raise PathEnd()
        (k, (t,)), = [(k, tuple(t)) for k, t in ds.items()]
        d = self.c.draws[k]
        n = 3 if rows else 2
        ok = t is v.e and v.axes is not None and len(v.axes) == n and all(
            a.idx in t.args[1:] for a in v.axes if a.length is not X.ONE)
        self.c.obl(f"{label}: a fresh draw for each sample", X.TRUE if ok else X.FALSE, detail=f"{v!r}")
        if not ok:
            raise PathEnd()
        self.c.obl(f"{label}: a Dirichlet draw", X.TRUE if d.family == "dirichlet" else X.FALSE, detail=d.family)
        self.eq(f"{label}: the requested number of samples", Num(v.axes[-2].length, ()), size)
        self.eq(f"{label}: concentrations", Num(lift(d.params["alpha"]).e, v.axes), alpha)

    def alone(self, label):
        """the first run returned pairs, the second the first of each"""
        (d, r), _ = self.runs[label][:2]
        self.runs[label][0] = (d, r[0])

    def repeated(self, label, kind):
        """the runs recorded under the label: the same seed gives the same samples, another state does not"""
        (d1, r1), (d2, r2) = self.runs[label][:2]
        t1, t2 = [(d.token(), d.family) for d in d1], [(d.token(), d.family) for d in d2]
        if "seed" not in kind:
            self.c.obl(f"{label}: another call draws anew", X.FALSE if {t for t, _ in t1} & {t for t, _ in t2} else X.TRUE, "effects")
            return
        self.c.obl(f"{label}: the same seed draws the same randomness", X.TRUE if t1 == t2 else X.FALSE, "effects", f"{t1} {t2}")
        if t1 != t2:
            raise PathEnd()
        names = {f"draw:{self.c.draws.index(b)}": f"draw:{self.c.draws.index(a)}" for a, b in zip(d1, d2)}

        def ren(e):
            if not isinstance(e, X.E):
                return e
            if e.op == "f":
                return X.fn(names.get(e.args[0], e.args[0]), *[ren(x) for x in e.args[1:]])
            return X.E(e.op, *[ren(x) for x in e.args])
        for a, b in zip(d1, d2):
            if isinstance(a.params, tuple):
                for x, y in zip(a.params, b.params):
                    self.eq(f"{label}: the same seed gives the same law", Num(ren(y), None), Num(x, None))
        same = isinstance(r1, tuple) == isinstance(r2, tuple) and (not isinstance(r1, tuple) or len(r1) == len(r2))
        self.c.obl(f"{label}: the same kind of result", X.TRUE if same else X.FALSE, "effects", f"{r1!r} {r2!r}")
        r1, r2 = (r if isinstance(r, tuple) else (r,) for r in (r1, r2))
        for x, y in zip(r1, r2):
            if isinstance(x, Num):
                self.eq(f"{label}: the same seed gives the same samples", Num(ren(y.e), y.axes), x)

    def recorded(self, label, cond):
        """not an obligation: whether the code still returns the wrong value recorded as a known finding"""
        self.c.obl(label, self._c(cond), "recorded")

    def note(self, s):
        self.c.notes.append(s)
