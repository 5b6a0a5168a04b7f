"""Matrices and vectors of symbolic size: noncommutative polynomials over letters, with exact rewriting.

A word is a product of letters (possibly transposed).  Rules: A A^-1 = I;  for the inverse P of a sum
M = c W0 + R the products P W0 and W0 P become (I - P R)/c and (I - R P)/c;  transposes of symmetric letters
vanish;  a factor of size 1 x 1 inside a word is a scalar;  1_N' 1_N = N.
"""
from fractions import Fraction

from . import expr as X
from .canon import Canon, CanonError
from .core import Axis, Num, Unsupported, UNIT, ctx, lift, as_e, Cond, is_shared, same_memory

WORDS = {}    # scalar variable name -> word
LOGDETS = {}  # variable name -> Mat
TRACES = {}   # variable name -> word
PSD_SCALARS = set()
_canon = Canon()


def ckey(e):
    try:
        return _canon.rf(e).key()
    except CanonError:
        return ("raw", X.show(e))


def czero(e):
    if e is X.ZERO:
        return True
    try:
        return _canon.is_zero(e)
    except CanonError:
        return False


def dkey(d):
    return X.show(d)


def deq(a, b):
    return a is b or (a.op == "c" and b.op == "c" and a.args[0] == b.args[0]) or czero(X.sub(a, b))


class Letter:
    __slots__ = ("name", "r", "c", "sym", "psd", "pd", "inv_of", "comp", "inv_letter", "parts", "alias")
    table = {}

    def __new__(cls, name, r, c, sym=False, pd=False, psd=False):
        l = cls.table.get((name, dkey(r), dkey(c), sym))
        if l is None:
            l = object.__new__(cls)
            l.name, l.r, l.c, l.sym, l.pd, l.psd = name, r, c, sym, pd, pd or psd
            l.inv_of = l.comp = l.inv_letter = l.parts = l.alias = None
            cls.table[(name, dkey(r), dkey(c), sym)] = l
        return l

    def __repr__(self):
        return self.name


def ones_letter(n):
    return Letter(f"1_{dkey(n)}", n, X.ONE)


def is_ones(l):
    return l.name.startswith("1_")


def stack_parts(l, other):
    if l.parts:
        return l.parts
    if is_ones(l) and other.parts and deq(l.r, other.r):
        return tuple(ones_letter(p.r) for p in other.parts)
    return None


def stack(a, b):
    """the rows of a followed by the rows of b, both plain letters"""
    ls = []
    for m in (a, b):
        (w, c), = m.terms.items()
        assert len(w) == 1 and not w[0][1] and c is X.ONE
        ls.append(w[0][0])
    l = Letter(f"[{ls[0].name};{ls[1].name}]", X.add(a.r, b.r), a.c)
    l.parts = tuple(ls)
    return Mat({(item(l),): X.ONE}, l.r, l.c, a.nd, "input", l.name)


def lt_(item):
    l, t = item
    return (l.c, l.r) if t else (l.r, l.c)


def item(l, t=False):
    return (l, t and not l.sym)


def wkey(w):
    return "·".join(l.name + ("'" if t else "") for l, t in w)


def wT(w):
    return tuple(item(l, not t) for l, t in reversed(w))


def add_terms(*ds):
    out = {}
    for d in ds:
        for w, c in d.items():
            out[w] = X.add(out[w], c) if w in out else c
    return {w: c for w, c in out.items() if c is not X.ZERO}


def scale_terms(d, k):
    return {w: X.mul(k, c) for w, c in d.items()}


def norm_word(w, depth=0):
    """word -> {word: coefficient}"""
    if depth > 60:
        raise Unsupported("matrix rewriting does not terminate")
    for i in range(len(w)):
        l, t = w[i]
        if l.alias is not None:
            out = {}
            for aw, ac in l.alias.items():
                out = add_terms(out, scale_terms(norm_word(w[:i] + (wT(aw) if t else aw) + w[i + 1:], depth + 1), ac))
            return out
        if l.r.op == "c" and l.r.args[0] == 0 or l.c.op == "c" and l.c.args[0] == 0:
            # an empty inner dimension makes the product zero (outer empty dimensions keep their letter)
            if i > 0 and lt_(w[i])[0].op == "c" and lt_(w[i])[0].args[0] == 0 or \
                    i < len(w) - 1 and lt_(w[i])[1].op == "c" and lt_(w[i])[1].args[0] == 0:
                return {}
        if i + 1 < len(w):
            m, u = w[i + 1]
            if (l.inv_of is m or m.inv_of is l) and (l.sym or t == u):
                return norm_word(w[:i] + w[i + 2:], depth + 1)
            if is_ones(l) and l is m and t and not u:
                return scale_terms(norm_word(w[:i] + w[i + 2:], depth + 1), l.r)
            if t and not u and (l.parts or m.parts):
                # rows stacked: [A; B]' [C; D] = A'C + B'D
                a, b = stack_parts(l, m), stack_parts(m, l)
                if a and b and all(deq(p.r, q.r) for p, q in zip(a, b)):
                    out = {}
                    for p, q in zip(a, b):
                        out = add_terms(out, norm_word(w[:i] + (item(p, True), item(q)) + w[i + 2:], depth + 1))
                    return out
        if l.comp is not None:
            w0, c0, rest = l.comp
            for side in ("right", "left"):
                ww, rr = w0, rest
                if t:
                    ww = wT(w0)
                k = len(ww)
                right = (side == "right")
                if right and w[i + 1:i + 1 + k] == ww:
                    pre, post = w[:i], w[i + 1 + k:]
                elif not right and i >= k and w[i - k:i] == ww:
                    pre, post = w[:i - k], w[i + 1:]
                else:
                    continue
                out = {}
                out = add_terms(out, scale_terms(norm_word(pre + post, depth + 1), X.div(X.ONE, c0)))
                for rw, rc in rr.items():
                    if t:
                        rw = wT(rw)
                    mid = (w[i],) + rw if right else rw + (w[i],)
                    out = add_terms(out, scale_terms(norm_word(pre + mid + post, depth + 1),
                                                     X.neg(X.div(rc, c0))))
                return out
        if l.comp is not None and len(l.comp[2]) == 1:
            # W0^-1 R P = (W0^-1 - c0 P) / r, for M = c0 W0 + r R
            w0, c0, rest = l.comp
            (rw, rc), = rest.items()
            if all(deq(m.r, m.c) and m.comp is None for m, _ in w0):
                if t:
                    w0, rw = wT(w0), wT(rw)
                wi = tuple(inv_item(x) for x in reversed(w0))
                for right in (True, False):
                    pat = rw + wi if right else wi + rw
                    k = len(pat)
                    if right and w[i + 1:i + 1 + k] == pat:
                        pre, post = w[:i], w[i + 1 + k:]
                    elif not right and i >= k and w[i - k:i] == pat:
                        pre, post = w[:i - k], w[i + 1:]
                    else:
                        continue
                    out = scale_terms(norm_word(pre + wi + post, depth + 1), X.div(X.ONE, rc))
                    return add_terms(out, scale_terms(norm_word(pre + (w[i],) + post, depth + 1), X.neg(X.div(c0, rc))))
    # scalars inside
    cuts = [i for i in range(1, len(w)) if lt_(w[i])[0] is X.ONE]
    if cuts:
        r, c = lt_(w[0])[0], lt_(w[-1])[1]
        segs = [w[a:b] for a, b in zip([0] + cuts, cuts + [len(w)])]
        keep, coef = [], X.ONE
        for s in segs:
            if lt_(s[0])[0] is X.ONE and lt_(s[-1])[1] is X.ONE:
                coef = X.mul(coef, scalar_of(s))
            else:
                keep.append(s)
        return {tuple(x for s in keep for x in s): coef}
    return {w: X.ONE}


def scalar_of(w):
    """term of a 1 x 1 word"""
    if not w:
        return X.ONE
    v = wT(w)
    if wkey(v) < wkey(w):
        w = v
    if len(w) == 2 and is_ones(w[0][0]) and w[0][0] is w[1][0]:
        return w[0][0].r
    name = "⟨" + wkey(w) + "⟩"
    WORDS[name] = w
    if word_psd(w):
        PSD_SCALARS.add(name)
    return X.var(name)


def word_psd(w):
    """w = u S u' with S symmetric positive semidefinite or absent"""
    n = len(w)
    if n == 0:
        return True
    if n % 2 == 0:
        return wT(w[n // 2:]) == w[:n // 2]
    return wT(w[n // 2 + 1:]) == w[:n // 2] and w[n // 2][0].psd


def word_pd(w):
    return len(w) == 0 or len(w) == 1 and w[0][0].pd


class LinAlgError(ValueError):
    pass


class Mat:
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, terms, r, c, nd=2, owner="fresh", name=None):
        self.terms, self.r, self.c, self.nd, self.owner, self.name = terms, r, c, nd, owner, name
        self.flt = False        # the entries are known to be floating point numbers
        self.group = None       # arrays over the same memory

    def view(self, terms, r, c, nd):
        m = Mat(terms, r, c, nd, self.owner, self.name)
        m.flt = self.flt
        same_memory(self, m)
        return m

    shared = property(is_shared)

    @staticmethod
    def letter(name, r, c, nd=2, sym=False, pd=False, owner="input"):
        l = Letter(name, r, c, sym, pd)
        return Mat({(item(l),): X.ONE}, r, c, nd, owner, name)

    @staticmethod
    def eye(n):
        return Mat({(): X.ONE}, n, n)

    @staticmethod
    def zero(r, c, nd=2):
        return Mat({}, r, c, nd)

    def map_terms(self, f):
        def fl(l):
            raise Unsupported
        return Mat({w: f(c) for w, c in self.terms.items()}, self.r, self.c, self.nd)

    # shape ------------------------------------------------------------------------------------------
    @property
    def shape(self):
        ds = (self.r,) if self.nd == 1 else (self.r, self.c)
        return tuple(int(d.args[0]) if d.op == "c" else Num(d, (), "int", dom="count") for d in ds)

    @property
    def ndim(self):
        return self.nd

    @property
    def size(self):
        return lift(1) * Num(X.mul(self.r, self.c), (), "int", dom="count")

    def length(self):
        s = self.shape[0]
        return s

    @property
    def T(self):
        if self.nd == 1:
            return self.view(self.terms, self.r, self.c, 1)
        return self.view(self.tr().terms, self.c, self.r, 2)

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        return self.T

    def tr(self):
        return Mat({wT(w): c for w, c in self.terms.items()}, self.c, self.r, 2, self.owner, self.name)

    def row(self):
        """a 1-D vector as a 1 x n matrix"""
        return Mat({wT(w): c for w, c in self.terms.items()}, self.c, self.r, 2)

    # algebra ----------------------------------------------------------------------------------------
    def __neg__(self):
        return Mat(scale_terms(self.terms, X.const(-1)), self.r, self.c, self.nd)

    def __pos__(self):
        return self.copy()

    def scaled(self, k):
        return Mat(scale_terms(self.terms, k), self.r, self.c, self.nd)

    def uniform(self, n):
        """is n an array filled with one value whose shape does not widen this one"""
        if n.axes is None or len(n.axes) > self.nd:
            return False
        dims = (self.r,) if self.nd == 1 else (self.r, self.c)
        return all(a is UNIT or (a.length is d or deq(a.length, d)) and a.idx.args[0] not in X.free_vars(n.e)
                   for a, d in zip(n.axes[::-1], dims[::-1]))

    def _addsub(self, o, sign):
        if isinstance(o, Cond):
            o = o.as_num()
        if not isinstance(o, (Mat, MatStack)):
            n = lift(o)
            if n is None:
                return NotImplemented
            if n.axes not in ((), None) and not self.uniform(n):
                raise Unsupported("matrix plus an elementwise array")
            if n.e is X.ZERO:
                return Mat(self.terms, self.r, self.c, self.nd)
            a = {(item(ones_letter(self.r)),): n.e} if self.nd == 1 else \
                {(item(ones_letter(self.r)), item(ones_letter(self.c), True)): n.e}
            o = Mat(a, self.r, self.c, self.nd)
        if isinstance(o, MatStack):
            return NotImplemented
        a, b = conform(self, o)
        return Mat(add_terms(a.terms, scale_terms(b.terms, X.const(sign))), a.r, a.c, max(a.nd, b.nd))

    def __add__(self, o):
        return self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        r = self._addsub(o, -1)
        return r if r is NotImplemented else -r

    def __mul__(self, o):
        if isinstance(o, Cond):
            o = o.as_num()
        if isinstance(o, (Mat, MatStack)):
            if isinstance(o, Mat) and o.r is X.ONE and o.c is X.ONE:
                return self.scaled(o.scalar_e())
            if isinstance(o, Mat) and o.nd == self.nd and deq(o.r, self.r) and deq(o.c, self.c):
                return Product(self, o)
            raise Unsupported("elementwise product of matrices")
        n = lift(o)
        if n is None:
            return NotImplemented
        if n.axes is None or n.axes == () or self.uniform(n):
            return self.scaled(n.e)
        if len(n.axes) == 3 and n.axes[1] is UNIT and n.axes[2] is UNIT and self.nd == 2:
            return MatStack(n.axes[0], self.scaled(n.e))
        raise Unsupported("matrix times an elementwise array")

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (Mat, MatStack)):
            raise Unsupported("elementwise division by a matrix")
        n = lift(o)
        if n is None:
            return NotImplemented
        if n.axes not in ((), None) and not self.uniform(n):
            raise Unsupported("matrix divided by an elementwise array")
        from .core import need_nonzero
        need_nonzero(X.ONE, n.e)
        return self.scaled(X.div(X.ONE, n.e))

    def __pow__(self, o):
        raise Unsupported("elementwise power of a matrix")

    def __matmul__(self, o):
        if isinstance(o, MatStack):
            raise Unsupported("matrix times a stack")
        if not isinstance(o, Mat):
            return NotImplemented
        a = self.row() if self.nd == 1 else self
        b = o
        if not deq(a.c, b.r):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension")
        out = {}
        for w1, c1 in a.terms.items():
            for w2, c2 in b.terms.items():
                out = add_terms(out, scale_terms(norm_word(w1 + w2), X.mul(c1, c2)))
        nd = a_nd = (self.nd - 1) + (o.nd - 1)
        m = Mat(out, a.r, b.c)
        if self.nd == 1 and o.nd == 1:
            return Num(m.scalar_e(), (), "npfloat")
        if self.nd == 1:
            return Mat({wT(w): c for w, c in out.items()}, b.c, X.ONE, 1)
        if o.nd == 1:
            return Mat(out, a.r, X.ONE, 1)
        return m

    def __rmatmul__(self, o):
        return NotImplemented

    def dot(self, o):
        if isinstance(o, Mat):
            return self @ o
        return self * o

    def scalar_e(self):
        e = X.ZERO
        for w, c in self.terms.items():
            e = X.add(e, X.mul(c, scalar_of(w)))
        return e

    def _inplace(self, f, o):
        if self.owner == "input":
            ctx().event("mutates-input", f"{self.name} changed in place")
        r = f(o)
        if not isinstance(r, Mat):
            raise Unsupported(f"in-place operation with {type(o).__name__}")
        if r.nd != self.nd or not (deq(r.r, self.r) and deq(r.c, self.c)):
            raise ValueError("non-broadcastable output operand")
        return self._become(r)

    def _become(self, r):
        if self.owner != "input" and not self.flt:
            raise Unsupported("in-place operation on a matrix whose numbers may be integers")
        if self.shared:
            raise Unsupported("in-place operation on a matrix that shares its memory")
        self.terms = r.terms
        return self

    def __iadd__(self, o):
        return self._inplace(self.__add__, o)

    def __isub__(self, o):
        return self._inplace(self.__sub__, o)

    def __imul__(self, o):
        return self._inplace(self.__mul__, o)

    def __itruediv__(self, o):
        return self._inplace(self.__truediv__, o)

    def __setitem__(self, k, v):
        if self.owner == "input":
            ctx().event("mutates-input", f"{self.name} assigned to")
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            if isinstance(v, Mat):
                if v.nd == self.nd and deq(v.r, self.r) and deq(v.c, self.c):
                    self._become(v)
                    return
        raise Unsupported("assignment into a matrix")

    def sum(self, axis=None, keepdims=False, **k):
        if self.nd == 1:
            if axis not in (None, 0, -1):
                raise ValueError("axis out of bounds")
            m = Mat({(item(ones_letter(self.r), True),): X.ONE}, X.ONE, self.r) @ Mat(self.terms, self.r, self.c)
            return Num(m.scalar_e(), (), "npfloat")
        if axis in (0, -2):
            m = Mat({(item(ones_letter(self.r), True),): X.ONE}, X.ONE, self.r) @ self
            return m if keepdims else Mat({wT(w): c for w, c in m.terms.items()}, m.c, X.ONE, 1)
        if axis in (1, -1):
            m = self @ Mat({(item(ones_letter(self.c)),): X.ONE}, self.c, X.ONE)
            return m if keepdims else Mat(m.terms, m.r, X.ONE, 1)
        if axis is None:
            return self.sum(axis=0).sum()
        raise Unsupported("sum over axes")

    def mean(self, axis=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.r if axis in (0, -2) else self.c if axis in (1, -1) and self.nd == 2 else X.mul(self.r, self.c)
        return s / Num(n, (), "int")

    def trace(self):
        return Num(trace_e(self), (), "npfloat")

    def copy(self):
        m = Mat(self.terms, self.r, self.c, self.nd)
        m.flt = self.flt
        return m

    def astype(self, *a, **k):
        return self.copy()

    def ravel(self):
        if self.nd == 1 or self.c is X.ONE:
            return self.view(self.terms, self.r, self.c, 1)
        if self.r is X.ONE:
            return self.view(self.tr().terms, self.c, X.ONE, 1)
        raise Unsupported("ravel of a matrix")

    squeeze = ravel

    def flatten(self):
        return self.ravel().copy()

    def __deepcopy__(self, memo):
        m = Mat(self.terms, self.r, self.c, self.nd, "fresh", self.name)
        m.flt = self.flt
        return m

    def __copy__(self):
        return self.__deepcopy__(None)

    def __getitem__(self, k):
        if k is None or isinstance(k, tuple) and len(k) == 2 and k[0] is None and (k[1] is Ellipsis) or \
                isinstance(k, tuple) and k == (None, slice(None), slice(None)):
            if self.nd == 2:
                return MatStack(UNIT, self.view(self.terms, self.r, self.c, 2))
        if isinstance(k, tuple) and self.nd == 1 and len(k) == 2:
            if k[0] == slice(None) and k[1] is None:
                return self.view(self.terms, self.r, X.ONE, 2)
            if k[0] is None and k[1] in (slice(None), Ellipsis):
                return self.view(self.row().terms, self.c, self.r, 2)
        if k is Ellipsis or k == slice(None):
            return self
        raise Unsupported("indexing a matrix of symbolic size")

    def __iter__(self):
        raise Unsupported("iterating over the rows of a matrix of symbolic size")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def _cmp(self, o):
        raise Unsupported("elementwise comparison of matrices")

    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __eq__(self, o):
        if isinstance(o, (Mat, Num)):
            raise Unsupported("elementwise comparison of matrices")
        return False

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"matrix attribute {n}")

    def __format__(self, s):
        return "{" + repr(self) + "}"

    def __repr__(self):
        return "Mat[" + (" + ".join(f"{X.show(c)}*{wkey(w) or 'I'}" for w, c in self.terms.items()) or "0") + "]"

    # facts --------------------------------------------------------------------------------------------
    def key(self):
        return tuple(sorted((wkey(w), str(ckey(c))) for w, c in self.terms.items() if not czero(c))), dkey(self.r), dkey(self.c)

    def clean(self):
        return Mat({w: c for w, c in self.terms.items() if not czero(c)}, self.r, self.c, self.nd)

    def symmetric(self):
        return self.tr().minus_is_zero(self)

    def minus_is_zero(self, o):
        d = add_terms(self.terms, scale_terms(o.terms, X.const(-1)))
        return all(czero(c) for c in d.values())

    def definiteness(self, positive):
        """'pd' | 'psd' | None by shape of the terms; positive(e) decides signs of coefficients"""
        strict = False
        for w, c in self.clean().terms.items():
            if not word_psd(w):
                return None
            s = positive(c)
            if s is None:
                return None
            if s == "pos" and word_pd(w):
                strict = True
        return "pd" if strict else "psd"


def floats(name):
    """results computed from floating point numbers are floating point numbers"""
    f = getattr(Mat, name)

    def g(self, o):
        r = f(self, o)
        if isinstance(r, Mat):
            r.flt = name == "__truediv__" or self.flt or getattr(o, "flt", False) or type(o) is float or \
                isinstance(o, Num) and o.kind in ("float", "npfloat")
        return r
    g.__name__ = name
    setattr(Mat, name, g)


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__matmul__"):
    floats(_n)


def conform(a, b):
    """numpy broadcasting of two matrices / vectors for addition"""
    if a.nd == b.nd and deq(a.r, b.r) and deq(a.c, b.c):
        return a, b

    def expand(v, r, c):
        """v (1-D of size c, or 2-D with a unit dimension) to r x c"""
        if v.nd == 1:
            if not deq(v.r, c):
                if v.r is X.ONE:
                    raise Unsupported("broadcast of a length-1 vector")
                raise ValueError("operands could not be broadcast together")
            v = v.row()
        if deq(v.r, r) and deq(v.c, c):
            return v
        if v.r is X.ONE and deq(v.c, c):
            o = item(ones_letter(r))
            out = {}
            for w, k in v.terms.items():
                out = add_terms(out, scale_terms(norm_word((o,) + w), k))
            return Mat(out, r, c)
        if v.c is X.ONE and deq(v.r, r):
            o = item(ones_letter(c), True)
            out = {}
            for w, k in v.terms.items():
                out = add_terms(out, scale_terms(norm_word(w + (o,)), k))
            return Mat(out, r, c)
        raise ValueError("operands could not be broadcast together")

    if a.nd == 2 and b.nd == 1 or a.nd == 1 and b.nd == 2 or a.nd == b.nd == 2:
        A, B = (a, b)
        dims = []
        for k in (0, 1):
            ds = [((X.ONE, m.r)[k] if m.nd == 1 else (m.r, m.c)[k]) for m in (A, B)]
            dims.append(ds[0] if ds[0] is not X.ONE else ds[1])
        return expand(A, *dims), expand(B, *dims)
    raise ValueError("operands could not be broadcast together")


class Product:
    """the elementwise product of two arrays of one shape: only its sums are known"""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, b):
        self.a, self.b = a, b

    def sum(self, axis=None, keepdims=False, **k):
        if k or keepdims or not (axis is None or self.a.nd == 1 and axis in (0, -1)):
            raise Unsupported("elementwise product of matrices")
        if self.a.nd == 1:
            return self.a @ self.b
        return (self.a.tr() @ Mat(self.b.terms, self.b.r, self.b.c, 2)).trace()

    def __mul__(self, o):
        if isinstance(o, (Mat, MatStack, Product)):
            raise Unsupported("elementwise product of matrices")
        r = self.a * o
        if not isinstance(r, Mat):
            raise Unsupported("elementwise product of matrices")
        return Product(r, self.b)

    __rmul__ = __mul__

    def _no(self, *a, **k):
        raise Unsupported("elementwise product of matrices")

    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __pow__ = __matmul__ = __getitem__ = __iter__ = __len__ = __eq__ = _no

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("elementwise product of matrices")


class MatStack:
    """3-D array: matrices along a leading (or, when transposed, trailing) axis"""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, axis, elem, trans=False, owner="fresh"):
        self.axis, self.elem, self.trans, self.owner = axis, elem, trans, owner

    def elem_item(self):
        if self.trans:
            raise Unsupported("iteration over a transposed stack")
        return self.elem

    @property
    def shape(self):
        n = 1 if self.axis is UNIT else int(self.axis.length.args[0]) if self.axis.length.op == "c" else \
            Num(self.axis.length, (), "int", dom="count")
        s = tuple(self.elem.shape)
        return s + (n,) if self.trans else (n,) + s

    @property
    def ndim(self):
        return 1 + self.elem.nd

    def length(self):
        return self.shape[0]

    @property
    def T(self):
        if self.elem.nd != 2:
            raise Unsupported("transpose of a stack of vectors")
        return MatStack(self.axis, self.elem.tr(), not self.trans)

    def _map(self, f):
        return MatStack(self.axis, f(self.elem), self.trans)

    def _scalar(self, o, f):
        if isinstance(o, MatStack):
            if o.trans == self.trans and o.axis is self.axis:
                return MatStack(self.axis, f(self.elem, o.elem), self.trans)
            raise Unsupported("stacks of different axes")
        if isinstance(o, Mat):
            if self.trans or self.elem.nd != o.nd:
                raise Unsupported("stack and matrix of different layout")
            return self._map(lambda m: f(m, o))
        n = lift(o)
        if n is None:
            return NotImplemented
        if n.axes == () or n.axes is None:
            return self._map(lambda m: f(m, Num(n.e)))
        ax = n.axes
        if self.trans and len(ax) == 1:
            a = ax[0]
        elif not self.trans and len(ax) == 3 and ax[1] is UNIT and ax[2] is UNIT:
            a = ax[0]
        else:
            raise Unsupported("stack times an array of another layout")
        if self.axis is UNIT:
            return MatStack(a, f(self.elem, Num(n.e)), self.trans)
        from .core import same_len
        if a is not self.axis and not same_len(a, self.axis):
            raise ValueError("operands could not be broadcast together")
        e = X.subst(n.e, {a.idx.args[0]: self.axis.idx})
        return self._map(lambda m: f(m, Num(e)))

    def __mul__(self, o):
        return self._scalar(o, lambda m, k: m * k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._scalar(o, lambda m, k: m / k)

    def __add__(self, o):
        return self._scalar(o, lambda m, k: m + k)

    __radd__ = __add__

    def __sub__(self, o):
        return self._scalar(o, lambda m, k: m - k)

    def __neg__(self):
        return self._map(lambda m: -m)

    def __getitem__(self, k):
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            return self
        if isinstance(k, int) and self.axis is UNIT and k in (0, -1) and not self.trans:
            return self.elem
        if isinstance(k, slice) and not self.trans:
            from .index import slice_map
            from .loops import map_terms
            new, m = slice_map(k, self.axis)
            i = self.axis.idx.args[0]
            return self if new is self.axis else MatStack(new, map_terms(self.elem, lambda e: X.subst(e, {i: m})))
        raise Unsupported("indexing a stack")

    def __iter__(self):
        raise Unsupported("iteration over a stack reached the builtin")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"stack attribute {n}")

    def copy(self):
        return MatStack(self.axis, self.elem, self.trans)

    def __deepcopy__(self, m):
        return self.copy()

    def __repr__(self):
        return f"MatStack({self.axis},{self.elem},T={self.trans})"


# ------------------------------------------------------------------------------------------------
def inverse(m):
    if isinstance(m, MatStack):
        return MatStack(m.axis, inverse(m.elem), m.trans)
    if isinstance(m, Num):
        if m.axes == ():
            raise LinAlgError("0-dimensional array given. Array must be at least two-dimensional")
        raise Unsupported("inverse of an elementwise array")
    if not isinstance(m, Mat):
        raise Unsupported(f"inverse of {type(m).__name__}")
    if m.nd == 1:
        raise LinAlgError("1-dimensional array given. Array must be at least two-dimensional")
    if not deq(m.r, m.c):
        raise LinAlgError("Last 2 dimensions of the array must be square")
    t = m.clean().terms
    if not t:
        raise LinAlgError("Singular matrix")
    if len(t) == 1:
        (w, c), = t.items()
        if all(deq(l.r, l.c) for l, _ in w):
            return Mat({tuple(inv_item(x) for x in reversed(w)): X.div(X.ONE, c)}, m.r, m.r)
    words = [w for w in t if w]
    w0 = min(words, key=lambda w: (len(w), wkey(w)))
    c0 = t[w0]
    monic = {w: (X.ONE if w is w0 else X.div(c, c0)) for w, c in t.items()}
    mm = Mat(monic, m.r, m.c)
    key = mm.key()
    sym = mm.symmetric()
    name = f"inv({wkey(w0)}+{abs(hash(key)) % 10**10})"
    l = Letter(name, m.r, m.c, sym)
    if l.comp is None:
        l.comp = (w0, X.ONE, {w: c for w, c in monic.items() if w is not w0})
        l.inv_of = None
        l.inv_letter = mm
        if sym and mm.definiteness(sign_of) == "pd":
            l.pd = l.psd = True
    return Mat({(item(l),): X.div(X.ONE, c0)}, m.r, m.c)


def sign_of(e):
    """'pos' | 'nonneg' | None for a coefficient, by the solver under the current path"""
    from . import smt
    c = ctx()
    hy = c.hyps() if c else []
    if e.op == "c":
        return "pos" if e.args[0] > 0 else "nonneg" if e.args[0] == 0 else None
    if smt.solve(hy, X.lt(X.ZERO, e), timeout=2000, use_cvc5=False)[0] == "unsat":
        return "pos"
    if smt.solve(hy, X.le(X.ZERO, e), timeout=2000, use_cvc5=False)[0] == "unsat":
        return "nonneg"
    return None


def inv_item(it):
    l, t = it
    if l.comp is not None:
        raise Unsupported("inverse of an inverse inside a product")
    if l.inv_of is not None:
        return item(l.inv_of, t)
    p = Letter(l.name + "⁻", l.c, l.r, l.sym, l.pd)
    p.inv_of = l
    return item(p, t)


_plain_inverse = inverse


def inverse_any(m):
    """inverse with inv(inv(M)) = M"""
    if isinstance(m, Mat) and m.nd == 2:
        t = m.clean().terms
        if len(t) == 1:
            (w, c), = t.items()
            if len(w) == 1 and w[0][0].comp is not None:
                mm = w[0][0].inv_letter
                mm = mm.tr() if w[0][1] else mm
                return mm.scaled(X.div(X.ONE, c))
    if isinstance(m, MatStack):
        return MatStack(m.axis, inverse_any(m.elem), m.trans)
    return _plain_inverse(m)


def invertible(m):
    """sufficient conditions"""
    if isinstance(m, MatStack):
        return invertible(m.elem)
    t = m.clean().terms
    if len(t) == 1:
        (w, c), = t.items()
        if all(l.pd or l.inv_letter is not None or l.inv_of is not None for l, _ in w):
            return True
    return m.definiteness(sign_of) == "pd"


def outer(a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        a2 = a.ravel()
        b2 = b.ravel()
        return Mat(a2.terms, a2.r, X.ONE) @ b2.row()
    raise Unsupported("outer product")


def trace_e(m):
    e = X.ZERO
    for w, c in m.terms.items():
        e = X.add(e, X.mul(c, trace_word(w, m.r)))
    return e


def trace_word(w, n):
    if not w:
        return n
    cuts = [i for i in range(len(w)) if lt_(w[i])[0] is X.ONE]
    if cuts:
        i = cuts[0]
        e = X.ZERO
        for w2, c in norm_word(w[i:] + w[:i]).items():
            e = X.add(e, X.mul(c, scalar_of(w2)))
        return e
    best = None
    rots = [w[i:] + w[:i] for i in range(len(w))]
    rots += [wT(r) for r in rots]
    best = min(rots, key=wkey)
    # an inverse meeting its base across the ends
    for r in rots:
        nw = norm_word(r)
        if list(nw) != [r]:
            e = X.ZERO
            for w2, c in nw.items():
                e = X.add(e, X.mul(c, trace_word(w2, lt_(r[0])[0])))
            return e
    name = "tr⟨" + wkey(best) + "⟩"
    TRACES[name] = best
    return X.var(name)


def logdet_e(m):
    """log det, with det(cM) = c^n det(M) and det(inv M) = 1/det(M)"""
    t = m.clean().terms
    if len(t) == 1:
        (w, c), = t.items()
        e = X.ZERO if c is X.ONE else X.mul(m.r, X.fn("log", c))
        if not w:
            return e
        if all(deq(l.r, l.c) for l, _ in w):
            for l, _ in w:
                e = X.add(e, _logdet_letter(l))
            return e
    words = [w for w in t if w]
    w0 = min(words, key=lambda w: (len(w), wkey(w)))
    c0 = t[w0]
    mm = m.scaled(X.div(X.ONE, c0)).clean()
    name = f"logdet({wkey(w0)}+{abs(hash(mm.key())) % 10**10})"
    LOGDETS[name] = mm
    return X.var(name) if c0 is X.ONE else X.add(X.mul(m.r, X.fn("log", c0)), X.var(name))


def _logdet_letter(l):
    if l.inv_of is not None:
        return X.neg(_logdet_letter(l.inv_of))
    if l.inv_letter is not None:
        return X.neg(logdet_e(l.inv_letter))
    name = f"logdet({l.name})"
    LOGDETS[name] = Mat({(item(l),): X.ONE}, l.r, l.c)
    return X.var(name)
