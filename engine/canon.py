"""Canonical forms for terms: rational functions over atoms, with exact rules for log, exp, log-gamma, roots,
sine/cosine and arctan2.  Two terms with the same canonical form are equal wherever both are defined.

Atoms are variables or irreducible applications of functions to canonical arguments.  The rules used:

  log|f g| = log|f| + log|g|,  log|f^c| = c log|f|,  log exp(a) = a       (arguments split into irreducible factors)
  exp(a + b) = exp(a) exp(b),  exp(c log f) = f^c (f > 0),  a^b = exp(b log a) (a > 0)
  log|Gamma(z + 1)| = log|Gamma(z)| + log|z|                                (constant part of z brought into (0, 1])
  (f^(1/d))^d = f,   (f g)^c = f^c g^c for f, g > 0
  cos/sin of sums and of -x;   sin^2 = 1 - cos^2
  cos(atan2(s, c)) = c / sqrt(s^2 + c^2),  sin(atan2(s, c)) = s / sqrt(s^2 + c^2)
"""
from fractions import Fraction
from functools import reduce
from math import floor, gcd

import sympy
from sympy.polys.rings import ring as _sympy_ring
from sympy import QQ

from . import expr as X
from .expr import E


class CanonError(Exception):
    pass


# ------------------------------------------------------------------------------------------------
class Atom:
    """kind: v | log | exp | lgamma | root | cos | sin | atan2 | f:<name> ; key: canonical data"""
    table = {}
    order = []

    def __new__(cls, kind, key, info=None):
        k = (kind, key)
        a = cls.table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.key, a.info, a.idx = kind, key, info, len(cls.order)
            cls.table[k] = a
            cls.order.append(a)
        return a

    def __repr__(self):
        return f"{self.kind}[{self.key}]"


def _madd(m1, m2):
    d = dict(m1)
    for a, k in m2:
        d[a] = d.get(a, 0) + k
    return tuple(sorted((a, k) for a, k in d.items() if k))


class Poly:
    """Polynomial with rational coefficients: {monomial: coefficient}, monomial = sorted ((atom index, power), ...)"""
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a, k=1):
        return Poly({((a.idx, k),): Fraction(1)})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __add__(self, o):
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.t.items()}) if c else Poly({})

    def __neg__(self):
        return self.scale(Fraction(-1))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 200000:
            raise CanonError("polynomial too large")
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _madd(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
        return _relations(Poly(d))

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {a for m in self.t for a, _ in m}


ONE = Poly.const(1)


def _relations(p):
    """Apply root^d -> f and sin^2 -> 1 - cos^2."""
    while True:
        hit = None
        for m in p.t:
            for a, k in m:
                at = Atom.order[a]
                if at.kind == "root" and k >= at.info[0]:
                    hit = (m, a, k, at)
                elif at.kind == "sin" and k >= 2:
                    hit = (m, a, k, at)
                if hit:
                    break
            if hit:
                break
        if not hit:
            return p
        m, a, k, at = hit
        c = p.t[m]
        d = dict(p.t)
        del d[m]
        rest = tuple((b, j) for b, j in m if b != a)
        if at.kind == "root":
            deg, f = at.info
            rep = f
            rest = _madd(rest, ((a, k - deg),)) if k > deg else rest
        else:
            cosat = Atom("cos", at.key, at.info)
            rep = Poly({(): Fraction(1), ((cosat.idx, 2),): Fraction(-1)})
            rest = _madd(rest, ((a, k - 2),)) if k > 2 else rest
        p = Poly(d) + Poly({rest: c}) * rep


def _to_sympy(polys):
    idx = sorted(set().union(*[p.atoms() for p in polys]))
    if not idx:
        idx = [0]
    R, *gens = _sympy_ring([f"a{i}" for i in idx], QQ)
    pos = {a: i for i, a in enumerate(idx)}
    out = []
    for p in polys:
        d = {}
        for m, c in p.t.items():
            ex = [0] * len(idx)
            for a, k in m:
                ex[pos[a]] = k
            d[tuple(ex)] = QQ(c.numerator, c.denominator)
        out.append(R.from_dict(d))
    return R, idx, out


def _from_sympy(idx, sp):
    d = {}
    for ex, c in sp.terms():
        d[tuple((idx[i], k) for i, k in enumerate(ex) if k)] = Fraction(int(c.numerator), int(c.denominator))
    return Poly(d)


_factor_memo = {}


def factor(p):
    """content, [(irreducible primitive poly with positive leading coefficient, multiplicity)]"""
    if p.is_const():
        return p.cval(), []
    k = p.key()
    r = _factor_memo.get(k)
    if r is None:
        _, idx, (sp,) = _to_sympy([p])
        c, fs = sp.factor_list()
        cont = Fraction(int(c.numerator), int(c.denominator))
        out = []
        for f, m in fs:
            q = _from_sympy(idx, f)
            c2, q = _primitive(q)
            cont *= c2 ** m
            out.append((q, m))
        out.sort(key=lambda fm: fm[0].key())
        r = _factor_memo[k] = (cont, out)
    return r


def _primitive(q):
    cs = list(q.t.values())
    num = reduce(gcd, [abs(c.numerator) for c in cs])
    den = reduce(lambda a, b: a * b // gcd(a, b), [c.denominator for c in cs])
    c = Fraction(num, den)
    if q.t[max(q.t)] < 0:
        c = -c
    return c, q.scale(1 / c)


class RF:
    """num / den, den nonzero"""
    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d=ONE, reduced=False):
        if d.is_zero():
            raise CanonError("division by zero term")
        if not reduced:
            n, d = _reduce(n, d)
        self.n, self.d, self._k = n, d, None

    def key(self):
        if self._k is None:
            self._k = (self.n.key(), self.d.key())
        return self._k

    def __add__(self, o):
        if self.d.key() == o.d.key():
            return RF(self.n + o.n, self.d)
        return RF(self.n * o.d + o.n * self.d, self.d * o.d)

    def __mul__(self, o):
        return RF(self.n * o.n, self.d * o.d)

    def __neg__(self):
        return RF(-self.n, self.d, True)

    def __sub__(self, o):
        return self + (-o)

    def inv(self):
        if self.n.is_zero():
            raise CanonError("division by zero term")
        return RF(self.d, self.n)

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def cval(self):
        return self.n.cval() / self.d.cval()

    def ipow(self, k):
        if k < 0:
            return self.inv().ipow(-k)
        r = RF(ONE)
        b = self
        while k:
            if k & 1:
                r = r * b
            b = b * b if k > 1 else b
            k >>= 1
        return r


def _reduce(n, d):
    if n.is_zero():
        return n, ONE
    if d.is_const():
        return n.scale(1 / d.cval()), ONE
    _, idx, (sn, sd) = _to_sympy([n, d])
    g = sn.gcd(sd)
    if g.degree() is not None and not g.is_ground:
        n, d = _from_sympy(idx, sn.quo(g)), _from_sympy(idx, sd.quo(g))
        n, d = _relations(n), _relations(d)
        if d.is_const():
            return n.scale(1 / d.cval()), ONE
    # a single root atom in a monomial denominator is moved up: 1/r = r^(d-1)/f
    for a in sorted(d.atoms()):
        at = Atom.order[a]
        if at.kind == "root" and len(d.t) == 1:
            k = dict(next(iter(d.t)))[a]
            deg, f = at.info
            up = Poly.atom(at, deg - k)
            return _reduce(n * up, d * up)
    c, d = _primitive(d)
    return n.scale(1 / c), d


def rconst(c):
    return RF(Poly.const(c), ONE, True)


def ratom(a):
    return RF(Poly.atom(a), ONE, True)


# ------------------------------------------------------------------------------------------------
class Canon:
    """Canonicaliser under a set of variables known to be positive."""

    def __init__(self, positive=(), nonneg=(), cases=None):
        self.positive = set(positive)
        self.nonneg = set(nonneg)
        self.memo = {}

    # sign knowledge -----------------------------------------------------------------------------
    def atom_pos(self, i):
        at = Atom.order[i]
        if at.kind == "v":
            return at.key in self.positive or at.key == "pi"
        return at.kind in ("exp",) or (at.kind == "root" and self.poly_pos(at.info[1])) or at.kind == "f:i0" \
            or at.kind in self.positive

    def atom_nonneg(self, i):
        at = Atom.order[i]
        return self.atom_pos(i) or (at.kind == "v" and at.key in self.nonneg) or at.kind == "root"

    def poly_pos(self, p):
        """Sufficient: every monomial nonnegative and one of them positive."""
        some = False
        for m, c in p.t.items():
            if c <= 0 or not all(k % 2 == 0 or self.atom_nonneg(a) for a, k in m):
                return False
            some = some or all(self.atom_pos(a) for a, k in m)
        return some

    # --------------------------------------------------------------------------------------------
    def rf(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._rf(e)
        return r

    def _rf(self, e):
        o, a = e.op, e.args
        if o == "c":
            return rconst(a[0])
        if o == "v":
            if a[0] in ("inf", "-inf", "nan"):
                raise CanonError("infinite term")
            return ratom(Atom("v", a[0]))
        if o == "add":
            r = rconst(0)
            for x in a:
                r = r + self.rf(x)
            return r
        if o == "mul":
            r = rconst(1)
            for x in a:
                r = r * self.rf(x)
            return r
        if o == "div":
            return self.rf(a[0]) * self.rf(a[1]).inv()
        if o == "pow":
            return self.pow(a[0], a[1])
        if o == "f":
            return self.fn(a[0], a[1:])
        if o == "ite":
            raise CanonError("unresolved case distinction")
        raise CanonError(f"not a term: {o}")

    def equal(self, a, b):
        return (self.rf(a) - self.rf(b)).n.is_zero()

    def is_zero(self, e):
        return self.rf(e).n.is_zero()

    # powers ---------------------------------------------------------------------------------------
    def pow(self, a, b):
        rb = self.rf(b)
        if rb.is_const():
            c = rb.cval()
            if c.denominator == 1:
                if abs(c) > 40:
                    raise CanonError("power too large")
                return self.rf(a).ipow(int(c))
            return self.rpow(self.rf(a), c)
        return self.exp(rb * self.log(self.rf(a)))

    def rpow(self, r, c):
        """r^c for rational c, r >= 0"""
        if c.denominator == 1:
            return r.ipow(int(c))
        if r.n.is_zero():
            return rconst(0)
        cn, fn_ = factor(r.n)
        cd, fd = factor(r.d)
        cont = cn / cd
        parts = [(f, m) for f, m in fn_] + [(f, -m) for f, m in fd]
        if cont > 0 and all(self.poly_pos(f) or m % 2 == 0 and False for f, m in parts):
            out = self._rootconst(cont, c)
            for f, m in parts:
                out = out * self._root(f, c * m)
            return out
        # not split: sqrt(n/d) = sqrt(n d^(q-1)) / d with q the denominator of c
        q = c.denominator
        whole = r.n
        for _ in range(q - 1):
            whole = whole * r.d
        c0, prim = _primitive(whole)
        if c0 < 0:
            prim, c0 = -prim, -c0
        return self._rootconst(c0, c) * self._root(prim, c) * RF(ONE, r.d).ipow(int(c * q))if q > 1 and c > 0 \
            else (self._rootconst(c0, -c) * self._root(prim, -c) * RF(ONE, r.d).ipow(int(-c * q))).inv()

    def _rootconst(self, c, e):
        """positive rational c to the rational power e, over prime roots"""
        out = rconst(1)
        for sgn, v in ((1, c.numerator), (-1, c.denominator)):
            for p, m in sympy.factorint(v).items():
                x = e * m * sgn
                i = floor(x)
                out = out * rconst(Fraction(p)).ipow(i)
                if x != i:
                    out = out * self._root(Poly.const(p), x - i)
        return out

    def _root(self, f, e):
        i = floor(e)
        out = RF(f).ipow(i) if i else rconst(1)
        fr = e - i
        if fr:
            if len(f.t) == 1 and not f.is_const():
                (m, c), = f.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    at = Atom.order[m[0][0]]
                    if at.kind == "exp":
                        return self.exp(RF(*at.info) * rconst(e))
                    if at.kind == "root":
                        return self._root(at.info[1], e / at.info[0])
            d = fr.denominator
            at = Atom("root", (d, f.key()), (d, f))
            out = out * RF(Poly.atom(at, int(fr * d)), ONE, True)
        return out

    # exp / log ------------------------------------------------------------------------------------
    def exp(self, r):
        out = rconst(1)
        for m, c in r.n.t.items():
            if m == () and r.d.is_const():
                if c:
                    k = c / r.d.cval()
                    at = Atom("exp", (((), Fraction(1)),), (ONE, ONE))
                    out = out * (ratom(at).ipow(int(k)) if k.denominator == 1 else
                                 ratom(Atom("exp", k, (Poly.const(k), ONE))))
                continue
            if r.d.is_const() and len(m) == 1 and m[0][1] == 1 and Atom.order[m[0][0]].kind == "log":
                at = Atom.order[m[0][0]]
                out = out * self.rpow(RF(at.info), c)
                continue
            k = c
            base = RF(Poly({m: Fraction(1, k.denominator)}), r.d)
            at = Atom("exp", base.key(), (base.n, base.d))
            out = out * ratom(at).ipow(int(k.numerator))
        return out

    def log(self, r):
        if r.n.is_zero():
            raise CanonError("log of zero")
        cn, f1 = factor(r.n)
        cd, f2 = factor(r.d)
        out = rconst(0)
        cont = abs(cn / cd)
        for sgn, v in ((1, cont.numerator), (-1, cont.denominator)):
            for p, m in sympy.factorint(v).items():
                pp = Poly.const(p)
                out = out + ratom(Atom("log", pp.key(), pp)) * rconst(sgn * m)
        for fs, sgn in ((f1, 1), (f2, -1)):
            for f, m in fs:
                out = out + self._logfac(f) * rconst(sgn * m)
        return out

    def _logfac(self, f):
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = Atom.order[m[0][0]]
                if at.kind == "exp":
                    return RF(*at.info)
                if at.kind == "root":
                    d, g = at.info
                    return self.log(RF(g)) * rconst(Fraction(1, d))
        return ratom(Atom("log", f.key(), f))

    # functions ------------------------------------------------------------------------------------
    def fn(self, name, args):
        if name == "log":
            return self.log_e(args[0])
        if name == "exp":
            return self.exp(self.rf(args[0]))
        if name == "lgamma":
            return self.lgamma(self.rf(args[0]))
        if name in ("cos", "sin"):
            return self.trig(name, self.rf(args[0]))
        if name == "abs":
            r = self.rf(args[0])
            if r.is_const():
                return rconst(abs(r.cval()))
            if self.poly_pos(r.n) and self.poly_pos(r.d):
                return r
        if name in ("floor", "ceil") :
            r = self.rf(args[0])
            if r.is_const():
                return rconst(floor(r.cval()) if name == "floor" else -floor(-r.cval()))
        rs = [self.rf(x) for x in args]
        if name == "betainc" and rs[2].is_const() and rs[2].cval() == 0:
            return rconst(0)
        key = tuple(r.key() for r in rs)
        return ratom(Atom("f:" + name if name != "atan2" else "atan2", key, rs))

    def log_e(self, e):
        """log at the level of terms, before expanding sums"""
        if e.op == "mul":
            out = rconst(0)
            neg = 1
            for x in e.args:
                if x.op == "c" and x.args[0] < 0:
                    x = X.const(-x.args[0])
                out = out + self.log_e(x)
            return out
        if e.op == "div":
            return self.log_e(e.args[0]) - self.log_e(e.args[1])
        if e.op == "pow":
            return self.rf(e.args[1]) * self.log_e(e.args[0])
        if e.op == "f" and e.args[0] == "exp":
            return self.rf(e.args[1])
        return self.log(self.rf(e))

    def lgamma(self, r):
        if r.is_const():
            c = r.cval()
            if c.denominator == 1 and 0 < c < 2000:
                f = 1
                for i in range(2, int(c)):
                    f *= i
                return self.log(rconst(f))
            shift = _shift(c)
            base = rconst(c - shift)
        else:
            c = _constpart(r)
            shift = _shift(c)
            base = r - rconst(shift)
        at = Atom("lgamma", base.key(), base)
        out = ratom(at)
        if abs(shift) > 60:
            raise CanonError("log-gamma shift too large")
        for i in range(shift):
            out = out + self.log(base + rconst(i))
        for i in range(-shift):
            out = out - self.log(base - rconst(i + 1))
        return out

    def trig(self, name, r):
        if r.n.is_zero():
            return rconst(1 if name == "cos" else 0)
        if len(r.n.t) > 1:
            m = min(r.n.t)
            a = RF(Poly({m: r.n.t[m]}), r.d)
            b = r - a
            if name == "cos":
                return self.trig("cos", a) * self.trig("cos", b) - self.trig("sin", a) * self.trig("sin", b)
            return self.trig("sin", a) * self.trig("cos", b) + self.trig("cos", a) * self.trig("sin", b)
        (m, c), = r.n.t.items()
        if c < 0:
            x = self.trig(name, -r)
            return x if name == "cos" else -x
        if r.d.is_const() and len(m) == 1 and m[0][1] == 1:
            k = c / r.d.cval()
            at = Atom.order[m[0][0]]
            if at.kind == "atan2" and k == 1:
                s, cc = at.info
                h = self.rpow(s * s + cc * cc, Fraction(1, 2))
                return (cc if name == "cos" else s) * h.inv()
            if at.kind == "v" and at.key == "pi" and (2 * k).denominator == 1:
                q = int(2 * k) % 4
                return rconst({"cos": [1, 0, -1, 0], "sin": [0, 1, 0, -1]}[name][q])
        if c.denominator == 1 and 1 < c <= 6:
            one = RF(Poly({m: Fraction(1)}), r.d)
            rest = r - one
            if name == "cos":
                return self.trig("cos", one) * self.trig("cos", rest) - self.trig("sin", one) * self.trig("sin", rest)
            return self.trig("sin", one) * self.trig("cos", rest) + self.trig("cos", one) * self.trig("sin", rest)
        return ratom(Atom(name, r.key(), r))


def _shift(c):
    """integer k with c - k in (0, 1]"""
    return -floor(-c) - 1


def _constpart(r):
    """constant k such that r - k has no constant part, when r = p + k with p = n/d and n of no common constant"""
    if r.d.is_const():
        return r.n.cval() / r.d.cval()
    # constant part of a proper fraction: take the coefficient ratio of the leading denominator monomial
    m = max(r.d.t)
    return r.n.t.get(m, Fraction(0)) / r.d.t[m]
