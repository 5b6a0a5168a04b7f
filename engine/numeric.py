"""Numeric evaluation of terms and formulas, to find and confirm counterexamples of an obligation."""
import hashlib
import mpmath as mp

from .expr import E

mp.mp.dps = 30


class Undefined(Exception):
    pass


def _pseudo(name, args, lo=0.1, hi=3.0):
    h = hashlib.sha256((name + "|" + "|".join(mp.nstr(a, 15) for a in args)).encode()).digest()
    u = int.from_bytes(h[:6], "big") / 2 ** 48
    return mp.mpf(lo) + (hi - lo) * u


class Evaluator:
    def __init__(self, env, funcs=None):
        self.env, self.memo, self.funcs = env, {}, funcs or {}

    def __call__(self, e):
        m = self.memo
        if e in m:
            return m[e]
        r = m[e] = self._ev(e)
        return r

    def _ev(self, e):
        o, a = e.op, e.args
        if o == "c":
            return mp.mpf(a[0].numerator) / a[0].denominator
        if o == "v":
            n = a[0]
            if n == "pi":
                return mp.pi
            if n == "inf":
                return mp.inf
            if n == "-inf":
                return -mp.inf
            if n not in self.env:
                raise Undefined(n)
            v = self.env[n]
            return v if isinstance(v, mp.mpf) else mp.mpf(v)
        if o == "add":
            return mp.fsum(self(x) for x in a)
        if o == "mul":
            return mp.fprod(self(x) for x in a)
        if o == "div":
            d = self(a[1])
            if d == 0:
                raise Undefined("division by zero")
            return self(a[0]) / d
        if o == "pow":
            b, x = self(a[0]), self(a[1])
            if b == 0 and x <= 0:
                raise Undefined("0 to a non-positive power")
            r = mp.power(b, x)
            if isinstance(r, mp.mpc):
                raise Undefined("negative base")
            return r
        if o == "f":
            return self._fn(a[0], [self(x) for x in a[1:]])
        if o == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "bv":
            return bool(self.env.get(a[0], False))
        if o == "not":
            return not self(a[0])
        if o == "and":
            return all(self(x) for x in a)
        if o == "or":
            return any(self(x) for x in a)
        if o == "iff":
            return bool(self(a[0])) == bool(self(a[1]))
        if o == "isint":
            return mp.isint(self(a[0]))
        x, y = self(a[0]), self(a[1])
        tol = mp.mpf(10) ** -18 * (1 + abs(x) + abs(y)) if mp.isfinite(x) and mp.isfinite(y) else 0
        if o == "lt":
            return x < y - tol
        if o == "le":
            return x <= y + tol
        if o == "eq":
            return abs(x - y) <= tol
        raise Undefined(o)

    def _fn(self, n, a):
        try:
            if n in self.funcs:
                return mp.mpf(self.funcs[n](*a))
            if n == "log":
                if a[0] <= 0:
                    raise Undefined("log of a non-positive number")
                return mp.log(a[0])
            if n == "exp":
                return mp.exp(a[0])
            if n == "lgamma":
                if a[0] <= 0 and mp.isint(a[0]):
                    raise Undefined("pole")
                return mp.log(abs(mp.gamma(a[0])))
            if n == "betainc":
                return mp.betainc(a[0], a[1], 0, a[2], regularized=True)
            if n == "i0":
                return mp.besseli(0, a[0])
            if n in ("cos", "sin", "tan", "floor", "ceil"):
                return getattr(mp, n)(a[0])
            if n == "round":
                return mp.nint(a[0])
            if n == "trunc":
                return mp.floor(a[0]) if a[0] >= 0 else mp.ceil(a[0])
            if n == "abs":
                return abs(a[0])
            if n == "atan2":
                return mp.atan2(a[0], a[1])
        except (ValueError, ZeroDivisionError, OverflowError) as ex:
            raise Undefined(str(ex))
        return _pseudo(n, a)
