"""Stubs of math, packaging.version and itertools for symbolic values."""
import itertools as _it
import math as _math
import types

from . import expr as X
from .core import Num, Unsupported
from .ext_numpy import UFS, is_sym
from .loops import Concat, LoopScope, SymSeq, as_seq, settle, zip_, concrete_items
from .mats import Mat, MatStack


class _Math(types.ModuleType):
    pi = Num(X.PI, (), "float")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(_math, n)
        names = {"atan2": "arctan2", "pow": "power", "fabs": "abs"}

        def scalar_only(a):
            for x in a:
                if isinstance(x, Num):
                    x.to_float()

        def f(*a):
            from .core import ctx
            if not is_sym(a) and not (ctx() is not None and ctx().in_code and n in ("log", "exp", "sqrt", "lgamma")):
                return real(*a)
            scalar_only(a)
            if n == "lgamma":
                from .ext_scipy import SPECIAL
                return SPECIAL["gammaln"].f(*a)
            if n == "gamma":
                from .ext_scipy import SPECIAL
                return SPECIAL["gamma"].f(*a)
            if n == "log" and len(a) == 2:
                return UFS["log"](a[0]) / UFS["log"](a[1])
            m = names.get(n, n)
            if m in UFS:
                return UFS[m](*a)
            raise Unsupported(f"math.{n}")
        return f if callable(real) else real


MATH = _Math("math")


class _Version(types.ModuleType):
    @staticmethod
    def parse(s):
        return types.SimpleNamespace(release=tuple(int(p) for p in s.split(".")[:3]))

    Version = parse


PACKAGING = types.ModuleType("packaging")
PACKAGING.version = _Version("packaging.version")


class _Itertools(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(_it, n)
        if n == "zip_longest":
            def z(*its, fillvalue=None):
                its = [settle(i) for i in its]
                if any(as_seq(i) is not None for i in its):
                    return zip_(*its)
                return real(*[concrete_items(i) for i in its], fillvalue=fillvalue)
            return z

        if n in ("count", "repeat") or not callable(real):
            return real

        def f(*a, **k):
            a = [settle(x) for x in a]
            if n == "starmap" and as_seq(a[1]) is not None:
                s = as_seq(a[1])
                with LoopScope(s.axis):
                    return SymSeq(s.axis, a[0](*s.elem), "generator")
            if any(as_seq(x) is not None or isinstance(x, (Concat, Mat, MatStack)) for x in a):
                raise Unsupported(f"itertools.{n}")
            return real(*[concrete_items(x) if isinstance(x, Num) else x for x in a], **k)
        return f


ITERTOOLS = _Itertools("itertools")
