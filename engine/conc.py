"""The executable interpretation of a contract: the same contract text runs against the real package on CPython with
numpy and scipy.  It replays counterexamples of the verifier on the real code, cross-checks the verifier's reading of
the code, and is the bounded stand-in for what the verifier cannot reach.

Run by the package's own interpreter:  python -m engine.conc PROP --trials N --seed S --out FILE [--replay FILE]
"""
import argparse
import contextlib
import functools
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

import numpy as np
from scipy import special, stats

RTOL = 1e-6


class Discard(Exception):
    pass


class CheckFailed(Exception):
    pass


class Stop(Exception):
    """the trial is judged"""


def fin(x):
    return np.all(np.isfinite(np.asarray(x, dtype=float)))


class OpNum:
    """a number that implements the arithmetic operators and nothing else"""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, v):
        object.__setattr__(self, "v", v)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__") and n not in ("__array__", "__float__", "__len__"):
            raise AttributeError(n)
        raise TypeError(f"attribute {n} of a value that only implements the operators")


def _op(name, f):
    def g(self, o):
        o = o.v if isinstance(o, OpNum) else o
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return OpNum(f(self.v, o))
    return g


import operator as _o  # noqa: E402

for _n, _f in dict(add=_o.add, sub=_o.sub, mul=_o.mul, truediv=_o.truediv, pow=_o.pow).items():
    setattr(OpNum, f"__{_n}__", _op(_n, lambda a, b, f=_f: f(float(a), float(b))))
    setattr(OpNum, f"__r{_n}__", _op(_n, lambda a, b, f=_f: f(float(b), float(a))))
OpNum.__neg__ = lambda self: OpNum(-self.v)
OpNum.__pos__ = lambda self: OpNum(self.v)


def _no(name):
    def g(self, *a):
        raise TypeError(f"{name} of a value that only implements the operators")
    return g


for _n in ("eq ne lt le gt ge bool float int index len iter array complex round abs contains getitem floor ceil trunc "
           "mod rmod floordiv rfloordiv matmul rmatmul").split():
    setattr(OpNum, f"__{_n}__", _no(_n))


class Fresh:
    """imports of the package from code compiled once"""
    CODE = {}

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "conjugate":
            return None
        import importlib.machinery
        import importlib.util
        base = os.path.join(REPO, *name.split("."))
        pkg = os.path.isdir(base)
        file = os.path.join(base, "__init__.py") if pkg else base + ".py"
        if not os.path.exists(file):
            return None
        return importlib.util.spec_from_file_location(name, file, loader=FreshLoader(name, file),
                                                      submodule_search_locations=[base] if pkg else None)


import importlib.machinery  # noqa: E402


class FreshLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        if name not in Fresh.CODE:
            with open(self.path, encoding="utf-8") as f:
                Fresh.CODE[name] = compile(f.read(), self.path, "exec")
        return Fresh.CODE[name]


class ConcH:
    symbolic = False

    def __init__(self, rng, values=None, opts=None):
        self.rng = rng
        self.nrng = np.random.default_rng(rng.getrandbits(60))
        self.values = values or {}
        self.opts = opts or {}
        self.used = {}
        self.fails = []
        self.passed = set()
        self.rec = {}
        self.true = np.bool_(True)
        self.pi = math.pi
        self.returned = 0
        self.force = None
        self.runs, self.pits = {}, []
        self.sfx = ""
        # shape of this trial: scalars or arrays that broadcast to a common shape
        r = rng.random()
        if self.values or r < 0.55 or self.opts.get("scalar"):
            self.shape = None
        elif r < 0.8:
            self.shape = (rng.randint(1, 4),)
        else:
            self.shape = (rng.randint(1, 3), rng.randint(1, 4))
        self.boundary = rng.random() < 0.5

    # the code under contract -----------------------------------------------------------------------
    @property
    def D(self):
        return importlib.import_module("conjugate.distributions")

    @property
    def M(self):
        return importlib.import_module("conjugate.models")

    @property
    def P(self):
        return importlib.import_module("conjugate.plot")

    def mod(self, name):
        return importlib.import_module("conjugate." + name)

    # inputs -----------------------------------------------------------------------------------------
    shape_for = None

    def _shape(self, scalar, name=None):
        if self.shape_for is not None and not scalar:
            return self.shape_for(name)
        if scalar or self.shape is None or self.rng.random() < 0.3:
            return None
        if len(self.shape) == 1:
            return self.shape
        m, k = self.shape
        return self.rng.choice([(m, k), (k,), (m, 1), (1, k)])

    def _put(self, name, v):
        self.used[name] = v
        return v

    @contextlib.contextmanager
    def renamed(self, sfx):
        old, self.sfx = self.sfx, sfx
        try:
            yield
        finally:
            self.sfx = old

    def _number(self, v, integral):
        """a scalar as one of the number types"""
        r = self.rng.random()
        if integral or float(v).is_integer():
            v = int(v)
            if r < 0.6:
                return v if integral or r < 0.3 else float(v)
            return np.int64(v) if integral or r < 0.8 else np.float64(v)
        return float(v) if r < 0.6 else np.float64(v)

    def _draw(self, name, gen, integral=False, scalar=False, kind=None):
        name += self.sfx
        if self.sfx and name[:-len(self.sfx)] in self.used and name not in self.values:
            # another value, of the same form
            was = self.used[name[:-len(self.sfx)]]
            if isinstance(was, np.ndarray):
                return self._put(name, np.array([gen() for _ in range(was.size)]).reshape(was.shape).astype(was.dtype))
            v = gen()
            return self._put(name, type(was)(v) if float(v).is_integer() or not isinstance(was, (int, np.integer)) else float(v))
        if name in self.values:
            v = self.values[name]
            if isinstance(v, list):
                v = np.array(v)
            elif integral:
                v = int(v)
            sh = self._shape(scalar, name)
            if sh is not None and np.ndim(v) == 0:      # one entry is known
                a = np.full(sh, v, dtype=float)
                for i in range(1, a.size if gen else 0):
                    a.flat[i] = gen()
                v = a.astype(np.int64) if integral else a
            return self._put(name, v)
        sh = self._shape(scalar, name)
        if sh is None:
            v = self._number(gen(), integral)
            if kind == "int":
                v = int(v)
            elif kind == "float":
                v = float(v)
            return self._put(name, v)
        a = np.array([gen() for _ in range(int(np.prod(sh)))]).reshape(sh)
        return self._put(name, a.astype(np.int64) if integral else a.astype(float))

    def real(self, name, scalar=False, ghost=False, kind=None):
        r = self.rng

        def g():
            return r.choice([0, 1, -1, 2, -3]) if r.random() < 0.25 else round(r.uniform(-6, 6), 3)
        return self._draw(name, g, scalar=scalar or ghost, kind=kind)

    def pos(self, name, scalar=False, ghost=False, kind=None, lo=None, hi=None):
        r = self.rng

        def g():
            if r.random() < 0.2:
                return r.choice([1, 2, 3, 5]) if lo is None and hi is None else r.uniform(lo or 0.05, hi or 6)
            return round(r.uniform(lo or 0.1, hi or 6), 3)
        return self._draw(name, g, scalar=scalar or ghost, kind=kind)

    def nonneg(self, name, scalar=False, ghost=False, kind=None):
        r = self.rng
        zero = self.boundary and r.random() < 0.5

        def g():
            return 0 if zero else round(r.uniform(0.05, 6), 3)
        return self._draw(name, g, scalar=scalar or ghost, kind=kind)

    def prob(self, name, scalar=False, ghost=False, kind=None):
        return self._draw(name, lambda: round(self.rng.uniform(0.02, 0.98), 3), scalar=scalar or ghost, kind=kind)

    def prob1(self, name, **k):
        one = self.boundary and self.rng.random() < 0.5
        return self._draw(name, lambda: 1 if one else round(self.rng.uniform(0.02, 0.98), 3))

    def count(self, name, lo=0, hi=None, scalar=False, ghost=False, kind=None):
        r = self.rng
        edge = r.choice(["lo", "hi"]) if r.random() < (0.5 if self.boundary else 0.15) else None
        if name + self.sfx in self.values:
            return self._draw(name, None, integral=True)
        if isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
            l_, h_ = np.broadcast_arrays(lo, hi if hi is not None else np.asarray(lo) + 12)
            if np.any(l_ > h_):
                raise Discard
            f = {"lo": lambda: l_.copy(), "hi": lambda: h_.copy() if hi is not None else l_.copy(),
                 None: lambda: self.nrng.integers(l_, h_ + 1)}[edge]
            v = f()
            return self._put(name + self.sfx, np.asarray(v))
        top = int(hi) if hi is not None else None
        low = int(lo)
        if top is not None and top < low:
            raise Discard

        def g():
            if edge == "lo":
                return low
            if edge == "hi" and top is not None:
                return top
            if name == "n" and top is None and r.random() < 0.06:
                return r.randint(low, low + 2000)         # as many observations as a data set has
            return r.randint(low, top if top is not None else low + r.choice([3, 8, 20]))
        return self._draw(name, g, True, scalar or ghost, kind)

    def int(self, name, scalar=False, ghost=False, kind=None):
        return self._draw(name, lambda: self.rng.randint(-4, 6), True, scalar or ghost, kind)

    def moments(self, n, a="x_total", b="x2_total"):
        a, b = a + self.sfx, b + self.sfx
        if a in self.values and b in self.values:
            s, q = self.values[a], self.values[b]
            if np.ndim(n) == np.ndim(s) == np.ndim(q) == 0 and n > 0 and q < s * s / n * (1 + 1e-15):
                return self._put(a, s), self._put(b, s * s / n * (1 + 1e-15))       # attainable: rounding aside
            return [self._put(k, np.array(self.values[k]) if isinstance(self.values[k], list) else self.values[k]) for k in (a, b)]
        n = np.asarray(n)
        const = self.boundary and self.rng.random() < 0.5
        s, q = np.zeros(n.shape), np.zeros(n.shape)
        for i in np.ndindex(n.shape):
            x = self.nrng.normal(self.rng.uniform(-3, 3), self.rng.uniform(0.2, 2), int(n[i]))
            if const and len(x):
                x[:] = round(x[0], 2)
            s[i], q[i] = x.sum(), (x ** 2).sum()
        if n.shape == ():
            s, q = float(s), float(q)
        return self._put(a, s), self._put(b, q)

    def axis(self, name, lo=1, hi=None):
        if name in self.used:
            return self.used[name]
        v = self.values.get(name)
        v = int(v) if v is not None else self.rng.randint(lo, hi or lo + 3)
        return self._put(name, v)

    def _cell(self, dom):
        r = self.rng
        if dom == "pos":
            return round(r.uniform(0.2, 5), 3)
        if dom == "prob":
            return round(r.uniform(0.05, 0.95), 3)
        if dom in ("count", "int"):
            return r.randint(0, 9)
        return round(r.uniform(-5, 5), 3)

    def arr(self, name, *axes, dom="real", kind="array"):
        v = np.array([self._cell(dom) for _ in range(int(np.prod(axes)))]).reshape(axes)
        return self._put(name + self.sfx, v.astype(np.int64) if dom in ("count", "int") else v.astype(float))

    def sample_number(self, name):
        v = self.values.get(name)
        return self._put(name, int(v) if v is not None else self.rng.randint(50, 200) if self.rng.random() < 0.7 else self.rng.choice([1000, 4097, 20011]))

    def position(self, name, axis):
        return int(self.count(name, 0, axis - 1, scalar=True))

    def one(self):
        return 1

    def entries(self, v):
        return np.reshape(v, np.shape(v)[:1]) if np.size(v) == np.prod(np.shape(v)[:1]) else v

    def entry(self, v):
        return np.ravel(v)[0]

    def seq(self, name, axis, kind="list", dom="real"):
        v = [self._cell(dom) for _ in range(axis)]
        return self._put(name + self.sfx, tuple(v) if kind == "tuple" else v if kind == "list" else np.array(v, dtype=float))

    def rows(self, name, r, k, kind="list", dom="real"):
        mk = tuple if kind == "tuple" else list
        return self._put(name + self.sfx, mk(mk(self._cell(dom) for _ in range(k)) for _ in range(r)))

    def vec_sum(self, label, a, b, c, depth=1):
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float) + np.asarray(c, dtype=float)
        if np.ndim(a) != depth or x.shape != y.shape:
            self._judge(label + " (shape)", False, f"{np.shape(a)}")
            return
        self.eq(label, x, y)

    def vec_add(self, a, b):
        return type(a)(x + y for x, y in zip(a, b)) if isinstance(a, (list, tuple)) else a + b

    def zeros(self, axis):
        return np.zeros(int(axis))

    def vec_eq(self, label, a, b, depth=1):
        self.vec_sum(label, a, b, 0.0, depth)

    def num(self, v):
        return v

    def rat(self, a, b):
        return a / b

    def index(self, kind, name, axes):
        n, r = int(axes[0]), self.rng
        have = getattr(self, "keys", None)
        if have is None:
            have = self.keys = {}
        k = (kind, name, n)
        if k not in have:
            if name in self.values and kind in ("int", "numpy int", "negative int", "too high", "too low"):
                have[k] = int(self.values[name])
            elif kind == "slice":
                have[k] = slice(r.choice([None, 0, 1, -1]), r.choice([None, 1, n, -1]), r.choice([None, 1, 2, -1]))
            elif kind == "list":
                have[k] = [r.randrange(-n, n) for _ in range(r.randint(1, 4))]
            elif kind == "array":
                have[k] = np.array([r.randrange(-n, n) for _ in range(r.randint(1, 4))])
            elif kind == "mask":
                have[k] = np.array([r.random() < 0.6 for _ in range(n)])
            elif kind in ("int", "numpy int", "negative int"):
                v = r.randrange(-n, 0) if kind == "negative int" else r.randrange(n)
                have[k] = np.int64(v) if kind == "numpy int" else v
            elif kind == "picked":
                have[k] = [r.randrange(n) for _ in range(3)]
            elif kind == "ellipsis":
                have[k] = Ellipsis
            elif kind == "too high":
                have[k] = n + r.randrange(3)
            elif kind == "too low":
                have[k] = -n - 1 - r.randrange(3)
            elif kind == "list too high":
                have[k] = [r.randrange(n), n + r.randrange(3)]
            elif kind == "tuple too long":
                have[k] = (r.randrange(n), 0)
            else:
                j, i = r.randrange(n), r.randrange(int(axes[1]))
                have[k] = {"tuple of ints": (j, i), "tuple of int and slice": (j, slice(None)),
                           "tuple of slice and int": (slice(None), i)}[kind]
        v = have[k]
        if kind in ("slice", "mask") and np.arange(n)[v].size == 0:
            raise Discard
        return list(v) if isinstance(v, list) else self._put(name, v)

    def select(self, v, key):
        return np.asarray(v)[key]

    def ndim(self, v):
        return np.ndim(v)

    def table(self, name, a):
        return self.spd(name, int(a))

    # matrices ---------------------------------------------------------------------------------------
    def dim(self, name, lo=1):
        if name in self.used:
            return self.used[name]
        v = self.values.get(name)
        r = self.rng
        if v is None and name == "N" and r.random() < 0.08:
            v = r.randint(lo, lo + 120)                   # as many observations as a data set has
        return self._put(name, int(v) if v is not None else r.randint(lo, lo + 3))

    def dimnum(self, d):
        return d

    def _coincidence(self, ghost):
        """some trials: values that stand in a special relation to what was drawn before"""
        return not ghost and self.boundary and self.rng.random() < 0.25

    def _drawn(self, *shape):
        return [v for v in self.used.values() if isinstance(v, np.ndarray) and v.shape == shape]

    def vec(self, name, d, ghost=False):
        v, d = np.round(self.nrng.normal(0, 2, d), 3), int(d)
        if d and self._coincidence(ghost):
            # zero, constant, one nonzero entry, ordered, a vector or the mean of a table drawn before
            have = self._drawn(d) + [m.mean(axis=0) for m in self.used.values()
                                     if isinstance(m, np.ndarray) and m.ndim == 2 and m.shape[1] == d and m.shape[0]]
            v = self.rng.choice([np.zeros(d), np.full(d, v[0]), np.eye(d)[0] * v[0], np.sort(v)] + 3 * [x.astype(float) for x in have])
        return self._put(name + self.sfx, v.copy())

    def mat(self, name, r, c, ghost=False):
        v, r, c = np.round(self.nrng.normal(0, 2, (r, c)), 3), int(r), int(c)
        if r and c and self._coincidence(ghost):
            # zero, equal rows, a column of ones, dependent columns, centred rows, orthogonal columns, a table drawn before
            ones = v.copy()
            ones[:, 0] = 1
            twice = v.copy()
            twice[:, -1] = v[:, 0]
            q = np.linalg.qr(v)[0] if r >= c else v
            v = self.rng.choice([np.zeros((r, c)), np.repeat(v[:1], r, axis=0), ones, twice, v - v.mean(axis=0), q] + 2 * self._drawn(r, c))
        return self._put(name + self.sfx, v.copy())

    def spd(self, name, d, ghost=False):
        a, d = np.round(self.nrng.normal(0, 1, (d, d)), 2), int(d)
        v = a @ a.T + 0.5 * np.eye(d)
        if d and self._coincidence(ghost):
            # the identity, a multiple of it, a diagonal, some zeros, one drawn before, a multiple of that
            c = round(self.rng.uniform(0.2, 4), 2)
            sparse = np.where(np.abs(np.subtract.outer(np.arange(d), np.arange(d))) > 1, 0, v)
            sparse = sparse + np.diag(np.abs(sparse).sum(axis=1))
            have = [x for x in self._drawn(d, d) if np.allclose(x, x.T) and np.all(np.linalg.eigvalsh(x) > 0.05)]
            v = self.rng.choice([np.eye(d), c * np.eye(d), np.diag(np.diag(v)), 0.02 * v, 50 * v, sparse] + [x * k for x in have for k in (1, 1, c)])
        return self._put(name + self.sfx, v.copy())

    def stack(self, a, b):
        return np.concatenate([a, b])

    def inv(self, m):
        return np.linalg.inv(m)

    def eye(self, d):
        return np.eye(int(d))

    def inverse_is(self, label, m, cand):
        self.mat_eq("lemma: " + label, m @ cand, np.eye(m.shape[0]))

    def trusted(self, label, cond, by):
        self._judge("trusted: " + label, bool(np.all(cond)))

    def logdet(self, m):
        return np.linalg.slogdet(m)[1]

    def trace(self, m):
        return np.trace(m)

    # logic ------------------------------------------------------------------------------------------
    def lt(self, a, b):
        return np.asarray(a) < np.asarray(b)

    def le(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return (a <= b) | (np.abs(a - b) <= 1e-9 * (1 + np.abs(a) + np.abs(b)))

    def equal(self, a, b):
        return np.isclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=RTOL, atol=1e-9)

    def and_(self, *xs):
        r = np.bool_(True)
        for x in xs:
            r = r & np.asarray(x)
        return r

    def or_(self, *xs):
        r = np.bool_(False)
        for x in xs:
            r = r | np.asarray(x)
        return r

    def not_(self, x):
        return ~np.asarray(x)

    def implies(self, a, b):
        return ~np.asarray(a) | np.asarray(b)

    def iff(self, a, b):
        return np.asarray(a) == np.asarray(b)

    def isint(self, a):
        a = np.asarray(a, dtype=float)
        return a == np.floor(a)

    def ite(self, c, a, b):
        return np.where(c, a, b)[()]

    def defined(self, a):
        return np.isfinite(np.asarray(a, dtype=float))

    # functions --------------------------------------------------------------------------------------
    def _f(self, f, *a):
        return f(*[np.asarray(x, dtype=float) for x in a])[()]

    def log(self, a):
        return self._f(np.log, a)

    def exp(self, a):
        return self._f(np.exp, a)

    def lgamma(self, a):
        return self._f(special.gammaln, a)

    def betaln(self, a, b):
        return self._f(special.betaln, a, b)

    def cos(self, a):
        return self._f(np.cos, a)

    def sin(self, a):
        return self._f(np.sin, a)

    def i0(self, a):
        return self._f(special.i0, a)

    def betainc(self, a, b, x):
        return special.betainc(a, b, x)

    def sqrt(self, a):
        return self._f(np.sqrt, a)

    def max(self, a, b):
        return np.maximum(a, b)

    # objects ----------------------------------------------------------------------------------------
    def make(self, cls, **kw):
        return getattr(self.D, cls)(**kw)

    def abstract(self, o, sfx, **doms):
        return o

    def cls(self, o):
        return type(o).__name__

    def check_class(self, label, o, *names):
        ok = type(o).__name__ in names and type(o).__module__ == "conjugate.distributions"
        self._judge(label, ok, f"returned a {type(o).__name__}")
        if not ok:
            raise Stop

    # execution --------------------------------------------------------------------------------------
    def call(self, f, *a, **k):
        try:
            r = f(*a, **k)
        except Exception as ex:
            self.fails.append(("returns without an exception", f"{getattr(f, '__name__', f)}: {type(ex).__name__}: {ex}"))
            raise Stop
        self.returned += 1
        return r

    def get(self, o, name):
        return self.call(lambda: getattr(o, name))

    def item(self, o, k):
        return self.call(lambda: o[k])

    def raises(self, label, exc, f, *a, contains=(), **k):
        try:
            f(*a, **k)
        except Exception as ex:
            self._judge(label, isinstance(ex, exc), f"{type(ex).__name__}: {ex}")
            for s in contains:
                self._judge(f"{label}: message names {s}", s in str(ex), str(ex))
            return ex
        self._judge(label, False, "no exception")
        return None

    def accepts(self, label, f, par, v, data):
        try:
            f(**{par: v}, **data)
        except ValueError as ex:
            self._judge(label, False, str(ex))
            return
        except Exception:
            pass
        self.returned += 1
        self._judge(label, True)

    # statements -------------------------------------------------------------------------------------
    def assume(self, c):
        if not np.all(c):
            raise Discard

    def _judge(self, label, ok, detail=""):
        if ok:
            self.passed.add(label)
        else:
            self.fails.append((label, detail))

    def check(self, label, cond, kind="ensures", detail=""):
        self._judge(label, bool(np.all(cond)), detail)

    def lemma(self, label, cond):
        self._judge("lemma: " + label, bool(np.all(cond)))

    def hint(self, label, cond):
        pass

    def eq(self, label, a, b, kind="ensures", tol=None):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            try:
                a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            except Exception:
                self._judge(label, type(a) is type(b) and a == b, f"{a!r} vs {b!r}")
                return
            if a.shape != b.shape:
                self._judge(label, False, f"shapes {a.shape} and {b.shape}")
                return
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except Exception:
            self._judge(label, a is b or type(a) is type(b) and a == b, f"{a!r} vs {b!r}")
            return
        if not np.all(np.isfinite(y)):
            self.passed.add(label)
            return
        try:
            np.broadcast_shapes(x.shape, y.shape)
            ok = np.allclose(x, y, rtol=tol or RTOL, atol=(tol or RTOL))
        except ValueError:
            ok = False
        self._judge(label, ok, f"{a!r} vs {b!r}")

    def mat_eq(self, label, a, b, kind="ensures"):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self._judge(label, False, f"shapes {a.shape} and {b.shape}")
            return
        scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
        self._judge(label, bool(np.all(np.isfinite(a))) and np.allclose(a, b, rtol=1e-6, atol=1e-6 * scale), f"{a!r} vs {b!r}")

    def same(self, label, a, b):
        self._judge(label, a is b, f"{a!r} is {b!r}")

    def outer(self, a, b):
        return np.outer(a, b)

    def name(self, name, e):
        self._judge("lemma: " + name + " is positive", e > 0)
        return e

    def row(self, v):
        return np.asarray(v)[None, :]

    def square(self, name, v, m=None):
        return v @ v if m is None else v @ m @ v

    def pos_def(self, label, m, base=None, squares=()):
        m = np.asarray(m, dtype=float)
        ok = m.ndim == 2 and m.shape[0] == m.shape[1] and bool(np.all(np.isfinite(m)))
        if ok and m.size:
            scale = max(1.0, float(np.max(np.abs(m))))
            ok = np.allclose(m, m.T, rtol=1e-6, atol=1e-7 * scale) and np.linalg.eigvalsh((m + m.T) / 2).min() > -1e-9 * scale
        self._judge(label, bool(ok), f"{m!r}")

    def all_pos(self, label, v):
        v = np.asarray(v, dtype=float)
        self._judge(label, bool(np.all(v > 0)), f"{v!r}")

    def shape_is(self, label, v, *dims):
        self._judge(label, np.shape(v) == tuple(int(d) for d in dims), f"shape {np.shape(v)}")

    def length(self, v):
        return len(v)

    def ones(self, n):
        return np.ones(int(n))

    # values of any kind ------------------------------------------------------------------------------
    def strict(self):
        pass

    def restrict_events(self):
        pass

    def no_inspection(self, label):
        self._judge(label, True)       # an operator-only value raises on anything else

    def operators(self, v):
        if isinstance(v, (bool, np.bool_, str)) or v is None:
            return v
        if isinstance(v, dict):
            return {k: self.operators(x) for k, x in v.items()}
        if hasattr(type(v), "__dataclass_fields__"):
            return type(v)(**{f: self.operators(getattr(v, f)) for f in type(v).__dataclass_fields__})
        return OpNum(v)

    def plain(self, v):
        return v.v if isinstance(v, OpNum) else v

    def same_number(self, label, a, b):
        if a is None or b is None or isinstance(a, (bool, np.bool_, str)):
            self._judge(label, a is b or a == b, f"{a!r} vs {b!r}")
        else:
            self.eq(label, a, b)

    def replacement(self, default):
        def f(*a):
            return OpNum(default(*[x.v if isinstance(x, OpNum) else x for x in a]))
        return f

    BUILT_IN = {"inv": ("inv", "solve", "pinv", "lstsq"), "eye": ("eye", "identity"), "outer": ("outer",), "max_fn": ("maximum", "fmax"),
                "ln": ("log",), "gammaln": ("gammaln", "loggamma", "lgamma"), "i0": ("i0",), "cos": ("cos",),
                "sin": ("sin",), "arctan2": ("arctan2", "atan2")}
    MEANING = {"inv": np.linalg.inv, "eye": np.eye, "outer": np.outer, "max_fn": np.maximum, "ln": np.log,
               "gammaln": special.gammaln, "i0": special.i0, "cos": np.cos, "sin": np.sin, "arctan2": np.arctan2}

    def meaning(self, role):
        return self.MEANING[role]

    def supplied(self, role, k):
        m = self.MEANING[role]
        calls = self.supplied_calls = getattr(self, "supplied_calls", {})
        calls[role] = 0

        def f(*a):
            calls[role] += 1
            return m(*a) + k if role in ("max_fn", "arctan2") else m(*a) * k

        class Function:
            __slots__ = ()

            def __call__(_, *a):
                return f(*a)
        return self.rng.choice([f, functools.partial(f), Function()])

    def watched(self, label, roles, f, **k):
        import numpy.linalg
        import scipy.linalg
        import scipy.special
        hit, undo = [], []

        def spy(name, old):
            def g(*a, **kw):
                if str(sys._getframe(1).f_globals.get("__name__")).startswith("conjugate"):
                    hit.append(name)
                return old(*a, **kw)
            return g
        names = [n for r in roles for n in self.BUILT_IN[r]]
        mods = [np, numpy.linalg, scipy.linalg, scipy.special, math] + \
            [m for n, m in sys.modules.items() if n.split(".")[0] == "conjugate"]
        olds = {id(getattr(m, n)): n for m in mods[:5] for n in names if hasattr(m, n)}
        for m in mods:
            for n, v in list(vars(m).items()):
                if id(v) in olds and callable(v):
                    undo.append((m, n, v))
                    setattr(m, n, spy(olds[id(v)], v))
        try:
            r = self.call(f, **k)
        finally:
            for m, n, v in undo:
                setattr(m, n, v)
        for role in roles:
            bad = [n for n in hit if n in self.BUILT_IN[role]]
            self._judge(f"{label}: the built-in {role} is not called", not bad, f"calls {bad[:3]}")
            self._judge(f"{label}: the supplied {role} is called", self.supplied_calls[role] > 0)
        return r

    def elementwise(self, run, layout, par):
        pri, dat = {"all vectors": ((1,), (1,)), "vector data, scalar prior": ((), (1,)),
                    "vector prior, scalar data": ((1,), ()), "column prior, row data": ((0, None), (1,)),
                    "row prior, column data": ((1,), (0, None)), "table prior, row data": ((0, 1), (1,)),
                    "scalar prior, table data": ((), (0, 1))}[layout]
        dims = (self.rng.randint(1, 3), self.rng.randint(1, 4))

        def shape_for(n):
            return tuple(1 if i is None else dims[i] for i in (pri if n in par else dat)) or None
        self.shape_for = shape_for
        try:
            o = run()
        finally:
            self.shape_for = None
        arrays = dict(self.used)
        full = np.broadcast_shapes(*[np.shape(v) for v in arrays.values()])
        bc = {k: np.broadcast_to(v, full) for k, v in arrays.items()}
        for idx in np.ndindex(full):
            vals = {k: plain(v[idx]) for k, v in bc.items()}
            keep, self.values, self.shape = self.values, vals, None
            try:
                q = run()
            finally:
                self.values = keep
            self.check_class("the same family", o, type(q).__name__)
            for k in type(q).__dataclass_fields__:
                x, y = getattr(o, k), getattr(q, k)
                if y is None or isinstance(y, bool):
                    self._judge(f"{k}: the same", x is y)
                    continue
                try:
                    cell = np.broadcast_to(x, full)[idx]
                    ok = True
                except ValueError:
                    ok = False
                self._judge(f"{k}: has the broadcast shape at most", ok, f"shape {np.shape(x)}, inputs {full}")
                if ok:
                    yield k, cell, y
        self.used.update(arrays)

    # frames ------------------------------------------------------------------------------------------
    def snapshot(self, *things):
        return [(t, self._state(t)) for t in things]

    def _state(self, t):
        if hasattr(type(t), "__dataclass_fields__"):
            return {f: (getattr(t, f), self._state(getattr(t, f))) for f in
                    list(type(t).__dataclass_fields__) + [n for n in ("_min_value", "_max_value") if n in vars(t)]}
        if isinstance(t, np.ndarray):
            return t.copy()
        if isinstance(t, (list, tuple)):
            return [(x, self._state(x)) for x in t]
        if isinstance(t, dict):
            return {k: (x, self._state(x)) for k, x in t.items()}
        return t

    def nothing_hidden(self, label, objs):
        pass

    def some(self, xs):
        return self.rng.sample(list(xs), min(len(xs), 2))

    def history(self, ops, this):
        """operations made in between: those asked for, some that share a class with this one, some others"""
        r = self.rng
        asked = [n for n in json.loads(os.environ.get("VERIF_HISTORY", "[]")) if n in ops]
        near = [n for n in ops if ops[n].related & this.related]
        names = r.sample(asked, min(len(asked), 6)) + r.sample(near, min(len(near), 4)) + r.sample(list(ops), 4)
        r.shuffle(names)
        for i, n in enumerate(names):
            used, shape, passed, fails = self.used, self.shape, set(self.passed), list(self.fails)
            keys, self.keys, self.used = getattr(self, "keys", None), None, {}
            with self.renamed(f"_h{i}"):
                try:
                    v = ops[n].values(self)
                    objs = ops[n].objects(self, v)
                except (Discard, Stop):
                    continue
                finally:
                    self.used, self.shape, self.keys = used, shape, keys
                try:
                    self.attempt(lambda: ops[n].run(self, objs))
                except (Discard, Stop):
                    pass
                self.passed, self.fails = passed, fails

    def overwrite(self, objs, others):
        done = False
        for o, p in zip(objs, others):
            if hasattr(type(o), "__dataclass_fields__"):
                for f in type(o).__dataclass_fields__:
                    setattr(o, f, getattr(p, f))
                    done = True
            elif isinstance(o, dict):
                o.update(p)
            elif o is not p:
                return False
        return done

    def apart(self, vals):
        """equal values that share no memory"""
        import copy
        return copy.deepcopy(vals)

    def overwrite_result(self, r):
        """the caller changes the arrays of what it got"""
        vs = r.values() if isinstance(r, dict) else vars(r).values() if hasattr(type(r), "__dataclass_fields__") else [r]
        done = False
        for v in vs:
            if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable and v.dtype.kind in "fi":
                v += 1
                done = True
        return done

    def overwrite_arrays(self, objs, others):
        pairs = []
        for o, p in zip(objs, others):
            if hasattr(type(o), "__dataclass_fields__"):
                pairs += [(getattr(o, f), getattr(p, f)) for f in type(o).__dataclass_fields__]
            elif isinstance(o, dict):
                pairs += [(o[k], p[k]) for k in o]
            else:
                pairs.append((o, p))
        pairs = [(v, w) for v, w in pairs if v is not w]
        if not pairs or not all(isinstance(v, np.ndarray) and isinstance(w, np.ndarray) and v.shape == w.shape
                                and v.ndim and v.dtype == w.dtype for v, w in pairs):
            return False
        for v, w in pairs:
            v[...] = w
        return True

    def law_view(self, q):
        out = {"family": type(q).__name__}
        for k, v in vars(q).items():
            if isinstance(v, (np.ndarray, float, int)):
                out[k] = v
            elif k == "cov_object":
                out[k] = v.covariance
        return out

    def _same_state(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() - ({"_min_value"} - a.keys()) and all(self._same_state(a[k], b[k]) for k in a)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2:
            return a[0] is b[0] and self._same_state(a[1], b[1])
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self._same_state(x, y) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and \
                np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
        return a is b or a == b

    SPARE = None        # a package that has called nothing yet, with its fingerprint

    @contextlib.contextmanager
    def fresh_package(self):
        from engine import state

        def mine():
            return {k: m for k, m in sys.modules.items() if k.split(".")[0] == "conjugate"}
        old = mine()
        for k in old:
            del sys.modules[k]
        finder = Fresh()
        sys.meta_path.insert(0, finder)
        try:
            if ConcH.SPARE is None:
                for n in ("distributions", "models", "plot"):
                    importlib.import_module("conjugate." + n)
                ConcH.SPARE = mine(), state.package(mine())
            sys.modules.update(ConcH.SPARE[0])
            yield
        finally:
            sys.meta_path.remove(finder)
            now = mine()
            if now.keys() != ConcH.SPARE[0].keys() or state.difference(ConcH.SPARE[1], state.package(now)):
                ConcH.SPARE = None
            for k in now:
                del sys.modules[k]
            sys.modules.update(old)

    def memory(self):
        from engine import state
        return state.process()

    def no_memory(self, label, before):
        from engine import state
        d = state.process_difference(before, self.memory())
        self._judge(label, d is None, f"changes the process: {d}")

    def _frozen(self, r):
        if hasattr(type(r), "__dataclass_fields__"):
            v = {f: self._frozen(getattr(r, f)) for f in type(r).__dataclass_fields__}
            for n in ("_min_value", "_max_value"):
                if n in vars(r):
                    v[n] = self._frozen(vars(r)[n])
            return (type(r).__name__, v)
        if isinstance(r, np.ndarray):
            return r.copy()
        if isinstance(r, (list, tuple)):
            return [self._frozen(x) for x in r]
        if isinstance(r, dict):
            return {k: self._frozen(v) for k, v in r.items()}
        return r

    result_of = _frozen

    def same_result(self, label, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] != b[0] or set(a[1]) - {"_min_value"} != set(b[1]) - {"_min_value"}:
                self._judge(f"{label}: the class", False, f"{a[0]} and {b[0]}")
                return
            for k in a[1]:
                if k in b[1]:
                    self.same_result(f"{label}: {k}", a[1][k], b[1][k])
        elif isinstance(a, dict) and isinstance(b, dict):
            self._judge(f"{label}: the entries", a.keys() == b.keys())
            for k in a.keys() & b.keys():
                self.same_result(f"{label}: {k}", a[k], b[k])
        elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self.same_result(f"{label}: {i}", x, y)
        elif a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            self._judge(label, a is b or type(a) is type(b) and a == b, f"{a!r} and {b!r}")
        else:
            try:
                x, y = np.asarray(a), np.asarray(b)
                ok = x.shape == y.shape and (np.array_equal(x, y) or np.array_equal(x, y, equal_nan=True)
                                             or np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True))
            except Exception:
                ok = type(a) is type(b)
            self._judge(label, bool(ok), f"{a!r} and {b!r}")

    @contextlib.contextmanager
    def any_arguments(self):
        yield

    def attempt(self, f):
        try:
            r = f()
        except Exception as ex:
            return ["raises", type(ex).__name__]
        self.returned += 1
        return self._frozen(r)

    def lend(self, r):
        return r

    def unchanged(self, label, snap):
        self._judge(label, all(self._same_state(s, self._state(t)) for t, s in snap), "an input was changed")

    # laws --------------------------------------------------------------------------------------------
    def _kind(self, q):
        if hasattr(q, "pdf") and hasattr(q, "pmf"):      # scipy's frozen laws have both names on one class
            return "pmf" if isinstance(q.dist, stats.rv_discrete) else "pdf"
        return "pmf" if hasattr(q, "pmf") else "pdf"

    def law_discrete(self, q):
        return np.bool_(self._kind(q) == "pmf")

    def law_value(self, q, x):
        return np.asarray(self.call(getattr(q, self._kind(q)), x), dtype=float)

    def law_supp(self, q, x):
        v = self.law_value(q, x)
        if np.any(np.isnan(v)):
            self._judge("the density is a number", False, f"{v!r} at {x!r}")
        if hasattr(q, "log" + self._kind(q)):           # the mass may underflow where its logarithm does not
            v = np.asarray(self.call(getattr(q, "log" + self._kind(q)), x), dtype=float)
            return v > -np.inf
        return v > 0

    def law_logd(self, q, x):
        n = "log" + self._kind(q)
        if hasattr(q, n):
            return self.call(getattr(q, n), x)
        return np.log(self.law_value(q, x))

    def mv_law(self, label, q, family, **params):
        from .mvconc import point_and_logd
        kind = "logpmf" if family in ("multinomial", "dirichlet_multinomial") else "logpdf"
        for _ in range(3):
            x, want = point_and_logd(self.nrng, family, {k: np.asarray(v, dtype=float) for k, v in params.items()})
            self._judge(f"{label}: a law with this density", hasattr(q, kind), f"{q!r}")
            got = self.call(getattr(q, kind), x)
            self._judge(label, np.shape(np.squeeze(got)) == () and np.allclose(got, want, rtol=1e-6, atol=1e-6),
                        f"{family} at {x!r}: {got!r}, documented {want!r}")

    # plots ----------------------------------------------------------------------------------------------
    def laid_out(self, axis, names):
        import contextlib

        @contextlib.contextmanager
        def m():
            self.shape_for = lambda n: (int(axis),) if n in names else None
            try:
                yield
            finally:
                self.shape_for = None
        return m()

    def size(self, axis):
        return int(axis)

    def same_object(self, a, b):
        return all(np.array_equal(getattr(a, f), getattr(b, f)) for f in type(a).__dataclass_fields__)

    def axes(self, kind):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        fig, ax = plt.subplots(subplot_kw=dict(projection="polar") if kind == "polar" else None)
        self.gca = ax
        if kind == "given":
            plt.figure()            # other axes are the current ones
        return None if kind == "default" else ax

    def used_axes(self, ax):
        return self.gca

    def each(self, o):
        f = type(o).__dataclass_fields__
        v = {k: getattr(o, k) for k in f}
        n = max([len(x) for x in v.values() if isinstance(x, np.ndarray)], default=None)
        if n is None:
            return [o]
        return [type(o)(**{k: x[j] if isinstance(x, np.ndarray) else x for k, x in v.items()}) for j in range(n)]

    def curves(self, label, ax, count):
        n = 1 if count is None else int(count)
        self._judge(f"{label}: one for each parameter setting", len(ax.lines) == n, f"{len(ax.lines)} curves for {n}")
        if len(ax.lines) != n:
            raise Stop
        return list(ax.lines)

    def runs_over(self, label, c, lo, hi, whole):
        for l in c:
            x = np.asarray(l.get_xdata(), dtype=float)
            if whole:
                self._judge(f"{label}: from the lower bound on, every integer",
                            x.shape == (int(hi - lo) + 1,) and np.array_equal(x, np.arange(lo, hi + 1)), f"{x!r}")
                continue
            self._judge(f"{label}: at least two points", len(x) > 1)
            self.eq(f"{label}: from the lower bound on", x[0], lo)
            self.eq(f"{label}: to the upper bound", x[-1], hi)
            self._judge(f"{label}: without turning back", bool(np.all(np.diff(x) > 0)), f"{x!r}")

    def total(self, f, o, lo, hi):
        return [np.sum(self.call(f, q, np.arange(lo, hi + 1))) for q in self.each(o)]

    def on_curve(self, label, c, o, f, over=None):
        for j, (l, q) in enumerate(zip(c, self.each(o))):
            y = np.asarray(l.get_ydata(), dtype=float)
            want = np.asarray(self.call(f, q, np.asarray(l.get_xdata(), dtype=float)), dtype=float)
            if over is not None:
                want = want / over[j]
            self._judge(label, y.shape == want.shape and np.allclose(y, want, rtol=RTOL, atol=1e-9, equal_nan=True),
                        f"curve {j}: {y[:6]!r}..., should be {want[:6]!r}...")

    def on_curve_is(self, label, c, o, f):
        for l, q in zip(c, self.each(o)):
            want = self.call(f, q, np.asarray(l.get_xdata(), dtype=float))
            self.recorded(label, np.allclose(l.get_ydata(), want, rtol=RTOL, atol=1e-9, equal_nan=True))

    def density_estimate(self, label, c, o, n, src):
        from scipy import stats
        seed = self.used["seed"]
        rng = {"seed": lambda: seed, "Generator": lambda: np.random.default_rng(seed),
               "RandomState": lambda: np.random.RandomState(seed)}[src]()
        want = stats.dirichlet(o.alpha).rvs(size=int(n), random_state=rng)
        for j, l in enumerate(c):
            y = stats.gaussian_kde(want[:, j])(np.asarray(l.get_xdata(), dtype=float))
            self._judge(f"{label}: a kernel density estimate", np.allclose(l.get_ydata(), y, rtol=1e-6, atol=1e-9),
                        f"curve {j}: {np.asarray(l.get_ydata())[:4]}, should be {y[:4]}")

    def greatest(self, v):
        return np.max(v)

    def least(self, v):
        return np.min(v)

    def label_form(self, form, count):
        n = 1 if count is None else int(count)
        self.names = names = [f"name {self.rng.randint(0, 99)} {j}" for j in range(n)]
        return {"none": None, "text": "some text", "list": names, "tuple": tuple(names), "generator": (x for x in list(names)),
                "function": lambda i: f"number {i}", "array": np.array(names)}[form]

    def coloured(self, label, c, given):
        from matplotlib.colors import same_color
        want = [given if isinstance(given, str) or not isinstance(given[0], str) else given[j % len(given)] for j in range(len(c))]
        got = [l.get_color() for l in c]
        self._judge(label, all(same_color(g, w) for g, w in zip(got, want)), f"{got!r}, not {want!r}")

    def option(self, label, c, name, value):
        got = [getattr(l, f"get_{name}")() for l in c]
        self._judge(label, all(g == value for g in got), f"{got!r}, not {value!r}")

    def labelled(self, label, c, form, given):
        want = [None if form == "none" else (f"some text {j + 1}" if len(c) > 1 else "some text") if form == "text" else
                f"number {j}" if form == "function" else None for j in range(len(c))]
        if form in ("list", "tuple", "array", "generator"):
            want = self.names
        got = [l.get_label() for l in c]
        self._judge(label, all(w is None and g.startswith("_") or g == w for g, w in zip(got, want)), f"{got!r}, not {want!r}")

    # sampling ------------------------------------------------------------------------------------------
    def rng_(self, kind):
        if kind == "none":
            return None
        if "seed" not in self.values and "seed" not in self.used:
            self._put("seed", self.rng.randrange(2 ** 31))
        seed = int(self.used.setdefault("seed", self.values.get("seed", 0)))
        if kind == "seed":
            return seed
        if kind == "numpy seed":
            return np.int64(seed)
        if kind not in self.runs:
            self.runs[kind] = np.random.default_rng(seed) if kind == "Generator" else np.random.RandomState(seed)
        return self.runs[kind]

    def nsamples(self, name):
        v = self.values.get(name)
        return self._put(name, int(v) if v is not None else self.rng.choice([1, 2, 3, 1500, 1500]))

    def sampled(self, label, kind, f, *a, **k):
        state = np.random.get_state()[1:3]
        r = self.call(f, *a, **k)
        now = np.random.get_state()[1:3]
        moved = state[1] != now[1] or not np.array_equal(state[0], now[0])
        self._judge(f"{label}: all randomness comes from the given source", kind == "none" or not moved, "the global state is used")
        self.runs.setdefault("run:" + label, []).append(r)
        return r

    def _uniform(self, label, u, what="the draw"):
        u = np.asarray(u, dtype=float).ravel()
        if u.size < 1000:
            return
        self._judge(f"{label}: {what}", bool(np.all(np.isfinite(u))) and stats.kstest(u, "uniform").pvalue > 1e-7,
                    f"transformed by its law, {u.size} samples from {u[:4]!r} are not uniform")
        for v in self.pits:
            if v.size == u.size:
                r = stats.spearmanr(u, v)[0]
                self._judge(f"{label}: a fresh draw for each sample", abs(r) < 6 / math.sqrt(u.size), f"rank correlation {r} with another stage")
        if u.size > 10:
            self._judge(f"{label}: a fresh draw for each sample", len(np.unique(u)) > u.size / 2, "repeated values")
        self.pits.append(u)

    def _count(self, label, v, size):
        if size is not None:
            ok = np.ndim(v) >= 1 and np.shape(v)[0] == size
            self._judge(f"{label}: the requested number of samples", ok, f"shape {np.shape(v)}, size {size}")
            if not ok:
                raise Stop

    def drawn(self, label, v, family, size=None, given=(), **p):
        if size is not None:
            self._judge(f"{label}: one axis of samples", np.ndim(v) == 1, f"shape {np.shape(v)}")
        self._count(label, v, size)
        v = np.asarray(v)
        if family == "geom of beta":
            if np.any(np.abs(np.asarray(v, dtype=float)) > 2.0 ** 60):     # an outcome that no machine integer holds
                raise Discard
            x = v - p["loc"]
            self._judge(f"{label}: the draw", bool(np.all(x >= 1)) and np.array_equal(x, np.floor(x)), f"{v!r}")
            a, b = np.broadcast_arrays(p["a"], p["b"])
            # P(X >= k) = B(a, b + k - 1) / B(a, b)
            sf = lambda k: np.exp(special.betaln(a, b + k - 1) - special.betaln(a, b))   # noqa: E731
            w = self.nrng.random(x.shape)
            self._uniform(label, sf(x + 1.0) + w * (sf(x * 1.0) - sf(x + 1.0)))
            return
        q = getattr(stats, family)(**p)
        self._uniform(label, q.cdf(v))

    def drawn_mvn(self, label, v, size, mean, cov, given):
        self._count(label, v, size)
        self._judge(f"{label}: a stack of samples", np.shape(v) == (size, len(mean)), f"{np.shape(v)}")
        if size < 1000:
            return
        z = np.stack([np.linalg.solve(np.linalg.cholesky(cov(s)), x - mean) for x, s in zip(v, given)])
        for k in range(z.shape[1]):
            self._uniform(label, stats.norm.cdf(z[:, k]), "covariance")

    def drawn_wishart(self, label, v, size, family, df, scale, inverted=False):
        self._count(label, v, size)
        d = len(scale)
        self._judge(f"{label}: a stack of samples", np.shape(v) == (size, d, d), f"{np.shape(v)}")
        if size < 1000:
            return
        w = v if (family == "wishart") != inverted else np.linalg.inv(v)
        V = scale if family == "wishart" else np.linalg.inv(scale)
        for c in (np.eye(d)[0], np.ones(d)):        # c'Wc / c'Vc is chi squared
            u = stats.chi2(df).cdf(np.einsum("i,nij,j->n", c, w, c) / (c @ V @ c))
            self._judge(f"{label}: scale", stats.kstest(u, "uniform").pvalue > 1e-7, f"{u[:4]!r}")
            self._judge(f"{label}: a fresh draw for each sample", len(np.unique(u)) > size / 2, "repeated values")

    def drawn_dirichlet(self, label, v, size, alpha, rows):
        v, alpha = np.asarray(v), np.asarray(alpha, dtype=float)
        self._judge(f"{label}: the requested number of samples", v.shape == (alpha.shape[:-1] + (size, alpha.shape[-1])),
                    f"{v.shape}")
        if v.ndim == 2:
            v, alpha = v[None], alpha[None]
        if size < 1000:
            return
        for x, a in zip(v, alpha):
            self._uniform(label, stats.beta.cdf(x[:, 0], a[0], a[1:].sum()), "concentrations")

    def alone(self, label):
        self.runs["run:" + label][0] = self.runs["run:" + label][0][0]

    def repeated(self, label, kind):
        a, b = self.runs["run:" + label][:2]
        self._judge(f"{label}: the same kind of result", isinstance(a, tuple) == isinstance(b, tuple) and
                    (not isinstance(a, tuple) or len(a) == len(b)), f"{a!r} {b!r}")
        for x, y in zip(a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,)):
            if "seed" in kind:
                self._judge(f"{label}: the same seed gives the same samples", np.array_equal(x, y), f"{x!r} {y!r}")
            elif np.asarray(x).dtype.kind == "f":
                self._judge(f"{label}: another call draws anew", not np.any(np.asarray(x) == np.asarray(y)), f"{x!r} {y!r}")

    def recorded(self, label, cond):
        self.rec[label] = self.rec.get(label, True) and bool(np.all(cond))

    def note(self, s):
        pass


def plain(v, depth=0):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)) and depth < 3:
        return [plain(x, depth + 1) for x in v]
    return repr(v)


def one_trial(c, rng, values=None):
    h = ConcH(rng, values, c.opts)
    state = rng.getrandbits(32)
    np.random.seed(state)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            c.fn(h)
        except Discard:
            if not h.fails:
                return None, h
        except Stop:
            pass
        finally:
            if "matplotlib.pyplot" in sys.modules:
                sys.modules["matplotlib.pyplot"].close("all")
    return h.fails, h


def run_contract(c, trials, seed, budget):
    t0 = time.time()
    acc = dis = 0
    fails = {}
    labels, recorded = {}, {}
    err = None
    k = 0
    while acc < trials and time.time() - t0 < budget and dis < trials * 60 + 500:
        k += 1
        rng = random.Random(f"{seed}/{c.name}/{k}")
        try:
            f, h = one_trial(c, rng)
        except Exception as ex:
            # an error in the contract text itself (for instance an attribute that no longer exists)
            err = "".join(traceback.format_exception(ex))[-2000:]
            break
        if f is None:
            dis += 1
            continue
        acc += 1
        for lab, ok in h.rec.items():
            recorded[lab] = recorded.get(lab, True) and ok
        for lab in h.passed:
            labels[lab] = labels.get(lab, 0) + 1
        for lab, det in f:
            if lab not in fails:
                fails[lab] = dict(detail=str(det)[:1500], trial=k, inputs={n: plain(v) for n, v in h.used.items()})
        if fails and acc >= 15 and time.time() - t0 > 2:
            break
        if getattr(h, "once", False):
            break
    return dict(contract=c.name, trials=acc, discarded=dis, fails=fails, labels=labels, recorded=recorded, error=err, wall=time.time() - t0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--trials", type=int, default=40)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=8)
    ap.add_argument("--out", required=True)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, REPO)
    from engine import registry
    cs = registry.load(a.prop)
    import conjugate
    assert os.path.realpath(conjugate.__file__).startswith(os.path.realpath(REPO)), conjugate.__file__
    out = []
    if a.replay:
        from concurrent.futures import ProcessPoolExecutor
        import multiprocessing as mp
        by = {}
        for r in json.load(open(a.replay)):
            by.setdefault(r["contract"], []).append(r)
        global CS
        CS = {c.name: c for c in cs if c.name in by}
        with ProcessPoolExecutor(int(os.environ.get("VERIF_JOBS", "4")), mp_context=mp.get_context("fork")) as ex:
            for part in [ex.submit(_replays, n, rs, a.seed, a.budget) for n, rs in by.items()]:
                out += part.result()
    else:
        from concurrent.futures import ProcessPoolExecutor
        import multiprocessing as mp
        todo = [c for c in cs if not c.opts.get("sym_only") and (not a.only or a.only in c.name)]
        more = os.environ.get("VERIF_MORE")
        if more:
            todo = [c for c in todo if c.name in json.loads(more)]
        jobs = [(c.name, a.trials) for c in todo] if more else [(c.name, int(c.opts.get("trials", 1) * a.trials) if c.opts.get("trials", 1) != "once" else 1) for c in todo]
        CS = {c.name: c for c in todo}
        with ProcessPoolExecutor(int(os.environ.get("VERIF_JOBS", "4")), mp_context=mp.get_context("fork")) as ex:
            futs = [ex.submit(_job, n, t, a.seed, a.budget, len(jobs) - i) for i, (n, t) in enumerate(jobs)]
            out = [f.result() for f in futs]
    json.dump(out, open(a.out, "w"))


CS = {}


def _replays(name, reqs, seed, budget):
    """executions with the values of a counterexample, or (hint) with values that reach what the verifier left open"""
    c, out, t0 = CS[name], [], time.time()
    if "VERIF_UNTIL" in os.environ:
        budget = min(budget, max(1, float(os.environ["VERIF_UNTIL"]) - t0))
    for r in reqs:
        hit = None
        for k in range(4 if r.get("hint") else 12):
            if time.time() - t0 > budget:
                break
            rng = random.Random(f"replay/{seed}/{k}")
            try:
                f, h = one_trial(c, rng, dict(r["values"]))
            except Exception:
                break
            used = {n: plain(v) for n, v in h.used.items()}
            if f and r.get("hint"):
                hit = dict(labels={l: dict(detail=str(d)[:1500], trial="directed", inputs=used) for l, d in f})
                break
            if f:
                hit = dict(fails=[(l, str(d)[:1500]) for l, d in f], inputs=used)
                if any(l == r["label"] for l, _ in f):
                    break
        out.append(dict(contract=name, label=r["label"], hit=hit, hint=bool(r.get("hint"))))
    return out


def _job(n, t, seed, budget, ahead):
    """this contract's executions, within its share of the time that is left"""
    until = os.environ.get("VERIF_UNTIL")
    if until:
        workers = int(os.environ.get("VERIF_JOBS", "4"))
        budget = min(budget, max(0.3, 3 * (float(until) - time.time()) * workers / ahead), max(0.1, float(until) - time.time()))
    return run_contract(CS[n], t, seed, budget)


if __name__ == "__main__":
    sys.modules.setdefault("engine.conc", sys.modules["__main__"])
    main()
