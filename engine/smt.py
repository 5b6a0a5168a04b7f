"""Translation of formulas to SMT (z3, and cvc5 through SMT-LIB) with exact real arithmetic.

Transcendental functions are uninterpreted, constrained only by facts instantiated on the terms that occur
(positivity of exp, roots as nonnegative solutions of x^d = a, bounds of floor and ceil, max, absolute value).
"""
import os
import subprocess
import tempfile
import time

import z3

from . import expr as X

STATS = {"z3_queries": 0, "z3_time": 0.0, "cvc5_queries": 0, "cvc5_time": 0.0}
CVC5 = "/usr/bin/cvc5" if os.path.exists("/usr/bin/cvc5") else "cvc5"


class Tr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.fresh = 0
        self.funs = {}

    def new(self, sort="real"):
        self.fresh += 1
        return z3.Real(f"!t{self.fresh}")

    def __call__(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._tr(e)
        return r

    def uf(self, name, args):
        k = (name, len(args))
        f = self.funs.get(k)
        if f is None:
            f = self.funs[k] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return f(*args)

    def _tr(self, e):
        o, a = e.op, e.args
        if o == "c":
            return z3.RealVal(str(a[0]))
        if o == "v":
            v = z3.Real(a[0])
            if a[0] == "pi":
                self.side.append(z3.And(v > z3.RealVal("3.14159265"), v < z3.RealVal("3.14159266")))
            return v
        if o == "bv":
            return z3.Bool(a[0])
        if o == "add":
            return z3.Sum([self(x) for x in a])
        if o == "mul":
            return z3.Product([self(x) for x in a])
        if o == "div":
            n, d = self(a[0]), self(a[1])
            q = self.new()
            self.side.append(z3.Implies(d != 0, q * d == n))
            return q
        if o == "pow":
            if a[1].op == "c":
                k = a[1].args[0]
                b = self(a[0])
                if k.denominator == 1 and 0 < abs(k) <= 8:
                    p = z3.Product([b] * abs(int(k)))
                    if k > 0:
                        return p
                    q = self.new()
                    self.side.append(z3.Implies(b != 0, q * p == 1))
                    return q
                d, n = k.denominator, k.numerator
                if d <= 4 and abs(n) <= 8:
                    # r = b^(1/d), r >= 0
                    r = self.memo.get(("root", a[0], d))
                    if r is None:
                        r = self.new()
                        self.memo[("root", a[0], d)] = r
                        self.side.append(z3.Implies(b >= 0, z3.And(r >= 0, z3.Product([r] * d) == b)))
                    p = z3.Product([r] * abs(n))
                    if n > 0:
                        return p
                    q = self.new()
                    self.side.append(z3.Implies(r != 0, q * p == 1))
                    return q
            b, x = self(a[0]), self(a[1])
            r = self.uf("pow", [b, x])
            self.side.append(z3.Implies(b > 0, r > 0))
            return r
        if o == "f":
            return self.fn(a[0], a[1:])
        if o == "ite":
            return z3.If(self(a[0]), self(a[1]), self(a[2]))
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "not":
            return z3.Not(self(a[0]))
        if o == "and":
            return z3.And([self(x) for x in a])
        if o == "or":
            return z3.Or([self(x) for x in a])
        if o == "iff":
            return self(a[0]) == self(a[1])
        if o == "isint":
            return z3.IsInt(self(a[0]))
        if o in ("lt", "le", "eq"):
            for x in a:
                if x.op == "v" and x.args[0] in ("inf", "-inf"):
                    # infinite bounds: every term is finite
                    l, r = a
                    li = l.args[0] if l.op == "v" else None
                    ri = r.args[0] if r.op == "v" else None
                    if o == "eq":
                        return z3.BoolVal(li == ri)
                    return z3.BoolVal(li == "-inf" or ri == "inf" and li != "inf" or li == ri == "inf" and o == "le")
            l, r = self(a[0]), self(a[1])
            return l < r if o == "lt" else l <= r if o == "le" else l == r
        raise ValueError(o)

    def fn(self, name, args):
        xs = [self(x) for x in args]
        if name == "floor":
            return z3.ToReal(z3.ToInt(xs[0]))
        if name == "ceil":
            return -z3.ToReal(z3.ToInt(-xs[0]))
        r = self.uf(name, xs)
        if name in ("trunc", "round"):
            self.side.append(z3.IsInt(r))
            if name == "round":
                self.side.append(z3.And(r - xs[0] <= 0.5, xs[0] - r <= 0.5))
            else:
                self.side.append(z3.If(xs[0] >= 0, z3.And(r <= xs[0], xs[0] < r + 1), z3.And(r >= xs[0], xs[0] > r - 1)))
        elif name in ("exp", "i0"):
            self.side.append(r > 0)
        elif name == "abs":
            self.side.append(z3.If(xs[0] >= 0, r == xs[0], r == -xs[0]))
        return r


def solve(hyps, goal=None, timeout=10000, want_model=True, use_cvc5=True):
    """Is (and hyps) and not goal satisfiable?  Returns ('unsat'|'sat'|'unknown', model or None, backend)"""
    tr = Tr()
    s = z3.Solver()
    s.set("timeout", timeout)
    fs = [tr(h) for h in hyps]
    if goal is not None:
        fs.append(z3.Not(tr(goal)))
    for f in fs + tr.side:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t
    if r == z3.unsat:
        return "unsat", None, "z3"
    if r == z3.sat:
        return "sat", _model(s.model()), "z3"
    if use_cvc5:
        r2 = cvc5(s.to_smt2(), timeout)
        if r2 == "unsat":
            return "unsat", None, "cvc5"
        if r2 == "sat":
            return "sat", {}, "cvc5"
    return "unknown", None, "z3"


def cvc5(text, timeout):
    t = time.time()
    STATS["cvc5_queries"] += 1
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text)
    try:
        p = subprocess.run([CVC5, f"--tlimit={timeout}", f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split("\n")[0]
    except Exception:
        out = "unknown"
    finally:
        os.unlink(f.name)
        STATS["cvc5_time"] += time.time() - t
    return out if out in ("sat", "unsat") else "unknown"


def _model(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            try:
                if z3.is_bool(v):
                    out[d.name()] = z3.is_true(v)
                elif z3.is_rational_value(v):
                    out[d.name()] = v.as_fraction()
                elif z3.is_algebraic_value(v):
                    out[d.name()] = v.approx(20).as_fraction()
            except Exception:
                pass
    return out
