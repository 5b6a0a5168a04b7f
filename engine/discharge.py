"""Discharging obligations: case splits on conditionals, canonical forms for equations, z3 and cvc5 for the rest, and a
numeric search for a counterexample that satisfies every hypothesis."""
import random
import time
from fractions import Fraction

import mpmath as mp

from . import expr as X
from . import smt
from .canon import Canon, CanonError, Atom, Poly
from .mats import PSD_SCALARS, WORDS, TRACES, LOGDETS
from .numeric import Evaluator, Undefined

MAX_SPLITS = 64
BUDGET = {"z3": 8000, "samples": 400}
COUNTS = {"ring": 0, "z3": 0, "cvc5": 0, "numeric": 0, "syntactic": 0}


def positives(hyps):
    pos, nonneg = {"pi"}, set()
    for h in hyps:
        if h.op == "lt" and h.args[0].op == "c" and h.args[0].args[0] >= 0:
            v = h.args[1]
            if v.op == "v":
                pos.add(v.args[0])
            elif v.op == "f":
                pos.add("f:" + v.args[0])
        if h.op == "le" and h.args[0].op == "c":
            v, c = h.args[1], h.args[0].args[0]
            if v.op == "v":
                (pos if c > 0 else nonneg if c == 0 else set()).add(v.args[0])
        if h.op == "and":
            p, n = positives(h.args)
            pos |= p
            nonneg |= n
    return pos, nonneg


def find_ite(e, seen=None):
    seen = set() if seen is None else seen
    if e in seen or e.op in ("c", "v", "bv", "true", "false"):
        return None
    seen.add(e)
    for a in (e.args[1:] if e.op == "f" else e.args):
        r = find_ite(a, seen)
        if r is not None:
            return r
    return e if e.op == "ite" else None


def replace_ite(e, cond, val, memo=None):
    memo = {} if memo is None else memo
    if e in memo:
        return memo[e]
    if e.op in ("c", "v", "bv", "true", "false"):
        return e
    if e.op == "ite" and e.args[0] is cond:
        r = replace_ite(e.args[1] if val else e.args[2], cond, val, memo)
    elif e.op == "f":
        r = X.E("f", e.args[0], *[replace_ite(a, cond, val, memo) for a in e.args[1:]])
    else:
        xs = [replace_ite(a, cond, val, memo) for a in e.args]
        r = X.REBUILD.get(e.op, lambda *a: X.E(e.op, *a))(*xs)
    memo[e] = r
    return r


def facts(fs):
    """axioms about the special scalars that occur"""
    vs = set()
    for f in fs:
        X.free_vars(f, vs)
    return [X.le(X.ZERO, X.var(v)) for v in vs if v in PSD_SCALARS]


class Result:
    def __init__(self, status, backend="", env=None, why="", soft=False):
        self.status, self.backend, self.env, self.why, self.soft = status, backend, env, why, soft


def array_facts(fs, inputs):
    """the declared domain of every entry of an input array that is mentioned"""
    seen, out = set(), []

    def walk(e):
        if not isinstance(e, X.E) or e in seen:
            return
        seen.add(e)
        if e.op == "f" and e.args[0].startswith("arr:"):
            dom = inputs.get(e.args[0][4:], {}).get("dom")
            if dom == "pos":
                out.append(X.lt(X.ZERO, e))
            elif dom == "prob":
                out.extend([X.lt(X.ZERO, e), X.lt(e, X.ONE)])
            elif dom in ("count", "nonneg"):
                out.append(X.le(X.ZERO, e))
                if dom == "count":
                    out.append(X.isint(e))
        if e.op == "f" and e.args[0] in ("max_over", "min_over") and e.args[1].op == "f" and e.args[1].args[0].startswith("arr:"):
            dom = inputs.get(e.args[1].args[0][4:], {}).get("dom")
            if dom in ("pos", "prob"):
                out.append(X.implies(X.le(X.ONE, e.args[2]), X.lt(X.ZERO, e)))
            if dom in ("count", "int"):
                out.append(X.implies(X.le(X.ONE, e.args[2]), X.isint(e)))
            if dom in ("count", "nonneg"):
                out.append(X.implies(X.le(X.ONE, e.args[2]), X.le(X.ZERO, e)))
        if e.op == "f" and e.args[0] == "sum_over" and e.args[1].op == "f" and e.args[1].args[0].startswith("arr:") \
                and inputs.get(e.args[1].args[0][4:], {}).get("dom") in ("pos", "prob"):
            out.append(X.implies(X.le(X.ONE, e.args[2]), X.lt(X.ZERO, e)))
        for a in e.args:
            walk(a)
    for f in fs:
        walk(f)
    return out


def prove(hyps, goal, inputs, rng, depth=0, quick=False):
    if depth == 0 and goal is not X.TRUE:
        extra = array_facts(list(hyps) + [goal], inputs)
        hyps = list(hyps) + [f for f in extra if f not in hyps]
    if goal is X.TRUE:
        return Result("proved", "syntactic")
    if goal in hyps:
        return Result("proved", "syntactic")
    if goal.op == "and":
        bks = set()
        for g in goal.args:
            r = prove(hyps, g, inputs, rng, depth, quick)
            if r.status != "proved":
                return r
            bks.update(r.backend.split("+"))
        return Result("proved", "+".join(sorted(b for b in bks if b)))
    if goal.op == "or" and any(g.op == "not" for g in goal.args):
        # implication
        prem = [g.args[0] for g in goal.args if g.op == "not"]
        rest = [g for g in goal.args if g.op != "not"]
        if rest:
            r = prove(hyps + prem, X.or_(*rest), inputs, rng, depth, quick)
            if r.status == "proved":
                return r
    it = find_ite(goal)
    if it is None:
        for k, h in enumerate(hyps):
            it = find_ite(h)
            if it is not None:
                break
    if it is not None:
        if depth > MAX_SPLITS:
            return Result("unknown", why="too many case splits")
        c = it.args[0]
        bks = set()
        for val in (True, False):
            lit = c if val else X.not_(c)
            hs = [replace_ite(h, c, val) for h in hyps]
            if lit is X.FALSE or any(h is X.FALSE for h in hs):
                continue
            hs2 = hs + [lit]
            if X.not_(lit) in hs or smt.solve(hs2 + facts(hs2), None, 2000, use_cvc5=False)[0] == "unsat":
                bks.add("z3")
                continue
            r = prove(hs2, replace_ite(goal, c, val), inputs, rng, depth + 1, quick)
            if r.status != "proved":
                return r
            bks.update(r.backend.split("+"))
        return Result("proved", "+".join(sorted(b for b in bks if b)) or "z3")
    pos, nonneg = positives(hyps)
    cn = Canon(pos, nonneg)
    if goal is X.FALSE:
        r = smt.solve(hyps + facts(hyps), None, BUDGET["z3"], use_cvc5=False)
        if r[0] == "unsat":
            return Result("proved", "z3")
        env = search(hyps, goal, inputs, rng)
        if env is not None:
            return Result("refuted", "numeric", env, "reached")
        return Result("refuted" if r[0] == "sat" else "unknown", "z3", None, "reached", soft=r[0] != "sat")
    if goal.op == "eq":
        r = prove_eq(cn, hyps, goal, inputs, rng)
        if r is not None:
            return r
    if goal.op in ("lt", "le"):
        try:
            d = cn.rf(X.sub(goal.args[1], goal.args[0]))
            if d.is_const():
                ok = d.cval() > 0 or (goal.op == "le" and d.cval() == 0)
                if ok:
                    return Result("proved", "ring")
            elif cn.poly_pos(d.n) and cn.poly_pos(d.d):
                return Result("proved", "ring")
        except CanonError:
            pass
    hs = hyps + facts(hyps + [goal])
    if smt.solve(hs, goal, 800, use_cvc5=False)[0] == "unsat":
        return Result("proved", "z3")
    env = search(hyps, goal, inputs, rng)
    if env is not None:
        return Result("refuted", "numeric", env, soft=is_soft([goal]))
    st, model, bk = smt.solve(hs, goal, BUDGET["z3"], use_cvc5=False)
    if st == "unsat":
        return Result("proved", bk)
    if goal.op in ("lt", "le"):
        try:
            d = cn.rf(X.sub(goal.args[1], goal.args[0]))
            side = []
            n, dd = poly_e(cn, d.n, side), poly_e(cn, d.d, side)
            hs2 = hs + side
            for sgn in (1, -1):
                g = X.and_(X.lt(X.ZERO, X.mul(X.const(sgn), dd)),
                           X.E(goal.op, X.ZERO, X.mul(X.const(sgn), n)))
                st2, _, bk2 = smt.solve(hs2, g, BUDGET["z3"], use_cvc5=True)
                if st2 == "unsat":
                    return Result("proved", bk2)
        except CanonError:
            pass
    if st == "unknown":
        st, model, bk = smt.solve(hs, goal, BUDGET["z3"], use_cvc5=True)
        if st == "unsat":
            return Result("proved", bk)
    if st == "sat" and model:
        env = dict(model)
        ok = confirm(hyps, goal, env, inputs)
        if ok:
            return Result("refuted", bk, env, soft=is_soft([goal]))
    return Result("unknown", bk, why=f"{bk}: {st}")


def poly_e(cn, p, side):
    out = X.ZERO
    for m, c in p.t.items():
        t = X.const(c)
        for a, k in m:
            t = X.mul(t, X.power(atom_e(cn, a, side), X.const(k)))
        out = X.add(out, t)
    return out


def atom_e(cn, i, side):
    at = Atom.order[i]
    if at.kind == "v":
        return X.var(at.key)
    v = X.var(f"atom#{i}")
    if at.kind == "root":
        d, f = at.info
        fe = poly_e(cn, f, side)
        side.append(X.le(X.ZERO, v))
        side.append(X.implies(X.le(X.ZERO, fe), X.eq(X.power(v, X.const(d)), fe)))
    elif cn.atom_pos(i):
        side.append(X.lt(X.ZERO, v))
    return v


def roundings(hyps, *es):
    """rounding operations whose value z3 derives from the hypotheses (the integer itself, or one of the declared integers
    and a constant) are replaced by that value"""
    found = {}

    def walk(e, seen):
        if isinstance(e, X.E) and e not in seen:
            seen.add(e)
            for x in e.args:
                walk(x, seen)
            if e.op == "f" and e.args[0] in ("floor", "ceil", "trunc", "round") and e not in found:
                found[e] = None
    seen = set()
    for e in es:
        walk(e, seen)
    if not found or len(found) > 8:
        return (*es, False)
    ints = [h.args[0] for h in hyps if h.op == "isint"]
    for t in found:
        for c in [t.args[1]] + [X.add(v, X.const(k)) for v in ints[:4] for k in (0, -1, 1)]:
            if smt.solve(hyps, X.eq(t, c), 500, use_cvc5=False)[0] == "unsat":
                found[t] = c
                break
    if not any(c is not None for c in found.values()):
        return (*es, False)
    memo = {}

    def rebuild(e):
        if not isinstance(e, X.E):
            return e
        if e not in memo:
            if found.get(e) is not None:
                memo[e] = rebuild(found[e]) if found[e] is not e else e
            elif e.op in ("c", "v", "bv", "true", "false"):
                memo[e] = e
            elif e.op == "f":
                memo[e] = X.E("f", e.args[0], *[rebuild(x) for x in e.args[1:]])
            else:
                memo[e] = X.REBUILD.get(e.op, lambda *q: X.E(e.op, *q))(*[rebuild(x) for x in e.args])
        return memo[e]
    return (*[rebuild(e) for e in es], True)


def prove_eq(cn, hyps, goal, inputs, rng):
    a, b = goal.args
    # equations between variables among the hypotheses are used as rewrite rules
    sub = {}
    for h in hyps:
        if h.op == "eq":
            l, r = h.args
            if l.op == "v" and l.args[0] not in X.free_vars(r):
                sub.setdefault(l.args[0], r)
            elif r.op == "v" and r.args[0] not in X.free_vars(l):
                sub.setdefault(r.args[0], l)
    if sub:
        for _ in range(3):
            a, b = X.subst(a, sub), X.subst(b, sub)
    a, b, used = roundings(hyps, a, b)
    why = ""
    try:
        if cn.equal(a, b):
            return Result("proved", "ring+z3" if used else "ring")
        fixed = {}
        for h in hyps:              # an integer that the hypotheses leave one value
            v = h.args[0] if h.op == "isint" else None
            if v is not None and v.op == "v" and v.args[0] in X.free_vars(a) | X.free_vars(b) and len(fixed) < 3:
                for k in (0, 1):
                    if smt.solve(hyps, X.eq(v, X.const(k)), 500, use_cvc5=False)[0] == "unsat":
                        fixed[v.args[0]] = X.const(k)
                        break
        if fixed and cn.equal(X.subst(a, fixed), X.subst(b, fixed)):
            return Result("proved", "ring+z3")
        # an even root cannot see the sign: compare squares when both are nonnegative
    except CanonError as ex:
        why = str(ex)
    env = search(hyps, goal, inputs, rng)
    if env is not None:
        return Result("refuted", "numeric", env, soft=is_soft([goal]))
    hs = hyps + facts(hyps + [goal])
    st, model, bk = smt.solve(hs, goal, BUDGET["z3"], use_cvc5=False)
    if st == "unsat":
        return Result("proved", bk)
    try:
        d = cn.rf(X.sub(a, b))
        side = []
        n = poly_e(cn, d.n, side)
        st, _, bk = smt.solve(hs + side, X.eq(n, X.ZERO), BUDGET["z3"], use_cvc5=True)
        if st == "unsat":
            return Result("proved", bk)
    except CanonError:
        pass
    return Result("unknown", "ring", why=why or f"canonical forms differ, no numeric witness; {bk}: {st}")


def is_soft(fs):
    vs = set()
    fn = set()
    for f in fs:
        X.free_vars(f, vs)
        X.functions(f, fn)
    return any(v in WORDS or v in TRACES or v in LOGDETS for v in vs)


# ------------------------------------------------------------------------------------------------ numbers
NICE = [0, 1, 2, 3, 5, 7]


def sample_input(name, spec, rng, env):
    dom = spec["dom"]
    r = rng.random()
    if dom == "real":
        return mp.mpf(rng.choice([0, 1, -1, 2, -3])) if r < 0.25 else mp.mpf(round(rng.uniform(-6, 6), 3))
    if dom == "pos":
        lo, hi = spec.get("lo") or 0.05, spec.get("hi") or 6
        return mp.mpf(rng.choice([1, 2, 3, 5])) if r < 0.2 else mp.mpf(round(rng.uniform(lo, hi), 3))
    if dom == "nonneg":
        return mp.mpf(rng.choice([0, 1, 2])) if r < 0.3 else mp.mpf(round(rng.uniform(0, 6), 3))
    if dom == "prob":
        return mp.mpf(round(rng.uniform(0.02, 0.98), 3))
    if dom in ("count", "dim"):
        lo = spec.get("lo") or 0
        hi = spec.get("hi")
        if r < 0.3:
            return mp.mpf(lo)
        return mp.mpf(rng.randint(lo, hi if hi is not None else lo + rng.choice([3, 8, 20])))
    if dom == "int":
        return mp.mpf(rng.randint(-4, 6))
    return None


def sample_env(vars_, inputs, rng):
    env = {}
    for n, s in inputs.items():
        v = sample_input(n, s, rng, env)
        if v is not None:
            env[n] = v
    for n, s in inputs.items():
        if "moments" in s:
            b, ne = s["moments"]
            try:
                nn = Evaluator(env)(ne)
            except Undefined:
                continue
            if nn <= 0:
                env[n] = env[b] = mp.mpf(0)
            else:
                slack = mp.mpf(0) if rng.random() < 0.2 else mp.mpf(round(rng.uniform(0, 5), 3))
                env[b] = env[n] ** 2 / nn + slack
    for v in vars_:
        if v in env or v in ("pi", "inf", "-inf"):
            continue
        if v in PSD_SCALARS:
            env[v] = mp.mpf(round(rng.uniform(0, 4), 3))
        elif v.startswith("i#") or v.startswith("b#"):
            env[v] = mp.mpf(rng.randint(0, 2))
        else:
            env[v] = mp.mpf(round(rng.uniform(-3, 3), 3))
    return env


class ArrFuncs(dict):
    """array inputs as pseudo-random functions within their domain"""

    def __init__(self, inputs):
        super().__init__()
        from .numeric import _pseudo
        for n, s in inputs.items():
            if s.get("array"):
                dom = s["dom"]
                lo, hi = {"pos": (0.2, 4), "prob": (0.05, 0.95), "real": (-4, 4)}.get(dom, (0.2, 4))
                f = lambda *a, n=n, lo=lo, hi=hi: _pseudo("arr:" + n, a, lo, hi)  # noqa: E731
                if dom == "count":
                    f = lambda *a, n=n: mp.floor(_pseudo("arr:" + n, a, 0, 9))  # noqa: E731
                self["arr:" + n] = f


def approx_false(ev, goal):
    """goal clearly false at the point (equations with a tolerance that forgives decimal literals)"""
    if goal.op == "eq":
        x, y = ev(goal.args[0]), ev(goal.args[1])
        if not (mp.isfinite(x) and mp.isfinite(y)):
            raise Undefined("infinite")
        return abs(x - y) > mp.mpf(10) ** -9 * (1 + abs(x) + abs(y))
    if goal.op == "le":
        x, y = ev(goal.args[0]), ev(goal.args[1])
        return x > y + mp.mpf(10) ** -12 * (1 + abs(x) + abs(y))
    if goal.op == "lt":
        x, y = ev(goal.args[0]), ev(goal.args[1])
        return x >= y - (mp.mpf(10) ** -18 * (1 + abs(x) + abs(y)))
    return not ev(goal)


def size(e, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(e, X.E) or e in seen:
        return 0
    seen.add(e)
    return (1 if e.op != "f" else 20 if e.args[0] in ("lgamma", "betainc", "i0") else 3) + sum(size(a, seen) for a in e.args)


def search(hyps, goal, inputs, rng, n=None):
    COUNTS["numeric"] += 1
    vs = set()
    for f in hyps + [goal]:
        X.free_vars(f, vs)
    funcs = ArrFuncs(inputs)
    hyps = sorted(hyps, key=size)
    good = tries = 0
    limit = n or BUDGET["samples"]
    t0 = time.time()
    while tries < limit * 12 and good < limit and time.time() - t0 < 6:
        tries += 1
        if tries in (60, 240) and good < tries / 40:
            # hardly any sample takes this path: samples repaired to satisfy what guards it
            for env in directed(hyps, inputs, rng, 8 if tries == 60 else 16):
                good += 1
                try:
                    if approx_false(Evaluator(env, funcs), goal):
                        return env
                except Undefined:
                    pass
        env = sample_env(vs, inputs, rng)
        ev = Evaluator(env, funcs)
        try:
            if not all(ev(h) for h in hyps):
                continue
            good += 1
            if approx_false(ev, goal):
                return env
        except Undefined:
            continue
        if good >= 60 and goal.op == "eq":
            break
    return None


def directed(hyps, inputs, rng, n, limit=4.0):
    """points that satisfy every hypothesis: the inputs that the rarely satisfied ones mention are solved for by z3, each kept
    as near to a sampled value as those hypotheses allow, and the rest is sampled"""
    vs = set()
    for f in hyps:
        X.free_vars(f, vs)
    vs -= {"pi", "inf", "-inf"}
    funcs = ArrFuncs(inputs)
    t0 = time.time()

    def holds(f, env):
        try:
            return bool(Evaluator(env, funcs)(f))
        except Undefined:
            return False
    fails = {}
    for _ in range(20):
        env = sample_env(vs, inputs, rng)
        for f in hyps:
            if not holds(f, env):
                fails[f] = fails.get(f, 0) + 1
    guard = [f for f in hyps if fails.get(f, 0) >= 10 and f.op != "isint"]
    gv = set()
    for f in guard:
        X.free_vars(f, gv)
    gv -= {"pi", "inf", "-inf"}
    near = [f for f in hyps if f not in guard and X.free_vars(f, set()) and X.free_vars(f, set()) <= gv]
    core = guard + near
    out = []
    for k in range(n * 3):
        if len(out) >= n or time.time() - t0 > limit:
            break
        env = sample_env(vs, inputs, rng)
        if guard:
            cons = list(core)
            order = sorted(v for v in gv if v in env)
            rng.shuffle(order)
            st, model, _ = smt.solve(cons, None, 600, use_cvc5=False)
            if st != "sat":
                return out
            for v in order[:6]:
                x = X.const(Fraction(str(mp.nstr(env[v], 12))) if mp.isfinite(env[v]) else 0)
                for c in (X.eq(X.var(v), x), X.and_(X.le(X.sub(X.var(v), x), X.const(8)), X.le(X.sub(x, X.var(v)), X.const(8)))):
                    s2, m2, _ = smt.solve(cons + [c], None, 300, use_cvc5=False)
                    if s2 == "sat":
                        cons.append(c)
                        model = m2
                        break
            for v in gv:
                q = (model or {}).get(v)
                if q is not None and hasattr(q, "numerator") and v in env:
                    env[v] = mp.mpf(q.numerator) / q.denominator
        if all(holds(f, env) for f in hyps):
            out.append(env)
    return out


def confirm(hyps, goal, env, inputs):
    vs = set()
    for f in hyps + [goal]:
        X.free_vars(f, vs)
    env = {k: mp.mpf(v.numerator) / v.denominator if hasattr(v, "numerator") else v for k, v in env.items()}
    for v in vs:
        env.setdefault(v, mp.mpf(1))
    env.pop("pi", None)
    ev = Evaluator(env, ArrFuncs(inputs))
    try:
        return all(ev(h) for h in hyps) and approx_false(ev, goal)
    except Undefined:
        return False


def satisfiable(hyps, inputs, rng):
    """cover: the hypotheses have a model"""
    if not hyps:
        return True
    vs = set()
    for f in hyps:
        X.free_vars(f, vs)
    funcs = ArrFuncs(inputs)
    hyps = sorted(hyps, key=size)
    t0 = time.time()
    for _ in range(3000):
        if time.time() - t0 > 10:
            break
        env = sample_env(vs, inputs, rng)
        ev = Evaluator(env, funcs)
        try:
            if all(ev(h) for h in hyps):
                return True
        except Undefined:
            pass
    return smt.solve(hyps, None, 8000)[0] == "sat"
