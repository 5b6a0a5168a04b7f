"""Terms of the verification logic: mathematical reals with named functions, and formulas over them.

A term is an immutable, hash-consed node.  The engine builds terms while it executes the real code of
/repo on symbolic values; obligations are formulas over these terms.  Python floats occurring as
literals in the code are taken as the exact rational they denote.
"""
from fractions import Fraction

_table = {}


class E:
    __slots__ = ("op", "args", "_h")

    def __new__(cls, op, *args):
        key = (op, args)
        e = _table.get(key)
        if e is None:
            e = object.__new__(cls)
            e.op, e.args, e._h = op, args, hash(key)
            _table[key] = e
        return e

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return show(self)


def const(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return E("v", "inf" if x > 0 else "-inf" if x < 0 else "nan")
    return E("c", Fraction(x))


def var(name):
    return E("v", name)


ZERO, ONE, TWO, HALF = const(0), const(1), const(2), const(Fraction(1, 2))
PI = E("v", "pi")
TRUE, FALSE = E("true"), E("false")


def is_c(e):
    return e.op == "c"


def add(*xs):
    out, c = [], Fraction(0)
    for x in xs:
        for y in (x.args if x.op == "add" else (x,)):
            if y.op == "c":
                c += y.args[0]
            else:
                out.append(y)
    if c != 0:
        out.append(const(c))
    if not out:
        return ZERO
    return out[0] if len(out) == 1 else E("add", *out)


def mul(*xs):
    out, c = [], Fraction(1)
    for x in xs:
        for y in (x.args if x.op == "mul" else (x,)):
            if y.op == "c":
                c *= y.args[0]
            else:
                out.append(y)
    if c == 0:
        return ZERO
    if c != 1:
        out.insert(0, const(c))
    if not out:
        return ONE
    return out[0] if len(out) == 1 else E("mul", *out)


def neg(x):
    return mul(const(-1), x)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if b.op == "c" and b.args[0] != 0:
        return mul(const(1 / b.args[0]), a)
    return E("div", a, b)


def power(a, b):
    if b.op == "c":
        k = b.args[0]
        if k == 0:
            return ONE
        if k == 1:
            return a
        if a.op == "c" and k.denominator == 1 and (a.args[0] != 0 or k > 0) and abs(k) < 64:
            return const(a.args[0] ** int(k))
    return E("pow", a, b)


def fn(name, *args):
    return E("f", name, *args)


def sqrt(a):
    return power(a, HALF)


# formulas ---------------------------------------------------------------------------------------
def lt(a, b):
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    return E("lt", a, b)


def le(a, b):
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return TRUE if a is b else E("le", a, b)


def eq(a, b):
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    return TRUE if a is b else E("eq", a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return E("not", a)


def and_(*xs):
    xs = [x for x in xs if x is not TRUE]
    if any(x is FALSE for x in xs):
        return FALSE
    return TRUE if not xs else xs[0] if len(xs) == 1 else E("and", *xs)


def or_(*xs):
    xs = [x for x in xs if x is not FALSE]
    if any(x is TRUE for x in xs):
        return TRUE
    return FALSE if not xs else xs[0] if len(xs) == 1 else E("or", *xs)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return TRUE if a is b else E("iff", a, b)


def isint(a):
    if a.op == "c":
        return TRUE if a.args[0].denominator == 1 else FALSE
    return E("isint", a)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return a if a is b else E("ite", c, a, b)


FORMULA_OPS = {"lt", "le", "eq", "not", "and", "or", "iff", "isint", "true", "false", "bv"}


def is_formula(e):
    return e.op in FORMULA_OPS


def subst(e, mapping, memo=None):
    """Replace variables (by name) in a term."""
    memo = {} if memo is None else memo
    if e in memo:
        return memo[e]
    if e.op == "v":
        r = mapping.get(e.args[0], e)
    elif e.op in ("c", "true", "false", "bv"):
        r = e
    elif e.op == "f":
        r = E("f", e.args[0], *[subst(a, mapping, memo) for a in e.args[1:]])
    else:
        xs = [subst(a, mapping, memo) for a in e.args]
        r = REBUILD.get(e.op, lambda *a: E(e.op, *a))(*xs)
    memo[e] = r
    return r


REBUILD = {"add": add, "mul": mul, "div": div, "pow": power, "lt": lt, "le": le, "eq": eq, "not": not_,
           "and": and_, "or": or_, "ite": ite, "isint": isint, "iff": iff}


def free_vars(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if e in seen:
        return acc
    seen.add(e)
    if e.op == "v":
        acc.add(e.args[0])
    elif e.op not in ("c", "true", "false", "bv"):
        for a in (e.args[1:] if e.op == "f" else e.args):
            free_vars(a, acc, seen)
    return acc


def functions(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if e in seen:
        return acc
    seen.add(e)
    if e.op == "f":
        acc.add(e.args[0])
    if e.op not in ("c", "v", "true", "false", "bv"):
        for a in (e.args[1:] if e.op == "f" else e.args):
            functions(a, acc, seen)
    return acc


def show(e):
    o, a = e.op, e.args
    if o == "c":
        q = a[0]
        return str(q) if q.denominator < 10**6 else repr(float(q))
    if o in ("v", "bv"):
        return str(a[0])
    if o in ("true", "false"):
        return o
    if o == "f":
        return f"{a[0]}({', '.join(show(x) for x in a[1:])})"
    if o == "add":
        return "(" + " + ".join(show(x) for x in a) + ")"
    if o == "mul":
        return "*".join(show(x) for x in a)
    if o == "div":
        return f"({show(a[0])})/({show(a[1])})"
    if o == "pow":
        return f"({show(a[0])})^({show(a[1])})"
    sym = {"lt": "<", "le": "<=", "eq": "==", "and": "and", "or": "or", "iff": "<=>"}
    if o in sym:
        return "(" + f" {sym[o]} ".join(show(x) for x in a) + ")"
    if o == "ite":
        return f"(if {show(a[0])} then {show(a[1])} else {show(a[2])})"
    return f"{o}({', '.join(show(x) for x in a)})"
