"""Loads the current source of /repo/conjugate for symbolic execution.

The text executed is the text of the files.  The mechanical rewriting is: comprehensions and for statements go
through lc/ge/for_ (so that a sequence of symbolic length is handled by its generic element), `[]` becomes a list
that can record an append inside such a loop, a bare `except:` becomes `except Exception:`.  Nothing is dropped except
decorators' effect on names of builtins: the builtins that inspect numbers (isinstance, float, len, ...) are replaced
by versions that understand symbolic values.  numpy, scipy, matplotlib and math are the contract stubs of ext_*.py.
"""
import ast
import builtins
import collections.abc
import importlib
import numbers
import os
import sys
import types
import typing

from . import expr as X
from . import loops
from .core import Cond, Ctx, Num, Unsupported, ctx, kind_in, lift
from .loops import Concat, SymSeq
from .mats import Mat, MatStack, Product

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------------------------------------ rewriting
class Rewrite(ast.NodeTransformer):
    def _comp(self, node, helper, inner):
        self.generic_visit(node)
        g = node.generators[0]
        if g.is_async or any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(node)):
            return node
        if isinstance(node, (ast.SetComp, ast.DictComp)):
            return node
        it = g.iter
        g.iter = ast.Name("__it", ast.Load())
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg("__it")], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), body=node)
        return ast.Call(ast.Name(helper, ast.Load()), [lam, it], [])

    def visit_ListComp(self, node):
        return self._comp(node, "__lc__", None)

    def visit_GeneratorExp(self, node):
        return self._comp(node, "__ge__", None)

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse or any(isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.YieldFrom)) for b in node.body
                              for n in ast.walk(b)) or sum(isinstance(n, ast.Yield) for b in node.body
                                                           for n in ast.walk(b)) > 1:
            carried = ["control flow"]
        else:
            carried = carried_names(node)
        node.iter = ast.Call(ast.Name("__for__", ast.Load()),
                             [node.iter, ast.Constant(", ".join(sorted(carried)))], [])
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name("__newlist__", ast.Load()), [], [])
        return self.display(node, "__list__")

    def visit_Tuple(self, node):
        self.generic_visit(node)
        return self.display(node, "__tuple__")

    def display(self, node, f):
        """[*x] is list(x)"""
        if isinstance(node.ctx, ast.Load) and len(node.elts) == 1 and isinstance(node.elts[0], ast.Starred):
            return ast.Call(ast.Name(f, ast.Load()), [node.elts[0].value], [])
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            node.type = ast.Name("Exception", ast.Load())
        return node


def carried_names(node):
    """names whose value at the start of one iteration can come from the previous one"""
    targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
    stored, carried = set(targets), set()

    def expr(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in later and n.id not in stored:
                carried.add(n.id)

    later = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def stmt(s):
        if isinstance(s, ast.Assign):
            expr(s.value)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    stored.add(t.id)
                elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                    stored.update(x.id for x in t.elts)
                else:
                    carried.add(ast.unparse(t))
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            expr(s.value)
            stored.add(s.target.id)
        elif isinstance(s, ast.AugAssign):
            expr(s.value)
            if not (isinstance(s.target, ast.Name) and s.target.id in stored):
                carried.add(ast.unparse(s.target))
        elif isinstance(s, ast.If):
            expr(s.test)
            before = set(stored)
            for b in s.body:
                stmt(b)
            one = set(stored)
            stored.clear()
            stored.update(before)
            for b in s.orelse:
                stmt(b)
            two = set(stored)
            stored.clear()
            stored.update(one & two)
            if grown(s.body) != grown(s.orelse):
                carried.add("a list that grows in some iterations only")
        elif isinstance(s, ast.For) and not s.orelse:
            expr(s.iter)
            before = set(stored)
            stored.update(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name))
            for b in s.body:
                stmt(b)
            stored.clear()
            stored.update(before)
        elif isinstance(s, ast.With):
            for i in s.items:
                expr(i.context_expr)
                if i.optional_vars is not None:
                    stored.update(n.id for n in ast.walk(i.optional_vars) if isinstance(n, ast.Name))
            for b in s.body:
                stmt(b)
        elif isinstance(s, (ast.Expr, ast.Pass, ast.Assert, ast.Raise)):
            expr(s)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr in MUTATORS:
                carried.add(ast.unparse(s.value.func))
        else:
            carried.add(type(s).__name__)
            expr(s)

    for s in node.body:
        stmt(s)
    return carried


MUTATORS = {"update", "add", "setdefault", "pop", "popitem", "remove", "discard", "appendleft", "extendleft", "insert",
            "clear", "sort", "reverse", "difference_update", "intersection_update"}


def grown(body):
    """what is called .append (or yielded) in a branch, with the number of times"""
    return sorted(["yield" for b in body for n in ast.walk(b) if isinstance(n, ast.Yield)] +
                  [ast.unparse(n.func) for b in body for n in ast.walk(b) if isinstance(n, ast.Call)
                   and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert")])


class TrackedList(list):
    """a list that may receive one append per iteration of a loop over a sequence of symbolic length"""
    __slots__ = ("sym", "depth")

    def __init__(self, *a):
        super().__init__(*a)
        self.sym = None
        self.depth = len(ctx().loops) if ctx() else 0

    def append(self, v):
        c = ctx()
        if c is not None and len(c.loops) > self.depth:
            if len(c.loops) != self.depth + 1 or len(self) or self.sym is not None:
                raise Unsupported("append inside a symbolic loop")
            self.sym = SymSeq(c.loops[-1], v)
            return
        if self.sym is not None:
            raise Unsupported("append after a symbolic loop")
        super().append(v)

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("iteration over a sequence of symbolic length")
        return super().__iter__()

    def extend(self, v):
        if self.sym is not None or ctx() is not None and len(ctx().loops) > self.depth:
            raise Unsupported("extend of a symbolic list")
        super().extend(v)

    def __getitem__(self, k):
        if self.sym is not None:
            return self.sym[k]
        return super().__getitem__(k)

    def __reduce__(self):
        return (list, (list(self),))

    def __deepcopy__(self, memo):
        if self.sym is not None:
            return self.sym
        import copy
        return [copy.deepcopy(x, memo) for x in list.__iter__(self)]


# ------------------------------------------------------------------------------------------------ builtins
def kinds_of_type(t):
    """kinds of Num that are instances of class t (None: not decidable)"""
    from . import ext_numpy as N
    table = {
        float: {"float", "npfloat"}, int: {"int"}, bool: set(), complex: set(), str: set(), list: set(), tuple: set(),
        dict: set(), set: set(), type(None): set(), object: {"float", "int", "npfloat", "npint", "array", "object"},
        N.ndarray: {"array"}, N.floating: {"npfloat"}, N.integer: {"npint"}, N.float64: {"npfloat"},
        N.generic: {"npfloat", "npint"}, N.number: {"npfloat", "npint"}, N.int64: {"npint"},
        numbers.Number: {"float", "int", "npfloat", "npint"}, numbers.Real: {"float", "int", "npfloat", "npint"},
        numbers.Complex: {"float", "int", "npfloat", "npint"},
        numbers.Integral: {"int", "npint"}, numbers.Rational: {"int", "npint"},
        collections.abc.Iterable: {"array"}, collections.abc.Sized: {"array"}, collections.abc.Sequence: set(),
        collections.abc.Collection: {"array"}, collections.abc.Callable: set(), collections.abc.Mapping: set(),
        collections.abc.Hashable: {"float", "int", "npfloat", "npint", "object"}, bytes: set(),
    }
    if t in table:
        return table[t]
    if isinstance(t, type) and getattr(t, "__module__", "").startswith("conjugate"):
        return set()
    return None


SEQ_TYPES = {collections.abc.Iterable, collections.abc.Sized, collections.abc.Collection, object}


def flatten_types(t):
    if isinstance(t, tuple):
        return [y for x in t for y in flatten_types(x)]
    if isinstance(t, types.UnionType) or typing.get_origin(t) is typing.Union:
        return [y for x in typing.get_args(t) for y in flatten_types(x)]
    o = typing.get_origin(t)
    return [o if o is not None and isinstance(t, typing._GenericAlias) else t]


def isinstance_(v, t):
    from . import ext_numpy as N
    ts = flatten_types(t)
    if isinstance(v, (Num, Cond)):
        ks = set()
        for x in ts:
            k = kinds_of_type(x)
            if k is None:
                raise Unsupported(f"type test against {x!r}")
            ks |= k
        return kind_in(v, ks)
    if isinstance(v, (Mat, MatStack)):
        return any(x in (N.ndarray, object) or x in SEQ_TYPES for x in ts)
    if isinstance(v, (SymSeq, Concat)) or isinstance(v, TrackedList) and v.sym is not None:
        kind = getattr(v, "kind", "list")
        base = {"list": list, "tuple": tuple, "array": N.ndarray}.get(kind)
        if kind == "generator":
            return any(x in (collections.abc.Iterable, collections.abc.Iterator, collections.abc.Generator, object) for x in ts)
        return any(x is base or x in SEQ_TYPES or (x is collections.abc.Sequence and base is not N.ndarray)
                   for x in ts)
    real = []
    for x in ts:
        m = N.REAL_TYPES.get(x)
        real.append(m if m is not None else x)
    return builtins.isinstance(v, tuple(real))


def type_(*a):
    if len(a) != 1:
        return type(*a)
    v = a[0]
    from . import ext_numpy as N
    if isinstance(v, (Num, Cond)):
        for k, t in (("float", float), ("int", int), ("npfloat", N.float64), ("npint", N.int64), ("array", N.ndarray)):
            if kind_in(v, {k}):
                return t
        return type("OtherNumber", (), {})
    if isinstance(v, (Mat, MatStack)):
        return N.ndarray
    if isinstance(v, SymSeq):
        return {"tuple": tuple, "array": N.ndarray}.get(v.kind, list)
    if isinstance(v, TrackedList):
        return list
    return type(v)


SYMS = (Num, Cond, Mat, MatStack, Product, SymSeq, Concat)


def is_sym(v):
    return isinstance(v, SYMS) or isinstance(v, TrackedList) and v.sym is not None


def float_(v=0.0):
    if isinstance(v, Cond):
        v = v.as_num()
    return v.to_float() if isinstance(v, Num) else builtins.float(v)


def int_(v=0, *a):
    if isinstance(v, Cond):
        v = v.as_num()
    return v.to_int() if isinstance(v, Num) else builtins.int(v, *a)


def bool_(v=False):
    return builtins.bool(v)


def len_(v):
    if isinstance(v, TrackedList) and v.sym is not None:
        return v.sym.length()
    if isinstance(v, (Num, Mat, MatStack, SymSeq)):
        if isinstance(v, Num) and v.axes is None:
            ctx().event("shape", "len")
            if kind_in(v, {"float", "int", "npfloat", "npint", "object"}):
                raise TypeError("object has no len()")
            raise Unsupported("len of a value of unknown shape")
        if isinstance(v, SymSeq) and v.kind == "generator":
            raise TypeError("object of type 'generator' has no len()")
        return v.length()
    return builtins.len(v)


def sum_(it, start=0):
    it = loops.settle(it)
    s = loops.as_seq(it) if not isinstance(it, TrackedList) else it.sym
    if s is not None:
        el = s.elem
        if isinstance(el, Num) and el.axes is not None:
            from .core import bind_reduce
            return Num(bind_reduce("sum", el.e, s.axis), el.axes, el.kind) + start
        raise Unsupported("sum over a sequence of symbolic length")
    return builtins.sum(loops.concrete_items(it), start)


def minmax(name):
    cmp_ = {"max": lambda a, b: a >= b, "min": lambda a, b: a <= b}[name]

    def f(*a, key=None, default=None):
        if len(a) == 1:
            it = loops.settle(a[0])
            s = loops.as_seq(it) if not isinstance(it, TrackedList) else it.sym
            if s is not None:
                el = s.elem
                if isinstance(el, Num) and el.axes == () and key is None:
                    from .core import bind_reduce
                    return Num(bind_reduce(name, el.e, s.axis), (), el.kind)
                raise Unsupported(f"{name} over a sequence of symbolic length")
            a = list(loops.concrete_items(it))
        if key is None and any(isinstance(x, (Num, Cond)) for x in a):
            r = a[0]
            for x in a[1:]:
                r = r if (cmp_(r, x)) else x
            return r
        return getattr(builtins, name)(a, **({"key": key} if key else {}))
    return f


def round_(v, n=None):
    return v.__round__(n) if isinstance(v, Num) else builtins.round(v, n)


def abs_(v):
    return builtins.abs(v)


def hasattr_(o, n):
    if isinstance(o, (Num, Cond)):
        special = {"__len__": {"array"}, "__iter__": {"array"}, "shape": {"array", "npfloat", "npint"},
                   "ndim": {"array", "npfloat", "npint"}, "dtype": {"array", "npfloat", "npint"},
                   "__getitem__": {"array"}, "size": {"array", "npfloat", "npint"}, "sum": {"array", "npfloat", "npint"},
                   "max": {"array", "npfloat", "npint"}, "min": {"array", "npfloat", "npint"},
                   "tolist": {"array", "npfloat", "npint"}, "item": {"array", "npfloat", "npint"},
                   "T": {"array", "npfloat", "npint"}, "copy": {"array", "npfloat", "npint"}}
        if n in special:
            return kind_in(o, special[n])
        raise Unsupported(f"hasattr {n}")
    return builtins.hasattr(o, n)


def lazily(it, name):
    """the items one by one, refusing a sequence of symbolic length"""
    if not isinstance(it, types.GeneratorType):
        if not isinstance(it, TrackedList) and loops.as_seq(it) is not None:
            raise Unsupported(f"{name} over a sequence of symbolic length")
        yield from it
        return
    depth = len(ctx().loops) if ctx() else 0
    for x in loops.consumed(it):
        if ctx() and len(ctx().loops) > depth:
            raise Unsupported(f"{name} over a sequence of symbolic length")
        yield x


def all_(it):
    return builtins.all(lazily(it, "all"))


def any_(it):
    return builtins.any(lazily(it, "any"))


def list_(it=()):
    it = loops.settle(it)
    s = loops.as_seq(it) if not isinstance(it, TrackedList) else it.sym
    if s is not None:
        return SymSeq(s.axis, s.elem, "list")
    return builtins.list(loops.concrete_items(it))


def tuple_(it=()):
    it = loops.settle(it)
    s = loops.as_seq(it) if not isinstance(it, TrackedList) else it.sym
    if s is not None:
        return SymSeq(s.axis, s.elem, "tuple")
    return builtins.tuple(loops.concrete_items(it))


def map_(f, *its):
    its = [loops.settle(i) for i in its]
    its = [i.sym if isinstance(i, TrackedList) and i.sym is not None else i for i in its]
    if builtins.any(loops.as_seq(i) is not None for i in its):
        z = loops.zip_(*its)
        with loops.LoopScope(z.axis):
            return SymSeq(z.axis, f(*z.elem), "generator")
    return builtins.map(f, *its)


def callable_(v):
    if isinstance(v, SYMS):
        return False
    return builtins.callable(v)


def for_(it, carried):
    if isinstance(it, TrackedList) and it.sym is not None:
        it = it.sym
    return loops.for_(it, carried, sys._getframe(1))


def lc(f, it):
    if isinstance(it, TrackedList) and it.sym is not None:
        it = it.sym
    return loops.lc(f, it)


def ge(f, it):
    if isinstance(it, TrackedList) and it.sym is not None:
        it = it.sym
    return loops.ge(f, it)


class TypeProxyMeta(type):
    pass


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update(isinstance=isinstance_, len=len_, sum=sum_, max=minmax("max"), min=minmax("min"),
             round=round_, abs=abs_, hasattr=hasattr_, all=all_, any=any_, map=map_, zip=loops.zip_,
             enumerate=loops.enumerate_, range=loops.range_, callable=callable_, __import__=importer,
             __lc__=lc, __ge__=ge, __for__=for_, __newlist__=TrackedList)
    # float, int, list, tuple, type stay classes in annotations and isinstance: only calls are redirected
    return d


class Calls(ast.NodeTransformer):
    """calls of builtin type names are redirected; the names themselves keep denoting the classes"""
    MAP = {"float": "__float__", "int": "__int__", "list": "__list__", "tuple": "__tuple__", "type": "__type__"}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.MAP:
            node.func = ast.Name(self.MAP[node.func.id], ast.Load())
        return node


# ------------------------------------------------------------------------------------------------ the package
CODE = {}


def compiled(path):
    if path not in CODE:
        src = open(path).read()
        t = ast.fix_missing_locations(Calls().visit(Rewrite().visit(ast.parse(src, path))))
        CODE[path] = src, compile(t, path, "exec")
    return CODE[path]


class Package:
    """one fresh symbolic copy of /repo/conjugate"""

    def __init__(self, overlay=None):
        from . import ext_mpl, ext_numpy, ext_scipy, ext_misc
        self.mods = {}
        self.sources = {}
        self.stubs = {"numpy": ext_numpy.NP, "scipy": ext_scipy.SCIPY, "matplotlib": ext_mpl.MPL,
                      "math": ext_misc.MATH, "packaging": ext_misc.PACKAGING, "itertools": ext_misc.ITERTOOLS,
                      "functools": None, "copy": None}
        self.builtins = make_builtins(self.importer)
        self.builtins.update(__float__=float_, __int__=int_, __list__=list_, __tuple__=tuple_, __type__=type_)
        for m in list(sys.modules):
            if m == "conjugate" or m.startswith("conjugate."):
                del sys.modules[m]

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        path = os.path.join(base, "__init__.py") if os.path.isdir(base) else base + ".py"
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        src, code = compiled(path)
        self.sources[path] = src
        m = types.ModuleType(name)
        m.__file__ = path
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        sys.modules[name] = m
        if "." in name:
            par = self.get(name.rpartition(".")[0])
            setattr(par, rel[-1], m)
        exec(code, m.__dict__)
        return m

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        top = name.split(".")[0]
        if top == "conjugate":
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.get(f"{name}.{f}")
                        except ModuleNotFoundError:
                            pass
                return m
            return self.get("conjugate")
        if self.stubs.get(top) is not None:
            m = self.stubs[top]
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    D = property(lambda self: self.get("conjugate.distributions"))
    M = property(lambda self: self.get("conjugate.models"))
    P = property(lambda self: self.get("conjugate.plot"))
