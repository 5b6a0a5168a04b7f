"""Iteration over sequences of symbolic length.

A comprehension over such a sequence is a map: its body is executed once for the element at a generic position.
A for statement is accepted only when its body carries no variable from one iteration to the next (checked on the
syntax tree by the loader); its body is then executed once, for a generic position, which stands for all.
"""
import itertools
import types

from . import expr as X
from .core import Axis, Num, Unsupported, UNIT, ctx, same_len


class SymSeq:
    """Python sequence of symbolic length: the element at the generic position axis.idx"""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, axis, elem, kind="list", owner="fresh", name=None):
        self.axis, self.elem, self.kind, self.owner, self.name = axis, elem, kind, owner, name

    def __iter__(self):
        raise Unsupported("iteration over a sequence of symbolic length")

    def length(self):
        return Num(self.axis.length, (), "int", dom="count")

    def __add__(self, o):
        if isinstance(o, (SymSeq, list)):
            if isinstance(o, SymSeq) and o.kind == self.kind:
                return Concat([self, o])
            raise Unsupported("list concatenation")
        if isinstance(o, Num):
            if o.axes is None:
                raise Unsupported("list plus a value of unknown shape")
            if o.axes or o._np():
                return as_array(self) + o
        raise TypeError("can only concatenate list to list")

    def __radd__(self, o):
        if isinstance(o, Num):
            if o.axes or o._np():
                return o + as_array(self)
            raise TypeError("unsupported operand type(s) for +: number and list")
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, Num) and (o.axes or o._np()):
            return as_array(self) * o
        raise Unsupported("list repetition")

    def __getitem__(self, k):
        from .index import is_scalar_index, in_range, SymKey, fancy_map, slice_map
        from .core import lift
        if is_scalar_index(k):
            m = in_range(lift(k).e, self.axis)
            if isinstance(self.elem, Num):
                return Num(X.subst(self.elem.e, {self.axis.idx.args[0]: m}), self.elem.axes, self.elem.kind)
        if isinstance(k, SymKey):
            if k.kind == "slice":
                new, m = k.apply(self.axis)
                return SymSeq(new, Num(X.subst(self.elem.e, {self.axis.idx.args[0]: m}), self.elem.axes), self.kind)
            raise TypeError("list indices must be integers or slices, not list")
        if isinstance(k, slice):
            new, m = slice_map(k, self.axis)
            i = self.axis.idx.args[0]
            return SymSeq(new, self.elem if new is self.axis else map_terms(self.elem, lambda e: X.subst(e, {i: m})), self.kind)
        raise Unsupported("list index")

    def __deepcopy__(self, memo):
        return SymSeq(self.axis, self.elem, self.kind)

    def __copy__(self):
        return SymSeq(self.axis, self.elem, self.kind)

    def __getattr__(self, n):
        if n in ("append", "extend", "insert", "pop", "sort", "reverse", "clear", "remove"):
            if self.owner == "input":
                ctx().event("mutates-input", f"{self.name}.{n}")
            raise Unsupported("changing a list of symbolic length")
        if hasattr(list, n) and not n.startswith("__"):
            raise Unsupported(f"{n} of a list of symbolic length")
        raise AttributeError(f"'{self.kind}' object has no attribute '{n}'")

    def __setitem__(self, k, v):
        if self.owner == "input":
            ctx().event("mutates-input", f"{self.name} assigned to")
        if isinstance(k, slice) and k == slice(None) and self.kind == "list":
            o = as_seq(settle(v))
            if o is not None and same_len(o.axis, self.axis) and not ctx().loops:
                self.elem = rename(o.elem, o.axis, self.axis)
                return
        raise Unsupported("changing a list of symbolic length")

    def __iadd__(self, o):
        if self.owner == "input":
            ctx().event("mutates-input", f"{self.name} += ...")
        return self + o

    def __repr__(self):
        return f"SymSeq({self.axis}, {self.elem})"


class Concat:
    """concatenation of two lists of symbolic length"""

    def __init__(self, parts):
        self.parts = parts

    def __iter__(self):
        raise Unsupported("iteration over a concatenation")


def as_array(s):
    if isinstance(s, SymSeq):
        el = unwrap(s).elem
        if isinstance(el, SymSeq):
            el = as_array(el)
        if isinstance(el, Num) and el.axes is not None:
            return Num(el.e, (s.axis,) + tuple(el.axes), "array")
        from .mats import Mat, MatStack
        if isinstance(el, Mat):
            return MatStack(s.axis, el)
    raise Unsupported(f"array of {s!r}")


def as_seq(v):
    """the symbolic sequence a value iterates as, or None when it iterates concretely"""
    from .mats import MatStack
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, list):
        return getattr(v, "sym", None)          # a list filled by a loop over such a sequence
    if isinstance(v, MatStack):
        return SymSeq(v.axis, v.elem_item(), "array")
    if isinstance(v, Num):
        if v.axes is None:
            from .core import kind_in
            c = ctx()
            c.event("iteration", str(v.e))
            if kind_in(v, {"float", "int", "npfloat", "npint", "object"}):
                raise TypeError("number is not iterable")
            raise Unsupported("iteration over a value of unknown shape")
        if v.axes == ():
            raise TypeError("number is not iterable")
        a = v.axes[0]
        if a is UNIT:
            return None
        if a.length.op == "c" and a.length.args[0] <= 8:
            return None
        return SymSeq(a, Num(v.e, tuple(v.axes[1:]), "array" if v.axes[1:] else "npfloat", v.owner, v.name), "array")
    if isinstance(v, Concat):
        raise Unsupported("iteration over a concatenation")
    return None


def unwrap(v):
    """lists that loops over sequences of symbolic length filled, as sequences"""
    if isinstance(v, list) and getattr(v, "sym", None) is not None:
        v = v.sym
    if isinstance(v, SymSeq) and isinstance(v.elem, list):
        return SymSeq(v.axis, unwrap(v.elem), v.kind, v.owner, v.name)
    return v


def concrete_items(v):
    """iterate a value whose length is concrete"""
    if isinstance(v, Num):
        a = v.axes[0]
        n = int(a.length.args[0])
        return [v[k] if a is not UNIT else Num(v.e, tuple(v.axes[1:]), "array" if v.axes[1:] else "npfloat")
                for k in range(n)]
    return v


def symbolic_iter(v):
    s = as_seq(v)
    if s is None:
        return iter(concrete_items(v))
    raise Unsupported("iteration over a sequence of symbolic length")


class LoopScope:
    """The execution of a loop body for the element at a generic position.  Inside, the position exists; what follows
    the loop does not know that (the sequence may be empty), and a case distinction on the generic element is a case
    distinction on one position only: a reduction over the sequence after it is refused (core.bind_reduce)."""

    def __init__(self, axis):
        self.axis = axis

    def __enter__(self):
        c = self.c = ctx()
        c.loops.append(self.axis)
        self.bound = X.and_(X.le(X.ZERO, self.axis.idx), X.lt(self.axis.idx, self.axis.length))
        self.mine = self.bound is not X.TRUE and self.bound not in c.assumed
        if self.mine:
            c.assumed.append(self.bound)
        self.npc = len(c.pc)

    def __exit__(self, *a):
        c, i = self.c, self.axis.idx.args[0]
        c.loops.remove(self.axis)
        c.state.setdefault("finished", []).append(self.axis)
        if self.mine:
            c.assumed.remove(self.bound)
        if a[0] is None:
            new = [f for f in c.pc[self.npc:] if i in X.free_vars(f)]
            if any(f not in c.forced_conds for f in new):
                c.state.setdefault("split", set()).add(i)
            drop = {f for f in new if f in c.forced_conds}
            c.pc[self.npc:] = [f for f in c.pc[self.npc:] if f not in drop]


def consumed(it):
    """it is used up here, by something that knows about sequences of symbolic length"""
    if ctx() is not None and it.gi_frame is not None:
        ctx().state.setdefault("consumed", []).append(it.gi_frame)
    return it


def may_yield(frame):
    """a loop of symbolic length in a generator of the code: is the generator used up by something that knows?"""
    return not frame.f_code.co_flags & 0x20 or frame in ctx().state.get("consumed", ())


def from_generator(it):
    """the items of a generator of the code, as a list, or as a symbolic sequence"""
    c = ctx()
    consumed(it)
    depth, draws, calls = len(c.loops), len(c.draws), len(c.effects)
    out, axis = [], None
    for x in it:
        if len(c.loops) > depth:
            if out or len(c.loops) > depth + 1:
                raise Unsupported("generator over several sequences of symbolic length")
            axis = c.loops[-1]
        elif axis is not None:
            raise Unsupported("generator with items after a symbolic loop")
        out.append(x)
        if len(out) > 1000:
            raise Unsupported("generator of more than 1000 items")
    if len(c.draws) != draws or len(c.effects) != calls:
        raise Unsupported("draws made while a generator is used up")
    return out if axis is None else SymSeq(axis, out[0])


def settle(it):
    return from_generator(it) if isinstance(it, types.GeneratorType) else it


def lc(fn, it):
    c = ctx()
    if isinstance(it, types.GeneratorType):
        depth, out = len(c.loops), []
        for x in consumed(it):
            if len(c.loops) > depth:
                axis = c.loops[-1]
                r = fn([x])
                if out or len(r) != 1 or len(c.loops) > depth + 1 or next(it, it) is not it:
                    raise Unsupported("generator over several sequences of symbolic length")
                return SymSeq(axis, r[0])
            out += fn([x])
        return out
    s = as_seq(it)
    if s is None:
        return fn(concrete_items(it))
    with LoopScope(s.axis):
        r = fn([s.elem])
    if len(r) != 1:
        raise Unsupported("filter over a sequence of symbolic length")
    return SymSeq(s.axis, r[0])


def ge(fn, it):
    if not isinstance(it, types.GeneratorType):
        s = as_seq(it)
        if s is None:
            return fn(concrete_items(it))
    return lc(lambda i: list(fn(i)), it)


def for_(it, carried, frame):
    if isinstance(it, types.GeneratorType):
        depth = len(ctx().loops)
        for x in consumed(it):
            if carried and len(ctx().loops) > depth:
                raise Unsupported(f"loop over a sequence of symbolic length carries {carried}")
            yield x
        return
    s = as_seq(it)
    if s is None:
        yield from concrete_items(it)
        return
    if carried:
        raise Unsupported(f"loop over a sequence of symbolic length carries {carried}")
    if not may_yield(frame):
        raise Unsupported("generator over a sequence of symbolic length")
    with LoopScope(s.axis):
        yield s.elem


def limited(it):
    try:
        it.__length_hint__()
    except TypeError:
        return False
    return True


def zip_(*its, strict=False):
    its = [settle(i) for i in its]
    seqs = [as_seq(i) for i in its]
    if all(s is None for s in seqs):
        return zip(*[concrete_items(i) for i in its], strict=strict)
    ax = next(s.axis for s in seqs if s is not None)
    elems = []
    for s, it in zip(seqs, its):
        if type(it) is itertools.count:
            start, after = next(it), next(it)
            if not (type(start) is int and after == start + 1):
                raise Unsupported("count from or by other than whole numbers")
            elems.append(Num(X.add(ax.idx, X.const(start)), (), "int", dom="int"))
            continue
        if type(it) is itertools.repeat and not limited(it):
            elems.append(next(it))
            continue
        if s is None:
            raise Unsupported("zip of a symbolic and a concrete sequence")
        if not same_len(s.axis, ax):
            raise Unsupported("zip of sequences of different length")
        elems.append(rename(s.elem, s.axis, ax))
    return SymSeq(ax, tuple(elems), "zip")


def rename(v, a, b):
    if a is b:
        return v
    m = {a.idx.args[0]: b.idx}
    return map_terms(v, lambda e: X.subst(e, m))


def map_terms(v, f):
    if isinstance(v, Num):
        return Num(f(v.e), v.axes, v.kind, v.owner, v.name, v.dom)
    if isinstance(v, tuple):
        return tuple(map_terms(x, f) for x in v)
    if isinstance(v, list):
        return [map_terms(x, f) for x in v]
    if isinstance(v, str) and "{" in v:
        from .core import text_parts
        return "".join(x if isinstance(x, str) else str(Num(f(x), ())) for x in text_parts(v))
    if hasattr(v, "map_terms"):
        return v.map_terms(f)
    return v


def enumerate_(it, start=0):
    it = settle(it)
    s = as_seq(it)
    if s is None:
        return enumerate(concrete_items(it), start)
    return SymSeq(s.axis, (Num(X.add(s.axis.idx, X.const(start)), (), "int"), s.elem), "zip")


def range_(*a):
    if any(isinstance(x, Num) for x in a):
        from .core import lift
        lo, hi, st = (X.ZERO, lift(a[0]).e, X.ONE) if len(a) == 1 else \
            (lift(a[0]).e, lift(a[1]).e, X.ONE if len(a) < 3 else lift(a[2]).e)
        if st is not X.ONE:
            raise Unsupported("range with a step")
        if not ctx().decide(X.le(lo, hi), "a range") or ctx().unsat(X.lt(lo, hi)):
            return range(0)
        n = X.sub(hi, lo)
        ax = Axis(f"range({lo},{hi})", n)
        return SymSeq(ax, Num(X.add(lo, ax.idx), (), "int", dom="int"), "range")
    return range(*a)
