"""What the package and the process remember between calls: a fingerprint of everything reachable from the modules of
the package, and of the process-wide settings of the libraries.  Used by both interpretations of a contract."""
import functools
import itertools
import os
import random
import sys
import types
import warnings

SKIP = {"__builtins__", "__warningregistry__", "__doc__", "__file__", "__cached__", "__loader__", "__spec__",
        "_abc_impl", "__annotations__", "__weakref__", "__abstractmethods__", "__dataclass_params__"}
LRU = type(functools.lru_cache(lambda: 0))


class Print:
    """flat description: path -> token; keeps what it names alive, so that identities stay distinct"""

    def __init__(self):
        self.at, self.hold, self.seen = {}, [], set()

    def put(self, path, token, obj=None):
        self.at[path] = token
        self.hold.append(obj)

    def own(self, o):
        return (getattr(o, "__module__", None) or "").split(".")[0] == "conjugate"

    def visit(self, path, o, depth=0):
        self.put(path, (type(o).__name__, id(o)), o)
        if id(o) in self.seen or depth > 12:
            return
        if isinstance(o, (types.FunctionType, type)) and not self.own(o):
            return
        if isinstance(o, types.ModuleType):
            if o.__name__.split(".")[0] != "conjugate":
                return
            self.seen.add(id(o))
            for k, v in list(vars(o).items()):
                if k not in SKIP and not (isinstance(v, types.ModuleType) and v.__name__ == f"{o.__name__}.{k}"):
                    self.visit(f"{path}.{k}", v, depth + 1)
            return
        if isinstance(o, (int, float, str, bytes, bool)) or o is None:
            self.at[path] = (type(o).__name__, repr(o))
            return
        self.seen.add(id(o))
        if isinstance(o, type):
            for k, v in list(vars(o).items()):
                if k not in SKIP and k != "__dict__":
                    self.visit(f"{path}.{k}", v, depth + 1)
        elif isinstance(o, types.FunctionType):
            for n in ("__defaults__", "__kwdefaults__", "__dict__"):
                v = getattr(o, n)
                if v:
                    self.visit(f"{path}.{n}", v, depth + 1)
            for i, c in enumerate(o.__closure__ or ()):
                try:
                    self.visit(f"{path}.<cell {i}>", c.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif isinstance(o, LRU):
            self.put(path + ".cache", tuple(o.cache_info()))
            self.visit(path + ".wrapped", o.__wrapped__, depth + 1)
        elif isinstance(o, (staticmethod, classmethod)):
            self.visit(path + ".func", o.__func__, depth + 1)
        elif isinstance(o, property):
            for n in ("fget", "fset"):
                if getattr(o, n) is not None:
                    self.visit(f"{path}.{n}", getattr(o, n), depth + 1)
        elif isinstance(o, functools.partial):
            self.visit(path + ".func", o.func, depth + 1)
            self.visit(path + ".args", o.args, depth + 1)
        elif isinstance(o, dict):
            self.put(path + ".keys", tuple(map(id, o)))
            for i, (k, v) in enumerate(list(o.items())[:400]):
                self.visit(f"{path}[{k if isinstance(k, str) else i}]", v, depth + 1)
        elif isinstance(o, (list, tuple)) or type(o).__name__ in ("deque", "set", "frozenset"):
            if isinstance(o, list) and type(o).__iter__ is not list.__iter__:
                items = list(list.__iter__(o))
            else:
                items = list(o)
            self.put(path + ".len", len(items))
            for i, v in enumerate(items[:400]):
                self.visit(f"{path}[{i}]", v, depth + 1)
        elif type(o).__module__ == "numpy" and hasattr(o, "tobytes"):
            self.put(path, (type(o).__name__, id(o), str(o.dtype), o.shape, o.tobytes()), o)
        elif isinstance(o, (itertools.count, itertools.cycle, itertools.repeat)):
            self.put(path, repr(o), o)
        elif isinstance(o, random.Random):
            self.put(path, hash(o.getstate()), o)
        elif type(o).__name__ in ("Generator", "RandomState"):
            st = getattr(o, "bit_generator", o)
            try:
                self.put(path, repr(st.state if hasattr(st, "state") else st.get_state()), o)
            except Exception:
                self.put(path, (getattr(o, "sid", None), getattr(o, "pos", None)), o)
        elif self.own(type(o)):
            d = getattr(o, "__dict__", {})
            self.put(path + ".keys", tuple(d))
            for k, v in list(d.items()):
                self.visit(f"{path}.{k}", v, depth + 1)
        elif hasattr(o, "__func__"):
            self.visit(path + ".__func__", o.__func__, depth + 1)


def package(mods):
    p = Print()
    for n in sorted(mods):
        p.visit(n, mods[n])
    return p


def difference(a, b):
    """where b differs from a: a place that both have, or one that only b has within a module both have"""
    for k, v in a.at.items():
        if k in b.at and b.at[k] != v:
            return k
        if k not in b.at:
            return k
    for k in b.at:
        if k not in a.at and ".".join(k.split(".")[:2]) in a.at:
            return k
    return None


def process(np=None):
    """settings of the process that a call could leave changed"""
    np = np or sys.modules.get("numpy")
    out = {"warnings": [repr(f) for f in warnings.filters], "environment": dict(os.environ), "cwd": os.getcwd(),
           "recursion": sys.getrecursionlimit(), "path": list(sys.path), "random": hash(random.getstate()),
           "hooks": (id(sys.excepthook), id(sys.displayhook), id(warnings.showwarning))}
    if np is not None:
        s = np.random.get_state()
        out.update({"numpy error state": np.geterr(), "numpy print options": repr(np.get_printoptions()),
                    "numpy random state": (s[0], s[1].tobytes(), s[2], s[3], s[4])})
    m = sys.modules.get("matplotlib")
    if m is not None and hasattr(m, "rcParams"):
        out["matplotlib settings"] = repr(sorted(m.rcParams.items()))
    return out


def process_difference(a, b):
    return next((k for k in a if k in b and a[k] != b[k]), None)
