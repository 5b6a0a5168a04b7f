"""Contract stub of matplotlib: axes that record what is drawn on them."""
import types

from .core import Unsupported, ctx


class Artists:
    """what a drawing method returns: not modelled"""
    __hash__ = None

    def _no(self, *a, **k):
        raise Unsupported("use of what a drawing method returns")

    __getattr__ = __iter__ = __getitem__ = __len__ = __bool__ = __eq__ = _no


class Axes:
    def __init__(self, name="ax"):
        self.name = name
        self.calls = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            c = ctx()
            self.calls.append((n, a, k, tuple(c.loops) if c else ()))
            return Artists()
        return f

    def __repr__(self):
        return f"<axes {self.name}>"


class PolarAxes(Axes):
    pass


class _Pyplot(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "gca":
            def gca():
                c = ctx()
                if "gca" not in c.state:
                    c.state["gca"] = Axes("gca")
                return c.state["gca"]
            return gca
        def f(*a, **k):
            raise Unsupported(f"pyplot.{n}")
        return f


def is_color_like(c):
    """for the colours of the contracts: a text, or three or four numbers from 0 to 1"""
    if isinstance(c, str):
        return True
    return (isinstance(c, (tuple, list)) and len(c) in (3, 4) and all(isinstance(x, (int, float)) and 0 <= x <= 1 for x in c))


def mod(name, **k):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(k)
    return m


MPL = mod("matplotlib", pyplot=_Pyplot("matplotlib.pyplot"), axes=mod("matplotlib.axes", Axes=Axes),
          colors=mod("matplotlib.colors", is_color_like=is_color_like),
          projections=mod("matplotlib.projections", polar=mod("matplotlib.projections.polar", PolarAxes=PolarAxes)))
