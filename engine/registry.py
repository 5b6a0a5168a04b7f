"""Registry of contracts.  A contract is a function of a harness h: it declares symbolic inputs with their
precondition, calls the real code and states the postconditions."""

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, fn, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts


def contract(prop, name=None, **opts):
    def deco(fn):
        CONTRACTS.append(Contract(prop, name or fn.__name__, fn, opts))
        return fn
    return deco


def add(prop, name, fn, **opts):
    CONTRACTS.append(Contract(prop, name, fn, opts))


def load(prop):
    import importlib
    CONTRACTS.clear()
    importlib.import_module(f"contracts.{prop.lower()}")
    CONTRACTS[:] = [c for c in CONTRACTS if c.prop == prop]
    names = [c.name for c in CONTRACTS]
    assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    return list(CONTRACTS)
