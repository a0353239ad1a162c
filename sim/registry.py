"""Which module decides which property."""
import importlib

PROPS = {}


class View(object):
    """A property's view of a shared module: a module plus fixed parameters."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def load(prop):
    from .props import shared
    if prop in ("C01", "C02", "C03"):
        return shared.view(prop)
    if prop in ("C04", "C07", "C08", "C09", "C17", "C20"):
        from .props import history
        return history.view(prop)
    if prop == "C05":
        from .props import isolate
        return isolate.view(prop)
    if prop == "C06":
        from .props import immutable
        return immutable.view(prop)
    if prop == "C10":
        from .props import randomness
        return randomness.view(prop)
    if prop == "C11":
        from .props import persist
        return persist.view(prop)
    if prop == "C12":
        from .props import deadlock
        return deadlock.view(prop)
    if prop == "C15":
        from .props import loading
        return loading.view(prop)
    if prop == "C13":
        from .props import streams
        return streams.view(prop)
    if prop == "C22":
        from .props import boundary
        return boundary.view(prop)
    if prop == "C18":
        from .props import chain
        return chain.view(prop)
    if prop == "C14":
        from .props import external
        return external.view(prop)
    if prop == "C16":
        from .props import session
        return session.view(prop)
    if prop == "C19":
        from .props import tools
        return tools.view(prop)
    if prop == "C21":
        from .props import memory
        return memory.view(prop)
    raise SystemExit("no check for " + prop)


def warm(prop):
    from .world import titus
    titus()
