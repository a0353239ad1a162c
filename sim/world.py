"""Loading titus behind the seams, and classification of what it raises."""
import os
import sys
import warnings

from . import core
from .refpfa import Err as RefErr

_titus = None


def titus():
    """The modules under test (imported once, after the seams are in place)."""
    global _titus
    if _titus is None:
        core.install()
        warnings.simplefilter("ignore")
        if core.REPO not in sys.path:
            sys.path.insert(0, core.REPO)
        import titus.genpy
        import titus.errors
        import titus.reader
        import titus.prettypfa
        import titus.util
        if not os.path.abspath(titus.genpy.__file__).startswith(core.REPO + os.sep):
            raise core.HarnessError("titus was imported from " + titus.genpy.__file__)

        class NS(object):
            pass
        ns = NS()
        ns.PFAEngine = titus.genpy.PFAEngine
        ns.SharedState = titus.genpy.SharedState
        ns.genpy = titus.genpy
        ns.errors = titus.errors
        ns.reader = titus.reader
        ns.prettypfa = titus.prettypfa
        ns.util = titus.util
        _titus = ns
    return _titus


class CallbackError(Exception):
    """Raised by a simulated emit or log consumer."""


def classify(err):
    """Canonical, text-independent description of an error raised by titus."""
    E = titus().errors
    if isinstance(err, E.PFAUserException):
        return ["err", "user", err.code]
    if isinstance(err, E.PFARuntimeException):
        return ["err", "runtime", err.code]
    if isinstance(err, E.PFATimeoutException):
        return ["err", "timeout", None]
    if isinstance(err, CallbackError):
        return ["err", "callback", None]
    if str(err) == "simulated fault" or str(err) == "'simulated fault'":
        return ["err", "fault", None]
    if isinstance(err, core.WouldBlockForever):
        return ["stuck"]
    return ["err", "internal", type(err).__name__]
