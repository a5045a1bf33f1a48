"""Access to the system under test, inside a worker process."""
import os
import sys
import contextlib

sys.dont_write_bytecode = True
REPO = os.environ.get('HV_REPO', '/repo')


class SUTError(Exception):
    """the code under test raised on an input for which it must not"""
    def __init__(self, exc, where=''):
        import traceback
        self.exc = exc
        tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:])
        super().__init__('%s%s: %s\n%s' % (where + ': ' if where else '', type(exc).__name__, exc, tb))


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """the oracle cannot judge this case"""


_loaded = False


def load():
    """import hyvr from /repo's working tree, compiled parts from HV_EXT"""
    global _loaded
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hyvr
        import hyvr.geo
    except Exception as e:
        raise SUTError(e, 'import hyvr')
    if not _loaded:
        ext = os.environ.get('HV_EXT')
        if ext:
            hyvr.geo.__path__.insert(0, ext)
        f = os.path.abspath(hyvr.__file__)
        if not f.startswith(os.path.abspath(REPO) + os.sep):
            raise Inconclusive('hyvr was imported from ' + f)
        _loaded = True
    return hyvr


def call(f, *a, **k):
    """call the code under test; any exception is the code's"""
    try:
        return f(*a, **k)
    except (SUTError, Inconclusive):
        raise
    except Exception as e:
        raise SUTError(e)


@contextlib.contextmanager
def captured_models():
    """Record every Model that generates a realization during the block."""
    load()
    import hyvr.geo.model as gm
    seen = []
    orig = getattr(gm.Model, 'generate_model', None)
    init = gm.Model.__init__
    made = []

    def wrapped(self, *a, **k):
        if not any(m is self for m in seen):
            seen.append(self)
        return orig(self, *a, **k)

    def wrapped_init(self, *a, **k):
        made.append(self)
        return init(self, *a, **k)
    if orig is not None:
        gm.Model.generate_model = wrapped
    gm.Model.__init__ = wrapped_init
    try:
        yield seen
    finally:
        if orig is not None:
            gm.Model.generate_model = orig
        gm.Model.__init__ = init
        if not seen:
            seen.extend(m for m in made if getattr(m, 'strata', None) is not None)
