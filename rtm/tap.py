"""
Event tap: counts every call (client calls and calls nvector makes to itself) that crosses the
boundary of a public function or public method of the library, and notes where a NaN is born.

The tap only observes.  It gives the evidence file the number of events the monitors actually saw;
verdicts are decided by the oracles on the calls made at the client boundary.
"""
import collections
import functools
import inspect
import threading

import numpy as np

_lock = threading.Lock()
CALLS = collections.Counter()      # public name -> calls
NESTED = collections.Counter()     # public name -> calls made from inside the library
NAN_BORN = collections.Counter()   # public name -> finite arguments, NaN in the result
_tls = threading.local()


def _finite(obj):
    if isinstance(obj, (float, int, np.floating, np.integer)):
        return np.isfinite(obj)
    if isinstance(obj, np.ndarray) and obj.dtype.kind in 'fiu':
        return bool(np.isfinite(obj).all())
    if isinstance(obj, (tuple, list)):
        return all(_finite(o) for o in obj)
    return True


def _has_nan(obj):
    if isinstance(obj, (float, np.floating)):
        return obj != obj
    if isinstance(obj, np.ndarray) and obj.dtype.kind == 'f':
        return bool(np.isnan(obj).any())
    if isinstance(obj, (tuple, list)):
        return any(_has_nan(o) for o in obj)
    return False


def _wrap(name, fun):
    @functools.wraps(fun)
    def wrapper(*args, **kwds):
        depth = getattr(_tls, 'depth', 0)
        _tls.depth = depth + 1
        try:
            result = fun(*args, **kwds)
        finally:
            _tls.depth = depth
        with _lock:
            CALLS[name] += 1
            if depth:
                NESTED[name] += 1
            if _has_nan(result) and _finite(args) and _finite(tuple(kwds.values())):
                NAN_BORN[name] += 1
        return result
    wrapper.__rtm_tap__ = True
    return wrapper


def install(nvector):
    """Wraps the public functions in every module that bound them, and the public methods."""
    modules = [nvector, nvector.core, nvector.objects, nvector.rotation, nvector.util]
    wrapped = {}
    for mod in modules[1:]:
        for name in getattr(mod, '__all__', ()):
            obj = getattr(mod, name, None)
            if inspect.isfunction(obj) and not hasattr(obj, '__rtm_tap__') and id(obj) not in wrapped:
                wrapped[id(obj)] = (obj, _wrap(name, obj))
            elif inspect.isclass(obj):
                for attr, member in list(vars(obj).items()):
                    if (inspect.isfunction(member) and not attr.startswith('_')
                            and not hasattr(member, '__rtm_tap__')):
                        setattr(obj, attr, _wrap('{}.{}'.format(obj.__name__, attr), member))
    for mod in modules:
        for name, obj in list(vars(mod).items()):
            pair = wrapped.get(id(obj))
            if pair is not None and pair[0] is obj:
                setattr(mod, name, pair[1])
    return len(wrapped)


def snapshot():
    with _lock:
        return dict(CALLS), dict(NESTED), dict(NAN_BORN)
