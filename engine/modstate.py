"""Module-level state of the loaded /repo modules: contracts here are about one call from the state the modules have after
import, so code that changes that state (a global, a class attribute, a mutable default, what a module-level container
holds) would behave differently on later calls. A path that changes it cannot be judged by one call: Unsupported."""
import types
import weakref
import numpy as np
from .core import Unsupported

LOADERS = weakref.WeakSet()


def content(v, depth=0):
    if isinstance(v, np.ndarray):
        return v.tobytes() if v.size < 4096 else None
    log = getattr(v, '_log', None) if type(v).__module__.startswith('engine') else None
    if type(log) is list:
        return [tuple(id(x) for x in ev) if isinstance(ev, tuple) else id(ev) for ev in log]
    if isinstance(v, (list, set, bytearray)) and len(v) < 50000:
        return [id(x) for x in v] if not isinstance(v, bytearray) else bytes(v)
    if isinstance(v, dict) and len(v) < 50000:
        return [(k if isinstance(k, (int, str, tuple)) else id(k), id(x)) for k, x in v.items()]
    if type(v).__module__.startswith('engine') and hasattr(v, '__dict__'):
        return [(k, id(x)) for k, x in vars(v).items()]
    return None


def nested(v):
    """mutable values inside module-level containers, one level down"""
    if isinstance(v, dict) and len(v) < 300:
        return list(v.values())
    if isinstance(v, (list, tuple)) and len(v) < 300:
        return list(v)
    return ()


def mine(mod):
    return isinstance(mod, str) and mod.startswith('eventio')


def function_state(key, f, out):
    f = getattr(f, '__func__', f)
    for x in (getattr(f, '__wrapped__', None), getattr(f, 'fget', None)):
        if isinstance(x, types.FunctionType):
            function_state(key + '~', x, out)
    if not isinstance(f, types.FunctionType):
        return
    if f.__dict__:
        put(key + '.attributes', f.__dict__, out)
    for n, d in enumerate(f.__defaults__ or ()):
        put('%s.default%d' % (key, n), d, out)
    for n, d in (f.__kwdefaults__ or {}).items():
        put('%s.default %s' % (key, n), d, out)
    for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        try:
            x = c.cell_contents
        except ValueError:
            continue
        if not isinstance(x, (type, types.ModuleType)):
            put('%s.%s' % (key, n), x, out)


def put(key, v, out):
    if isinstance(v, (types.ModuleType, type)) or str(getattr(v, '__module__', '')).startswith('engine'):
        out[key] = (v, None, ())
        return
    out[key] = (v, content(v), tuple((x, content(x)) for x in nested(v)))
    if isinstance(v, (types.FunctionType, staticmethod, classmethod, property)):
        function_state(key, v, out)


def snapshot(only=None):
    out = {}
    for ld in list(LOADERS):
        for name, m in list(ld.mods.items()):
            tag = '%d %s' % (id(ld), name)
            if not getattr(m, '__file__', None) or (only is not None and tag not in only):
                continue
            out[tag] = None
            for k, v in list(vars(m).items()):
                if k.startswith('__') or k == '_L__':
                    continue
                key = '%s.%s' % (tag, k)
                if isinstance(v, type) and mine(v.__module__):
                    if v.__module__ == name:
                        for a, w in list(vars(v).items()):
                            if not (a.startswith('__') and not isinstance(w, types.FunctionType)) and a != '_abc_impl':
                                put('%s.%s' % (key, a), w, out)
                    out[key] = (v, None, ())
                else:
                    put(key, v, out)
    return out


def loaded():
    return sum(len(ld.mods) for ld in list(LOADERS))


class Guard:
    def __init__(self):
        self.snap = snapshot()
        self.n = loaded()

    def check(self):
        if loaded() != self.n:
            # modules were loaded on demand: what their import registered belongs to the state after import
            self.n = loaded()
            fresh = snapshot()
            for k, v in fresh.items():
                old = self.snap.get(k)
                if old is None or (v is not None and old[0] is v[0] and isinstance(v[0], dict) and
                                   isinstance(old[1], list) and isinstance(v[1], list) and
                                   v[1][:len(old[1])] == old[1] and all(isinstance(x, type) for x in v[0].values())):
                    self.snap[k] = v
        now = snapshot(self.snap)
        for k, old in self.snap.items():
            if old is None:
                continue
            new = now.get(k)
            if new is not None and str(getattr(new[0], '__module__', '')).startswith('engine'):
                continue                # a contract put in place of a callee by the verification unit
            if new is None or new[0] is not old[0] or new[1] != old[1] or \
                    len(new[2]) != len(old[2]) or any(a[0] is not b[0] or a[1] != b[1] for a, b in zip(new[2], old[2])):
                raise Unsupported('module-level state changes: %s' % k.split(' ', 1)[1])
        for k, v in now.items():
            if k not in self.snap and v is not None and not isinstance(v[0], (types.ModuleType, type)):
                raise Unsupported('module-level state appears: %s' % k.split(' ', 1)[1])
