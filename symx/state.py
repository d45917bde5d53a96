"""State that lives in the package itself (module and class attributes, default arguments, closures, caches).  Every path and every
replayed case starts from the package as it is right after its import: the package is imported anew when a previous one left a trace."""
import collections
import enum
import functools
import importlib
import logging
import sys
import types

ROOT = "estrade"
_PLAIN = (type(None), bool, int, float, str, bytes, complex, tuple, frozenset, types.ModuleType, types.BuiltinFunctionType, types.MethodType, logging.Logger,
          enum.Enum, types.GenericAlias, type(Ellipsis), range, types.MappingProxyType, types.MethodDescriptorType, types.WrapperDescriptorType,
          types.MethodWrapperType, types.GetSetDescriptorType, types.MemberDescriptorType, types.ClassMethodDescriptorType, types.CodeType)
_PLAIN_MODULES = ("typing", "abc", "_abc", "builtins", "datetime", "symx.sdatetime", "__future__", "_frozen_importlib", "_frozen_importlib_external", "arrow",
                  "arrow.arrow", "pytz", "re", "enum", "types")
_MISSING = object()
_cached_function = type(functools.lru_cache(lambda: 0))


def modules():
    return [m for n, m in sorted(sys.modules.items()) if n == ROOT or n.startswith(ROOT + ".")]


def _own(x):
    return getattr(x, "__module__", None) is not None and str(x.__module__).split(".")[0] == ROOT


class State:
    """what the package holds now, compared by identity"""

    def __init__(self):
        self.seen, self.kept, self.caches, self.opaque = set(), [], [], []
        self.roots = modules()
        todo = [(m.__name__, m.__dict__) for m in self.roots]
        while todo:
            where, x = todo.pop()
            todo += self.visit(where, x)

    def visit(self, where, x):
        if id(x) in self.seen:
            return []
        self.seen.add(id(x))
        if isinstance(x, (dict, types.MappingProxyType)):
            skip = ("__builtins__", "__warningregistry__", "__loader__", "__spec__") if isinstance(x, dict) and "__builtins__" in x else ()
            snap = [(k, v) for k, v in x.items() if k not in skip]
            self.kept.append((where, "map", x, snap, skip))
            return [("%s[%s]" % (where, str(k)[:30]), y) for k, v in snap for y in ((k, v) if not isinstance(k, str) else (v,))]
        if isinstance(x, (list, set, collections.deque, bytearray)):
            snap = list(x)
            self.kept.append((where, "seq", x, snap, ()))
            return [(where + "[]", v) for v in snap]
        if isinstance(x, (tuple, frozenset)):
            return [(where + "[]", v) for v in x]
        if isinstance(x, type):
            return [(where, x.__dict__)] if _own(x) else []
        if isinstance(x, _cached_function):
            if _own(x):
                self.caches.append((x, x.cache_info()))
                return [(where, x.__wrapped__)]
            return []
        if isinstance(x, types.FunctionType):
            if not _own(x):
                return []
            r = [(where + ".defaults", x.__defaults__), (where + ".kwdefaults", x.__kwdefaults__), (where + ".dict", x.__dict__)]
            for c in x.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.kept.append((where, "cell", c, [v], ()))
                r.append((where + ".closure", v))
            return r
        if isinstance(x, property):
            return [(where, x.fget), (where, x.fset), (where, x.fdel)]
        if isinstance(x, (staticmethod, classmethod)):
            return [(where, x.__func__)]
        if isinstance(x, functools.cached_property):
            return [(where, x.func)]
        if isinstance(x, functools.partial):
            return [(where, x.func), (where, x.args), (where, x.keywords)]
        if isinstance(x, _PLAIN) or type(x).__module__ in _PLAIN_MODULES:
            return []
        d = getattr(x, "__dict__", None)
        if _own(type(x)) and isinstance(d, dict) and not isinstance(x, (dict, list, set)):
            return [(where, d)]
        self.opaque.append("%s: %s" % (where, type(x).__name__))
        return []

    def dirty(self):
        if self.opaque:
            return "state that cannot be compared in %s" % self.opaque[0]
        for where, kind, x, snap, skip in self.kept:
            if kind == "map":
                now = [(k, v) for k, v in x.items() if not skip or k not in skip]
                if len(now) != len(snap) or any(a is not c or b is not d for (a, b), (c, d) in zip(now, snap)):
                    return where
            elif kind == "seq":
                now = list(x)
                if len(now) != len(snap) or any(a is not b for a, b in zip(now, snap)):
                    return where
            elif getattr(x, "cell_contents", _MISSING) is not snap[0]:
                return where
        for f, info in self.caches:
            if f.cache_info()[:2] != info[:2] or f.cache_info().currsize != info.currsize:
                return f.__name__
        return None


_state = None
reloads = 0


def pristine():
    """the package as right after its import"""
    global _state, reloads
    if _state is None:
        _state = State()
        return
    if _state.dirty():
        reloads += 1
        names = [m.__name__ for m in modules()]
        for n in names:
            del sys.modules[n]
        for n in sorted(names):
            importlib.import_module(n)
        from symx import ctx
        ctx._lib = None
        _state = State()


if __name__ == "__main__":
    import estrade, estrade.graph, estrade.reporting.csv, estrade.tick_provider  # noqa
    s = State()
    print(len(s.kept), "containers", len(s.caches), "caches", s.opaque, s.dirty())
