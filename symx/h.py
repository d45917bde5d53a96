"""Declaration of harnesses."""
import functools


class H:
    """fn(ctx, **config) is explored for every config; covers must all be reached by at least one path.

    The key "world" of a configuration is not passed on but set on the context: it varies what the shared helpers build around
    the objects under test (see harness/common.py)."""

    def __init__(self, fn, configs=({},), thorough=None, covers=(), bounds="", path_s=30, odd=()):
        @functools.wraps(fn)
        def run(ctx, world=None, **config):
            ctx.world = world
            return fn(ctx, **config)
        self.fn = run
        self.name = fn.__name__
        # odd: indices of quick configurations to repeat in the world "odd"
        self._quick = list(configs) + [dict(list(configs)[i], world="odd") for i in odd]
        # the thorough tier comes on top of the quick one
        self._thorough = self._quick if thorough is None else list(thorough) + [c for c in self._quick if c not in list(thorough)]
        self.covers = list(covers)
        self.bounds = bounds + ("; some configurations also with a closed market, another timezone, frame sets around and strategies not attached to the epic" if odd else "")
        self.path_s = path_s

    def configs(self, tier):
        return self._thorough if tier == "thorough" else self._quick
