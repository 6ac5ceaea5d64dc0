"""Registry of harness configurations."""
import functools
import importlib
import os
import pkgutil

REG = {}
META = {}


class Config:
    def __init__(self, prop, name, fn, bounds="", tier="quick", max_paths=60000, max_time=None, conc=None, weight=1,
                 query_ms=20000, trials=None, shards=1):
        self.prop, self.name, self.fn, self.bounds, self.tier = prop, name, fn, bounds, tier
        self.max_paths = max_paths
        self.max_time = max_time
        self.conc = conc
        self.weight = weight
        self.query_ms = query_ms
        self.trials = trials
        self.shards = shards


def add(prop, name, fn, bounds="", **k):
    """register fn(env) as one configuration of a property; conc: replacement used for concrete runs"""
    d = REG.setdefault(prop, {})
    assert name not in d, (prop, name)
    d[name] = Config(prop, name, fn, bounds, **k)


def add_again(prop, names, tier="quick", **k):
    """two calculations in one process for configurations that exist"""
    for n in names:
        c = REG[prop][n]
        k2 = dict(max_time=c.max_time or 120.0, weight=2 * c.weight, query_ms=c.query_ms, shards=1)
        k2.update(k)
        add(prop, "again-" + n, functools.partial(_again, c.fn), "twice in one process, changing one kind of input or all of them: " + c.bounds, tier=tier, **k2)


def _again(fn, env):
    env.again(fn)


def meta(prop, **k):
    META.setdefault(prop, {}).update(k)


def load_all():
    import props

    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module("props." + m.name)


def configs(prop, tier):
    return [c for c in REG.get(prop, {}).values() if tier == "thorough" or c.tier == "quick"]
