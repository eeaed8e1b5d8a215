"""What the case modules register for the oracles (nothing here is used by denorm)."""

import functools

HOOKS = []         # called with (function, instance) whenever denorm calls a registered function
CALLBACKS = []     # the undecorated functions, registered by @oracle
AGGREGATES = {}    # (model name, field name) -> fn(instance): what a CountField/SumField has to be
KEYS = {}          # (model name, field name) -> fn(instance): what a cache key depends on
DEPENDS = {}       # model name -> fn(instance): all the rows any field of the instance depends on
CACHED = []        # the undecorated functions below @cached


def oracle(fn):
    CALLBACKS.append(fn)

    @functools.wraps(fn)
    def observed(self):
        for hook in HOOKS:
            hook(fn, self)
        return fn(self)
    return observed


def cached_oracle(fn):
    CACHED.append(fn)
    return fn


def aggregate(model, field):
    def deco(fn):
        AGGREGATES[(model, field)] = fn
        return fn
    return deco


def cachekey(model, field):
    def deco(fn):
        KEYS[(model, field)] = fn
        return fn
    return deco


def depends(model):
    def deco(fn):
        DEPENDS[model] = fn
        return fn
    return deco
