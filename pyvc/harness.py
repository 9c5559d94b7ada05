"""Contract harness registry."""


class Harness:
    def __init__(self, fn, name, functions, kind, bound, opts, samples, fallback):
        self.fn, self.name, self.functions = fn, name, functions
        self.kind, self.bound, self.opts, self.samples, self.fallback = kind, bound, opts, samples, fallback


class Registry:
    def __init__(self, pid):
        self.pid = pid
        self.items = []
        self.transforms = {}

    def harness(self, functions, kind="proof", bound=None, samples=60, thorough_only=False, fallback=None, **opts):
        def deco(fn):
            h = Harness(fn, fn.__name__, functions, kind, bound, opts, samples, fallback)
            h.thorough_only = thorough_only
            self.items.append(h)
            return fn

        return deco


def repo(name):
    """import a repository module (symbolic or concrete, depending on worker)"""
    import importlib

    return importlib.import_module(name)
