"""Shared helpers for the image-correction contracts."""
from common import *
import contextlib


def np_(ctx):
    if ctx.symbolic:
        from pyvc.shims import SN
        return SN
    import numpy
    return numpy


def grid(ctx, tag, shape, lo=None, hi=None):
    """array of the given shape with one symbolic (or random) number per cell"""
    import itertools
    import numpy as np

    if ctx.symbolic:
        from pyvc.shims import SA

        a = np.empty(shape, dtype=object)
        for ix in itertools.product(*map(range, shape)):
            a[ix] = ctx.real("%s_%s" % (tag, "_".join(map(str, ix))), lo=lo, hi=hi)
        return SA(a)
    a = np.empty(shape, dtype=np.float64)
    for ix in itertools.product(*map(range, shape)):
        a[ix] = ctx.real("%s_%s" % (tag, "_".join(map(str, ix))), lo=lo, hi=hi)
    return a


def cells(shape):
    import itertools

    return list(itertools.product(*map(range, shape)))


class Sequential:
    """contract of joblib.Parallel: the results of the calls, in the order of the
    calls (assumed); stand-in evaluates them one after the other"""

    def __init__(self, *a, **k):
        pass

    def __call__(self, calls):
        return [f(*a, **k) for f, a, k in list(calls)]


def delayed(f):
    return lambda *a, **k: (f, a, k)


class _Joblib:
    Parallel = Sequential
    delayed = staticmethod(delayed)
    parallel = None


@contextlib.contextmanager
def _null(x=None, *a, **k):
    yield x


def sequential(ctx, *modnames):
    for n in modnames:
        m = repo(n)
        if hasattr(m, "joblib"):
            ctx.patch(m, "joblib", _Joblib)
        if hasattr(m, "tqdm_joblib"):
            ctx.patch(m, "tqdm_joblib", _null)
    ctx.trusted.add("assumed contract: joblib.Parallel returns the results of its calls in order")


class NoPlot:
    """matplotlib draws, it computes nothing the properties speak of"""

    def __getattr__(self, n):
        return lambda *a, **k: NoPlot()

    def __call__(self, *a, **k):
        return NoPlot()


def no_plots(ctx, *modnames):
    for n in modnames:
        m = repo(n)
        if hasattr(m, "plt"):
            ctx.patch(m, "plt", NoPlot())


# ------------------------------------------------------------------ images of any size
def how_many(ctx, name, lo, hi, most):
    """a number drawn between lo and hi; a counterexample may ask for up to `most`"""
    if name in ctx.values:
        ctx.values[name] = max(lo, min(most, int(ctx.values[name])))
        hi = most
    elif ctx.rng is None:
        ctx.values[name] = lo
    return ctx.int(name, lo=lo, hi=hi)


class AnyGrid:
    """an array whose axes named by a string have any length (two or more). Proof: the
    values at one arbitrary index of those axes (pyvc/genpix.py). Sampling: ordinary
    arrays, and every index."""

    def __init__(self, ctx, **most):
        self.ctx = ctx
        if not ctx.symbolic:
            self.size = {n: how_many(ctx, "size_" + n, 2, m, 2000) for n, m in most.items()}
            import numpy as np

            while np.prod(list(self.size.values())) > 10**6:
                n = max(self.size, key=self.size.get)
                self.size[n] //= 2
            self.rng = np.random.default_rng(ctx.int("pixels", lo=0, hi=10**6))
            self.spot = {n: how_many(ctx, "pos_" + n, 0, k - 1, k - 1) for n, k in self.size.items()}
        else:
            self.size = {}
            for n in most:
                self.dim(n)
        self.names = list(most)

    def dim(self, n):
        if self.ctx.symbolic:
            from pyvc import genpix

            return genpix.dim(n)
        return self.size[n]

    def array(self, tag, axes, lo=None, hi=None):
        if self.ctx.symbolic:
            from pyvc import genpix

            return genpix.cells(tag, axes, lo, hi)
        a = self.rng.uniform(lo, hi, [self.size[a] if isinstance(a, str) else a for a in axes])
        # a counterexample says what one cell holds
        for ix in cells([1 if isinstance(x, str) else x for x in axes]):
            n = "%s_%s" % (tag, "_".join(str(i) for i, x in zip(ix, axes) if not isinstance(x, str)))
            if n in self.ctx.values:
                a[tuple(self.spot[x] if isinstance(x, str) else i for i, x in zip(ix, axes))] = self.ctx.real(n, lo=lo, hi=hi)
        return a

    def shape(self, axes):
        return tuple(self.dim(a) if isinstance(a, str) else a for a in axes)

    def same_shape(self, a, axes):
        w = self.shape(axes)
        if len(a.shape) != len(w):
            return False
        if not self.ctx.symbolic:
            return tuple(a.shape) == w
        return self.ctx.And(*[x == y for x, y in zip(a.shape, w)])

    def positions(self, names=None):
        names = names or self.names
        import itertools

        if self.ctx.symbolic:
            return [None]
        size = [self.size[n] for n in names]
        if max(size) <= 12:
            return [dict(zip(names, ix)) for ix in itertools.product(*map(range, size))]
        some = [tuple(self.rng.integers(0, k) for k in size) for _ in range(60)]
        return [{n: self.spot[n] for n in names}] + [dict(zip(names, ix)) for ix in some]

    def get(self, a, axes, pos, *ix):
        """a at the position (of the named axes) and the indices of the other axes"""
        if self.ctx.symbolic:
            if not hasattr(a, "at"):
                from pyvc.sym import Unsupported

                raise Unsupported("an array of any size is expected, not %s" % type(a).__name__)
            return a.at(*ix)
        ix = list(ix)
        return a[tuple(pos[x] if isinstance(x, str) else ix.pop(0) for x in axes)]
