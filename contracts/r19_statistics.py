"""R19: statistics of image sets."""
from imgspec import *

REG = Registry("R19")
N = "correct_images.tools.numerical"


def welford_ref(ctx, xs):
    """mean and variance of a list"""
    n = len(xs)
    s = 0
    for x in xs:
        s = s + x
    m = s / n
    q = 0
    for x in xs:
        q = q + (x - m) * (x - m)
    return m, q / n


def _runner(n, clip, peek=False):
    def h(ctx):
        """incremental mean and std are those of the images seen; pixels brighter than the
        clipping level count as the mean so far"""
        silence(ctx)
        R = repo(N).RunningMeanStd((1, 2, 1), 0.95)
        seen = [[], []]
        for k in range(n):
            im = grid(ctx, "im%d" % k, (1, 2), 0, 1.1 if clip else 0.9)
            if clip and not ctx.symbolic and ctx.flag("bright%d" % k):
                im[0, 0] = 0.99
            if not ctx.symbolic:
                im = im.astype("float32")  # what attenuation_correct returns
            vals = [im[0, 0], im[0, 1]]
            for p in range(2):
                v = vals[p]
                if clip:
                    cur = welford_ref(ctx, seen[p])[0] if seen[p] else 0.0
                    v = ctx.ite(v > 0.95, cur, v)
                seen[p].append(v)
            R.compute(im)
            if peek:
                # asking for the statistics so far changes nothing
                R.std, R.mean
        m, s = R.mean.reshape(-1), R.std.reshape(-1)
        for p in range(2):
            wm, wv = welford_ref(ctx, seen[p])
            ctx.ensure_eq("mean-%d" % p, m[p], wm, rel=1e-5)
            if ctx.symbolic:
                ctx.ensure("std-%d" % p, ctx.Or(ctx.And(s[p] * s[p] == wv, s[p] >= 1e-6), ctx.And(s[p] == 1e-6, wv < 1e-12)))
            else:
                ctx.ensure_eq("std-%d" % p, s[p], max(float(wv) ** 0.5, 1e-6), tol=2e-4)
            ctx.ensure("std-positive-%d" % p, s[p] > 0)

    h.__name__ = "running_statistics_of_%d%s" % (n, "_clipped" if clip else "_read_in_between" if peek else "")
    REG.harness([N + ".RunningMeanStd"], kind="bounded", bound="%d images of two pixels, symbolic intensities" % n, samples=20)(h)


_runner(2, False)
_runner(3, False)
_runner(4, False)
_runner(2, True)
_runner(3, False, True)


@REG.harness([N + ".RunningMeanStd.compute"], kind="bounded", bound="two pixels; any number of earlier images (their mean, sum of squares and count are symbolic)", samples=30)
def running_statistics_step(ctx):
    """induction step: a state that is (mean, n var) of n numbers becomes that of n + 1"""
    silence(ctx)
    R = repo(N).RunningMeanStd((1, 2, 1), 0.95)
    n = ctx.int("n", lo=1, hi=1000)
    mu, m2, im = grid(ctx, "mu", (1, 2), 0, 0.95), grid(ctx, "m2", (1, 2), 0, 5), grid(ctx, "im", (1, 2), 0, 0.95)
    np = np_(ctx)
    R.count = n
    R._mean, R.mean2 = mu.reshape(2).copy(), m2.reshape(2).copy()
    x = [im[0, 0], im[0, 1]]
    R.compute(im)
    ctx.ensure_eq("count", R.count, n + 1)
    for p in range(2):
        # sum of n+1 numbers and sum of their squared deviations about the new mean
        m = (mu[0, p] * n + x[p]) / (n + 1)
        q = m2[0, p] + n * (mu[0, p] - m) * (mu[0, p] - m) + (x[p] - m) * (x[p] - m)
        ctx.ensure_eq("mean-%d" % p, R._mean.reshape(-1)[p], m, rel=1e-5)
        ctx.ensure_eq("m2-%d" % p, R.mean2.reshape(-1)[p], q, rel=1e-5)


# ------------------------------------------------------------------ any number of images of any size
HW = ("h", "w")


def _any_step(ax):
    def h(ctx):
        """the state (count, mean, sum of squared deviations) of any images seen so far,
        the first included, becomes that of these and one more; a pixel brighter than the
        clipping level counts as the mean so far"""
        silence(ctx)
        g = AnyGrid(ctx, h=4, w=4)
        R = repo(N).RunningMeanStd(g.shape(ax), 0.95)
        n = ctx.int("n", lo=0, hi=10**9)
        mu, m2, im = g.array("mu", ax, 0, 0.95), g.array("m2", ax, 0, 5), g.array("im", ax, 0, 1.2)
        cs = list(range(3)) if len(ax) == 3 else [None]
        at = lambda a, p, c: g.get(a, ax, p, *([] if c is None else [c]))
        if not (n >= 1):
            # nothing seen yet: the state is what the constructor made
            mu, m2 = R._mean.copy(), R.mean2.copy()
            ctx.ensure_eq("starts-at-nothing", R.count, 0)
            for p in g.positions():
                for c in cs:
                    ctx.ensure_eq("starts-at-zero", at(mu, p, c), 0)
                    ctx.ensure_eq("starts-without-spread", at(m2, p, c), 0)
        else:
            R.count, R._mean, R.mean2 = n, mu.copy(), m2.copy()
        old = im.copy()
        R.compute(im)
        ctx.ensure_eq("count", R.count, n + 1)
        for p in g.positions():
            for c in cs:
                m0, q0, x = at(mu, p, c), at(m2, p, c), at(old, p, c)
                x = ctx.ite(x > 0.95, m0, x)
                m = (m0 * n + x) / (n + 1)
                q = q0 + n * (m0 - m) * (m0 - m) + (x - m) * (x - m)
                ctx.ensure_eq("mean-%s" % c, at(R._mean, p, c), m, rel=1e-5)
                ctx.ensure_eq("m2-%s" % c, at(R.mean2, p, c), q, rel=1e-5)

    h.__name__ = "running_statistics_step_any_size_%s" % ("colour" if len(ax) == 3 else "gray")
    REG.harness([N + ".RunningMeanStd.compute", N + ".RunningMeanStd.__init__"], samples=30)(h)


_any_step(HW)
_any_step(HW + (3,))


def _any_read(ax):
    def h(ctx):
        """what is read off a state: its mean and the root of its mean squared deviation,
        never below the floor; reading changes nothing"""
        silence(ctx)
        g = AnyGrid(ctx, h=4, w=4)
        R = repo(N).RunningMeanStd(g.shape(ax), 0.95)
        n = ctx.int("n", lo=2, hi=10**7)
        mu, m2 = g.array("mu", ax, 0, 0.95), g.array("m2", ax, 0, 5)
        R.count, R._mean, R.mean2 = n, mu.copy(), m2.copy()
        s, m = R.std, R.mean
        s2, m_ = R.std, R.mean
        at = lambda a, p, c: g.get(a, ax, p, *([] if c is None else [c]))
        for p in g.positions():
            for c in range(3) if len(ax) == 3 else [None]:
                v, v2 = at(s, p, c), at(m2, p, c) / n
                ctx.ensure_eq("mean-%s" % c, at(m, p, c), at(mu, p, c))
                if ctx.symbolic:
                    ctx.ensure("std-%s" % c, ctx.Or(ctx.And(v * v == v2, v >= 1e-6), ctx.And(v == 1e-6, v2 < 1e-12)))
                else:
                    ctx.ensure_eq("std-%s" % c, v, max(float(v2) ** 0.5, 1e-6), tol=2e-4)
                ctx.ensure_eq("again-std-%s" % c, at(s2, p, c), v)
                ctx.ensure_eq("again-mean-%s" % c, at(m_, p, c), at(mu, p, c))
                ctx.ensure_eq("state-kept-%s" % c, at(R.mean2, p, c), at(m2, p, c))
        ctx.ensure_eq("count-kept", R.count, n)

    h.__name__ = "reading_statistics_any_size_%s" % ("colour" if len(ax) == 3 else "gray")
    REG.harness([N + ".RunningMeanStd.mean", N + ".RunningMeanStd.std"], samples=30)(h)


_any_read(HW)
_any_read(HW + (3,))


def _any_files(ax, zeros, sized):
    def h(ctx):
        """per pixel: mean and standard deviation of its values in all images of the list
        (of those that are not zero, if zeros are missing values)"""
        silence(ctx)
        g = AnyGrid(ctx, h=4, w=4)
        cs = list(range(3)) if len(ax) == 3 else [None]
        at = lambda a, p, c: g.get(a, ax, p, *([] if c is None else [c]))
        f = "running_mean_std"
        if not ctx.symbolic:
            import numpy as np

            files = list(range(how_many(ctx, "len_files", 1, 9, 1000)))
            ims = [g.array("im", ax, 0, 1) for _ in files]
            if zeros:
                for i in ims:
                    i[g.rng.uniform(size=i.shape) < 0.4] = 0.0
            load_ = lambda i, *a: ims[i].copy()
        else:
            from anylen import integer
            from pyvc import genpix
            from pyvc.loops import Loop
            from pyvc.symlist import SymList
            from pyvc.sym import SymInt, SymReal, SymBool, z3

            I, R = z3.IntSort(), z3.RealSort()
            fs = {c: {n: z3.Function("%s_%s" % (n, c), I, R) for n in ("value", "number", "sum", "squares")} for c in cs}
            files = SymList("files", lambda e: SymInt(e))
            ctx.assume(files.n >= 1)
            X = lambda c, k: SymReal(fs[c]["value"](integer(k).e))
            C_, S1, S2 = (lambda c, k, q=q: SymReal(fs[c][q](integer(k).e)) for q in ("number", "sum", "squares"))
            counts = lambda c, k: ctx.ite(X(c, k) == 0, 0.0, 1.0) if zeros else 1.0

            def load_(i, *a):
                im = g.array("im", ax)
                for c in cs:
                    im.v[(0, 0) + (() if c is None else (c,))] = X(c, i)
                return im

            # what number, sum and sum of squares of the first k values are
            for c in cs:
                for q in (C_, S1, S2):
                    ctx.assume(q(c, 0) == 0)

            def define(k):
                for c in cs:
                    ctx.assume(C_(c, k + 1) == C_(c, k) + counts(c, k))
                    ctx.assume(S1(c, k + 1) == S1(c, k) + X(c, k))
                    ctx.assume(S2(c, k + 1) == S2(c, k) + X(c, k) * X(c, k))

            def inv(env, k):
                out = []
                for c in cs:
                    m, q, n = (env[v] for v in ("mean", "mean2", "count"))
                    m, q = at(m, None, c), at(q, None, c)
                    n = at(n, None, c) if hasattr(n, "at") else n
                    t = "" if c is None else "-%d" % c
                    out += [
                        ("count" + t, n == C_(c, k)),
                        ("whole-number" + t, ctx.Or(n == 0, n >= 1)),
                        ("mean" + t, m * n == S1(c, k)),
                        ("squares" + t, q + n * m * m == S2(c, k)),
                        ("not-negative" + t, q >= 0),
                        ("nothing-seen" + t, ctx.Or(n >= 1, ctx.And(m == 0, q == 0))),
                    ]
                    if not zeros:
                        out.append(("all-counted" + t, n == SymReal(z3.ToReal(integer(k).e))))
                return out

            def havoc(env, k):
                define(k)
                for v in ("mean", "mean2", "count"):
                    if hasattr(env[v], "forget"):
                        env[v].forget(v)
                return {v: env[v] for v in ("mean", "mean2", "count") if hasattr(env[v], "forget")}

            ctx.scratch["loops"] = {(f, "kinds"): "f", (f, 0): Loop("images", inv, havoc, modifies=lambda env: [env[v] for v in ("mean", "mean2", "count")])}
        kw = dict(width=4, height=4) if sized else {}
        m, s = repo(N).running_mean_std(files, loader=load_, ignore_zeroes=zeros, **kw)
        ctx.ensure("shape", ctx.And(g.same_shape(m, ax), g.same_shape(s, ax)))
        for p in g.positions():
            for c in cs:
                if ctx.symbolic:
                    n = C_(c, files.n)
                    if n >= 1:
                        wm = S1(c, files.n) / n
                        wv = S2(c, files.n) / n - wm * wm
                    else:
                        wm = wv = SymReal(z3.RealVal(0))
                    v = at(s, p, c)
                    ctx.ensure("std-%s" % c, ctx.Or(ctx.And(v * v == wv, v >= 1e-6), ctx.And(v == 1e-6, wv < 1e-12)))
                else:
                    xs = [float(at(i, p, c)) for i in ims]
                    if zeros:
                        xs = [x for x in xs if x != 0]
                    wm, wv = welford_ref(ctx, xs) if xs else (0, 0)
                    ctx.ensure_eq("std-%s" % c, at(s, p, c), max(float(wv) ** 0.5, 1e-6), tol=2e-4)
                ctx.ensure_eq("mean-%s" % c, at(m, p, c), wm, rel=1e-5)

    h.__name__ = "statistics_of_any_number_of_images%s%s%s" % ("_colour" if len(ax) == 3 else "", "_ignoring_zeroes" if zeros else "", "_of_given_size" if sized else "")
    REG.harness([N + ".running_mean_std"], loops=[N + ".running_mean_std"], samples=20)(h)


_any_files(HW, False, False)
_any_files(HW, True, False)
_any_files(HW, True, True)
_any_files(HW, False, True)
_any_files(HW + (3,), False, False)


def _files(n, zeros):
    def h(ctx):
        silence(ctx)
        ims = [grid(ctx, "im%d" % k, (1, 2), 0 if zeros else 0.01, 1) for k in range(n)]
        if zeros and not ctx.symbolic:
            for k in range(n):
                if ctx.flag("z%d" % k):
                    ims[k][0, 0] = 0.0
        keep = [i.copy() for i in ims]
        m, s = repo(N).running_mean_std(list(range(n)), loader=lambda f, *a: ims[f].copy(), ignore_zeroes=zeros)
        for p in range(2):
            xs = [keep[k][0, p] for k in range(n)]
            if zeros:
                xs = [x for x in xs if x != 0]
            wm, wv = welford_ref(ctx, xs) if xs else (0, 0)
            ctx.ensure_eq("mean-%d" % p, m[0, p], wm, rel=1e-5)
            if ctx.symbolic:
                ctx.ensure("std-%d" % p, ctx.Or(ctx.And(s[0, p] * s[0, p] == wv, s[0, p] >= 1e-6), ctx.And(s[0, p] == 1e-6, wv < 1e-12)))
            else:
                ctx.ensure_eq("std-%d" % p, s[0, p], max(float(wv) ** 0.5, 1e-6), tol=2e-4)

    h.__name__ = "statistics_of_%d_files%s" % (n, "_ignoring_zeroes" if zeros else "")
    REG.harness([N + ".running_mean_std"], kind="bounded" if n < 9 else "sample", bound="%d images of two pixels, symbolic intensities" % n if n < 9 else None, samples=20)(h)


_files(1, False)
_files(2, False)
_files(4, False)
_files(2, True)
_files(3, True)
_files(9, True)


@REG.harness([N + ".mean_std", N + ".mean_std_array"], kind="bounded", bound="3 images of 1x2 pixels, symbolic intensities", samples=20)
def statistics_of_a_stack(ctx):
    silence(ctx)
    D = grid(ctx, "d", (3, 1, 2), 0, 1)
    m, s = repo(N).mean_std(D)
    m1 = repo(N).mean_std(D, calculate_std=False)
    for j in range(2):
        wm, wv = welford_ref(ctx, [D[k, 0, j] for k in range(3)])
        ctx.ensure_eq("mean-%d" % j, m[0, j], wm, rel=1e-5)
        ctx.ensure_eq("mean-only-%d" % j, m1[0, j], wm, rel=1e-5)
        ctx.ensure_eq("variance-%d" % j, s[0, j] * s[0, j], wv, tol=1e-5)
        ctx.ensure("std-not-negative-%d" % j, s[0, j] >= 0)


@REG.harness([N + ".mean_std", N + ".mean_std_array"], loops=[N + ".mean_std_array"], samples=15)
def statistics_of_a_stack_any_size(ctx):
    """any number of images of any size: every pixel's mean and standard deviation are
    those of its own values"""
    silence(ctx)
    g = AnyGrid(ctx, n=6, h=4, w=4)
    f = "mean_std_array"
    if not ctx.symbolic:
        D = g.array("d", ("n",) + HW, 0, 1)
    else:
        from anylen import integer
        from pyvc import genpix
        from pyvc.loops import Loop
        from pyvc.sym import SymReal, SymInt, z3, iv

        I, R = z3.IntSort(), z3.RealSort()
        fs = {q: z3.Function(q, I, I, I, R) for q in ("value", "sum", "squares")}
        X, S1, S2 = (lambda i, j, k, q=q: SymReal(fs[q](integer(i).e, integer(j).e, integer(k).e)) for q in ("value", "sum", "squares"))

        class Stack:
            shape = (g.dim("n"),) + g.shape(HW)
            ndim = 3

            def __getitem__(self, k):
                if not (isinstance(k, tuple) and len(k) == 3 and all(isinstance(x, (int, SymInt)) for x in k)):
                    from pyvc.sym import Unsupported

                    raise Unsupported("part of a stack of any size")
                k, i, j = k
                for x, n in zip((k, i, j), self.shape):
                    ctx.ensure("index-within-the-stack", ctx.And(x >= 0, x < n))
                return X(i, j, k)

        D = Stack()
        pi, pj, n = genpix.pos(("h",)), genpix.pos(("w",)), g.dim("n")
        names = ("mean_array", "std_array")

        def done(env, when):
            m, s = (env[v].at() for v in names)
            wm = S1(pi, pj, n) / n
            wv = S2(pi, pj, n) / n - wm * wm
            return [("mean", ctx.Or(ctx.Not(when), m == wm)), ("std", ctx.Or(ctx.Not(when), ctx.And(s >= 0, s * s == wv)))]

        def havoc(env, k):
            for v in names:
                env[v].forget(v)
            return {v: env[v] for v in names}

        mod = lambda env: [env[v] for v in names]
        rows = Loop("rows", lambda env, k: done(env, k > pi), havoc, modifies=mod)
        cols = Loop("columns", lambda env, k: done(env, ctx.Or(env["i"] > pi, ctx.And(env["i"] == pi, k > pj))), havoc, modifies=mod)

        def define(env, k):
            i, j = env["i"], env["j"]
            for q, x in ((S1, X(i, j, k)), (S2, X(i, j, k) * X(i, j, k))):
                ctx.assume(q(i, j, 0) == 0)
                ctx.assume(q(i, j, k + 1) == q(i, j, k) + x)
            return {v: ctx.fresh_real(v) for v in ("mean", "mean_sq")}

        def welford(env, k):
            i, j, m, q = env["i"], env["j"], env["mean"], env["mean_sq"]
            define(env, 0)
            kr = SymReal(z3.ToReal(integer(k).e))
            return [("mean", m * kr == S1(i, j, k)), ("squares", q + kr * m * m == S2(i, j, k)), ("not-negative", q >= 0), ("none-yet", ctx.Or(k >= 1, ctx.And(m == 0, q == 0)))]

        images = Loop("images", welford, define)
        ctx.scratch["loops"] = {(f, "kinds"): "fff", (f, 0): rows, (f, 1): cols, (f, 2): images}
    m, s = repo(N).mean_std(D)
    ctx.ensure("shape", ctx.And(g.same_shape(m, HW), g.same_shape(s, HW)))
    for p in g.positions(HW):
        if ctx.symbolic:
            wm = S1(pi, pj, n) / n
            wv = S2(pi, pj, n) / n - wm * wm
        else:
            wm, wv = welford_ref(ctx, [float(D[k, p["h"], p["w"]]) for k in range(g.dim("n"))])
        ctx.ensure_eq("mean", g.get(m, HW, p), wm, rel=1e-5)
        v = g.get(s, HW, p)
        ctx.ensure_eq("variance", v * v, wv, tol=1e-5)
        ctx.ensure("std-not-negative", v >= 0)


def _stack(ctx):
    import numpy as np

    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10**6))
    n = ctx.int("n", lo=2, hi=25)
    shape = ctx.choice("shape", [(n, 2, 3), (n, 2, 3, 3), (n, 3, 1, 1)])
    return rng.uniform(0, 1, shape).astype(np.float32)


@REG.harness([N + ".median_array"], kind="sample", samples=40)
def median_of_a_stack(ctx):
    import numpy as np

    silence(ctx)
    d = _stack(ctx)
    out = repo(N).median_array(d)
    ctx.ensure("shape", out.shape == d.shape[1:])
    ctx.ensure("median", np.allclose(out, np.median(d.astype(float), axis=0), atol=1e-6))


@REG.harness([N + ".image_mean_std_trimmed", N + ".calc_mean_and_std_trimmed"], kind="sample", samples=25)
def trimmed_mean_of_a_stack(ctx):
    """the same fraction is dropped at both ends of every pixel's sorted values"""
    import numpy as np

    silence(ctx)
    d = _stack(ctx)
    ctx.patch(repo(N), "trange", lambda n, **k: range(n))
    r = ctx.choice("ratio", [0.2, 0.5, 0.4])
    m, s = repo(N).image_mean_std_trimmed(d, r)
    f = d.astype(float) if d.ndim == 4 else d.astype(float)[..., None]
    ctx.ensure("shape", m.shape == f.shape[1:] and s.shape == m.shape, "%s" % (m.shape,))
    v = np.sort(f, axis=0)
    a, b = int(len(d) * r / 2.0), int(len(d) * (1.0 - r / 2.0))
    ctx.ensure("mean", np.allclose(m, v[a:b].mean(axis=0), atol=1e-5))
    ctx.ensure("std", np.allclose(s, v[a:b].std(axis=0), atol=1e-5))
    m1 = repo(N).image_mean_std_trimmed(d, r, calculate_std=False)
    ctx.ensure("mean-only", np.allclose(m1, m))


@REG.harness([N + ".calc_mean_and_std_trimmed"], kind="bounded", bound="5 symbolic values, ratio 0.4", samples=20)
def trimmed_mean_of_values(ctx):
    silence(ctx)
    np = np_(ctx)
    v = [ctx.real("x%d" % k, lo=0, hi=1) for k in range(5)]
    if not ctx.symbolic:
        v = sorted(v)
    for a, b in zip(v, v[1:]):
        ctx.assume(a <= b)
    xs = v[1:4]
    order = ctx.choice("order", [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 4, 0, 3, 1)])
    r = repo(N).calc_mean_and_std_trimmed(np.array([v[k] for k in order]), 0.4)
    m, q = welford_ref(ctx, xs)
    ctx.ensure_eq("mean", r[0], m, rel=1e-6)
    ctx.ensure_eq("variance", r[1] * r[1], q, tol=1e-6)


@REG.harness(["correct_images.tools.memmap.create_memmap", "correct_images.tools.memmap.memmap_loader"], kind="sample", samples=10)
def stack_of_files_keeps_order(ctx):
    import numpy as np
    import pathlib, shutil, tempfile

    silence(ctx)
    M = repo("correct_images.tools.memmap")
    ch = ctx.choice("channels", [1, 3])
    shape = (3, 4) if ch == 1 else (3, 4, 3)
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10**6))
    n = ctx.int("n", lo=1, hi=6)
    ims = [rng.uniform(0, 1, shape).astype(np.float32) for _ in range(n)]
    d = pathlib.Path(tempfile.mkdtemp(prefix="vc_"))
    try:
        f, h = M.create_memmap(list(range(n)), [3, 4, ch], d, loader=lambda k: ims[k])
        ctx.ensure("stack", np.array_equal(np.array(h).reshape((n,) + shape), np.stack(ims)))
        del h
    finally:
        shutil.rmtree(d)
