"""R17: attenuation correction shows every pixel as if seen from the target distance."""
from imgspec import *

REG = Registry("R17")
A = "correct_images.corrections.attenuation"
CF = "correct_images.tools.curve_fitting"
N = "correct_images.tools.numerical"
C = "correct_images.corrector"


def model(ctx, p, d):
    """intensity of the fitted curve at distance d"""
    return p[0] * ctx.exp(p[1] * d) + p[2]


def params(ctx, ch, h, w):
    """attenuation parameters: a > 0, b <= 0, c >= 0"""
    np = np_(ctx)
    P = np.empty((ch, h, w, 3))
    for c, i, j in cells((ch, h, w)):
        t = "_%d_%d_%d" % (c, i, j)
        P[c, i, j, 0] = ctx.real("a" + t, lo=0.01, hi=5)
        P[c, i, j, 1] = ctx.real("b" + t, lo=-2, hi=0)
        P[c, i, j, 2] = ctx.real("c" + t, lo=0, hi=1)
    return P


def _correct(ch, squeezed):
    def h(ctx):
        silence(ctx)
        H, W = 2, 2
        shape = (H, W) if squeezed else (H, W, ch)
        img = grid(ctx, "im", shape, 0, 1)
        before = img.copy()
        D = grid(ctx, "d", (H, W), 0.5, 20)
        P = params(ctx, ch, H, W)
        G = grid(ctx, "g", (ch, H, W), 0, 5)
        out = repo(A).attenuation_correct(img, D, P, G)
        ctx.ensure("shape", tuple(out.shape) == shape, str(out.shape))
        for ix in cells(shape):
            i, j = ix[:2]
            k = 0 if squeezed else ix[2]
            ctx.ensure_eq("pixel-%s" % (ix,), out[ix], G[k, i, j] / model(ctx, P[k, i, j], D[i, j]) * before[ix], rel=1e-4, scale=1)
            ctx.ensure_eq("input-kept-%s" % (ix,), img[ix], before[ix])

    h.__name__ = "attenuation_correct_%s" % ("gray" if squeezed else "%d_channels" % ch)
    REG.harness([A + ".attenuation_correct"], kind="bounded", bound="2x2 pixels, symbolic intensities, distances, parameters and gains", samples=20)(h)


_correct(1, True)
_correct(1, False)
_correct(3, False)


def _gains(ch):
    def h(ctx):
        silence(ctx)
        H, W = 2, 3
        P = params(ctx, ch, H, W)
        t = ctx.real("target", lo=0.5, hi=20)
        G = repo(A).calculate_correction_gains(t, P, H, W, ch)
        ctx.ensure("shape", tuple(G.shape) == (ch, H, W))
        for c, i, j in cells((ch, H, W)):
            ctx.ensure_eq("gain-%d%d%d" % (c, i, j), G[c, i, j], model(ctx, P[c, i, j], t), tol=1e-6)

    h.__name__ = "correction_gains_%d" % ch
    REG.harness([A + ".calculate_correction_gains"], kind="bounded", bound="2x3 pixels, symbolic parameters and target distance", samples=20)(h)


_gains(1)
_gains(3)


def _scene(ch):
    def h(ctx):
        """a scene of reflectance r seen at any distance is shown as at the target distance"""
        silence(ctx)
        H, W = 1, 2
        P = params(ctx, ch, H, W)
        t = ctx.real("target", lo=0.5, hi=20)
        D = grid(ctx, "d", (H, W), 0.5, 20)
        r = grid(ctx, "r", (H, W, ch), 0, 1)
        np = np_(ctx)
        img = np.empty((H, W, ch))
        for i, j, c in cells((H, W, ch)):
            img[i, j, c] = r[i, j, c] * model(ctx, P[c, i, j], D[i, j])
        m = repo(A)
        out = m.attenuation_correct(img, D, P, m.calculate_correction_gains(t, P, H, W, ch))
        for i, j, c in cells((H, W, ch)):
            ctx.ensure_eq("as-seen-from-target-%d%d%d" % (i, j, c), out[i, j, c], r[i, j, c] * model(ctx, P[c, i, j], t), rel=1e-4, scale=1)

    h.__name__ = "scene_at_target_distance_%d" % ch
    REG.harness([A + ".attenuation_correct", A + ".calculate_correction_gains"], kind="bounded", bound="2 pixels, symbolic scene, distances and parameters", samples=20)(h)


_scene(1)
_scene(3)


# ------------------------------------------------------------------ images of any size
HW = ("h", "w")


def any_params(ctx, g, ch):
    P = g.array("p", (ch, "h", "w", 3), 0, 1)
    # a > 0, b <= 0, c >= 0
    if ctx.symbolic:
        for c in range(ch):
            ctx.assume(P.at(c, 0) >= 0.01)
            ctx.assume(P.at(c, 0) <= 5)
            P.v[c, 0, 0, 1] = ctx.real("b_%d" % c, lo=-2, hi=0)
    else:
        P[..., 0] = P[..., 0] * 5 + 0.01
        P[..., 1] *= -2
    return P


def _any_correct(ch, squeezed):
    def h(ctx):
        silence(ctx)
        g = AnyGrid(ctx, h=5, w=5)
        ax = HW if squeezed else HW + (ch,)
        img = g.array("im", ax, 0, 1)
        before = img.copy()
        D, P, G = g.array("d", HW, 0.5, 20), any_params(ctx, g, ch), g.array("g", (ch,) + HW, 0, 5)
        out = repo(A).attenuation_correct(img, D, P, G)
        ctx.ensure("shape", g.same_shape(out, ax), str(out.shape))
        for p in g.positions():
            for k in range(ch):
                ix = () if squeezed else (k,)
                m = model(ctx, [g.get(P, (ch,) + HW + (3,), p, k, q) for q in range(3)], g.get(D, HW, p))
                ctx.ensure_eq("pixel-%d" % k, g.get(out, ax, p, *ix), g.get(G, (ch,) + HW, p, k) / m * g.get(before, ax, p, *ix), rel=1e-4, scale=1)
                ctx.ensure_eq("input-kept-%d" % k, g.get(img, ax, p, *ix), g.get(before, ax, p, *ix))

    h.__name__ = "attenuation_correct_any_size_%s" % ("gray" if squeezed else "%d_channels" % ch)
    REG.harness([A + ".attenuation_correct"], samples=20)(h)


_any_correct(1, True)
_any_correct(1, False)
_any_correct(3, False)


def _any_gains(ch):
    def h(ctx):
        silence(ctx)
        g = AnyGrid(ctx, h=5, w=5)
        P = any_params(ctx, g, ch)
        t = ctx.real("target", lo=0.5, hi=20)
        G = repo(A).calculate_correction_gains(t, P, g.dim("h"), g.dim("w"), ch)
        ctx.ensure("shape", g.same_shape(G, (ch,) + HW))
        for p in g.positions():
            for c in range(ch):
                ctx.ensure_eq("gain-%d" % c, g.get(G, (ch,) + HW, p, c), model(ctx, [g.get(P, (ch,) + HW + (3,), p, c, q) for q in range(3)], t), tol=1e-6)

    h.__name__ = "correction_gains_any_size_%d" % ch
    REG.harness([A + ".calculate_correction_gains"], samples=20)(h)


_any_gains(1)
_any_gains(3)


def _any_scene(ch):
    def h(ctx):
        """a scene of any size, seen at any distance, is shown as at the target distance"""
        silence(ctx)
        g = AnyGrid(ctx, h=4, w=4)
        P = any_params(ctx, g, ch)
        t = ctx.real("target", lo=0.5, hi=20)
        D, r = g.array("d", HW, 0.5, 20), g.array("r", HW + (ch,), 0, 1)
        img = r.copy()
        pa, ia = (ch,) + HW + (3,), HW + (ch,)
        for p in g.positions():
            for c in range(ch):
                v = g.get(r, ia, p, c) * model(ctx, [g.get(P, pa, p, c, q) for q in range(3)], g.get(D, HW, p))
                if ctx.symbolic:
                    img.v[0, 0, c] = v
                else:
                    img[p["h"], p["w"], c] = v
        m = repo(A)
        out = m.attenuation_correct(img, D, P, m.calculate_correction_gains(t, P, g.dim("h"), g.dim("w"), ch))
        for p in g.positions():
            for c in range(ch):
                ctx.ensure_eq("as-seen-from-target-%d" % c, g.get(out, ia, p, c), g.get(r, ia, p, c) * model(ctx, [g.get(P, pa, p, c, q) for q in range(3)], t), rel=1e-4, scale=1)

    h.__name__ = "scene_at_target_distance_any_size_%d" % ch
    REG.harness([A + ".attenuation_correct", A + ".calculate_correction_gains"], samples=20)(h)


_any_scene(1)
_any_scene(3)


def _per_pixel(ch, H, W):
    def h(ctx):
        """every pixel and channel is fitted with its own column of the maps"""
        silence(ctx)
        sequential(ctx, A)
        nb = 2
        D = grid(ctx, "d", (nb, H * W), 1, 10)
        I = grid(ctx, "i", (nb, H * W, ch), 0, 1)
        seen = []

        def fit(altitudes, intensities, x, y, figure_path):
            seen.append((x, y))
            np = np_(ctx)
            if ctx.symbolic:
                a = list(altitudes) + list(intensities)
                return np.array([apply_uf(ctx, "fit%d" % k, *a) for k in range(3)])
            return np.array([float(sum(altitudes)), float(sum(intensities)), float(altitudes[0] - intensities[-1])])

        replace_everywhere(ctx, CF, "curve_fitting", fit)
        import pathlib

        out = repo(A).calculate_attenuation_parameters(I, D, H, W, ch, pathlib.Path("/nonexistent"))
        ctx.ensure("shape", tuple(out.shape) == (ch, H, W, 3))
        for c, y, x in cells((ch, H, W)):
            p = y * W + x
            want = fit(D[:, p], I[:, p, c], x, y, None)
            for k in range(3):
                ctx.ensure_eq("own-fit-%d-%d-%d-%d" % (c, y, x, k), out[c, y, x, k], want[k], rel=1e-4, scale=20)
        ctx.ensure("position-named", set(seen) == {(x, y) for y in range(H) for x in range(W)}, str(seen))

    h.__name__ = "parameters_per_pixel_%d_%dx%d" % (ch, H, W)
    REG.harness([A + ".calculate_attenuation_parameters"], kind="bounded", bound="%dx%d pixels, %d channels, two distance bins; curve fitting by its contract" % (H, W, ch), samples=10)(h)


_per_pixel(1, 2, 3)
_per_pixel(3, 2, 3)
_per_pixel(1, 3, 2)


@REG.harness([CF + ".curve_fitting"], kind="sample", samples=60)
def fit_uses_valid_pairs_only(ctx):
    """least squares gets exactly the pairs of one image whose distance and intensity
    are finite and positive, within the physical bounds; else the neutral parameters"""
    import numpy as np

    silence(ctx)
    m = repo(CF)
    calls = []

    class R:
        x = np.array([0.5, -0.25, 0.125])

    def ls(f, x0, *a, **k):
        calls.append((f, x0, k))
        return R

    class O:
        least_squares = staticmethod(ls)

    ctx.patch(m, "optimize", O)
    n = ctx.int("n", lo=1, hi=12)
    kinds = [ctx.choice("kind%d" % k, ["ok", "ok", "ok", "nan_d", "nan_i", "zero_d", "zero_i", "neg_i", "inf_i"]) for k in range(12)]
    d, y, pairs = [], [], []
    for k in range(n):
        a, b = ctx.real("d%d" % k, lo=1, hi=10), ctx.real("i%d" % k, lo=0.01, hi=1)
        kd = kinds[k]
        if kd == "nan_d":
            a = float("nan")
        elif kd == "zero_d":
            a = 0.0
        elif kd == "nan_i":
            b = float("nan")
        elif kd == "zero_i":
            b = 0.0
        elif kd == "neg_i":
            b = -b
        elif kd == "inf_i":
            b = float("inf")
        else:
            pairs.append((a, b))
        d.append(a)
        y.append(b)
    with np.errstate(all="ignore"):
        out = m.curve_fitting(np.array(d), np.array(y), 100, 100, None)
    if not pairs:
        ctx.ensure("neutral", list(out) == [1, 0, 0] and not calls, str(out))
        return
    ctx.ensure("one-fit", len(calls) == 1)
    f, x0, k = calls[0]
    xs, ys = k["args"]
    ctx.ensure("pairs", sorted(zip(map(float, xs), map(float, ys))) == sorted(pairs), "%s vs %s" % (list(zip(xs, ys)), pairs))
    lo, hi = k["bounds"]
    ctx.ensure("a-positive", 0 < lo[0] < 1e-3 and hi[0] == np.inf)
    ctx.ensure("b-not-positive", lo[1] == -np.inf and hi[1] == 0)
    ctx.ensure("c-between-0-and-darkest", lo[2] == 0 and abs(hi[2] - min(b for _, b in pairs)) < 1e-9)
    ctx.ensure("start-within-bounds", all(np.isfinite(x0)) and all(l <= x <= h + 1e-9 for l, x, h in zip(lo, x0, hi)), str(x0))
    ctx.ensure("result", list(out) == list(R.x), str(out))
    p = [ctx.real("p%d" % q, lo=-1, hi=1) for q in range(3)]
    r = f(np.array(p), np.asarray(xs, dtype=float), np.asarray(ys, dtype=float))
    for a, b, g in zip(xs, ys, r):
        ctx.ensure_eq("residual", abs(g), abs(p[0] * np.exp(p[1] * a) + p[2] - b), tol=1e-6, scale=10)


@REG.harness([CF + ".curve_fitting", CF + ".exp_curve", CF + ".residual_exp_curve"], kind="sample", samples=25)
def fit_recovers_attenuation(ctx):
    """noise-free data of a curve is fitted by that curve, also with missing bins"""
    import numpy as np

    silence(ctx)
    a, b, c = ctx.real("a", lo=0.3, hi=1), ctx.real("b", lo=-0.6, hi=-0.2), ctx.real("c", lo=0.01, hi=0.05)
    d = np.arange(2, 10, 0.25)
    y = a * np.exp(b * d) + c
    hole = ctx.int("hole", lo=0, hi=len(d) - 1)
    d2, y2 = d.copy(), y.copy()
    d2[hole], y2[hole] = (0, 0) if ctx.flag("zero") else (np.nan, y[hole])
    p = repo(CF).curve_fitting(d2, y2, 100, 100, None)
    fit = p[0] * np.exp(p[1] * d) + p[2]
    ctx.ensure("curve", float(np.max(np.abs(fit - y))) < 0.02 * a, "fit %s data %s" % (p, (a, b, c)))


# ------------------------------------------------------------------ distance bins
class _Corr:
    pass


def corrector(ctx, H, W, ch, **k):
    """a Corrector with only the state compute_distance_bin / process_image read"""
    cls = repo(C).Corrector
    o = cls.__new__(cls)
    set_fields(o, image_height=H, image_width=W, image_channels=ch, depth_map_list=[], smoothing="mean", parse_altitude_min=1.0, bin_band=0.1, memmaps_to_remove=[], memmap_location="/nonexistent", attenuation_parameters_folder="/nonexistent")
    return set_fields(o, **k)


def middle(smoothing, values):
    import numpy

    v = sorted(values)
    if smoothing == "median":
        return float(numpy.median(v))
    return float(numpy.mean(v[int(len(v) * 0.1) : int(len(v) * 0.9)]))


def _bin(smoothing, depth_maps, kind):
    def h(ctx):
        """a bin of at least ten images holds the mean (median, ...) of exactly its images and distances"""
        silence(ctx)
        no_plots(ctx, C)
        np = np_(ctx)
        H, W, ch = 2, 2, 1
        n = 12
        # images 0..11: ten or eleven of them in bin 1 (positions chosen), others elsewhere
        out1, out2 = ctx.choice("out1", [0, 5, 11]), ctx.choice("out2", [None, 3])
        member = [k for k in range(n) if k not in (out1, out2)]
        import numpy

        idxs = numpy.array([1 if k in member else (0 if k % 2 else 2) for k in range(n)])
        ims = {k: grid(ctx, "im%d" % k, (H, W), 0, 1) for k in range(n)}
        if depth_maps:
            dms = {k: grid(ctx, "dm%d" % k, (H, W), 1, 9) for k in range(n)}
            # pixels without distance: zero
            hole = ctx.choice("without_distance", [(), (4,), (6, 1)])
            for k in hole:
                dms[k][0, 1] = 0 * dms[k][0, 1]
            replace_everywhere(ctx, "correct_images.loaders.depth_map", "loader", lambda f, w, h_: dms[f])
            DV = None
            if not ctx.symbolic:
                DV = numpy.array([float(numpy.mean(dms[k])) for k in range(n)])
        else:
            DV = [ctx.real("alt%d" % k, lo=1, hi=9) for k in range(n)]
            DV = np.array(DV)
        o = corrector(ctx, H, W, ch, smoothing=smoothing, camera_image_list=list(range(n)), depth_map_list=list(range(n)) if depth_maps else [], loader=lambda f, *a, **k: ims[f].copy())
        if smoothing != "mean":
            import tempfile, shutil

            o.memmap_location = tempfile.mkdtemp(prefix="vc_")
        imap, dmap = np.zeros((3, H * W, ch)), np.zeros((3, H * W))
        imap[:] = -7
        dmap[:] = -7
        room = 1000 if smoothing == "mean" else ctx.choice("room_for_images", [1000, 6, 9])
        try:
            repo(C).Corrector.compute_distance_bin(o, idxs, 1, imap, dmap, room, 1.0, DV)
            repo(C).Corrector.compute_distance_bin(o, idxs, 0, imap, dmap, 1000, 1.0, DV)
        finally:
            if smoothing != "mean":
                shutil.rmtree(o.memmap_location)
        if smoothing != "mean" and room < len(member):
            # the statistic of some `room` images of the bin, the same ones for every pixel
            import itertools

            ok = False
            for sub in itertools.combinations(member, room):
                ds = [numpy.mean([float(DV[k]) for k in q]) for q in (member, sub)]
                if all(abs(imap[1, p, 0] - middle(smoothing, [float(ims[k][p // W, p % W]) for k in sub])) < 1e-5 for p in range(H * W)) and any(all(abs(dmap[1, p] - x) < 1e-4 for p in range(H * W)) for x in ds):
                    ok = True
                    break
            ctx.ensure("images-and-distances-of-the-bin", ok, "no choice of %d images of the bin has these values" % room)
            return
        for p in range(H * W):
            i, j = p // W, p % W
            if smoothing == "mean":
                s = 0
                for k in member:
                    s = s + ims[k][i, j]
                want = s / len(member)
            else:
                want = middle(smoothing, [float(ims[k][i, j]) for k in member])
            ctx.ensure_eq("image-%d" % p, imap[1, p, 0], want, rel=1e-5, scale=1)
            s, m = 0, 0
            for k in member:
                if not depth_maps or k not in hole or p != 1:
                    s, m = s + (dms[k][i, j] if depth_maps else DV[k]), m + 1
            ctx.ensure_eq("distance-%d" % p, dmap[1, p], s / m, rel=1e-5, scale=10)
            for b in (0, 2):
                ctx.ensure_eq("other-bins-untouched-%d-%d" % (b, p), dmap[b, p], -7)
                ctx.ensure_eq("other-bins-untouched-im-%d-%d" % (b, p), imap[b, p, 0], -7)

    h.__name__ = "distance_bin_%s%s" % (smoothing, "_depth_maps" if depth_maps else "")
    REG.harness([C + ".Corrector.compute_distance_bin", N + ".running_mean_std"], kind=kind, bound="12 images of 2x2 pixels, ten or eleven in the bin, symbolic intensities and distances" if kind == "bounded" else None, samples=12)(h)


_bin("mean", False, "bounded")
_bin("mean", True, "bounded")
_bin("median", False, "sample")
_bin("mean_trimmed", False, "sample")


@REG.harness([C + ".Corrector.generate_attenuation_correction_parameters", C + ".Corrector.compute_distance_bin", N + ".RunningMeanStd"], kind="sample", samples=4)
def parameters_of_a_dive(ctx):
    """end to end on synthetic images: gains refer to the mean distance, statistics are
    those of the corrected images"""
    import numpy as np
    import pathlib, shutil, tempfile

    silence(ctx)
    no_plots(ctx, C, A)
    sequential(ctx, C, A)
    H, W, ch = 10, 10, ctx.choice("channels", [1, 3])
    d0 = pathlib.Path(tempfile.mkdtemp(prefix="vc_"))
    try:
        seed = ctx.int("seed", lo=0, hi=10**6)
        rng = np.random.default_rng(seed)
        # bands of 0.1 m with enough images (the first and the last among them) and one with too few
        counts = {0: 11, 2: 14, 5: 10, 6: 9, 7: 12, 9: 10}
        alts = [2.0 + 0.1 * (b + rng.uniform(0.05, 0.95)) for b, m in counts.items() for _ in range(m)]
        alts = [alts[k] for k in rng.permutation(len(alts))]
        n = len(alts)
        a, b, c = 0.8, -0.3, 0.01
        shape = (H, W) if ch == 1 else (H, W, ch)
        scene = rng.uniform(0.2, 0.9, shape)
        ims = [scene * (a * np.exp(b * x) + c) for x in alts]
        o = corrector(ctx, H, W, ch, camera_image_list=list(range(n)), altitude_list=alts, distance_metric="altitude", parse_altitude_min=2.0, parse_altitude_max=3.0, memmap_size_gb=1.0, memmap_location=str(d0), attenuation_parameters_folder=d0, loader=lambda f, *a, **k: ims[f].astype(np.float32))
        for k in ("images_map", "distances_map", "attenuation_params", "correction_gains", "corrected_mean", "corrected_std", "raw_mean", "raw_std"):
            setattr(o, k + "_filepath", d0 / (k + ".npy"))
        o.attenuation_plot_filepath = d0 / "x.png"
        fits, real = {}, repo(CF).curve_fitting

        def fit(altitudes, intensities, x, y, *r, **k):
            with np.errstate(all="ignore"):
                fits.setdefault((x, y), []).append(sorted((float(p), float(q)) for p, q in zip(altitudes, intensities) if p > 0 and q > 0 and p * 0 == 0 and q * 0 == 0))
            return real(altitudes, intensities, x, y, *r, **k)

        replace_everywhere(ctx, CF, "curve_fitting", fit)
        o.generate_attenuation_correction_parameters()
        x, y = 3, 7
        want = []
        for band in counts:
            ks = [k for k in range(n) if 2.0 + 0.1 * band < alts[k] < 2.1 + 0.1 * band]
            if len(ks) >= 10:
                want.append((np.mean([alts[k] for k in ks]), np.mean([ims[k][y, x].reshape(-1) for k in ks], axis=0)))
        for k in range(ch):
            w = sorted((float(p), float(q[k])) for p, q in want)
            ctx.ensure("one-pair-per-band-%d" % k, any(len(g) == len(w) and np.allclose(g, w, atol=1e-4) for g in fits[(x, y)]), "%s vs %s" % (fits[(x, y)], w))
        P = np.load(o.attenuation_params_filepath)
        G = np.load(o.correction_gains_filepath)
        M = np.load(o.corrected_mean_filepath).reshape(H, W, ch)
        S = np.load(o.corrected_std_filepath).reshape(H, W, ch)
        t = np.mean(alts)
        ctx.ensure("gains-at-mean-distance", np.allclose(G, P[..., 0] * np.exp(P[..., 1] * t) + P[..., 2], rtol=1e-4))
        sc = scene.reshape(H, W, ch)
        want = sc * (a * np.exp(b * t) + c)
        ctx.ensure("scene-at-target-distance", np.allclose(M, want, rtol=0.03), "%s vs %s" % (M[0, 0], want[0, 0]))
        corr = np.stack([np.stack([G[k] / (P[k, ..., 0] * np.exp(P[k, ..., 1] * x) + P[k, ..., 2]) * im.reshape(H, W, ch)[..., k] for k in range(ch)], axis=-1) for x, im in zip(alts, ims)])
        ctx.ensure("mean-of-corrected", np.allclose(M, corr.mean(axis=0), atol=1e-4))
        ctx.ensure("std-of-corrected", np.allclose(S, np.maximum(corr.std(axis=0), 1e-6), atol=1e-4))
    finally:
        shutil.rmtree(d0)
