"""R18: what a corrected image shows, and where it is written."""
from imgspec import *

REG = Registry("R18")
K = "correct_images.corrections."
C = "correct_images.corrector"
F = "correct_images.tools.file_handlers"


# ------------------------------------------------------------------ balance of intensities
def _stat(shape):
    def h(ctx):
        silence(ctx)
        img, mean = grid(ctx, "im", shape, 0, 1), grid(ctx, "mean", shape, 0, 1)
        std = grid(ctx, "std", shape, 0.000001, 0.5)
        br, co = ctx.real("brightness", lo=0, hi=100), ctx.real("contrast", lo=0, hi=100)
        out = repo(K + "pixel_stat").pixel_stat(img, mean, std, br, co)
        for ix in cells(shape):
            want = (img[ix] - mean[ix]) / std[ix] * co / 100 + br / 100
            want = ctx.ite(want < 0, 0.0, ctx.ite(want > 1, 1.0, want))
            ctx.ensure_eq("pixel-%s" % (ix,), out[ix], want, rel=1e-6)

    h.__name__ = "target_mean_and_std_%s" % "x".join(map(str, shape))
    REG.harness([K + "pixel_stat.pixel_stat"], kind="bounded", bound="image of %s, symbolic values" % "x".join(map(str, shape)), samples=20)(h)


_stat((2, 2))
_stat((1, 2, 3))


def gamma(ctx, x, dark):
    return 12.92 * x if dark else 1.055 * ctx.pow(x, 1 / 1.5) - 0.055


@REG.harness([K + "gamma.gamma_correct"], kind="bounded", bound="image of two pixels with symbolic values", samples=40)
def gamma_of_two_pixels(ctx):
    silence(ctx)
    img = grid(ctx, "im", (1, 2), 0, 1)
    if not ctx.symbolic and ctx.flag("dark"):
        img = img * 0.003
    before = img.copy()
    dark = True
    for ix in cells((1, 2)):
        if not before[ix] < 0.0031308:
            dark = False
    out = repo(K + "gamma").gamma_correct(img)
    for ix in cells((1, 2)):
        ctx.ensure_eq("curve-%s" % (ix,), out[ix], gamma(ctx, before[ix], dark), rel=1e-6)
        ctx.ensure_eq("input-kept-%s" % (ix,), img[ix], before[ix])
        ctx.ensure("never-above-white-%s" % (ix,), ctx.le(out[ix], 1 + 1e-9))


def _manual(ch):
    def h(ctx):
        silence(ctx)
        np = np_(ctx)
        shape = (2, 2) if ch == 1 else (2, 2, 3)
        img = grid(ctx, "im", shape, 0, 1)
        before = img.copy()
        G, S = grid(ctx, "g", (3, 3), -2, 4), grid(ctx, "s", (3,), 0, 0.5)
        out = repo(K + "manual_balance").manual_balance(img, G, S)
        ctx.ensure("shape", tuple(out.shape) == shape)
        for ix in cells(shape):
            if ch == 1:
                want = (before[ix] - S[0]) * G[0, 0]
            else:
                i, j, c = ix
                want = G[c, 0] * (before[i, j, 0] - S[0]) + G[c, 1] * (before[i, j, 1] - S[1]) + G[c, 2] * (before[i, j, 2] - S[2])
            ctx.ensure_eq("pixel-%s" % (ix,), out[ix], want, rel=1e-5)
            ctx.ensure_eq("input-kept-%s" % (ix,), img[ix], before[ix])

    h.__name__ = "manual_balance_%d" % ch
    REG.harness([K + "manual_balance.manual_balance"], kind="bounded", bound="2x2 pixels, symbolic image, gains and subtractors", samples=20)(h)


_manual(1)
_manual(3)


# ------------------------------------------------------------------ images of any size
HW = ("h", "w")


def _any_stat(ax):
    def h(ctx):
        silence(ctx)
        g = AnyGrid(ctx, h=5, w=5)
        img, mean, std = g.array("im", ax, 0, 1), g.array("mean", ax, 0, 1), g.array("std", ax, 0.000001, 0.5)
        br, co = ctx.real("brightness", lo=0, hi=100), ctx.real("contrast", lo=0, hi=100)
        before = img.copy()
        out = repo(K + "pixel_stat").pixel_stat(img, mean, std, br, co)
        ctx.ensure("shape", g.same_shape(out, ax))
        for p in g.positions():
            for c in range(3) if len(ax) == 3 else [None]:
                at = lambda a: g.get(a, ax, p, *([] if c is None else [c]))
                want = (at(before) - at(mean)) / at(std) * co / 100 + br / 100
                want = ctx.ite(want < 0, 0.0, ctx.ite(want > 1, 1.0, want))
                ctx.ensure_eq("pixel-%s" % c, at(out), want, rel=1e-6)
                ctx.ensure_eq("input-kept-%s" % c, at(img), at(before))

    h.__name__ = "target_mean_and_std_any_size_%s" % ("colour" if len(ax) == 3 else "gray")
    REG.harness([K + "pixel_stat.pixel_stat"], samples=20)(h)


_any_stat(HW)
_any_stat(HW + (3,))


def _any_gamma(ax):
    def h(ctx):
        """one curve for the whole image: the linear one only if every pixel is dark"""
        silence(ctx)
        g = AnyGrid(ctx, h=5, w=5)
        img = g.array("im", ax, 0, 1)
        if not ctx.symbolic and ctx.flag("dark"):
            img *= 0.0031
        before = img.copy()
        dark = bool((before < 0.0031308).all())
        out = repo(K + "gamma").gamma_correct(img)
        ctx.ensure("shape", g.same_shape(out, ax))
        for p in g.positions():
            for c in range(3) if len(ax) == 3 else [None]:
                at = lambda a: g.get(a, ax, p, *([] if c is None else [c]))
                ctx.ensure_eq("curve-%s" % c, at(out), gamma(ctx, at(before), dark), rel=1e-6)
                ctx.ensure_eq("input-kept-%s" % c, at(img), at(before))
                ctx.ensure("never-above-white-%s" % c, ctx.le(at(out), 1 + 1e-9))

    h.__name__ = "gamma_any_size_%s" % ("colour" if len(ax) == 3 else "gray")
    REG.harness([K + "gamma.gamma_correct"], samples=40)(h)


_any_gamma(HW)
_any_gamma(HW + (3,))


@REG.harness([K + "manual_balance.manual_balance"], samples=20)
def manual_balance_any_size_gray(ctx):
    silence(ctx)
    g = AnyGrid(ctx, h=5, w=5)
    img = g.array("im", HW, 0, 1)
    before = img.copy()
    G, S = grid(ctx, "g", (3, 3), -2, 4), grid(ctx, "s", (3,), 0, 0.5)
    out = repo(K + "manual_balance").manual_balance(img, G, S)
    ctx.ensure("shape", g.same_shape(out, HW))
    for p in g.positions():
        ctx.ensure_eq("pixel", g.get(out, HW, p), (g.get(before, HW, p) - S[0]) * G[0, 0], rel=1e-5)
        ctx.ensure_eq("input-kept", g.get(img, HW, p), g.get(before, HW, p))


@REG.harness([K + "manual_balance.manual_balance"], loops=[K + "manual_balance.manual_balance"], samples=20)
def manual_balance_any_size_colour(ctx):
    """the pixels before the current one are balanced, the others are as they were"""
    silence(ctx)
    g = AnyGrid(ctx, h=5, w=5)
    ax = HW + (3,)
    img = g.array("im", ax, 0, 1)
    before = img.copy()
    G, S = grid(ctx, "g", (3, 3), -2, 4), grid(ctx, "s", (3,), 0, 0.5)
    if ctx.symbolic:
        from pyvc.loops import Loop
        from pyvc import genpix

        b = [before.at(c) for c in range(3)]
        balanced = [G[c, 0] * (b[0] - S[0]) + G[c, 1] * (b[1] - S[1]) + G[c, 2] * (b[2] - S[2]) for c in range(3)]
        here = genpix.pos(HW)

        def inv(env, k):
            a = env["input_image"]
            return [("pixel-%d" % c, a.at(c) == ctx.ite(k > here, balanced[c], b[c])) for c in range(3)]

        def havoc(env, k):
            env["input_image"].forget("balanced")
            return {"input_image": env["input_image"]}

        f = "manual_balance"
        ctx.scratch["loops"] = {(f, "kinds"): "f", (f, 0): Loop("pixels", inv, havoc, modifies=lambda env: [env["input_image"]])}
    out = repo(K + "manual_balance").manual_balance(img, G, S)
    ctx.ensure("shape", g.same_shape(out, ax))
    for p in g.positions():
        for c in range(3):
            v = [g.get(before, ax, p, q) - S[q] for q in range(3)]
            ctx.ensure_eq("pixel-%d" % c, g.get(out, ax, p, c), G[c, 0] * v[0] + G[c, 1] * v[1] + G[c, 2] * v[2], rel=1e-5)
            ctx.ensure_eq("input-kept-%d" % c, g.get(img, ax, p, c), g.get(before, ax, p, c))


# ------------------------------------------------------------------ one image through the chain
def _chain(method, typ, metric):
    def h(ctx):
        """the image written for index idx is that image, corrected with its own distance
        and its own pixels' parameters, in red green blue order, scaled to 8 bit, under its own name"""
        silence(ctx)
        np = np_(ctx)
        H, W = 1, 2
        colour = typ in ("rgb", "bgr")
        bayer = typ not in ("rgb", "bgr", "grayscale")
        ch = 3 if colour else 1
        shape = (H, W, 3) if colour else (H, W)
        ims = [grid(ctx, "im%d" % k, shape, 0, 1) for k in range(2)]
        alts = [ctx.real("alt%d" % k, lo=1, hi=10) for k in range(2)]
        dms = [grid(ctx, "dm%d" % k, (H, W), 1, 10) for k in range(2)]
        names = ["/data/raw/dive/PR_1_LC16.%s" % e for e in ("tif", "tif")]
        names[1] = "/data/raw/dive/PR_2_LC16.b.c.tif"
        idx = ctx.choice("idx", [0, 1])
        rec = {}

        def write(image, filename, dest_path, dest_format):
            rec.update(image=image, name=filename, dest=dest_path, fmt=dest_format, n=rec.get("n", 0) + 1)
            return "written"

        def tag(image, *a):
            """any function of the image only: contract of a callee not under this harness"""
            return image

        def atten(image, d, P, G):
            out = np.empty(shape)
            for ix in cells(shape):
                c = ix[2] if colour else 0
                a = (image[ix], d[ix[0], ix[1]], P[c, ix[0], ix[1], 0], G[c, ix[0], ix[1]])
                out[ix] = apply_uf(ctx, "atten", *a) if ctx.symbolic else a[0] * a[3] + 0.01 * a[1] * a[2]
            return out

        def debayer(image, pattern):
            out = np.empty((H, W, 3))
            for i, j, c in cells((H, W, 3)):
                out[i, j, c] = apply_uf(ctx, "debayer_%s_%d" % (pattern, c), image[i, j], image[i, 0], image[i, 1]) if ctx.symbolic else float(image[i, j]) * (0.5 + 0.2 * c)
            return out

        C_ = repo(K[:-1])
        ctx.patch(C_, "attenuation_correct", atten)
        ctx.patch(C_, "debayer", debayer)
        if hasattr(repo(K + "attenuation"), "attenuation_correct"):
            replace_everywhere(ctx, K + "attenuation", "attenuation_correct", atten)
        replace_everywhere(ctx, K + "debayer", "debayer", debayer)
        replace_everywhere(ctx, F, "write_output_image", write)
        replace_everywhere(ctx, "correct_images.loaders.depth_map", "loader", lambda f, w, h_: dms[f])

        class Cam:
            extension = "tif"
            name = "Cam51707923"
            type = typ

        cls = repo(C).Corrector
        o = cls.__new__(cls)
        P, G = grid(ctx, "P", (ch, H, W, 1), 0.1, 1), grid(ctx, "G", (ch, H, W), 0.1, 1)
        mean, std = grid(ctx, "mean", shape, 0.2, 0.8), grid(ctx, "std", shape, 0.1, 0.3)
        rmean, rstd = grid(ctx, "rmean", shape, 0.2, 0.8), grid(ctx, "rstd", shape, 0.1, 0.3)
        br, co = ctx.real("brightness", lo=20, hi=60), ctx.real("contrast", lo=1, hi=20)
        M, S = grid(ctx, "M", (3, 3), -2, 2), grid(ctx, "S", (3,), 0, 0.3)
        set_fields(o, camera=Cam, camera_name=Cam.name, _type=typ, loader=lambda f: ims[names.index(str(f))].copy(), camera_image_list=list(names), altitude_list=alts, depth_map_list=[0, 1] if metric == "depth_map" else [], distance_metric=metric, correction_method=method, image_height=H, image_width=W, image_channels=ch, image_attenuation_parameters=P, correction_gains=G, image_corrected_mean=mean, image_corrected_std=std, image_raw_mean=rmean, image_raw_std=rstd, brightness=br, contrast=co, color_gain_matrix_rgb=M, subtractors_rgb=S, undistort=False, output_images_folder="/out", output_format="png", camera_params_file_path=None)
        ret = o.process_image(idx)
        ctx.ensure("written-once", rec.get("n") == 1 and ret == "written")
        ctx.ensure("own-name", str(rec["name"]) == ("PR_1_LC16", "PR_2_LC16.b.c")[idx], str(rec["name"]))
        ctx.ensure("own-folder-and-format", str(rec["dest"]) == "/out" and rec["fmt"] == "png")
        im = ims[idx]
        if method == "colour_correction":
            if metric == "uniform":
                m_, s_ = rmean, rstd
            else:
                m_, s_ = mean, std
                if metric == "altitude":
                    D = np.empty((H, W))
                    for ix in cells((H, W)):
                        D[ix] = alts[idx]
                else:
                    D = dms[idx]
                im = atten(im, D, P, G)
            t = np.empty(shape)
            for ix in cells(shape):
                x = (im[ix] - m_[ix]) / s_[ix] * co / 100 + br / 100
                t[ix] = ctx.ite(x < 0, 0.0, ctx.ite(x > 1, 1.0, x))
            im = t
        if bayer:
            im = debayer(im, typ)
        elif typ == "bgr":
            t = np.empty(shape)
            for i, j, c in cells(shape):
                t[i, j, c] = im[i, j, 2 - c]
            im = t
        oshape = tuple(im.shape)
        if method == "manual_balance":
            t = np.empty(oshape)
            for ix in cells(oshape):
                if len(oshape) == 2:
                    t[ix] = (im[ix] - S[0]) * M[0, 0]
                else:
                    i, j, c = ix
                    t[ix] = M[c, 0] * (im[i, j, 0] - S[0]) + M[c, 1] * (im[i, j, 1] - S[1]) + M[c, 2] * (im[i, j, 2] - S[2])
            im = t
        else:
            dark = True
            for ix in cells(oshape):
                if not im[ix] < 0.0031308:
                    dark = False
            t = np.empty(oshape)
            for ix in cells(oshape):
                t[ix] = gamma(ctx, im[ix], dark)
            im = t
        out = rec["image"]
        ctx.ensure("shape", tuple(out.shape) == oshape, "%s vs %s" % (out.shape, oshape))
        for ix in cells(oshape):
            x = im[ix] * 255
            x = ctx.ite(x < 0, 0.0, ctx.ite(x > 255, 255.0, x))
            if ctx.symbolic:
                ctx.ensure("8-bit-%s" % (ix,), ctx.And(ctx.le(out[ix], x), ctx.lt(x - 1, out[ix])))
            else:
                ctx.ensure("8-bit-%s" % (ix,), abs(float(out[ix]) - float(x)) <= 1.001, "got %r want %r" % (out[ix], x))

    h.__name__ = "image_%s_%s_%s" % (method, typ, metric)
    REG.harness([C + ".Corrector.process_image"], kind="bounded", bound="two images of 1x2 pixels, symbolic contents, distances, parameters and statistics; attenuation correction and debayering by contract", samples=10)(h)


for t in ("rgb", "bgr", "grayscale", "rggb"):
    _chain("colour_correction", t, "altitude")
    _chain("manual_balance", t, "altitude")
_chain("colour_correction", "grayscale", "depth_map")
_chain("colour_correction", "bgr", "depth_map")
_chain("colour_correction", "rgb", "uniform")
_chain("colour_correction", "bggr", "uniform")


@REG.harness([C + ".Corrector.process_correction"], kind="sample", samples=12)
def undistorted_with_the_calibration_of_this_camera(ctx):
    """images are undistorted when the user asks for it and their camera is calibrated"""
    import pathlib, shutil, tempfile

    silence(ctx)
    sequential(ctx, C)
    if hasattr(repo(C), "tqdm"):
        ctx.patch(repo(C), "tqdm", lambda *a, **k: None)
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
    try:
        proc = root / "processed" / "ship" / "dive"
        (proc / "out").mkdir(parents=True)
        have = ctx.choice("calibrated", [(), ("CamA",), ("CamB",), ("CamA", "CamB"), ("CamAA",), ("CamA", "CamAA")])
        asked = ctx.flag("asked")
        cal = proc.parent / "calibration"
        if have:
            cal.mkdir()
        for c in have:
            (cal / ("mono_%s.yaml" % c)).write_text(c)

        class Cam:
            extension, name, type = "tif", "CamA", "rgb"

        cls = repo(C).Corrector
        o = cls.__new__(cls)
        set_fields(o, camera=Cam, camera_name="CamA", path_processed=proc, path_raw=root / "raw", undistort=asked, camera_image_list=["a.tif", "b.tif"], altitude_csv_path=None, output_images_folder=proc / "out", camera_params_file_path=None)
        seen = []

        def process_image(self, idx):
            seen.append((self.undistort, self.camera_params_file_path))
            return proc / "out" / "x.png"

        ctx.patch(cls, "process_image", process_image)
        o.process_correction()
        ctx.ensure("both-images", len(seen) == 2)
        for u, f in seen:
            ctx.ensure("undistorted-iff-asked-and-calibrated", bool(u) == (asked and "CamA" in have))
            if asked and "CamA" in have:
                ctx.ensure("own-calibration", pathlib.Path(f).read_text() == "CamA", str(f))
    finally:
        shutil.rmtree(root)


# ------------------------------------------------------------------ parameters written by parse
@REG.harness([C + ".Corrector.process"], kind="sample", samples=15)
def process_applies_the_parameters_of_its_configuration(ctx):
    """images are corrected with exactly the parameters that parse left for this configuration,
    each in its own place, or not at all"""
    import numpy as np

    silence(ctx)
    metric = ctx.choice("metric", ["altitude", "uniform", "depth_map"])
    h, w, ch = ctx.choice("size", [(3, 4, 3), (4, 3, 1)])
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10**6))
    raw_shape = (h, w) if ch == 1 else (h, w, ch)
    shapes = dict(attenuation_params=(ch, h, w, 3), correction_gains=(ch, h, w), corrected_mean=(h, w, ch), corrected_std=(h, w, ch), raw_mean=raw_shape, raw_std=raw_shape)
    needed = ("raw_mean", "raw_std") if metric == "uniform" else ("attenuation_params", "correction_gains", "corrected_mean", "corrected_std")
    method = ctx.choice("method", ["colour_correction"] * 5 + ["manual_balance"])
    for lost in (None,) + tuple(shapes):
        # parse of another metric may or may not have left its own files
        for both in (False, True):
            _process(ctx, metric, method, (h, w, ch), rng, shapes, needed, lost, both)


def _process(ctx, metric, method, size, rng, shapes, needed, lost, both):
    import numpy as np
    import pathlib, shutil, tempfile

    h, w, ch = size
    held = dict(attenuation_params="image_attenuation_parameters", correction_gains="correction_gains", corrected_mean="image_corrected_mean", corrected_std="image_corrected_std", raw_mean="image_raw_mean", raw_std="image_raw_std")
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
    try:
        cls = repo(C).Corrector
        o = cls.__new__(cls)
        rec = {"steps": []}
        val = {}
        for k, s in shapes.items():
            f = root / (k + ".npy")
            setattr(o, k + "_filepath", f)
            if k != lost and (both or k in needed):
                val[k] = rng.random(s).astype(np.float32)
                np.save(f, val[k])
            setattr(o, held[k], None)
        set_fields(o, correction_method=method, distance_metric=metric, user_specified_image_list=None, user_specified_image_list_parse="parse.txt", user_specified_image_list_process="process.txt", camera_image_list=[], altitude_list=[], depth_map_list=[], image_height=h, image_width=w, image_channels=ch, path_processed=root, path_raw=root)

        def images(self, mode):
            rec["steps"].append("images")
            rec.update(mode=mode, listed=self.user_specified_image_list)

        ctx.patch(cls, "get_imagelist", images)
        ctx.patch(cls, "get_altitude_and_depth_maps", lambda self: rec["steps"].append("maps"))
        ctx.patch(cls, "process_correction", lambda self: rec["steps"].append("correct"))
        manual = o.correction_method == "manual_balance"
        try:
            o.process()
        except (Quit, SystemExit):
            ctx.ensure("stops-only-without-its-parameters", lost in needed and not manual, "lost %s, %s" % (lost, metric))
            ctx.ensure("no-image-without-parameters", "correct" not in rec["steps"])
            return
        ctx.ensure("stops-without-its-parameters", manual or lost not in needed)
        ctx.ensure("corrected-once-with-the-list-known", rec["steps"] == (["images", "correct"] if manual else ["images", "maps", "correct"]), str(rec["steps"]))
        ctx.ensure("list-of-this-step", rec["mode"] == "process" and rec["listed"] == "process.txt")
        if not manual:
            for k in needed:
                got = getattr(o, held[k])
                want = val[k].squeeze() if k.endswith(("mean", "std")) else val[k]
                ctx.ensure("own-" + k, got is not None and got.shape == want.shape and np.array_equal(got, want), held[k])
    finally:
        shutil.rmtree(root)


# ------------------------------------------------------------------ colour filter array
@REG.harness([K + "debayer.debayer"], kind="sample", samples=40)
def debayer_patterns(ctx):
    """a uniformly coloured scene behind each filter pattern gets its colour back, red first"""
    import numpy as np

    silence(ctx)
    rgb = [ctx.real(c, lo=0, hi=1) for c in "rgb"]
    pat = ctx.choice("pattern", ["rggb", "grbg", "bggr", "gbrg", "RGGB", "GRBG", "BGGR", "GBRG"])
    mos = np.zeros((12, 16), dtype=np.float32)
    for i in range(12):
        for j in range(16):
            mos[i, j] = rgb["rgb".index(pat.lower()[2 * (i % 2) + j % 2])]
    before = mos.copy()
    out = repo(K + "debayer").debayer(mos, pat)
    ctx.ensure("shape", out.shape == (12, 16, 3))
    for c in range(3):
        for i, j in ((5, 6), (6, 7), (4, 5), (7, 8)):
            ctx.ensure("colour-%d-%d-%d" % (c, i, j), abs(out[i, j, c] - rgb[c]) < 1e-3, "got %r want %r" % (out[i, j], rgb))
    ctx.ensure("input-kept", np.array_equal(mos, before))


# ------------------------------------------------------------------ reading images
@REG.harness(["correct_images.loaders.default.loader", "correct_images.loaders.loader.Loader"], kind="sample", samples=40)
def pixel_values_are_fractions_of_full_scale(ctx):
    import numpy as np
    import pathlib, shutil, tempfile
    import imageio.v2

    silence(ctx)
    d = pathlib.Path(tempfile.mkdtemp(prefix="vc_"))
    try:
        bits = ctx.choice("bits", [8, 16, 12, 10])
        rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10**6))
        dt = np.uint8 if bits == 8 else np.uint16
        file_bits = 8 if bits == 8 else 16
        raw = rng.integers(0, 2**bits, (5, 7)).astype(dt)
        # cameras store fewer bits left-aligned in 16 bit files
        stored = (raw.astype(np.uint32) << (file_bits - bits)).astype(dt)
        f = d / "x.png"
        imageio.v2.imwrite(f, stored)
        L = repo("correct_images.loaders.loader").Loader()
        L.bit_depth = bits
        L.set_loader("default")
        out = L(f)
        ctx.ensure("float", out.dtype.kind == "f")
        ctx.ensure("fraction-of-full-scale", np.allclose(out, raw / 2.0**bits, atol=1e-6), "%s vs %s" % (out[0], raw[0] / 2.0**bits))
    finally:
        shutil.rmtree(d)


@REG.harness(["correct_images.loaders.xviii.load_xviii_bayer_from_binary", "correct_images.loaders.xviii.loader"], kind="sample", samples=15)
def xviii_pixels_unpacked(ctx):
    """four 24 bit pixels in three little-endian 32 bit words"""
    import numpy as np
    import pathlib, shutil, tempfile

    silence(ctx)
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10**6))
    h, w = 4, 8
    px = rng.integers(0, 2**18, (h, w))
    stream = b"".join(int(v).to_bytes(3, "big") for v in px.reshape(-1))
    words = np.frombuffer(stream, dtype=">u4").astype("<u4")
    d = pathlib.Path(tempfile.mkdtemp(prefix="vc_"))
    try:
        f = d / "x.raw"
        f.write_bytes(words.tobytes())
        out = repo("correct_images.loaders.xviii").loader(f, image_width=w, image_height=h, src_bit=18)
        ctx.ensure("pixels", np.allclose(out * 2.0**18, px), "%s vs %s" % (out[0] * 2**18, px[0]))
    finally:
        shutil.rmtree(d)


@REG.harness([F + ".write_output_image"], kind="sample", samples=10)
def written_file_is_the_image(ctx):
    import numpy as np
    import pathlib, shutil, tempfile
    import imageio.v2

    silence(ctx)
    d = pathlib.Path(tempfile.mkdtemp(prefix="vc_"))
    try:
        rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10**6))
        shape = ctx.choice("shape", [(6, 9, 3), (8, 8)])
        im = rng.integers(0, 256, shape).astype(np.uint8)
        bad = ctx.choice("failing_reads", [0, 1, 3])
        m = repo(F)
        real, n = m.imread, [0]

        def flaky(p, *a, **k):
            n[0] += 1
            if n[0] <= bad:
                raise OSError("truncated")
            return real(p, *a, **k)

        ctx.patch(m, "imread", flaky)
        r = m.write_output_image(im, "a.b-c", d, "png")
        ctx.ensure("path", pathlib.Path(r) == d / "a.b-c.png", str(r))
        ctx.ensure("content", np.array_equal(imageio.v2.imread(d / "a.b-c.png"), im))
    finally:
        shutil.rmtree(d)


@REG.harness([K + "undistort.distortion_correct", "oplab.camera_models.MonoCamera.rectification_maps"], kind="sample", samples=10)
def undistortion_uses_the_calibration(ctx):
    """a pixel of the output shows the scene the pinhole camera would see there"""
    import numpy as np

    silence(ctx)
    M = repo("oplab.camera_models").MonoCamera
    cam = M()
    w, h = 160, 120
    fx, fy, cx, cy = 150.0, 155.0, 81.0, 58.0
    k1, k2, p1, p2 = ctx.real("k1", lo=-0.2, hi=0.05), ctx.real("k2", lo=-0.02, hi=0.02), ctx.real("p1", lo=-0.003, hi=0.003), ctx.real("p2", lo=-0.003, hi=0.003)
    cam.K = np.array([[fx, 0, cx], [0, fy, cy], [0, 0, 1.0]])
    cam.d = np.array([[k1], [k2], [p1], [p2], [0.0]])
    cam.size = (w, h)

    def scene(x, y):
        return 0.5 + 0.3 * np.sin(3 * x) + 0.2 * np.cos(2 * y + x)

    # what the distorted camera records: undistorted direction per recorded pixel by iteration
    u, v = np.meshgrid(np.arange(w), np.arange(h))
    xd, yd = (u - cx) / fx, (v - cy) / fy
    x, y = xd.copy(), yd.copy()
    for _ in range(60):
        r2 = x * x + y * y
        k = 1 + k1 * r2 + k2 * r2 * r2
        x, y = (xd - 2 * p1 * x * y - p2 * (r2 + 2 * x * x)) / k, (yd - p1 * (r2 + 2 * y * y) - 2 * p2 * x * y) / k
    img = scene(x, y).astype(np.float32)
    out = repo(K + "undistort").distortion_correct(None, img, cam)
    N = cam.new_K
    want = scene((u - N[0, 2]) / N[0, 0], (v - N[1, 2]) / N[1, 1])
    e = np.abs(out - want)[8:-8, 8:-8]
    ctx.ensure("pinhole-view", float(e.max()) < 0.01, "max error %g" % e.max())
    ctx.ensure("size", out.shape == (h, w))
