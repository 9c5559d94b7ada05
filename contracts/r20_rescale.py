"""R20: rescaled images have the requested size on the sea floor."""
from imgspec import *

REG = Registry("R20")
RS = "correct_images.corrections.rescale"
METHODS = {"bicubic": "BICUBIC", "bilinear": "BILINEAR", "nearest_neighbour": "NEAREST", "lanczos": "LANCZOS"}


def fake_pil(ctx, log):
    from PIL import Image as I

    class Img:
        def __init__(self, size):
            self.size = size
            self.width, self.height = size

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            out_of_reach(ctx, "Image." + n)

        def resize(self, size, resample=None, **k):
            if k:
                out_of_reach(ctx, "Image.resize(%s)" % k)
            log.append(("resize", tuple(self.size), tuple(size), resample))
            return Img(tuple(size))

        def crop(self, box):
            log.append(("crop", tuple(self.size), tuple(box)))
            return Img((box[2] - box[0], box[3] - box[1]))

        def __array__(self, *a, **k):
            import numpy

            log.append(("out", tuple(self.size)))
            return numpy.zeros((1, 1, 3), dtype=numpy.uint8)

    class Mod:
        def __getattr__(self, n):
            return getattr(I, n)

        @staticmethod
        def fromarray(a, mode=None):
            log.append(("from", a))
            return Img((a.shape[1], a.shape[0]))

    return Mod()


class Arr:
    def __init__(self, *shape):
        self.shape = shape


def geometry(ctx):
    W, H = ctx.int("W", lo=16, hi=5000), ctx.int("H", lo=16, hi=5000)
    alt = ctx.real("altitude", lo=0.5, hi=30)
    fx, fy = ctx.real("fx", lo=200, hi=6000), ctx.real("fy", lo=200, hi=6000)
    t = ctx.real("target_pixel_size", lo=0.0001, hi=0.05)
    return W, H, alt, fx, fy, t


def _resize(maintain):
    def h(ctx):
        silence(ctx)
        from PIL import Image as I

        W, H, alt, fx, fy, t = geometry(ctx)
        # sizes that leave something to write
        ctx.assume(W * alt > 2 * t * fx)
        ctx.assume(H * alt > 2 * t * fy)
        name = ctx.choice("method", sorted(METHODS))
        log = []
        m = repo(RS)
        ctx.patch(m, "Image", fake_pil(ctx, log))
        a = Arr(H, W, 3)
        m.rescale(a, name, t, alt, fx, fy, maintain)
        if not log or log[0][0] != "from":
            out_of_reach(ctx, "images not opened with Image.fromarray")
        ctx.ensure("starts-from-the-image", log[0][1] is a)
        ctx.ensure("one-result", [x[0] for x in log].count("out") == 1 and log[-1][0] == "out", str([x[0] for x in log]))
        for x in log:
            if x[0] == "resize":
                ctx.ensure("method", x[3] == getattr(I, METHODS[name]))
        ow, oh = log[-1][1]
        if not maintain:
            # the footprint W * alt / fx is shown with pixels of the requested size
            ctx.ensure("width", ctx.And(ctx.le(ow * t * fx, W * alt * (1 if ctx.symbolic else 1 + 1e-9)), ctx.lt(W * alt, (ow + 1) * t * fx * (1 if ctx.symbolic else 1 + 1e-9))))
            ctx.ensure("height", ctx.And(ctx.le(oh * t * fy, H * alt * (1 if ctx.symbolic else 1 + 1e-9)), ctx.lt(H * alt, (oh + 1) * t * fy * (1 if ctx.symbolic else 1 + 1e-9))))
            ctx.ensure("nothing-cut", all(x[0] != "crop" for x in log))
            return
        ctx.ensure_eq("width-kept", ow, W)
        ctx.ensure_eq("height-kept", oh, H)
        crops = [x for x in log if x[0] == "crop"]
        if alt < t * fy or alt < t * fx:
            # finer than requested: whole view, smoothed through the requested resolution
            ctx.ensure("nothing-cut", not crops)
            mid = [x for x in log if x[0] == "resize"]
            ctx.ensure("through-requested-resolution", len(mid) == 2)
            mw, mh = mid[0][2]
            ctx.ensure("mid-width", ctx.And(ctx.le(mw * t * fx, W * alt), ctx.lt(W * alt, (mw + 1) * t * fx)) if ctx.symbolic else abs(mw - W * alt / fx / t) <= 1.001)
            ctx.ensure("mid-height", ctx.And(ctx.le(mh * t * fy, H * alt), ctx.lt(H * alt, (mh + 1) * t * fy)) if ctx.symbolic else abs(mh - H * alt / fy / t) <= 1.001)
            return
        ctx.ensure("one-crop", len(crops) == 1 and tuple(crops[0][1]) is not None)
        l, u, r, b = crops[0][2]
        ctx.ensure_eq("centred-horizontally", l, W - r)
        ctx.ensure_eq("centred-vertically", u, H - b)
        ctx.ensure("inside", ctx.And(ctx.le(0, l), ctx.le(0, u)))
        # the cut out view is W (H) pixels of the requested size wide (high), to two source pixels
        ctx.ensure("cut-width", ctx.And(ctx.lt((r - l - 2) * alt, W * t * fx), ctx.lt(W * t * fx, (r - l + 2) * alt)))
        ctx.ensure("cut-height", ctx.And(ctx.lt((b - u - 2) * alt, H * t * fy), ctx.lt(H * t * fy, (b - u + 2) * alt)))

    h.__name__ = "rescale_%s" % ("maintaining_size" if maintain else "resized")
    REG.harness([RS + ".rescale"], samples=60, timeout_ms=20000)(h)


_resize(False)
_resize(True)


@REG.harness([RS + ".rescale"], kind="sample", samples=15)
def view_is_kept_or_centred(ctx):
    """real images: the middle of the view stays in the middle, sizes are as requested"""
    import numpy as np

    silence(ctx)
    W, H = ctx.int("W", lo=40, hi=80), ctx.int("H", lo=40, hi=80)
    k = ctx.real("scale", lo=0.4, hi=2.5)
    keep = ctx.flag("maintain")
    im = np.zeros((H, W, 3), dtype=np.uint8)
    im[:, : W // 2, 0] = 200
    im[: H // 2, :, 1] = 100
    out = repo(RS).rescale(im, "bilinear", 0.001, 0.1 * k, 100.0, 100.0, keep)
    ctx.ensure("8-bit", out.dtype == np.uint8 and out.ndim == 3)
    if keep:
        ctx.ensure("size", out.shape == im.shape, str(out.shape))
    else:
        ctx.ensure("size", abs(out.shape[0] - H * k) <= 1.001 and abs(out.shape[1] - W * k) <= 1.001, str(out.shape))
    h, w = out.shape[:2]
    s = max(k, 1)
    edge = np.argmax(out[h - 2, :, 0] < 100)
    ctx.ensure("middle-x", abs(edge - w / 2) <= 3 * s + 2, "edge at %d of %d" % (edge, w))
    edge = np.argmax(out[:, w - 2, 1] < 50)
    ctx.ensure("middle-y", abs(edge - h / 2) <= 3 * s + 2, "edge at %d of %d" % (edge, h))


@REG.harness([RS + ".rescale_images", RS + ".rescale_camera"], kind="sample", samples=14)
def every_image_at_its_own_altitude(ctx):
    import imageio.v2
    import numpy as np
    import pathlib, shutil, tempfile

    silence(ctx)
    m = repo(RS)
    ctx.patch(m, "trange", lambda n, **k: range(n))
    if hasattr(m, "imwrite"):
        ctx.patch(m, "imwrite", lambda p, im, **k: imageio.v2.imwrite(p, im))
    root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
    try:
        raw, proc = root / "raw" / "ship" / "dive", root / "processed" / "ship" / "dive"
        raw.mkdir(parents=True)
        (proc / "img").mkdir(parents=True)
        names = ctx.choice("order", [["a1", "a11", "a111", "b1"], ["a111", "b1", "a11", "a1"], ["b1", "a11", "a1", "a111"], ["a.11", "a.1", "A.1", "a.1.b"]])
        alts = [ctx.real("alt%d" % k, lo=1, hi=3) for k in range(4)]
        ext = dict(zip(names + ["no_navigation"], ctx.choice("formats", [("png", "png", "png", "png", "png"), ("jpg", "png", "tif", "jpg", "tif"), ("tif", "tif", "jpg", "png", "jpg")])))
        for n in names + ["no_navigation"]:
            imageio.v2.imwrite(proc / "img" / (n + "." + ext[n]), np.full((40, 50, 3), 90, dtype=np.uint8))
        nav = proc / "json_renav" / "csv" / "ekf"
        nav.mkdir(parents=True)
        (nav / "auv_ekf_cam.csv").write_text("relative_path,altitude [m]\n" + "".join("image/x/%s.tif,%r\n" % (n, a) for n, a in zip(names, alts)))
        cal = proc.parent / "calibration"
        cal.mkdir()
        M = repo("oplab.camera_models").MonoCamera()
        M.name, M.size = "cam", (50, 40)
        M.K = np.array([[100.0, 0, 25], [0, 80.0, 20], [0, 0, 1]])
        (cal / "mono_cam.yaml").write_text(M.to_str())

        class S:
            class _c:
                name = "cam"
            cameras = [_c]

        class Cam:
            camera_name, distance_path, interpolate_method, path = "cam", "json_renav", "bilinear", "img"
            target_pixel_size, maintain_pixels, output_folder = 0.02, False, "out"

        ok = m.rescale_camera(raw, S, Cam)
        ctx.ensure("done", ok is True)
        for n, a in zip(names, alts):
            f = proc / "out" / (n + "." + ext[n])
            ctx.ensure("written-%s" % n, f.exists())
            im = imageio.v2.imread(f)
            ctx.ensure("own-altitude-%s" % n, abs(im.shape[1] - 50 * a / 100 / 0.02) <= 1.001 and abs(im.shape[0] - 40 * a / 80 / 0.02) <= 1.001, "%s at %g m" % (im.shape, a))
        ctx.ensure("nothing-else", sorted(x.name for x in (proc / "out").iterdir()) == sorted(n + "." + ext[n] for n in names))
    finally:
        shutil.rmtree(root)
