"""R28: camera calibrations are the best of simultaneous views and are read back as computed."""
from imgspec import *
import pathlib, shutil, tempfile, math

REG = Registry("R28")
CC = "auv_cal.camera_calibrator"
CA = "auv_cal.calibration"
CM = "oplab.camera_models"


class _Scratch:
    def __enter__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root)


def board(ctx):
    return repo(CC).ChessboardInfo(7, 5, 0.1)


def console(ctx):
    silence(ctx)
    C = repo("oplab.console").Console
    for n in ("get_date", "get_username", "get_hostname", "get_version"):
        ctx.patch(C, n, staticmethod(lambda: "x"))


class Cv2:
    """OpenCV with the named functions replaced by their contracts"""

    def __init__(self, real, **k):
        self.__dict__.update(k)
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)


# ------------------------------------------------------------------ choice of views
def _mono(n, iters):
    def h(ctx):
        """views whose error exceeds the average by two standard deviations (and 0.25) are dropped
        and the calibration repeated; the result is, as a whole, that with the smallest error"""
        console(ctx)
        np = np_(ctx)
        m = repo(CC)
        mc = m.MonoCalibrator(boards=[board(ctx)], name="cam")
        mc.max_iterations = iters
        mc.calibrations = [None] * iters
        mc.size = (640, 480)
        views = [("view", k) for k in range(n)]
        mc.good_corners = [(v, board(ctx)) for v in views]
        err = [[ctx.real("err%d_%d" % (i, k), lo=0, hi=5) for k in range(n)] for i in range(iters)]
        avg = [ctx.real("avg%d" % i, lo=0.01, hi=5) for i in range(iters)]
        if not ctx.symbolic:
            for i in range(iters):
                if ctx.flag("outlier%d" % i):
                    err[i][ctx.int("which%d" % i, lo=0, hi=n - 1)] = 30.0
        log = []

        def calibrate(opts, ipts, size, K, D, *a, **k):
            i = len(log)
            ctx.assume(len(ipts) > 0)
            ctx.ensure("as-many-boards-as-views", len(opts) == len(ipts))
            ctx.ensure("image-size", tuple(size) == (640, 480))
            log.append(list(ipts))
            K[0, 0], D[0, 0] = 1000.0 + i, 0.1 * (i + 1)
            e = np.array([[err[i][v[1]]] for v in ipts])
            s = np.array([[10.0 + i]] * 18)
            return avg[i], K, D, None, None, s, None, e

        def optimal(K, D, size, a, *r):
            return K * 2, None

        ctx.patch(m, "cv2", Cv2(m.cv2, calibrateCameraExtended=calibrate, getOptimalNewCameraMatrix=optimal, initUndistortRectifyMap=lambda *a: (None, None)))
        mc.cal_fromcorners()
        # views of every iteration
        cur = list(views)
        for i, used in enumerate(log):
            ctx.ensure("views-%d" % i, used == cur, "%s instead of %s" % (used, cur))
            es = [err[i][v[1]] for v in cur]
            mean = sum(es) / len(es)
            std = ctx.sqrt(sum((e - mean) * (e - mean) for e in es) / len(es))
            lim = avg[i] + 2 * std
            if lim < 0.25:
                lim = 0.25
            if not ctx.symbolic:
                ctx.assume(all(abs(e - lim) > 1e-9 for e in es))
            nxt = [v for v in cur if err[i][v[1]] <= lim]
            last = len(nxt) == len(cur) or i == iters - 1
            ctx.ensure("stops-%d" % i, (i == len(log) - 1) == last)
            cur = nxt
        best = 0
        for i in range(1, len(log)):
            if avg[i] < avg[best]:
                best = i
        ctx.ensure_eq("best-camera-matrix", mc.intrinsics[0, 0], 1000.0 + best)
        ctx.ensure_eq("best-distortion", mc.distortion[0, 0], 0.1 * (best + 1))
        ctx.ensure_eq("best-projection", mc.P[0, 0], 2 * (1000.0 + best))
        ctx.ensure_eq("best-std", mc.stdev_intrinsics[0, 0], 10.0 + best)
        ctx.ensure_eq("best-error", mc.avg_reprojection_error, avg[best])
        ctx.ensure("best-number-of-views", mc.num_images == len(log[best]))

    h.__name__ = "mono_views_%d_%d" % (n, iters)
    REG.harness([CC + ".MonoCalibrator.cal_fromcorners"], kind="bounded" if n < 5 else "sample", bound="%d views, %d iterations, symbolic errors; cv2 by contract" % (n, iters), samples=60, max_paths=2000, budget_s=150)(h)


_mono(3, 2)
_mono(7, 3)


def _stereo(n, iters):
    def h(ctx):
        """pairs of large epipolar error are dropped (by their own error) and the calibration repeated
        while the error is large; extrinsics and rectification are those of the best calibration"""
        console(ctx)
        np = np_(ctx)
        m = repo(CC)
        cm = repo(CM)
        left, right = set_fields(cm.MonoCamera(), name="l", image_width=640, image_height=480), set_fields(cm.MonoCamera(), name="r", image_width=640, image_height=480)
        model = cm.StereoCamera.__new__(cm.StereoCamera)
        set_fields(model, left=left, right=right)
        sc = m.StereoCalibrator(model, boards=[board(ctx)], name="pair")
        sc.max_iterations = iters
        sc.calibrations = [None] * iters
        sc.good_corners = [(("l", k), ("r", k), board(ctx)) for k in range(n)]
        sc.db = [("params", ("limg", k), ("rimg", k)) for k in range(n)]
        # proofs vary the errors of two pairs among others of 0.1
        err = [ctx.real("err%d" % k, lo=0.001, hi=1) if k < 2 or not ctx.symbolic else 0.1 for k in range(n)]
        missing = ctx.choice("undetected", [None, 0])
        avg = [ctx.real("avg%d" % i, lo=0.01, hi=5) for i in range(iters)]
        log = []

        def calibrate(opts, l, r, K1, D1, K2, D2, size, flags=None, **k):
            i = len(log)
            ctx.ensure("pairs-kept-together", [a[1] for a in l] == [b[1] for b in r] and all(a[0] == "l" for a in l) and all(b[0] == "r" for b in r))
            ctx.ensure("as-many-boards-as-views", len(opts) == len(l))
            log.append([a[1] for a in l])
            return avg[i], K1, D1, K2, D2, ("R", i), ("T", i), ("E", i), ("F", i)

        def rectify(K1, D1, K2, D2, size, R, T, **k):
            return ("R1", R, T), ("R2", R, T), ("P1", R, T), ("P2", R, T), None, None, None

        def epi(self, l, r):
            ctx.ensure("images-of-one-pair", l[1] == r[1] and (l[0], r[0]) == ("limg", "rimg"))
            return None if l[1] == missing else err[l[1]]

        ctx.patch(m, "cv2", Cv2(m.cv2, stereoCalibrate=calibrate, stereoRectify=rectify, initUndistortRectifyMap=lambda *a: (None, None)))
        ctx.patch(m.StereoCalibrator, "epipolar_error_from_images", epi)
        E = [1e3 if k == missing else err[k] for k in range(n)]
        quits = False
        try:
            sc.cal_fromcorners()
        except Quit:
            quits = True
        cur = list(range(n))
        for i, used in enumerate(log):
            ctx.ensure("views-%d" % i, used == cur, "%s instead of %s" % (used, cur))
            es = [E[k] for k in cur]
            mean = sum(es) / len(es)
            std = ctx.sqrt(sum((e - mean) * (e - mean) for e in es) / len(es))
            if not ctx.symbolic:
                ctx.assume(all(abs(e - mean - 2 * std) > 1e-9 for e in es))
            go = bool(avg[i] > 0.6) and i < iters - 1
            nxt = [k for k in cur if E[k] < mean + 2 * std]
            ctx.ensure("repeats-%d" % i, go == (i < len(log) - 1 or quits))
            cur = nxt
        if quits:
            ctx.ensure("quits-only-with-few-views", len(cur) < 8)
            return
        best = 0
        for i in range(1, len(log)):
            if avg[i] < avg[best]:
                best = i
        ctx.ensure("best-extrinsics", (sc.R, sc.T, sc.E, sc.F) == tuple((x, best) for x in "RTEF"), str((sc.R, sc.T, sc.E, sc.F)))
        b = (("R", best), ("T", best))
        ctx.ensure("rectification-of-the-best", (sc.l.R, sc.r.R, sc.l.P, sc.r.P) == tuple((x,) + b for x in ("R1", "R2", "P1", "P2")), "%s for %d" % (sc.l.R, best))
        ctx.ensure_eq("best-error", sc.avg_reprojection_error, avg[best])
        ctx.ensure("best-number-of-views", sc.num_images == len(log[best]))

    h.__name__ = "stereo_views_%d_%d" % (n, iters)
    REG.harness([CC + ".StereoCalibrator.cal_fromcorners", CC + ".StereoCalibrator.set_alpha"], kind="bounded" if n < 10 else "sample", bound="%d pairs, %d iterations, symbolic errors of two pairs; cv2 by contract" % (n, iters), samples=60, max_paths=2000, budget_s=150)(h)


_stereo(9, 2)
_stereo(16, 3)


# ------------------------------------------------------------------ simultaneous views
def _common(fmt):
    def h(ctx):
        silence(ctx)
        f = repo(CC).find_common_filenames
        n1, n2 = ctx.int("n1", lo=1, hi=5), ctx.int("n2", lo=1, hi=5)
        want = []
        if fmt == "name":
            off = ctx.int("offset", lo=0, hi=2)
            pl, pr = ("image" if ctx.flag("prefix_l") else ""), ("image" if ctx.flag("prefix_r") else "")
            l = [{"file": "/d/l/%s%07d.png" % (pl, i), "id": i} for i in range(n1)]
            r = [{"file": "/d/r/%s%07d.png" % (pr, i + off), "id": i + off} for i in range(n2)]
            want = [(a, b) for a in l for b in r if a["id"] == b["id"]]
        else:
            t, tl, tr = 0.0, [], []
            for i in range(n1):
                t += ctx.int("gap%d" % i, lo=200, hi=1000) / 1000.0
                tl.append(round(t, 3))
            for j in range(n2):
                i = ctx.int("of%d" % j, lo=0, hi=n1 - 1)
                tr.append(round(tl[i] + ctx.choice("late%d" % j, [0.001 + 0.002 * j, 0.03 + 0.001 * j, 0.07 + 0.001 * j]), 3))
            if fmt == "acfr":
                fn = lambda t, c: "PR_20200101_1200%02d_%03d_%s16" % (int(t), int(round((t - int(t)) * 1000)), c)
                nl, nr = ctx.choice("cams", [("LC", "RC"), ("FC", "AC"), ("RC", "LC")])
            else:
                fn = lambda t, c: "20200101_1200%02d_%06d_20200101_1200%02d_000000_%s" % (int(t), int(round((t - int(t)) * 1e6)), 59 - int(t), c)
                nl, nr = "pcoc", "pcom"
            l = [{"file": "/d/l/" + fn(x, nl) + ".tif", "t": x} for x in tl]
            r = [{"file": "/d/r/" + fn(x, nr) + ".tif", "t": x} for x in tr]
            for a in l:
                d, j = min((abs(a["t"] - b["t"]), j) for j, b in enumerate(r))
                if sorted(abs(a["t"] - b["t"]) for b in r)[1:2] and abs(sorted(abs(a["t"] - b["t"]) for b in r)[1] - d) < 1e-6:
                    ctx.assume(False)
                if d < 0.05 - 1e-6:
                    want.append((a, r[j]))
        got = f(l, r)
        ctx.ensure("pairs", [(a["file"], b["file"]) for a, b in got] == [(a["file"], b["file"]) for a, b in want], "%s instead of %s" % (got, want))

    h.__name__ = "simultaneous_views_by_" + fmt
    REG.harness([CC + ".find_common_filenames"], kind="sample", samples=60)(h)


_common("name")
_common("biocam")
_common("acfr")


@REG.harness([CC + ".StereoCalibrator.cal_from_json"], kind="sample", samples=20)
def views_of_a_pair_stay_together(ctx):
    """the corners of every used pair are those of its two images"""
    import numpy as np

    console(ctx)
    m, cm = repo(CC), repo(CM)
    n = 12
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10 ** 6))
    base = np.stack(np.meshgrid(np.arange(7), np.arange(5)), -1).reshape(-1, 1, 2).astype(float)

    def shot(side, k):
        c = base * rng.uniform(8, 40) + np.array([rng.uniform(0, 300), rng.uniform(0, 250)])
        c[0, 0, 0] = k  # marks the view
        return {"file": "/d/%s/%07d.png" % (side, k), "corners": c.tolist(), "board": (7, 5, 0.1), "size": (640, 480)}

    l = [shot("l", k) for k in range(n)]
    r = [shot("r", k + 1) for k in range(n)]
    left, right = set_fields(cm.MonoCamera(), name="l", image_width=640, image_height=480), set_fields(cm.MonoCamera(), name="r", image_width=640, image_height=480)
    model = cm.StereoCamera.__new__(cm.StereoCamera)
    set_fields(model, left=left, right=right)
    sc = m.StereoCalibrator(model, boards=[board(ctx)], name="pair")
    ctx.patch(m, "cv2", Cv2(m.cv2, imread=lambda f, *a: Img(f)))
    done = []
    ctx.patch(m.StereoCalibrator, "cal_fromcorners", lambda self, iteration=0: done.append(1))
    sc.cal_from_json(l, r)
    ctx.ensure("calibrated", done == [1] and len(sc.good_corners) > 0)
    ctx.ensure("images-of-the-corners", len(sc.db) == len(sc.good_corners))
    for (lc, rc, b), (_, li, ri) in zip(sc.good_corners, sc.db):
        k = int(lc[0, 0, 0])
        ctx.ensure("same-view", int(rc[0, 0, 0]) == k and pathlib.Path(li.f).stem == pathlib.Path(ri.f).stem == "%07d" % k, "%d %d" % (k, int(rc[0, 0, 0])))
        ctx.ensure("board", b.tolist() == (7, 5, 0.1))


class Img:
    shape = (480, 640, 3)

    def __init__(self, f):
        self.f = f


@REG.harness([CC + ".Calibrator.mk_object_points"], kind="bounded", bound="boards of 3x2 and 2x3 with symbolic spacing", samples=20)
def board_points(ctx):
    console(ctx)
    m = repo(CC)
    pat = ctx.choice("pattern", [m.Patterns.Chessboard, m.Patterns.Circles, m.Patterns.ACircles])
    dim = ctx.real("dim", lo=0.01, hi=1)
    mc = m.MonoCalibrator(boards=[board(ctx)], name="cam", pattern=pat)
    dim2 = ctx.real("dim2", lo=0.01, hi=1)
    boards = [(3, 2, dim), (2, 3, dim2)]
    for q, (o, (c, r, dm)) in enumerate(zip(mc.mk_object_points([m.ChessboardInfo(*b) for b in boards]), boards)):
        for i in range(r):
            for j in range(c):
                p = o[j + i * c, 0]
                ctx.ensure_eq("x-%d-%d-%d" % (q, i, j), p[0], dm * (2 * j + i % 2 if pat == m.Patterns.ACircles else j), tol=1e-5)
                ctx.ensure_eq("y-%d-%d-%d" % (q, i, j), p[1], dm * i, tol=1e-5)
                ctx.ensure_eq("z-%d-%d-%d" % (q, i, j), p[2], 0)


@REG.harness([CC + ".Calibrator.get_corners"], kind="bounded", bound="three boards, any of them visible", samples=20)
def first_board_found(ctx):
    """the corners are those of the first configured board that is seen, with that board"""
    console(ctx)
    m = repo(CC)
    pat = ctx.choice("pattern", [m.Patterns.Chessboard, m.Patterns.Circles, m.Patterns.ACircles])
    boards = [m.ChessboardInfo(*b) for b in ((3, 2, 0.1), (4, 3, 0.2), (5, 4, 0.3))]
    seen = [ctx.flag("seen%d" % k) for k in range(3)]
    mc = m.MonoCalibrator(boards=boards, name="cam", pattern=pat)
    own = list(mc._boards)
    ctx.ensure("all-boards-kept", [(max(b.n_cols, b.n_rows), min(b.n_cols, b.n_rows), b.dim) for b in own] == [(3, 2, 0.1), (4, 3, 0.2), (5, 4, 0.3)])
    find = lambda img, b, *a: (seen[own.index(b)], "corners%d" % own.index(b))
    ctx.patch(m, "_get_corners", find)
    ctx.patch(m, "_get_circles", find)
    ok, c, b = mc.get_corners("image")
    want = [k for k in range(3) if seen[k]]
    ctx.ensure("found", bool(ok) == bool(want))
    if want:
        ctx.ensure("first-seen-board", b is own[want[0]] and c == "corners%d" % want[0], str(c))


# ------------------------------------------------------------------ files
def close(a, b):
    import numpy as np

    a, b = np.array(a, dtype=float).ravel(), np.array(b, dtype=float).ravel()
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-6)


def rnd(rng, *shape):
    return rng.uniform(-2000, 2000, shape)


@REG.harness([CC + ".MonoCalibrator.yaml", CM + ".MonoCamera.from_node", CM + ".MonoCamera.to_str"], kind="sample", samples=25)
def mono_file_reads_back(ctx):
    import numpy as np

    console(ctx)
    ctx.patch(repo("oplab.console").Console, "write_metadata", staticmethod(lambda: 'date: "x"\n'))
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10 ** 6))
    m, cm = repo(CC), repo(CM)
    mc = m.MonoCalibrator(boards=[board(ctx)], name="Cam123")
    set_fields(mc, distortion=rnd(rng, 5, 1), intrinsics=rnd(rng, 3, 3), stdev_intrinsics=rnd(rng, 18, 1), R=rnd(rng, 3, 3), P=rnd(rng, 3, 4), num_images=7, avg_reprojection_error=0.3, size=(ctx.int("w", lo=10, hi=5000), ctx.int("h", lo=10, hi=5000)))
    with _Scratch() as root:
        f = root / "mono.yaml"
        f.write_text(mc.yaml())
        c = cm.MonoCamera(f)
        g = root / "again.yaml"
        set_fields(c, d=c.d.reshape(5, 1))
        g.write_text(c.to_str(num_images=7, error=0.3))
        for k, c in (("", c), ("copy-", cm.MonoCamera(g))):
            ctx.ensure(k + "name", c.name == "Cam123")
            ctx.ensure(k + "size", c.size == mc.size, str(c.size))
            for a, b in (("K", mc.intrinsics), ("d", mc.distortion), ("R", mc.R), ("P", mc.P)):
                ctx.ensure(k + a, close(getattr(c, a), b))


@REG.harness([CC + ".StereoCalibrator.yaml", CM + ".StereoCamera.from_node"], kind="sample", samples=25)
def stereo_file_reads_back(ctx):
    import numpy as np

    console(ctx)
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10 ** 6))
    m, cm = repo(CC), repo(CM)
    sides = {}
    for s in ("left", "right"):
        c = sides[s] = set_fields(cm.MonoCamera(), name="cam_" + s, image_width=ctx.int("w" + s, lo=10, hi=5000), image_height=ctx.int("h" + s, lo=10, hi=5000))
        set_fields(c, K=rnd(rng, 3, 3), d=rnd(rng, 1, 5))
    model = cm.StereoCamera.__new__(cm.StereoCamera)
    set_fields(model, **sides)
    sc = m.StereoCalibrator(model, boards=[board(ctx)], name="pair")
    for c in (sc.l, sc.r):
        set_fields(c, R=rnd(rng, 3, 3), P=rnd(rng, 3, 4))
    set_fields(sc, R=rnd(rng, 3, 3), T=rnd(rng, 3, 1), E=rnd(rng, 3, 3), F=rnd(rng, 3, 3), num_images=9, avg_reprojection_error=0.2)
    with _Scratch() as root:
        f = root / "stereo.yaml"
        f.write_text(sc.yaml())
        c = cm.StereoCamera(f)
    for s, cal in (("left", sc.l), ("right", sc.r)):
        g = getattr(c, s)
        ctx.ensure(s + "-name", g.name == "cam_" + s)
        ctx.ensure(s + "-size", g.size == sides[s].size)
        for a, b in (("K", sides[s].K), ("d", sides[s].d), ("R", cal.R), ("P", cal.P)):
            ctx.ensure(s + "-" + a, close(getattr(g, a), b))
    for a, b in (("R", sc.R), ("t", sc.T), ("F", sc.F), ("E", sc.E)):
        ctx.ensure("extrinsics-" + a, close(getattr(c, a), b))
    ctx.ensure("resolution", c.different_resolution == (sides["left"].size != sides["right"].size))


@REG.harness([CC + ".resize_with_padding"], kind="sample", samples=60)
def resized_view_keeps_its_shape(ctx):
    """the result has the requested size and shows the image undistorted and centred"""
    import numpy as np

    W, H = ctx.int("W", lo=60, hi=300), ctx.int("H", lo=60, hi=300)
    w, h = ctx.int("w", lo=60, hi=300), ctx.int("h", lo=60, hi=300)
    if ctx.flag("nearly_the_size"):
        w, h = W + ctx.int("dw", lo=-2, hi=2), H + ctx.int("dh", lo=-2, hi=2)
    out = repo(CC).resize_with_padding(np.full((h, w), 200, dtype=np.uint8), (W, H))
    ctx.ensure("size", out.shape[:2] == (H, W), "%s for %s from %s" % (out.shape, (H, W), (h, w)))
    s = min(W / w, H / h)
    rows, cols = (out[:, W // 2] > 100).sum(), (out[H // 2, :] > 100).sum()
    ctx.ensure("height", abs(rows - s * h) <= 3, "%d instead of %f" % (rows, s * h))
    ctx.ensure("width", abs(cols - s * w) <= 3, "%d instead of %f" % (cols, s * w))
    r = np.nonzero(out[:, W // 2] > 100)[0]
    c = np.nonzero(out[H // 2, :] > 100)[0]
    ctx.ensure("centred", abs(r[0] + r[-1] - (H - 1)) <= 3 and abs(c[0] + c[-1] - (W - 1)) <= 3)


# ------------------------------------------------------------------ which files are used
class _Dive:
    def __init__(self, root, cfg, confdir=True):
        import yaml

        self.dive = root / "raw" / "2020" / "cruise" / "dive"
        self.conf = root / "configuration" / "2020" / "cruise" / "calibration"
        self.out = root / "processed" / "2020" / "cruise" / "calibration"
        self.dive.mkdir(parents=True)
        if confdir:
            self.conf.mkdir(parents=True)
            (self.conf / "calibration.yaml").write_text(yaml.safe_dump(cfg))


def config(n):
    return {"cameras": [{"name": "cam%d" % i, "camera_calibration": {"path": "../cal/c%d" % i, "glob_pattern": "*.t%d" % i}, "laser_calibration": {"path": "../laser/c%d" % i, "glob_pattern": "*.l%d" % i}} for i in range(n)],
            "camera_calibration": {"pattern": "Circles", "rows": 7, "cols": 7, "size": 0.1, "invert": True}, "laser_calibration": {"detection": {"two_lasers": True}}, "skip_first": 2}


@REG.harness([CA + ".Calibrator.mono"], kind="sample", samples=20)
def each_camera_has_its_own_file(ctx):
    console(ctx)
    m = repo(CA)
    n = ctx.int("n", lo=1, hi=3)
    fo, have = ctx.flag("force"), ctx.int("have", lo=0, hi=2)
    sfx = ctx.choice("suffix", ["", "x", "_x"])
    with _Scratch() as root:
        d = _Dive(root, config(n))
        d.out.mkdir(parents=True)
        tail = "_x" if sfx else ""
        if have < n:
            (d.out / ("mono_cam%d%s.yaml" % (have, tail))).write_text("old")
        c = m.Calibrator(str(d.dive), fo, False, sfx, 5)
        rec = []
        ctx.patch(m, "calibrate_mono", lambda *a, **k: rec.append(a))
        c.mono()
        want = [i for i in range(n) if fo or i != have]
        ctx.ensure("cameras", [a[0] for a in rec] == ["cam%d" % i for i in want], str([a[0] for a in rec]))
        for i, a in zip(want, rec):
            ctx.ensure("images", pathlib.Path(a[1]) == root / "processed/2020/cruise/dive" / ("../cal/c%d" % i) and a[2] == "*.t%d" % i, str(a[1]))
            ctx.ensure("output", a[4] == d.out / ("mono_cam%d%s.yaml" % (i, tail)), str(a[4]))


@REG.harness([CA + ".Calibrator.stereo"], kind="sample", samples=30)
def stereo_pairs_use_their_own_calibrations(ctx):
    console(ctx)
    m = repo(CA)
    n, fo = ctx.int("n", lo=2, hi=3), ctx.flag("force")
    old = ctx.choice("existing", [None, "stereo_cam0_cam1", "stereo_cam0_cam2", "stereo_cam2_cam0"])
    with _Scratch() as root:
        d = _Dive(root, config(n))
        d.out.mkdir(parents=True)
        for i in range(n):
            (d.out / ("mono_cam%d.yaml" % i)).write_text("m")
        if old:
            (d.out / (old + ".yaml")).write_text("old")
        c = m.Calibrator(str(d.dive), fo, False, "", 5)
        rec = []
        ctx.patch(m, "calibrate_stereo", lambda *a, **k: rec.append(a))
        try:
            c.stereo()
            stopped = False
        except Quit:
            stopped = True
        want = [(0, 1)] + ([(0, 2), (2, 0)] if n > 2 else [])
        if old and not fo and not (n == 2 and "cam2" in old):
            want = {"stereo_cam0_cam1": [], "stereo_cam0_cam2": [(0, 1)], "stereo_cam2_cam0": [(0, 1), (0, 2)]}[old]
            ctx.ensure("existing-kept", stopped or old == "stereo_cam2_cam0")
        else:
            ctx.ensure("runs", not stopped)
        ctx.ensure("pairs", [(a[0], a[4]) for a in rec] == [("cam%d" % i, "cam%d" % j) for i, j in want])
        for (i, j), a in zip(want, rec):
            for k, x in ((i, a[1:4]), (j, a[5:8])):
                ctx.ensure("images-of-the-camera", pathlib.Path(x[0]).name == "c%d" % k and x[1] == "*.t%d" % k)
                ctx.ensure("processed-images", "processed" in pathlib.Path(x[0]).parts and "raw" not in pathlib.Path(x[0]).parts, str(x[0]))
                ctx.ensure("calibration-of-the-camera", x[2] == d.out / ("mono_cam%d.yaml" % k), str(x[2]))
            ctx.ensure("output", a[9] == d.out / ("stereo_cam%d_cam%d.yaml" % (i, j)), str(a[9]))


@REG.harness([CA + ".Calibrator.laser", CA + ".Calibrator.laser_imp"], kind="sample", samples=30)
def laser_uses_the_stereo_calibration_of_its_cameras(ctx):
    console(ctx)
    m = repo(CA)
    fo, old = ctx.flag("force"), ctx.choice("existing", [None, "top", "bottom"])
    inproc = ctx.flag("images_in_processed")
    with _Scratch() as root:
        d = _Dive(root, config(2))
        d.out.mkdir(parents=True)
        (d.out / "stereo_cam0_cam1.yaml").write_text("s")
        if old:
            (d.out / ("laser_calibration_%s_cam0.yaml" % old)).write_text("old")
        for i in range(2):
            (root / ("processed" if inproc else "raw") / "2020/cruise" / ("laser/c%d" % i)).mkdir(parents=True)
        (root / "processed/2020/cruise/dive").mkdir(parents=True)
        c = m.Calibrator(str(d.dive), fo, False, "", 5)
        rec = []
        ctx.patch(m, "calibrate_laser", lambda *a, **k: rec.append(a))
        try:
            c.laser()
            stopped = False
        except Quit:
            stopped = True
        ctx.ensure("existing-kept", stopped == (old is not None and not fo))
        if stopped:
            ctx.ensure("nothing-run", not rec)
            return
        a = rec[0]
        for k, x in ((0, a[0:3]), (1, a[3:6])):
            ctx.ensure("camera-%d" % k, x[0] == "cam%d" % k and x[2] == "*.l%d" % k, str(x))
            ctx.ensure("images-%d" % k, pathlib.Path(x[1]) == root / ("processed" if inproc else "raw") / "2020/cruise" / ("laser/c%d" % k), str(x[1]))
        ctx.ensure("stereo", a[6] == d.out / "stereo_cam0_cam1.yaml")
        ctx.ensure("outputs", (a[8], a[9]) == (d.out / "laser_calibration_top_cam0.yaml", d.out / "laser_calibration_bottom_cam0.yaml"))
        ctx.ensure("options", a[10] == 5 and a[11] == 2)


@REG.harness([CA + ".calibrate_laser"], kind="sample", samples=20)
def laser_results_go_to_their_own_file(ctx):
    """the leading images are left out of both cameras; top and bottom planes go to their files"""
    console(ctx)
    m = repo(CA)
    skip, two = ctx.int("skip", lo=0, hi=3), ctx.choice("two", [None, False, True])
    rec = {}

    class LC:
        def __init__(self, model, config, n, overwrite=False):
            rec.update(model=model, config=config, n=n, overwrite=overwrite)

        def cal(self, l, r, folder):
            rec.update(l=l, r=r, folder=folder)

        def yaml(self):
            return "top"

        def yaml_b(self):
            return "bottom"

    ctx.patch(m, "LaserCalibrator", LC)
    ctx.patch(m, "StereoCamera", lambda f: ("model", f))
    with _Scratch() as root:
        for s in "ab":
            (root / s).mkdir()
            for k in range(10):
                (root / s / ("%02d.png" % k)).write_text("")
            (root / s / "x.txt").write_text("")
        cfg = {"detection": {} if two is None else {"two_lasers": two}}
        m.calibrate_laser("A", root / "a", "*.png", "B", root / "b", "*.png", root / "s.yaml", cfg, root / "t.yaml", root / "bo.yaml", 4, skip, True, True)
        for s, k in (("a", "l"), ("b", "r")):
            ctx.ensure("images-" + k, rec[k] == [root / s / ("%02d.png" % i) for i in range(skip, 10)], str(rec[k]))
        ctx.ensure("model", rec["model"] == ("model", root / "s.yaml") and rec["n"] == 4 and rec["overwrite"] is True)
        ctx.ensure("top", (root / "t.yaml").read_text() == "top")
        ctx.ensure("bottom", (root / "bo.yaml").exists() == bool(two) and (not two or (root / "bo.yaml").read_text() == "bottom"))


# ------------------------------------------------------------------ one calibration
class _Calibrators:
    """recorders in place of the calibrators and the stereo camera model (their own contracts are above)"""

    def __init__(self, ctx, sizes):
        rec = self.rec = {}
        m = repo(CA)

        class Mono:
            def __init__(self, **k):
                rec.setdefault("mono", []).append(k)
                self.k = k

            def cal(self, images):
                self.k["cal"] = list(images)
                self.json = {"detected by": self.k["name"]}

            def cal_from_json(self, f, images):
                self.k["again"] = (f, list(images))

            def report(self):
                pass

            def yaml(self):
                return "mono of " + self.k["name"]

        class Stereo:
            def __init__(self, **k):
                rec["stereo"] = k

            def cal_from_json(self, left_json, right_json):
                rec["views"] = (left_json, right_json)

            def report(self):
                pass

            def yaml(self):
                return "stereo of " + rec["stereo"]["name"]

        class Model:
            def __init__(self, left, right):
                self.files = (left, right)
                self.left, self.right = (SimpleNamespace(image_width=w, image_height=h, size=(w, h)) for w, h in (sizes[0], sizes[0] if right.name.startswith("resized_") else sizes[1]))
                self.different_resolution = self.left.size != self.right.size
                self.different_aspect_ratio = self.left.size[0] * self.right.size[1] != self.right.size[0] * self.left.size[1]

        ctx.patch(m, "MonoCalibrator", Mono)
        ctx.patch(m, "StereoCalibrator", Stereo)
        ctx.patch(m, "StereoCamera", Model)


from types import SimpleNamespace  # noqa
from imgspec import _Joblib  # noqa

BOARD = {"pattern": "Circles", "rows": 7, "cols": 5, "size": 0.1, "invert": True}


def _images(ctx, root, cam, n):
    """n images, in the raw or the processed place; the asked for place is the processed one"""
    place = ctx.choice("place_" + cam, ["raw", "processed"])
    split = ctx.flag("two_folders_" + cam)
    dirs = [root / "processed" / "2020" / "cal" / (cam + str(i)) for i in range(2 if split else 1)]
    for i in range(n):
        d = root / place / "2020" / "cal" / (cam + str(i % len(dirs)))
        d.mkdir(parents=True, exist_ok=True)
        (d / ("%s_%02d.png" % (cam, 37 * i % 50))).write_text("x")
        (d / "notes.txt").write_text("x")
    got = sorted(p for i in range(len(dirs)) for p in (root / place / "2020" / "cal" / (cam + str(i))).glob("*.png")) if n else []
    return (dirs if split else dirs[0]), got


@REG.harness([CA + ".calibrate_mono", CA + ".collect_image_files", CA + ".check_pattern"], kind="sample", samples=30)
def calibration_of_one_camera(ctx):
    """a calibration uses all images of its camera and the configured board; detections of an earlier
    run are used again unless everything is forced; the result goes to the file of the camera"""
    import json

    console(ctx)
    m = repo(CA)
    C = _Calibrators(ctx, [(10, 10)] * 2)
    pat = ctx.choice("pattern", ["Circles", "circles", "ACircles", "acircles", "Chessboard", "chessboard"])
    n, earlier, foa = ctx.choice("images", [3, 7, 8, 12]), ctx.flag("earlier"), ctx.flag("force_all")
    with _Scratch() as root:
        place, images = _images(ctx, root, "a", n)
        out = root / "mono_a.yaml"
        if earlier:
            out.with_suffix(".json").write_text(json.dumps("earlier"))
        try:
            m.calibrate_mono("a", place, "*.png", dict(BOARD, pattern=pat), out, True, foa, 40, 30)
            stopped = False
        except Quit:
            stopped = True
        ctx.ensure("too-few-images", stopped == (n < 8))
        if stopped:
            ctx.ensure("nothing-written", not out.exists())
            return
        k = C.rec["mono"][0]
        b = k["boards"][0]
        ctx.ensure("board", (b.n_cols, b.n_rows, b.dim) == (lambda x: (x.n_cols, x.n_rows, x.dim))(m.ChessboardInfo(7, 5, 0.1)) and len(k["boards"]) == 1 and k["invert"] is True)
        ctx.ensure("pattern", k["pattern"] == getattr(m.Patterns, {"c": "Circles", "a": "ACircles"}[pat[0].lower()] if pat.lower() != "chessboard" else "Chessboard"), str(k["pattern"]))
        ctx.ensure("camera", k["name"] == "a" and (k["target_width"], k["target_height"]) == (40, 30))
        if earlier and not foa:
            ctx.ensure("earlier-detections", k.get("again") == (out.with_suffix(".json"), images) and "cal" not in k, str(k))
            ctx.ensure("detections-kept", json.loads(out.with_suffix(".json").read_text()) == "earlier")
        else:
            ctx.ensure("own-images", sorted(k.get("cal", [])) == images and "again" not in k, str(k))
            ctx.ensure("detections", json.loads(out.with_suffix(".json").read_text()) == {"detected by": "a"})
        ctx.ensure("result", out.read_text() == "mono of a")


@REG.harness([CA + ".calibrate_stereo", CA + ".calibrate_mono"], kind="sample", samples=40)
def calibration_of_a_pair(ctx):
    """the pair is calibrated from the views of the left and of the right camera; a right camera of
    another size has its views detected again at the size of the left one"""
    import json

    console(ctx)
    m = repo(CA)
    sizes = [(40, 30), ctx.choice("right_size", [(40, 30), (80, 60), (30, 40)])]
    C = _Calibrators(ctx, sizes)
    n = (ctx.choice("left_images", [7, 8, 10]), ctx.choice("right_images", [7, 8, 10]))
    resized = ctx.flag("resized_before")
    with _Scratch() as root:
        places, images = zip(*(_images(ctx, root, s, k) for s, k in zip("ab", n)))
        cal = [root / ("mono_%s.yaml" % s) for s in "ab"]
        for s, f in zip("ab", cal):
            f.with_suffix(".json").write_text(json.dumps("views of " + s))
        if resized:
            (root / "resized_mono_b.json").write_text(json.dumps("resized views of b"))
            (root / "resized_mono_b.yaml").write_text("earlier")
        out = root / "stereo_a_b.yaml"
        try:
            m.calibrate_stereo("a", places[0], "*.png", cal[0], "b", places[1], "*.png", cal[1], BOARD, out, True, False)
            stopped = False
        except Quit:
            stopped = True
        ctx.ensure("too-few-images", stopped == (min(n) < 8))
        if stopped:
            ctx.ensure("nothing-written", not out.exists())
            return
        k = C.rec["stereo"]
        b = k["boards"][0]
        ctx.ensure("board", (b.n_cols, b.n_rows, b.dim) == (lambda x: (x.n_cols, x.n_rows, x.dim))(m.ChessboardInfo(7, 5, 0.1)) and k["invert"] is True and k["pattern"] == m.Patterns.Circles)
        ctx.ensure("pair", k["name"] == "a-b" and out.read_text() == "stereo of a-b")
        same = sizes[0] == sizes[1]
        right = cal[1] if same else root / "resized_mono_b.yaml"
        ctx.ensure("models", k["stereo_camera_model"].files == (cal[0], right), str(k["stereo_camera_model"].files))
        want = "views of b" if same else "resized views of b" if resized else {"detected by": "b"}
        ctx.ensure("views", C.rec["views"] == ("views of a", want), str(C.rec["views"]))
        if same or resized:
            ctx.ensure("nothing-detected-again", "mono" not in C.rec)
        else:
            q = C.rec["mono"][0]
            ctx.ensure("resized-to-the-left", len(C.rec["mono"]) == 1 and q["name"] == "b" and (q["target_width"], q["target_height"]) == sizes[0], str(q))
            ctx.ensure("images-of-the-right", sorted(q.get("cal", [])) == images[1])
        for s, f in zip("ab", cal):
            ctx.ensure("calibration-of-%s-kept" % s, json.loads(f.with_suffix(".json").read_text()) == "views of " + s and not f.exists())


@REG.harness([CC + ".MonoCalibrator.collect_corners", CC + ".MonoCalibrator.cal_from_json", CC + ".MonoCalibrator.cal", CC + ".Calibrator.is_good_sample", CC + ".StereoCalibrator.__init__"], kind="sample", samples=25)
def views_of_one_camera(ctx):
    """a view in which the board is found sharply is detected, and used unless it is nearly one of those
    already used; the detections kept for later give the same views; a pair starts from the
    calibrations of its two cameras"""
    import json
    import numpy as np

    console(ctx)
    m, cm = repo(CC), repo(CM)
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10 ** 6))
    base = np.stack(np.meshgrid(np.arange(7), np.arange(5)), -1).reshape(-1, 1, 2).astype(np.float32)
    resize = ctx.flag("resize")
    size = (320, 240) if resize else (640, 480)
    n = ctx.int("n", lo=3, hi=16)
    shots = {}
    for k in range(n):
        c = base * rng.uniform(8, 20) + np.array([rng.uniform(0, 150), rng.uniform(0, 120)])
        kind = ctx.choice("view%d" % k, ["good", "good", "good", "missed", "blurred", "unreadable", "repeated"])
        if kind == "repeated" and k:
            c = shots["/d/%02d.png" % (k - 1)][1] + 0.01
        shots["/d/%02d.png" % k] = (kind, c.astype(np.float32))
    if shots["/d/00.png"][0] == "unreadable":
        shots["/d/00.png"] = ("missed", shots["/d/00.png"][1])
    b = board(ctx)

    class Gray(np.ndarray):
        pass

    def imread(f, *a):
        if shots[f][0] == "unreadable":
            return None
        g = np.zeros((480, 640, 3), dtype=np.uint8).view(Gray)
        g.f = f
        return g

    def shrink(g, s):
        ctx.ensure("resized-to-the-target", tuple(s) == (320, 240))
        h = np.zeros((240, 320, 3), dtype=np.uint8).view(Gray)
        h.f = g.f
        return h

    ctx.patch(m, "cv2", Cv2(m.cv2, imread=imread, imwrite=lambda *a: True, drawChessboardCorners=lambda g, *a: g))
    ctx.patch(m, "resize_with_padding", shrink)
    ctx.patch(m, "joblib", _Joblib)
    ctx.patch(m, "_is_sharp", lambda g, c, bb: shots[g.f][0] != "blurred")

    def corners(self, g, refine=True):
        ctx.ensure("seen-at-its-size", g.shape[:2] == size[::-1])
        return shots[g.f][0] != "missed", shots[g.f][1], b

    ctx.patch(m.MonoCalibrator, "get_corners", corners)
    done = []
    ctx.patch(m.MonoCalibrator, "cal_fromcorners", lambda self, iteration=0: done.append(self.size))
    found = [f for f in sorted(shots) if shots[f][0] in ("good", "repeated")]
    ctx.assume(len(found) > 0)
    # specification: the parameters of a view differ by more than 0.12 in all from those of every used view
    used, pars = [], []
    for f in found:
        c = shots[f][1].astype(float)
        o = [c[0, 0], c[6, 0], c[-1, 0], c[-7, 0]]
        area = 0.5 * abs(sum(o[i][0] * o[(i + 1) % 4][1] - o[(i + 1) % 4][0] * o[i][1] for i in range(4)))
        s = math.sqrt(area)
        p = [min(1, max(0, (c[:, 0, q].mean() - s / 2) / (size[q] - s))) for q in range(2)] + [math.sqrt(area / (size[0] * size[1])), 0.0]
        d = min((sum(abs(x - y) for x, y in zip(p, q)) for q in pars), default=9)
        ctx.assume(abs(d - 0.12) > 1e-3)
        if d > 0.12:
            used.append(f)
            pars.append(p)
    with _Scratch() as root:
        name = root.name + "/cam"
        k = dict(boards=[b], name=name)
        if resize:
            k.update(target_width=320, target_height=240)
        one = m.MonoCalibrator(**k)
        one.cal([pathlib.Path(f) for f in sorted(shots)])
        ctx.ensure("detections", [x["file"] for x in one.json] == found, str([x["file"] for x in one.json]))
        kept = root / "kept.json"
        kept.write_text(json.dumps(one.json))
        two = m.MonoCalibrator(**k)
        two.cal_from_json(kept, [pathlib.Path(f) for f in sorted(shots)])
    shutil.rmtree("/tmp/resized_" + root.name, ignore_errors=True)
    ctx.ensure("calibrated", done == [size] * 2)
    for what, c in (("now", one), ("again", two)):
        got = [x[0] for x in c.good_corners]
        ctx.ensure("views-" + what, len(got) == len(used) == len(c.db), "%d of %d" % (len(got), len(used)))
        for i, (g, f) in enumerate(zip(got, used)):
            ctx.ensure("view-%s-%d" % (what, i), np.allclose(g, shots[f][1]), f)
            ctx.ensure("board-%s-%d" % (what, i), c.good_corners[i][1].tolist() == b.tolist())
    # the pair
    cams = [set_fields(cm.MonoCamera(), name="cam%d" % i, image_width=100 + i, image_height=50 + i, K=("K", i), d=("d", i)) for i in range(2)]
    model = set_fields(cm.StereoCamera.__new__(cm.StereoCamera), left=cams[0], right=cams[1])
    sc = m.StereoCalibrator(model, boards=[b], name="pair")
    for i, x in enumerate((sc.l, sc.r)):
        ctx.ensure("camera-%d" % i, (x.name, tuple(x.size)) == ("cam%d" % i, (100 + i, 50 + i)))
        ctx.ensure("intrinsics-%d" % i, x.intrinsics == ("K", i) and x.distortion == ("d", i))
