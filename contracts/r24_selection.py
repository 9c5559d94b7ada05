"""R24: which images are corrected, and with which altitude."""
from imgspec import *
import pathlib, shutil, tempfile

REG = Registry("R24")
C = "correct_images.corrector"
CAM = "Cam51707923"


class Dive:
    """a dive with navigation and images in a scratch folder"""

    def __init__(self, root, name, rows, nav="ekf", listed=None):
        """rows: (relative path, altitude cell, exists on disk)"""
        self.path = self.raw = root / "raw" / "2020" / name
        self.proc = root / "processed" / "2020" / name
        self.conf = root / "configuration" / "2020" / name
        for p in (self.raw, self.proc, self.conf):
            p.mkdir(parents=True)
        d = self.proc / "json_renav_x" / "csv" / ("ekf" if nav == "ekf" else "dead_reckoning")
        d.mkdir(parents=True)
        self.csv = d / ("auv_%s_%s.csv" % ("ekf" if nav == "ekf" else "dr", CAM))
        self.csv.write_text("relative_path,northing [m],altitude [m],timestamp [s]\n" + "".join("%s,%d,%s,%d.5\n" % (r, k, a, 100 + k) for k, (r, a, _) in enumerate(rows)))
        for r, _, e in rows:
            if e:
                (self.raw / r).parent.mkdir(parents=True, exist_ok=True)
                (self.raw / r).write_text("x")
        self.list = "none"
        if listed is not None:
            self.list = "my_list.txt"
            (self.conf / self.list).write_text("\n".join(listed) + "\n")


class _Scratch:
    def __enter__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root)


class Cam:
    extension = "tif"
    name = CAM
    topic = None
    image_list = []


def corrector(d, method="colour_correction", **k):
    cls = repo(C).Corrector
    o = cls.__new__(cls)
    set_fields(o, camera=Cam, camera_name=CAM, correction_method=method, camera_image_list=[], altitude_list=[], depth_map_list=[], processed_image_list=[], altitude_csv_path=None, trimmed_csv_path=None, camera_params_file_path=None, memmaps_to_remove=[], mode="parse", force=False, suffix=None)
    use(o, d)
    return set_fields(o, **k)


def use(o, d, listed=True):
    if listed:
        set_fields(o, user_specified_image_list=d.list)
    return set_fields(o, path_raw=d.raw, path_processed=d.proc, path_config=d.conf, distance_path="json_renav_*", user_specified_image_list_parse=d.list, user_specified_image_list_process=d.list)


def alt_(ctx, name, lo, hi):
    """replays use multiples of 1/64, which pandas reads back exactly"""
    x = ctx.real(name, lo=lo, hi=hi)
    return x if ctx.symbolic else round(float(x) * 64) / 64.0


def cell(ctx, x):
    return "%s" % x if ctx.symbolic else repr(float(x))


def _select(mode, nav, n=3):
    def h(ctx):
        """exactly the images that exist, are in the user's list (if there is one), have an
        altitude, and an altitude strictly inside the window of this mode; each with its own altitude"""
        silence(ctx)
        alts = [alt_(ctx, "alt%d" % k, 0, 20) for k in range(n)]
        pmin, pmax = alt_(ctx, "parse_min", 0, 10), alt_(ctx, "parse_max", 0, 20)
        qmin, qmax = alt_(ctx, "process_min", 0, 10), alt_(ctx, "process_max", 0, 20)
        missing = ctx.choice("missing", [None, 0, n - 1])
        none = ctx.choice("without_altitude", [None, 1])
        listed = ctx.choice("user_list", [None, "two", "other_extension"])
        stems = ["PR_0_LC16", "PR_1_LC16", "x_PR_1_LC16_b"][:n]
        rows = [("image/d/%s.tif" % stems[k], "None" if k == none else cell(ctx, a), k != missing) for k, a in enumerate(alts)]
        sel = set(range(n))
        names = None
        if listed == "two":
            names, sel = ["PR_0_LC16.tif", "PR_1_LC16.tif"], {0, 1}
        elif listed == "other_extension":
            names, sel = ["somewhere/x_PR_1_LC16_b.png", "PR_1_LC16", "PR_11_LC16.tif", "PR"], {1, 2}
        lo, hi = (pmin, pmax) if mode == "parse" else (qmin, qmax)
        want = []
        for k in range(n):
            if k in sel and k != missing and k != none and lo < alts[k] and alts[k] < hi:
                want.append(k)
        with _Scratch() as root:
            d = Dive(root, "dive", rows, nav, names)
            o = corrector(d, parse_altitude_min=pmin, parse_altitude_max=pmax, process_altitude_min=qmin, process_altitude_max=qmax)
            try:
                o.get_imagelist(mode)
                got = [str(x) for x in o.camera_image_list]
            except Quit:
                ctx.ensure("stops-only-without-images", not want)
                return
            ga = o.altitude_list
            ctx.ensure("images", got == [str(d.raw / rows[k][0]) for k in want], "%s vs %s" % (got, want))
            ctx.ensure("as-many-altitudes", len(ga) == len(want))
            for k, a in zip(want, ga):
                ctx.ensure_eq("own-altitude-%d" % k, a, alts[k])

    h.__name__ = "select_%s_%s" % (mode, nav)
    REG.harness([C + ".Corrector.get_imagelist", "correct_images.tools.file_handlers.trim_csv_files"], kind="bounded", bound="%d images, symbolic altitudes and window; missing files, missing altitudes and user lists enumerated" % n, samples=25, max_paths=3000, budget_s=200)(h)


_select("parse", "ekf")
_select("process", "ekf")
_select("process", "dr", 2)


@REG.harness([C + ".Corrector.get_imagelist", "correct_images.tools.file_handlers.trim_csv_files"], kind="sample", samples=24)
def select_many(ctx):
    """the same for many images, listed and stored in any order"""
    silence(ctx)
    P = ctx.choice("naming", ["PR_%d", "PR_1.%d", "20200101_120000.%dms"])
    n = ctx.size("n", [1, 7], many=(45, 130))
    mode = ctx.choice("mode", ["parse", "process"])
    ks = [(k * 37 + 11) % 1009 for k in range(n)]
    alts = [ctx.int("alt%d" % k, 0, 640) / 64.0 for k in range(n)]
    state = [ctx.choice("state%d" % k, ["ok", "ok", "ok", "ok", "missing", "none", "unlisted"]) for k in range(n)]
    listing = ctx.flag("listing")
    lo, hi = ctx.int("lo", 0, 200) / 64.0, ctx.int("hi", 300, 640) / 64.0
    names = [(P + ".tif") % k for k, st in zip(ks, state) if st != "unlisted"][::-1] if listing else None
    ctx.assume(names is None or len(names) > 0)
    rows = [(("image/d/" + P + ".tif") % k, "None" if st == "none" else repr(a), st != "missing") for k, st, a in zip(ks, state, alts)]
    want = [i for i in range(n) if (state[i] == "ok" or (state[i] == "unlisted" and not listing)) and lo < alts[i] < hi]
    w = {"parse_altitude_min": lo, "parse_altitude_max": hi, "process_altitude_min": 100.0, "process_altitude_max": 200.0}
    if mode == "process":
        w = {"process_altitude_min": lo, "process_altitude_max": hi, "parse_altitude_min": 100.0, "parse_altitude_max": 200.0}
    with _Scratch() as root:
        d = Dive(root, "dive", rows, "ekf", names)
        o = corrector(d, **w)
        try:
            o.get_imagelist(mode)
        except Quit:
            ctx.ensure("stops-only-without-images", not want)
            return
        got = [str(x) for x in o.camera_image_list]
        ctx.ensure("images", got == [str(d.raw / rows[i][0]) for i in want], "%d images, %d expected" % (len(got), len(want)))
        ctx.ensure("own-altitudes", [float(a) for a in o.altitude_list] == [alts[i] for i in want])


@REG.harness([C + ".Corrector.parse", C + ".Corrector.get_imagelist"], kind="bounded", bound="two dives of two images, symbolic altitudes and window", samples=20)
def several_dives(ctx):
    """parameters are computed from the images of all dives, each with its own altitude"""
    silence(ctx)
    al = [[alt_(ctx, "alt%d%d" % (i, k), 0, 20) for k in range(2)] for i in range(2)]
    lo, hi = alt_(ctx, "min", 0, 10), alt_(ctx, "max", 0, 20)
    rec = {}
    with _Scratch() as root:
        # the second, the first or no dive has a list of images to use
        lists = ctx.choice("user_lists", [(None, None), (None, ["PR_1.tif"]), (["PR_0.tif", "PR_1.tif"], ["PR_0.tif"]), (["PR_1.tif"], None)])
        ds = [Dive(root, "dive%d" % i, [("image/PR_%d.tif" % k, cell(ctx, al[i][k]), True) for k in range(2)], listed=lists[i]) for i in range(2)]
        cls = repo(C).Corrector
        o = corrector(ds[0])

        def set_path(self, p):
            use(self, ds[[d.raw for d in ds].index(p)], listed=False)

        def load(self, c=None):
            set_fields(self, parse_altitude_min=lo, parse_altitude_max=hi, process_altitude_min=-1, process_altitude_max=-1, distance_metric="altitude", correct_config=c)
            self.attenuation_parameters_folder = self.path_processed / "params"
            for k in ("images_map", "distances_map", "attenuation_params", "correction_gains", "corrected_mean", "corrected_std", "raw_mean", "raw_std"):
                setattr(self, k + "_filepath", self.attenuation_parameters_folder / (k + ".npy"))

        ctx.patch(cls, "set_path", set_path)
        ctx.patch(cls, "load_configuration", load)
        names = ("attenuation_params", "correction_gains", "corrected_mean", "corrected_std")
        if lists[0] is None:
            # what is written when no distances are used
            names = ("raw_mean", "raw_std") if lists[1] else names + ("raw_mean", "raw_std")

        def gen(self):
            rec.update(images=list(map(str, self.camera_image_list)), alts=list(self.altitude_list))
            p = pathlib.Path(self.attenuation_parameters_folder)
            p.mkdir(parents=True)
            for n in names:
                (p / (n + ".npy")).write_text(n)

        ctx.patch(cls, "generate_attenuation_correction_parameters", gen)
        want = {}
        for i in range(2):
            for k in range(2):
                if lists[i] is not None and "PR_%d.tif" % k not in lists[i]:
                    continue
                if lo < al[i][k] and al[i][k] < hi:
                    want[str(ds[i].raw / ("image/PR_%d.tif" % k))] = al[i][k]
        try:
            o.parse([d.raw for d in ds], ["c0", "c1"])
        except Quit:
            ctx.ensure("stops-only-with-fewer-than-three", len(want) < 3)
            return
        ctx.ensure("images-of-all-dives", sorted(rec["images"]) == sorted(want), "%s vs %s" % (rec["images"], sorted(want)))
        ctx.ensure("as-many-altitudes", len(rec["alts"]) == len(want))
        for f, a in zip(rec["images"], rec["alts"]):
            if f in want:
                ctx.ensure_eq("own-altitude-" + f[-16:], a, want[f])
        for d in ds:
            for n in names:
                f = d.proc / "params" / (n + ".npy")
                ctx.ensure("parameters-in-every-dive", f.exists() and f.read_text() == n, str(f))


@REG.harness([C + ".Corrector.get_altitude_and_depth_maps"], kind="sample", samples=30)
def depth_maps_of_the_same_image(ctx):
    """images without depth map are left out, every other has its own"""
    silence(ctx)
    P = ctx.choice("naming", ["PR_%d", "PR_1.%d", "20200101_120000.%dms"])
    n = ctx.size("n", [5, 1], many=(60, 130))
    have = [ctx.flag("have%d" % k) for k in range(n)]
    if not any(have):
        have[n // 2] = True
    with _Scratch() as root:
        d = Dive(root, "dive", [(("image/s/" + P + ".tif") % k, "1", True) for k in range(n)])
        o = corrector(d, distance_metric="depth_map", camera_image_list=[d.raw / (("image/s/" + P + ".tif") % k) for k in range(n)], altitude_list=[1.0] * n)
        p = d.proc / "3d_reconstruction" / "depth_maps" / "gp_smoothed" / "image" / "s"
        p.mkdir(parents=True)
        for k in range(n):
            if have[k]:
                (p / ((P + "_depthmap.npy") % k)).write_text("")
        o.get_altitude_and_depth_maps()
        ks = [k for k in range(n) if have[k]]
        ctx.ensure("images", [pathlib.Path(x).stem for x in o.camera_image_list] == [(P) % k for k in ks], str(o.camera_image_list))
        ctx.ensure("depth-maps", [pathlib.Path(x).name for x in o.depth_map_list] == [(P + "_depthmap.npy") % k for k in ks], str(o.depth_map_list))


@REG.harness([C + ".Corrector.process_correction"], kind="sample", samples=30)
def list_of_corrected_images(ctx):
    """filelist.csv has one row per corrected image with that image's navigation and names"""
    import pandas as pd

    silence(ctx)
    P = ctx.choice("naming", ["PR_%d", "PR_1.%d", "20200101_120000.%dms"])
    sequential(ctx, C)
    if hasattr(repo(C), "tqdm"):
        ctx.patch(repo(C), "tqdm", lambda *a, **k: None)
    n = ctx.size("n", [5, 2], many=(60, 130))
    sel = [k for k in range(n) if ctx.flag("sel%d" % k)]
    absolute = ctx.flag("absolute_paths")
    with _Scratch() as root:
        rows = [(("image/s/" + P + ".tif") % k, repr(1.5 + k), True) for k in range(n)]
        d = Dive(root, "dive", rows)
        if absolute:
            d.csv.write_text(d.csv.read_text().replace("image/s", str(d.raw / "image/s")))
        before = d.csv.read_text()
        out = d.proc / "out"
        out.mkdir()
        o = corrector(d, undistort=False, camera_image_list=[d.raw / rows[k][0] for k in sel], altitude_csv_path=d.csv, output_images_folder=out)
        called = []

        def process_image(self, idx):
            called.append(idx)
            return out / (pathlib.Path(self.camera_image_list[idx]).stem + ".png")

        ctx.patch(repo(C).Corrector, "process_image", process_image)
        o.process_correction()
        ctx.ensure("every-image-once", sorted(called) == list(range(len(sel))))
        df = pd.read_csv(out / "filelist.csv")
        ctx.ensure("rows", len(df) == len(sel), "%d rows for %d images" % (len(df), len(sel)))
        for k, (_, r) in zip(sel, df.iterrows()):
            ctx.ensure("image-name-%d" % k, str(r["relative_path"]) == (P + ".png") % k, str(r["relative_path"]))
            ctx.ensure("raw-name-%d" % k, str(r["raw_relative_path"]) == ("image/s/" + P + ".tif") % k, str(r["raw_relative_path"]))
            ctx.ensure("navigation-%d" % k, float(r["altitude [m]"]) == 1.5 + k and int(r["northing [m]"]) == k)
        ctx.ensure("navigation-file-kept", d.csv.read_text() == before)


@REG.harness([C + ".Corrector.process_correction"], kind="sample", samples=10)
def list_of_manually_balanced_images(ctx):
    import pandas as pd

    silence(ctx)
    sequential(ctx, C)
    if hasattr(repo(C), "tqdm"):
        ctx.patch(repo(C), "tqdm", lambda *a, **k: None)
    n = ctx.int("n", lo=1, hi=4)
    with _Scratch() as root:
        d = Dive(root, "dive", [("image/s/PR_%d.tif" % k, "1", True) for k in range(n)])
        out = d.proc / "out"
        out.mkdir()

        class Cam2(Cam):
            image_list = [str(d.raw / ("image/s/PR_%d.tif" % k)) for k in range(n)]

        o = corrector(d, "manual_balance", camera=Cam2, undistort=False, output_images_folder=out)
        o.get_imagelist("process")
        ctx.ensure("all-images", list(map(str, o.camera_image_list)) == Cam2.image_list)
        ctx.patch(repo(C).Corrector, "process_image", lambda self, idx: out / (pathlib.Path(self.camera_image_list[idx]).stem + ".png"))
        o.process_correction()
        df = pd.read_csv(out / "filelist.csv")
        ctx.ensure("rows", list(df["relative_path"]) == ["PR_%d.png" % k for k in range(n)], str(df))
        ctx.ensure("camera-list-kept", len(Cam2.image_list) == n)


@REG.harness([C + ".Corrector.create_output_directories"], kind="sample", samples=40)
def output_folders_are_not_overwritten(ctx):
    """existing results are only replaced when the user forces it, and each configuration
    has its own folder"""
    silence(ctx)
    with _Scratch() as root:
        d = Dive(root, "dive", [("image/x.tif", "1", True)])
        mode, force, occupied = ctx.choice("mode", ["parse", "process"]), ctx.flag("force"), ctx.flag("occupied")
        sfx = ctx.choice("suffix", [None, "deep"])
        metric = ctx.choice("metric", ["altitude", "uniform", "depth_map"])
        b, c = ctx.int("brightness", lo=1, hi=99), ctx.int("contrast", lo=1, hi=30)
        o = corrector(d, mode=mode, force=force, suffix=sfx, distance_metric=metric, brightness=float(b), contrast=float(c), output_dir_path=None)
        tail = "_deep" if sfx else ""
        P = d.proc / "image" / CAM / ("params_" + metric + tail)
        O = d.proc / "image" / CAM / ("corrected_%s_mean_%d_std_%d%s" % (metric, b, c, tail))
        X = P if mode == "parse" else O
        old = X / ("a.npy" if mode == "parse" else "a.png")
        if occupied:
            X.mkdir(parents=True)
            old.write_text("precious")
        try:
            o.create_output_directories()
            stopped = False
        except Quit:
            stopped = True
        ctx.ensure("stops-iff-occupied-and-not-forced", stopped == (occupied and not force))
        ctx.ensure("nothing-deleted", not occupied or old.read_text() == "precious")
        if not stopped:
            ctx.ensure("parameter-folder", pathlib.Path(o.attenuation_parameters_folder) == P, str(o.attenuation_parameters_folder))
            ctx.ensure("image-folder", pathlib.Path(o.output_images_folder) == O, str(o.output_images_folder))
            ctx.ensure("exists", X.is_dir())
