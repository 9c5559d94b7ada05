"""R25: each image record names its own files and times; stereo pairs are the nearest images."""
from common import *
import pathlib, shutil, tempfile

REG = Registry("R25")
TOL = 0.05


class Dive:
    def __init__(self, root, name):
        self.raw = root / "raw" / "2020" / name
        self.out = root / "processed" / "2020" / name / "nav"
        self.raw.mkdir(parents=True)
        self.out.mkdir(parents=True)

    def add(self, rel):
        p = self.raw / rel
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("x")
        return rel


class Scratch:
    def __enter__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root)


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def mission(ctx, names, paths, offsets=(0, 0, 0), zone=0, off=0):
    return Obj(image=Obj(timezone=zone, timeoffset_s=off, cameras=[Obj(name=n, path=p, timeoffset_s=o, type="x") for n, p, o in zip(names, paths, offsets)]))


def times(ctx, tag, n):
    """trigger times within a few seconds of each other, any order"""
    if n > 5:
        return [1000 + ctx.int("%s%d" % (tag, k), 0, 100000 * n) / 1e6 for k in range(n)]
    return [ctx.real("%s%d" % (tag, k), lo=1000, hi=1003) if ctx.symbolic else 1000 + round(ctx.real("%s%d" % (tag, k), lo=0, hi=0.3) * 1000) / 1000 for k in range(n)]


def pairing(ctx, t1, t2):
    """spec: (i, j): j the nearest second image (the first listed of equals), within the tolerance"""
    out = []
    for i, a in enumerate(t1):
        d = [ctx.abs(a - b) for b in t2]
        j = 0
        for k in range(1, len(d)):
            if d[k] < d[j]:
                j = k
        for k in range(len(d)):
            if k != j:
                ctx.assume(ctx.Not(ctx.eq(d[k], d[j])) if ctx.symbolic else d[k] != d[j])
        if ctx.symbolic:
            ctx.assume(ctx.Not(ctx.eq(d[j], TOL)))
        else:
            ctx.assume(abs(d[j] - TOL) > 1e-6)
        if d[j] < TOL:
            out.append((i, j))
    return out


def same_file(d, name, rel):
    p = pathlib.Path(name)
    return (p if p.is_absolute() else d.raw / p) == d.raw / rel


def check_pairs(ctx, d, got, f1, f2, t1, t2, want, sensor):
    """every wanted pair once and nothing else, each with its own times and files"""
    ctx.ensure("number-of-pairs", len(got) == len(want), "%d records, %d pairs" % (len(got), len(want)))
    by = {}
    for r in got:
        c1, c2 = r["camera1"][0], r["camera2"][0]
        k = [i for i, f in enumerate(f1) if same_file(d, c1["filename"], f)]
        ctx.ensure("file-of-camera-1", len(k) == 1 and k[0] not in by, c1["filename"])
        by[k[0]] = (r, c1, c2)
        ctx.ensure("category", r["category"] == "image" and r["class"] == "measurement")
    for i, j in want:
        ctx.ensure("pair-%d" % i, i in by)
        r, c1, c2 = by[i]
        ctx.ensure("partner-%d" % i, same_file(d, c2["filename"], f2[j]), "%s, nearest is %s" % (c2["filename"], f2[j]))
        ctx.ensure_eq("time-%d" % i, r["epoch_timestamp"], t1[i], tol=2e-6)
        ctx.ensure_eq("time-camera1-%d" % i, c1["epoch_timestamp"], t1[i], tol=2e-6)
        ctx.ensure_eq("time-camera2-%d" % i, c2["epoch_timestamp"], t2[j], tol=2e-6)


def _stereo(kind):
    def h(ctx):
        silence(ctx)
        size = ctx.size("sizes", [(2, 2), (1, 3), (2, 1)], many=(40, 130))
        n1, n2 = size if isinstance(size, tuple) else (size, size - 7)
        dives = ctx.choice("dives", [1, 2])
        mod = {"acfr": "parse_acfr_images", "biocam": "parse_biocam_images", "ntnu": "parse_ntnu_stereo"}[kind]
        m = repo("auv_nav.parsers." + mod)
        with Scratch() as root:
            for nd in range(dives):
                # the first of two dives only provides a history
                d = Dive(root, "dive%d" % nd)
                t1, t2 = times(ctx, "a%d" % nd, n1), times(ctx, "b%d" % nd, n2)
                if kind == "acfr":
                    f1 = [d.add("image/PR_20200101_%06d_000_LC16.tif" % k) for k in range(n1)]
                    f2 = [d.add("image/PR_20200101_%06d_100_RC16.tif" % k) for k in range(n2)]
                    d.add("image/._PR_20200101_000001_000_LC16.tif")
                    d.add("image/LC16_notes.txt")
                    M = mission(ctx, ("LC16", "RC16"), ("image", "image"))
                    f, fn = m.parse_acfr_images, "acfr_timestamp_from_filename"
                elif kind == "biocam":
                    f1 = [d.add("image/cam61_strobe/20200101_%06d_000000_20200101_000000_000000_a.tif" % k) for k in range(n1)]
                    f2 = [d.add("image/cam62_strobe/20200101_%06d_000000_20200101_000000_000000_b.tif" % k) for k in range(n2)]
                    M = mission(ctx, ("cam61", "cam62"), ("image", "image"))
                    f, fn = m.parse_biocam_images, "biocam_timestamp_from_filename"
                else:
                    f1 = [d.add("image/x%d/200101-%06d.0000L.jpg" % (k % 2, k)) for k in range(n1)]
                    f2 = [d.add("image/x%d/200101-%06d.0001R.jpg" % (k % 2, k)) for k in range(n2)]
                    M = mission(ctx, ("L", "R"), ("image", "image"))
                    f, fn = m.parse_ntnu_stereo_images, "timestamp_from_filename"
                clock = {pathlib.Path(x).name: t for x, t in zip(f1 + f2, t1 + t2)}

                def stamp(name, tz, off):
                    return (clock[name], clock[name]) if kind == "biocam" else clock[name]

                # callee contract (proved in R15): the time in the name of that file
                ctx.patch(m, fn, stamp)
                # os/glob list files in any order: run-time order is the one of this system
                # a tie between two partners is not specified
                want = pairing(ctx, t1, t2)
                got = f(M, None, "images", "oplab", d.out)
                if nd == dives - 1:
                    check_pairs(ctx, d, got, f1, f2, t1, t2, want, kind)

    h.__name__ = "stereo_pairs_" + kind
    REG.harness(["auv_nav.parsers." + {"acfr": "parse_acfr_images.parse_acfr_images", "biocam": "parse_biocam_images.parse_biocam_images", "ntnu": "parse_ntnu_stereo.parse_ntnu_stereo_images"}[kind]], kind="bounded", bound="1-2 images of the first camera, 1-3 of the second, symbolic times; with and without a dive parsed before", samples=25, max_paths=6000, budget_s=250)(h)


for k in ("acfr", "biocam", "ntnu"):
    _stereo(k)


@REG.harness(["auv_nav.parsers.parse_biocam_images.parse_biocam_images"], kind="bounded", bound="one strobe pair, two laser images of the second camera, symbolic times", samples=20)
def biocam_laser_images(ctx):
    """laser images of the second camera are records of camera 3, each with its own times"""
    silence(ctx)
    m = repo("auv_nav.parsers.parse_biocam_images")
    with Scratch() as root:
        d = Dive(root, "dive")
        n1, n2 = "20200101_000000_000000_20200101_000000_000000_a.tif", "20200101_000000_000000_20200101_000000_000000_b.tif"
        d.add("image/c1_strobe/" + n1)
        d.add("image/c2_strobe/" + n2)
        l = [d.add("image/c2_laser/00%d/20200101_00000%d_000000_20200101_000000_000000_b.jpg" % (k, k)) for k in range(2)]
        clock = {pathlib.Path(x).name: (ctx.real("pc%d" % k, lo=1000, hi=1001), ctx.real("cam%d" % k, lo=1000, hi=1001)) for k, x in enumerate([n1, n2] + l)}
        ctx.patch(m, "biocam_timestamp_from_filename", lambda name, tz, off: clock[name])
        ctx.assume(ctx.abs(clock[n1][0] - clock[n2][0]) < 0.04)
        got = m.parse_biocam_images(mission(ctx, ("c1", "c2"), ("image", "image")), None, "images", "oplab", d.out)
        las = [r for r in got if r["category"] == "laser"]
        ctx.ensure("one-pair", len([r for r in got if r["category"] == "image"]) == 1 and len(got) == 3)
        im = [r for r in got if r["category"] == "image"][0]
        for c, n in (("camera1", n1), ("camera2", n2)):
            ctx.ensure_eq(c + "-cpu", im[c][0]["epoch_timestamp_cpu"], clock[n][0])
            ctx.ensure_eq(c + "-cam", im[c][0]["epoch_timestamp_cam"], clock[n][1])
        for k in range(2):
            r = [r for r in las if same_file(d, r["camera3"][0]["filename"], l[k])]
            ctx.ensure("laser-%d" % k, len(r) == 1)
            t = clock[pathlib.Path(l[k]).name]
            ctx.ensure_eq("laser-time-%d" % k, r[0]["epoch_timestamp"], t[0])
            ctx.ensure_eq("laser-cpu-%d" % k, r[0]["camera3"][0]["epoch_timestamp_cpu"], t[0])
            ctx.ensure_eq("laser-cam-%d" % k, r[0]["camera3"][0]["epoch_timestamp_cam"], t[1])


@REG.harness(["auv_nav.parsers.parse_biocam_images.correct_timestamps"], kind="bounded", bound="three stereo pairs and two laser images in any of the listed orders, symbolic times", samples=60, max_paths=4000, budget_s=250)
def biocam_clock_correction(ctx):
    """the corrected time of an image is an affine function of its camera clock (the regression of
    that camera's recordings), lowered so that no image is later than it was recorded and one is
    recorded at its corrected time; nothing else in the record changes"""
    silence(ctx)
    m = repo("auv_nav.parsers.parse_biocam_images")
    order = ctx.choice("order", ["iiill", "ilili"])
    cam = {1: ctx.increasing("cam1_", 3, gap=1, lo=1000, hi=1100), 2: ctx.increasing("cam2_", 3, gap=1, lo=1000, hi=1100), 3: ctx.increasing("cam3_", 2, gap=1, lo=1000, hi=1100)}
    off = {c: [ctx.real("off%d_%d" % (c, k), lo=0, hi=5) for k in range(len(v))] for c, v in cam.items()}
    fits = []

    class Fit:
        pass

    if ctx.symbolic:
        def linregress(x, y):
            r = Fit()
            r.slope, r.intercept = ctx.real("slope%d" % len(fits), lo=-1, hi=1), ctx.real("intercept%d" % len(fits), lo=-1000, hi=1000)
            fits.append((list(x), list(y), r.slope, r.intercept))
            return r

        ctx.patch(m, "linregress", linregress)
        ctx.trusted.add("assumed contract: scipy.stats.linregress (uninterpreted line)")
    rec = lambda c, k: [{"epoch_timestamp": cam[c][k] + off[c][k], "epoch_timestamp_cpu": cam[c][k] + off[c][k], "epoch_timestamp_cam": cam[c][k], "filename": "c%d_%d" % (c, k)}]
    data, ni, nl = [], 0, 0
    for o in order:
        if o == "i":
            data.append({"category": "image", "epoch_timestamp": cam[1][ni] + off[1][ni], "camera1": rec(1, ni), "camera2": rec(2, ni)})
            ni += 1
        else:
            data.append({"category": "laser", "epoch_timestamp": cam[3][nl] + off[3][nl], "camera3": rec(3, nl)})
            nl += 1
    got = m.correct_timestamps(data)
    ctx.ensure("as-many", len(got) == len(order))

    def line(x, y):
        if ctx.symbolic:
            for fx, fy, a, b in fits:
                if len(fx) == len(x) and all(ctx.valid(ctx.eq(p, q)) for p, q in zip(fx + fy, x + y)):
                    return a, b
            ctx.ensure("regression-of-the-camera", False, "no regression over exactly the recordings of the camera")
        n = len(x)
        mx, my = sum(x) / n, sum(y) / n
        a = sum((p - mx) * (q - my) for p, q in zip(x, y)) / sum((p - mx) ** 2 for p in x)
        return a, my - a * mx

    a1, b1 = line(cam[1], off[1])
    a2, b2 = line(cam[2] + cam[3], off[2] + off[3])

    def low(x, y, a, b):
        r = [q - a * p - b for p, q in zip(x, y)]
        lo = r[0]
        for v in r[1:]:
            lo = ctx.ite(v < lo, v, lo) if ctx.symbolic else min(lo, v)
        return lo

    l1, l2 = low(cam[1], off[1], a1, b1), low(cam[2] + cam[3], off[2] + off[3], a2, b2)
    ni = nl = 0
    for o, r in zip(order, got):
        if o == "i":
            w1, w2 = cam[1][ni] * (1 + a1) + b1 + l1, cam[2][ni] * (1 + a2) + b2 + l2
            ctx.ensure("record-%d" % ni, r["category"] == "image" and r["camera1"][0]["filename"] == "c1_%d" % ni and r["camera2"][0]["filename"] == "c2_%d" % ni)
            ctx.ensure_eq("time-%d" % ni, r["epoch_timestamp"], w1)
            ctx.ensure_eq("camera1-%d" % ni, r["camera1"][0]["epoch_timestamp"], w1)
            ctx.ensure_eq("camera2-%d" % ni, r["camera2"][0]["epoch_timestamp"], w2)
            ctx.ensure("never-later-%d" % ni, ctx.le(w1, cam[1][ni] + off[1][ni]))
            ni += 1
        else:
            w = cam[3][nl] * (1 + a2) + b2 + l2
            ctx.ensure("laser-record-%d" % nl, r["category"] == "laser" and r["camera3"][0]["filename"] == "c3_%d" % nl)
            ctx.ensure_eq("laser-time-%d" % nl, r["epoch_timestamp"], w)
            ctx.ensure_eq("camera3-%d" % nl, r["camera3"][0]["epoch_timestamp"], w)
            nl += 1


@REG.harness(["auv_nav.parsers.parse_seaxerocks_images.parse_seaxerocks_images", "auv_nav.parsers.parse_seaxerocks_images.determine_extension_and_images_per_folder", "auv_nav.parsers.parse_seaxerocks_images.build_image_path"], kind="bounded", bound="two stereo and two laser images; all times, zones and offsets", samples=25)
def seaxerocks_records(ctx):
    """each row of FileTime.csv is one record: time of that row plus the offset of that camera, file of that number"""
    silence(ctx)
    m = repo("auv_nav.parsers.parse_seaxerocks_images")
    ms = [ctx.int("ms%d" % k, 0, 999) for k in range(4)]
    zone, off = ctx.choice("zone", ["utc", "jst", 3.5]), ctx.real("timeoffset", lo=-100, hi=100)
    offs = [ctx.real("camera_offset%d" % k, lo=-10, hi=10) for k in range(3)]
    s, ext = ctx.choice("folders", [(0, "jpg"), (1, "jpg"), (0, "tif"), (1, "tif")])
    epoch = {}

    def to_epoch(y, mo, d, h, mi, sec, tz=0):
        return epoch[(y, mo, d, h, mi, sec)] - tz * 3600

    for k in range(4):
        epoch[(2020, 1, 2, 3, 4, k)] = 1577934240 + k
    ctx.patch(m, "date_time_to_epoch", to_epoch)
    tz = {"utc": 0, "jst": 9}.get(zone, zone)
    nums = ["0000007", "0000012"]
    lnum = ["0012345", "0123456"]
    with Scratch() as root:
        d = Dive(root, "dive")
        row = lambda n, k: "%s,20200102,03040%d,%s,x\n" % (n, k, ctx.digits(ms[k], 3))
        (d.raw / "image" / "i").mkdir(parents=True)
        (d.raw / "image" / "i" / "FileTime.csv").write_text("index,date,time,ms,x\n" + row(nums[0], 0) + row(nums[1], 1))
        (d.raw / "image" / "LM165").mkdir(parents=True)
        (d.raw / "image" / "LM165" / "FileTime.csv").write_text("index,date,time,ms,x\n" + row(lnum[0], 2) + row(lnum[1], 3))
        for n in lnum:
            d.add("image/LM165/%s/image%s.%s" % (n[s : s + 3], n, ext))
        M = mission(ctx, ("a/Cam1", "a/Cam2", "a/LM165"), ("image/i/Cam1", "image/i/Cam2", "image/LM165"), offs, zone, off)
        got = m.parse_seaxerocks_images(M, None, "images", "oplab", d.out)
    st, la = [r for r in got if r["category"] == "image"], [r for r in got if r["category"] == "laser"]
    ctx.ensure("one-per-row", len(st) == 2 and len(la) == 2 and len(got) == 4)
    for k in range(2):
        t = epoch[(2020, 1, 2, 3, 4, k)] - tz * 3600 + ms[k] / 1000 + off
        ctx.ensure_eq("time-%d" % k, st[k]["epoch_timestamp"], t + offs[0], tol=1e-5)
        for c in (1, 2):
            r = st[k]["camera%d" % c][0]
            ctx.ensure_eq("camera%d-time-%d" % (c, k), r["epoch_timestamp"], t + offs[c - 1], tol=1e-5)
            ctx.ensure("camera%d-file-%d" % (c, k), r["filename"] == "image/i/Cam%d/%s.raw" % (c, nums[k]), r["filename"])
            ctx.ensure("camera%d-serial-%d" % (c, k), r["serial"] == "a_Cam%d" % c, r["serial"])
        t = epoch[(2020, 1, 2, 3, 4, k + 2)] - tz * 3600 + ms[k + 2] / 1000 + off + offs[2]
        ctx.ensure_eq("laser-time-%d" % k, la[k]["epoch_timestamp"], t, tol=1e-5)
        ctx.ensure("laser-file-%d" % k, la[k]["filename"] == "image/LM165/%s/image%s.%s" % (lnum[k][s : s + 3], lnum[k], ext), la[k]["filename"])
        ctx.ensure("laser-serial-%d" % k, la[k]["serial"] == "a_LM165")


@REG.harness(["auv_nav.parsers.parse_voyis.parse_voyis_images", "auv_nav.parsers.parse_voyis.pathlist_relativeto"], kind="bounded", bound="two stills and two laser images, every combination of clocks, symbolic times", samples=25)
def voyis_records(ctx):
    """each image is a record with its own relative name and the time in its name, read with the
    format of its own camera and clock"""
    silence(ctx)
    m = repo("auv_nav.parsers.parse_voyis")
    zone = ctx.choice("zone", ["utc", "jst", -3.5])
    tz = {"utc": 0, "jst": 9}.get(zone, zone)
    clocks = [ctx.choice("clock%d" % k, ["PPS", "SYSTEM"]) for k in range(4)]
    fmts = {"stills": {"PPS": "fmt_sp", "SYSTEM": "fmt_ss"}, "laser": {"PPS": "fmt_lp", "SYSTEM": "fmt_ls"}}
    names = ["%015d%s_s.tif" % (k, clocks[k]) for k in range(2)] + ["%016d%s_l.tif" % (k, clocks[k]) for k in (2, 3)]
    epoch = {}
    for k, n in enumerate(names):
        epoch[(fmts["stills" if k < 2 else "laser"][clocks[k]], n)] = ctx.real("t%d" % k, lo=1000, hi=2000)

    class FTD:
        def __init__(self, f):
            self.f = f

        def __call__(self, n):
            return epoch.get((self.f, n), -1.0)

    ctx.patch(m, "FilenameToDate", FTD)
    with Scratch() as root:
        d = Dive(root, "dive")
        files = [d.add(("img/stills/a%d/" % k if k < 2 else "img/laser/b%d/" % k) + n) for k, n in enumerate(names)]
        cams = [("stills", "img/stills"), ("laser", "img/laser")]
        if ctx.flag("laser_first"):
            cams.reverse()
        (d.raw / "camera.yaml").write_text("cameras:\n" + "".join("  - name: %s\n    path: %s\n    filename_to_date_pps: %s\n    filename_to_date_system: %s\n" % (n, p, fmts[n]["PPS"], fmts[n]["SYSTEM"]) for n, p in cams))
        got = m.parse_voyis_images(mission(ctx, (), (), zone=zone), None, "images", "oplab", d.out)
    ctx.ensure("one-per-image", len(got) == 4)
    for k, f in enumerate(files):
        r = [r for r in got if same_file(d, r["camera1"][0]["filename"], f)]
        ctx.ensure("record-%d" % k, len(r) == 1)
        t = list(epoch.values())[k] - tz * 3600
        ctx.ensure_eq("time-%d" % k, r[0]["epoch_timestamp"], t)
        ctx.ensure_eq("camera-time-%d" % k, r[0]["camera1"][0]["epoch_timestamp"], t)


@REG.harness(["auv_nav.parsers.parse_stereo_gopro.parse_stereo_gopro_images"], kind="sample", samples=30)
def gopro_records(ctx):
    """each row of filelist.csv whose two files exist is a record of these files at that time"""
    silence(ctx)
    m = repo("auv_nav.parsers.parse_stereo_gopro")
    ts = [round(ctx.real("t%d" % k, lo=1000, hi=2000) * 64) / 64 for k in range(3)]
    miss = ctx.choice("missing", [None, ("left", 0), ("right", 1), ("left", 2)])
    with Scratch() as root:
        d = Dive(root, "dive")
        for k in range(3):
            for s in ("left", "right"):
                if (s, k) != miss:
                    d.add("image/%s/%s_%d.jpg" % (s, s[0], 7 - k))
        (d.raw / "image" / "filelist.csv").write_text("epoch,file_left,file_right\n" + "".join("%r,l_%d.jpg,r_%d.jpg\n" % (ts[k], 7 - k, 7 - k) for k in range(3)))
        M = mission(ctx, ("l", "r"), (str(d.raw / "image" / "left"), str(d.raw / "image" / "right")))
        got = m.parse_stereo_gopro_images(M, None, "images", "oplab", d.out)
    want = [k for k in range(3) if not miss or miss[1] != k]
    ctx.ensure("rows", len(got) == len(want))
    for r, k in zip(got, want):
        ctx.ensure_eq("time-%d" % k, r["epoch_timestamp"], ts[k])
        for c, s in (("camera1", "left"), ("camera2", "right")):
            ctx.ensure_eq("time-%s-%d" % (c, k), r[c][0]["epoch_timestamp"], ts[k])
            ctx.ensure("file-%s-%d" % (c, k), same_file(d, r[c][0]["filename"], "image/%s/%s_%d.jpg" % (s, s[0], 7 - k)))


@REG.harness(["oplab.camera_system.CameraEntry.image_list", "oplab.camera_system.CameraEntry.stamp_list", "oplab.camera_system.CameraSystem._parse"], kind="sample", samples=40)
def camera_image_list(ctx):
    """a camera lists exactly its own images, sorted by name, each with its own time"""
    silence(ctx)
    import random

    lay = ctx.choice("layout", ["folder", "one_star", "two_stars", "three_stars", "prefix"])
    rng = random.Random(ctx.int("seed", 0, 10**6))
    nums = rng.sample(range(100, 999), 5)
    with Scratch() as root:
        d = Dive(root, "dive")
        mk = {
            "folder": ("image/cam1", lambda n: "image/cam1/PR_%d_LC.tif" % n, lambda n: "image/cam2/PR_%d_LC.tif" % n),
            "one_star": ("image/i*/cam1", lambda n: "image/i2020/cam1/s%d/PR_%d_LC.tif" % (n % 2, n), lambda n: "image/i2020/cam2/PR_%d_LC.tif" % n),
            "two_stars": ("image/i*/*LC", lambda n: "image/i2020/PR_%d_LC.tif" % n, lambda n: "image/i2020/PR_%d_RC.tif" % n),
            "three_stars": ("image/i*/*LC*", lambda n: "image/i2020/PR_%d_LC16.tif" % n, lambda n: "image/i2020/PR_%d_RC16.tif" % n),
            "prefix": ("image/LC", lambda n: "image/LC_%d.tif" % n, lambda n: "image/RC_%d.tif" % n),
        }[lay]
        mine = [d.add(mk[1](n)) for n in nums]
        for n in nums[:3]:
            d.add(mk[2](n))
            d.add(mk[1](n)[:-4] + ".txt")
        f = d.raw / "camera.yaml"
        f.write_text("camera_system: x\ncameras:\n  - name: /front/cam/c1\n    type: bggr\n    bit_depth: 12\n    path: '%s'\n    extension: tif\n    filename_to_date: xxxx\n  - name: c2\n    type: rggb\n    bit_depth: 8\n    path: image/other\n    extension: png\n    filename_to_date: yyyy\n" % mk[0])
        cs = repo("oplab.camera_system")

        class FTD:
            def __init__(self, *a):
                self.a = a

            def __call__(self, n):
                return (self.a[0], n)

        ctx.patch(cs, "FilenameToDate", FTD)
        s = cs.CameraSystem(f, d.out if ctx.flag("from_processed") else d.raw)
        ctx.ensure("cameras", [(c.type, c.bit_depth, c.extension) for c in s.cameras] == [("bggr", 12, "tif"), ("rggb", 8, "png")])
        c = s.cameras[0]
        ctx.ensure("names", [c.name for c in s.cameras] == ["front_cam_c1", "c2"] and c.topic == "/front/cam/c1", "%s" % [c.name for c in s.cameras])
        if s.cameras[0].raw_folder == d.out:
            # the dive folder is what callers pass
            c.raw_folder = d.out.parent
        w = sorted(str(d.raw / p) for p in mine)
        ctx.ensure("own-images", list(c.image_list) == w, "%s" % list(c.image_list))
        ctx.ensure("stable", list(c.image_list) == w)
        ctx.ensure("own-times", list(c.stamp_list) == [("xxxx", pathlib.Path(p).name) for p in w])
