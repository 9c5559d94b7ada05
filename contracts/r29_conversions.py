"""R29: poses converted to and from other navigation formats stay the same poses.

Files are really written and read; a number printed into a file is a token that
reads back as the same number (contract of printing and of pandas.read_csv)."""
import json
import os
import pathlib
import types

import numpy as np
import pandas as pd

from common import *
from r13_csv import cells, num, CAM, TRACK
from r22_datasets import Scratch, write
from procrun import packet_orientation, packet_velocity, packet_depth, packet_altitude, packet_usbl, packet_image, NS

REG = Registry("R29")
HY, KO, CV = "auv_nav.parsers.hybis", "auv_nav.parsers.koyo20rov", "auv_nav.convert"
SP, VP, CR, S = "auv_nav.parsers.acfr_stereo_pose", "auv_nav.parsers.acfr_vehicle_pose", "auv_nav.parsers.acfr_combined_raw", "auv_nav.sensors"


def tables(ctx):
    """contract of pandas.read_csv: every numeral reads back as its number"""
    if not ctx.symbolic:
        return
    real = pd.read_csv

    def back(x):
        if isinstance(x, str):
            from pyvc.shims import c_float

            if ctx.untoken(x) is not None:
                return c_float(x)
        return x

    def read_csv(f, *a, encoding=None, **k):
        return real(f, *a, encoding="utf-8", **k).map(back)

    ctx.patch(pd, "read_csv", read_csv)


def txt(ctx, x):
    return str(x) if ctx.symbolic else repr(float(x))


def rows_of(path):
    t = pathlib.Path(path).read_text()
    return [l + "\n" for l in t.split("\n") if l]


def table(ctx, path, n, tag=""):
    """-> the rows of a written table as {column: cell}"""
    rs = rows_of(path)
    ctx.ensure("one-row-per-record" + tag, len(rs) == n + 1, str(len(rs) - 1))
    h = cells(rs[0])
    ctx.ensure("columns-differ" + tag, len(set(h)) == len(h), str(h))
    out = []
    for r in rs[1:]:
        c = cells(r)
        ctx.ensure("one-cell-per-column" + tag, len(c) == len(h), r)
        out.append(dict(zip(h, c)))
    return out


def same(ctx, tag, row, want, scale=1000):
    for col, v in want.items():
        ctx.ensure("column-present" + tag, col in row, "%r missing in %r" % (col, sorted(row)))
        if col.startswith("timestamp"):
            ctx.ensure_eq("%s%s" % (col, tag), num(ctx, row[col]), v, tol=1e-4)
        elif col.startswith("heading"):
            congruent_360(ctx, "%s%s" % (col, tag), num(ctx, row[col]), v)
        elif isinstance(v, str):
            ctx.ensure("%s%s" % (col, tag), row[col] == v, "%r expected %r" % (row[col], v))
        else:
            ctx.ensure_eq("%s%s" % (col, tag), num(ctx, row[col]), v, scale=scale)


def clock(ctx, tag):
    """a time of day of the hour 8, records some minutes apart: (minute, second)"""
    return 7 * int(tag) + 3, ctx.int("second_" + tag, 0, 59)


# ------------------------------------------------------------------ HyBIS
def degrees_text(ctx, tag, width, lim):
    """NMEA style degrees and minutes -> (text without hemisphere, value)"""
    d, m, q = ctx.int("deg_" + tag, 0, lim), ctx.int("min_" + tag, 0, 59), ctx.int("minfrac_" + tag, 0, 99999)
    return ctx.digits(d, width) + ctx.digits(m, 2) + "." + ctx.digits(q, 5), d + (m + q / 100000) / 60


@REG.harness([HY + ".HyBisPos.convert_latlon", HY + ".HyBisPos.convert"])
def hybis_position_text(ctx):
    """degrees, minutes and hemisphere; date and time as UTC"""
    P = repo(HY).HyBisPos
    la, lav = degrees_text(ctx, "lat", 2, 89)
    lo, lov = degrees_text(ctx, "lon", 3, 179)
    ns, ew = ctx.choice("hemispheres", [("N", "E"), ("N", "W"), ("S", "E"), ("S", "W")])
    y, mo, d, h, mi, s = (ctx.int(n, a, b) for n, a, b in (("year", 1990, 2090), ("month", 1, 12), ("day", 1, 28), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59)))
    g = ctx.digits
    v = [ctx.real(n, lo=-90, hi=90) for n in ("roll", "pitch", "heading", "depth", "altitude")]
    p = P(*[txt(ctx, x) for x in v], lo + ew, la + ns, g(d, 2) + "/" + g(mo, 2) + "/" + g(y, 4), g(h, 2) + ":" + g(mi, 2) + ":" + g(s, 2))
    ctx.ensure_eq("latitude", p.latitude, lav if ns == "N" else -lav, tol=1e-9)
    ctx.ensure_eq("longitude", p.longitude, lov if ew == "E" else -lov, tol=1e-9)
    ctx.ensure_eq("time", p.epoch_timestamp, ctx.epoch(y, mo, d, h, mi, s), tol=1e-4)
    for n, x in zip(("roll", "pitch", "heading", "depth", "altitude"), v):
        ctx.ensure_eq(n, getattr(p, n), x)


HYCOLS = "Date ,Time,Roll,Pitch,Heading,Pressure,Altitude,Hybis Long,Hybis Lat\n"


def filled(ctx, ts, vals, zero):
    """zero readings inside the record are replaced along the line through their neighbours"""
    v = list(vals)
    for i in range(1, len(v) - 1):
        if i in zero:
            v[i] = lin(ts[i], ts[i - 1], ts[i + 1], v[i - 1], v[i + 1])
    return v


def _hybis(n, images, zero_alt=(), zero_dep=(), bad=(), refmode="given", tag=""):
    def h(ctx):
        silence(ctx)
        tables(ctx)
        m2l, l2m = geodesy(ctx)
        ts, recs, lines = [], [], [HYCOLS]
        for k in range(n):
            mi, s = clock(ctx, str(k))
            t = ctx.epoch(2020, 3, 4, 8, 0, 0) + mi * 60 + s
            if ts:
                ctx.assume(ts[-1] < t)
            ts.append(t)
            la, lav = degrees_text(ctx, "lat%d" % k, 2, 80)
            lo, lov = degrees_text(ctx, "lon%d" % k, 3, 170)
            if refmode == "first-fix" and k == 0:
                la, lav = "0000.00000", 0
            elif refmode == "first-fix":
                ctx.assume(lav > 0)
            r = {a: ctx.real("%s%d" % (a, k), lo=x, hi=y) for a, x, y in (("roll", -60, 60), ("pitch", -60, 60), ("heading", 0, 360), ("depth", 1, 100), ("altitude", 1, 50))}
            if k in zero_alt:
                r["altitude"] = 0
            if k in zero_dep:
                r["depth"] = 0
            r["latitude"], r["longitude"] = lav, -lov
            recs.append(r)
            g = ctx.digits
            lines.append("04/03/2020,08:%s:%s,%s,%s%sN\n" % ("%02d" % mi, g(s, 2), ",".join(txt(ctx, r[a]) for a in ("roll", "pitch", "heading", "depth", "altitude")), lo + "W,", la))
            if k in bad:
                lines.append("04/03/2020,08:%s:%s,1.0,2.0,3.0,4.0,5.0,NoFix,5950.89694N\n" % ("%02d" % mi, g(s, 2)))
        for a, z in (("altitude", zero_alt), ("depth", zero_dep)):
            for r, v in zip(recs, filled(ctx, ts, [r[a] for r in recs], z)):
                r[a] = v
        lat0, lon0 = (ctx.real("lat0", lo=1, hi=60), ctx.real("lon0", lo=-60, hi=-1)) if refmode == "given" else (0, ctx.choice("lon_ref", [0, 12.5]))
        count = ctx.size("images", [images], many=(45, 150)) if images > 1 else images
        names = ["IMG_%s.jpg" % x for x in ("10", "2", "31")][:count] if count < 4 else ["IMG_%05d.jpg" % (7 * k) for k in range(count)]
        it = []
        for k in range(count):
            t = ctx.between("image_t%d" % k, ts[0], ts[-1])
            it.append(t if ctx.symbolic else round(t * 64) / 64)
        with Scratch() as root:
            nav = write(root / "raw" / "d" / "nav" / "nav.csv", "".join(lines))
            imgs = root / "raw" / "d" / "image"
            # the order of the directory is not the order of the names
            for x in reversed(names):
                write(imgs / x)
            mtime = dict(zip(names, it))
            if ctx.symbolic:
                real = os.stat

                def stat(p, *a, **k):
                    r = real(p, *a, **k)
                    f = str(p)
                    if os.path.dirname(f) == str(imgs):
                        return types.SimpleNamespace(st_mtime=mtime[os.path.basename(f)], st_mode=r.st_mode, st_size=r.st_size)
                    return r

                ctx.patch(os, "stat", stat)
            else:
                for x in names:
                    os.utime(imgs / x, (mtime[x], mtime[x]))
            p = repo(HY).HybisParser(nav, imgs, lat0, lon0)
            p.write(root / "out.csv")
            got = table(ctx, root / "out.csv", count)
            if refmode == "given":
                ref = (lat0, lon0)
            else:
                ref = (recs[1]["latitude"], recs[1]["longitude"])
            ctx.ensure_eq("first-time", p.start_epoch, ts[0], tol=1e-4)
            ctx.ensure_eq("last-time", p.finish_epoch, ts[-1], tol=1e-4)
            for k, (x, t) in enumerate(zip(names, it)):
                i = 0
                while i < n - 2 and ts[i + 1] < t:
                    i += 1
                a, b = recs[i], recs[i + 1]
                w = {c: lin(t, ts[i], ts[i + 1], a[c], b[c]) for c in ("latitude", "longitude", "depth", "roll", "pitch", "altitude")}
                hd = a["heading"] + shortest(ctx, a["heading"], b["heading"]) * (t - ts[i]) / (ts[i + 1] - ts[i])
                row = got[k]
                tg = "-%d" % k
                # of the position in the same row, which is compared below
                dist, bear = l2m(num(ctx, row["latitude [deg]"]), num(ctx, row["longitude [deg]"]), *ref)
                same(ctx, tg, row, {"depth [m]": w["depth"], "roll [deg]": w["roll"], "pitch [deg]": w["pitch"], "heading [deg]": hd, "altitude [m]": w["altitude"], "timestamp": t,
                                    "latitude [deg]": w["latitude"], "longitude [deg]": w["longitude"], "northing [m]": dist * ctx.cos(ctx.rad(bear)), "easting [m]": dist * ctx.sin(ctx.rad(bear))})
                ctx.ensure("path" + tg, row["relative_path"].endswith("/image/" + x), row["relative_path"])
                ctx.ensure("number" + tg, int(row["image_number"]) == k)

    h.__name__ = "hybis_images_" + tag
    return REG.harness([HY + ".HybisParser.__init__", HY + ".HybisParser.write", HY + ".HyBisPos.__init__"], kind="bounded",
                       bound="%d records within an hour, %d images between the first and the last" % (n, images), samples=25, budget_s=200)(h)


_hybis(3, 1, tag="of_three_records")
_hybis(2, 1, bad=(0,), tag="with_a_record_without_fix")
_hybis(4, 1, zero_alt=(1, 2), zero_dep=(2,), tag="with_missing_altitudes_and_depths")
_hybis(3, 1, refmode="first-fix", tag="referred_to_the_first_fix")
_hybis(2, 3, tag="in_the_order_of_their_names")


# ------------------------------------------------------------------ ACFR pose files
def pose(ctx, o, tag, t=None):
    o.epoch_timestamp = ctx.real("t_" + tag, lo=1, hi=2e9) if t is None else t
    for a, lim in (("latitude", 80), ("longitude", 170), ("northings", 500), ("eastings", 500), ("depth", 500), ("roll", 170), ("pitch", 80), ("altitude", 50)):
        setattr(o, a, ctx.real("%s_%s" % (a, tag), lo=-lim, hi=lim))
    o.yaw = ctx.real("yaw_" + tag, lo=0, hi=360)
    return o


PLACE = ("latitude", "longitude", "northings", "eastings", "depth", "altitude")
def poses_in(path):
    """the pose lines of an ACFR file and its origin"""
    out, o = [], {}
    for l in pathlib.Path(path).read_text().split("\n"):
        if l.startswith("%") or not l.strip():
            continue
        if l.startswith("ORIGIN_"):
            k, v = l.split()
            o[k] = v
        else:
            out.append(l.split())
    return out, o


def check_pose_line(ctx, tag, f, i, o, angles, whole=None):
    """documented columns: id, time, lat, lon, north, east, depth, three angles in radians"""
    ctx.ensure("id" + tag, (whole(ctx, f[0]) if whole else int(f[0])) == i)
    for k, v in enumerate((o.epoch_timestamp, o.latitude, o.longitude, o.northings, o.eastings, o.depth)):
        ctx.ensure_eq("column%d%s" % (k + 2, tag), num(ctx, f[k + 1]), v)
    for k, v in enumerate(angles):
        ctx.ensure_eq("angle%d%s" % (k, tag), num(ctx, f[k + 7]), ctx.rad(v), scale=10)


@REG.harness([VP + ".AcfrVehiclePoseWriter.write", VP + ".AcfrVehiclePoseParser.parse", VP + ".AcfrVehiclePoseParser.get_dead_reckoning", VP + ".AcfrVehiclePose.parse"], kind="bounded", bound="two poses", samples=30)
def vehicle_poses_there_and_back(ctx):
    silence(ctx)
    m = repo(VP)
    n = ctx.size("n", [2], many=(60, 130))
    drs = [pose(ctx, repo(S).SyncedOrientationBodyVelocity(), str(k)) for k in range(n)]
    lat0, lon0 = ctx.real("lat0", lo=-80, hi=80), ctx.real("lon0", lo=-170, hi=170)
    with Scratch() as root:
        f = root / "new" / "vehicle_pose_est.data"
        m.AcfrVehiclePoseWriter(f, lat0, lon0).write(drs)
        got, org = poses_in(f)
        ctx.ensure_eq("origin-latitude", num(ctx, org["ORIGIN_LATITUDE"]), lat0)
        ctx.ensure_eq("origin-longitude", num(ctx, org["ORIGIN_LONGITUDE"]), lon0)
        ctx.ensure("one-line-per-pose", len(got) == n)
        for k, (g, d) in enumerate(zip(got, drs)):
            check_pose_line(ctx, "-%d" % k, g, k, d, (d.roll, d.pitch, d.yaw))
            ctx.ensure_eq("altitude-%d" % k, num(ctx, g[10]), d.altitude)
            ctx.ensure("eleven-items", len(g) == 11)
        p = m.AcfrVehiclePoseParser(f)
        ctx.ensure_eq("read-origin-latitude", p.origin_latitude, lat0)
        ctx.ensure_eq("read-origin-longitude", p.origin_longitude, lon0)
        back = p.get_dead_reckoning()
        ctx.ensure("read-back", len(back) == n)
        for k, (a, b) in enumerate(zip(drs, back)):
            for n in PLACE + ("epoch_timestamp", "roll", "pitch", "yaw"):
                ctx.ensure_eq("back-%s-%d" % (n, k), getattr(b, n), getattr(a, n), scale=100)


@REG.harness([SP + ".AcfrStereoPoseWriter.write", SP + ".AcfrStereoPoseParser.parse", SP + ".AcfrStereoPoseParser.get_cameras", SP + ".AcfrStereoPose.parse"], kind="bounded", bound="two image pairs", samples=30)
def stereo_poses_there_and_back(ctx):
    silence(ctx)
    m = repo(SP)
    n = ctx.size("n", [2], many=(60, 130))
    c1 = [pose(ctx, repo(S).Camera(), "l%d" % k) for k in range(n)]
    c2 = [pose(ctx, repo(S).Camera(), "r%d" % k) for k in range(n)]
    for k in range(n):
        c1[k].filename, c2[k].filename = "image/l/LC_%d.tif" % k, "image/r/RC_%d.tif" % k
    lat0, lon0 = ctx.real("lat0", lo=-80, hi=80), ctx.real("lon0", lo=-170, hi=170)
    with Scratch() as root:
        f = root / "stereo_pose_est.data"
        m.AcfrStereoPoseWriter(f, lat0, lon0).write(c1, c2)
        got, org = poses_in(f)
        ctx.ensure_eq("origin-latitude", num(ctx, org["ORIGIN_LATITUDE"]), lat0)
        ctx.ensure_eq("origin-longitude", num(ctx, org["ORIGIN_LONGITUDE"]), lon0)
        ctx.ensure("one-line-per-pair", len(got) == n)
        for k, (g, d) in enumerate(zip(got, c1)):
            ctx.ensure("fifteen-items", len(g) == 15)
            # the camera looks down and its image top is to starboard
            check_pose_line(ctx, "-%d" % k, g, k, d, (-d.pitch, d.roll, d.yaw - 90))
            ctx.ensure("images-%d" % k, g[10] == "LC_%d.tif" % k and g[11] == "RC_%d.tif" % k, str(g[10:12]))
            ctx.ensure_eq("altitude-%d" % k, num(ctx, g[12]), d.altitude)
        p = m.AcfrStereoPoseParser(f)
        ctx.ensure_eq("read-origin-latitude", p.origin_latitude, lat0)
        ctx.ensure_eq("read-origin-longitude", p.origin_longitude, lon0)
        l, r = p.get_cameras()
        ctx.ensure("read-back", len(l) == n and len(r) == n)
        for k in range(n):
            ctx.ensure("names-%d" % k, (l[k].filename, r[k].filename) == ("LC_%d.tif" % k, "RC_%d.tif" % k))
            for n in PLACE + ("epoch_timestamp", "roll", "pitch", "yaw"):
                # one pose per pair: that of the left camera
                for side, b in (("left", l[k]), ("right", r[k])):
                    ctx.ensure_eq("%s-%s-%d" % (side, n, k), getattr(b, n), getattr(c1[k], n), scale=100)


POSE = ("latitude", "longitude", "northings", "eastings", "depth", "altitude", "roll", "pitch", "yaw")


def acfr_head(ctx, m, lat0, lon0):
    return m.header + "ORIGIN_LATITUDE  " + str(lat0) + "\nORIGIN_LONGITUDE " + str(lon0) + "\n"


def plain_pose(cls, k, shift):
    o = cls()
    o.epoch_timestamp = 1.5e9 + k / 4
    for i, a in enumerate(POSE):
        setattr(o, a, ((k * 7919 + 31 * i + shift) % 641 - 320) / 4.0)
    return o


@REG.harness([VP + ".AcfrVehiclePoseWriter.write"], loops=[VP + ".AcfrVehiclePoseWriter.write"], samples=8)
def vehicle_pose_file_of_any_length(ctx):
    """the header, the origin and one line per pose, in order: line k is pose k"""
    silence(ctx)
    m = repo(VP)
    lat0, lon0 = ctx.real("lat0", lo=-80, hi=80), ctx.real("lon0", lo=-170, hi=170)
    cls = repo(S).SyncedOrientationBodyVelocity
    if not ctx.symbolic:
        n = ctx.length("len_pose", 0)
        drs = [plain_pose(cls, k, 0) for k in range(n)]
        with Scratch() as root:
            f = root / "new" / "v.data"
            m.AcfrVehiclePoseWriter(f, lat0, lon0).write(drs)
            got, org = poses_in(f)
        ctx.ensure("one-line-per-pose", len(got) == n, str(len(got)))
        for k, (g, d) in enumerate(zip(got, drs)):
            check_pose_line(ctx, "", g, k, d, (d.roll, d.pitch, d.yaw))
            ctx.ensure_eq("altitude", num(ctx, g[10]), d.altitude)
        return
    from anylen import records
    from ghostfiles import FS, table_loop

    drs = records("pose", cls, POSE)
    fs = FS(dirs=[""] + (["/out"] if ctx.choice("folder", [False, True]) else []))
    if ctx.choice("rerun", [False, True]) and "/out" in fs.dirs:
        fs.files["/out/v.data"] = ["left over\n"]
    head = {"/out/v.data": acfr_head(ctx, m, lat0, lon0)}

    def row(p, t, k):
        ctx.ensure("one-line", t.endswith("\n") and t.count("\n") == 1, t)
        g, d = t.split(), drs.item(k)
        ctx.ensure("eleven-items", len(g) == 11, t)
        check_pose_line(ctx, "", g, k, d, (d.roll, d.pitch, d.yaw), whole=num)
        ctx.ensure_eq("altitude", num(ctx, g[10]), d.altitude)

    ctx.patch(m, "Path", fs.path)
    ctx.scratch["loops"] = {("AcfrVehiclePoseWriter.write", "kinds"): "f", ("AcfrVehiclePoseWriter.write", 0): table_loop(ctx, "poses", fs, head, row)}
    m.AcfrVehiclePoseWriter("/out/v.data", lat0, lon0).write(drs)
    for p, h in head.items():
        got = fs.files[p]
        ctx.ensure("header-and-all-poses", got[0] == h and len(got) == 2 and bool(got[1].k == drs.n))


@REG.harness([SP + ".AcfrStereoPoseWriter.write"], loops=[SP + ".AcfrStereoPoseWriter.write"], samples=8)
def stereo_pose_file_of_any_length(ctx):
    """the header, the origin and one line per image pair, in order: line k is pair k"""
    silence(ctx)
    m = repo(SP)
    lat0, lon0 = ctx.real("lat0", lo=-80, hi=80), ctx.real("lon0", lo=-170, hi=170)
    cls = repo(S).Camera

    def check(t, k, l, r, nl, nr, whole):
        ctx.ensure("one-line", t.endswith("\n") and t.count("\n") == 1, t)
        g = t.split()
        ctx.ensure("fifteen-items", len(g) == 15, t)
        check_pose_line(ctx, "", g, k, l, (-l.pitch, l.roll, l.yaw - 90), whole=whole)
        ctx.ensure("images", g[10] == nl and g[11] == nr, str(g[10:12]))
        ctx.ensure_eq("altitude", num(ctx, g[12]), l.altitude)

    if not ctx.symbolic:
        n = ctx.length("len_left", 0)
        c1, c2 = ([plain_pose(cls, k, s) for k in range(n)] for s in (0, 5))
        for k in range(n):
            c1[k].filename, c2[k].filename = "image/l/L%d.tif" % k, "image/r/R%d.tif" % k
        with Scratch() as root:
            f = root / "s.data"
            m.AcfrStereoPoseWriter(f, lat0, lon0).write(c1, c2)
            t = f.read_text()
        h = acfr_head(ctx, m, lat0, lon0)
        ctx.ensure("header", t.startswith(h))
        lines = t[len(h):].splitlines(True)
        ctx.ensure("one-line-per-pair", len(lines) == n, str(len(lines)))
        for k, (g, a, b) in enumerate(zip(lines, c1, c2)):
            check(g, k, a, b, "L%d.tif" % k, "R%d.tif" % k, lambda ctx, x: int(x))
        return
    from anylen import records, field
    from ghostfiles import FS, table_loop
    from pyvc.sym import SymReal

    names = {s: field("name_" + s) for s in "lr"}

    def named(s):
        def init(o, e):
            o.filename = "image/%s/%s.tif" % (s, SymReal(names[s](e)))

        return init

    c1 = records("left", cls, POSE, init=named("l"))
    c2 = records("right", cls, POSE, init=named("r"), n=c1.n)
    fs = FS(dirs=["", "/out"], files={"/out/s.data": ["left over\n"]} if ctx.choice("rerun", [False, True]) else None)
    head = {"/out/s.data": acfr_head(ctx, m, lat0, lon0)}

    def row(p, t, k):
        check(t, k, c1.item(k), c2.item(k), *("%s.tif" % SymReal(names[s](k.e)) for s in "lr"), num)

    ctx.patch(m, "open", lambda p, mode="r", **k: fs.path(p).open(mode, **k))
    ctx.scratch["loops"] = {("AcfrStereoPoseWriter.write", "kinds"): "f", ("AcfrStereoPoseWriter.write", 0): table_loop(ctx, "pairs", fs, head, row, lists=[c1, c2])}
    m.AcfrStereoPoseWriter(fs.path("/out/s.data"), lat0, lon0).write(c1, c2)
    for p, h in head.items():
        got = fs.files[p]
        ctx.ensure("header-and-all-pairs", got[0] == h and len(got) == 2 and bool(got[1].k == c1.n))


# ------------------------------------------------------------------ conversions of whole dives
def camera_table(root, name, rows, filenames):
    """a table as the pipeline exports it (its own writer is under contract in R13)"""
    lines = [rows[0].get_csv_header()]
    for r, f in zip(rows, filenames or [None] * len(rows)):
        if f:
            r.filename = f
        lines.append(r.to_csv_row())
    write(root / (name + ".csv"), "".join(lines))


STDS = ("northings_std", "eastings_std", "depth_std", "roll_std", "pitch_std", "yaw_std", "x_velocity_std", "y_velocity_std", "z_velocity_std", "vroll_std", "vpitch_std", "vyaw_std")


def exported(ctx, o, tag, t=None):
    pose(ctx, o, tag, t)
    for a in STDS:
        setattr(o, a, 0.5)
    for a in "xyz":
        setattr(o, a + "_velocity", 0.25)
    return o


def fields(line):
    """name: value pairs of a line of combined.RAW"""
    out, words = {}, line.replace("alt:", " alt: ").replace(" h:", " h: ").replace(" p:", " p: ").replace(" r:", " r: ").replace("vx:", "vx: ").replace("vy:", "vy: ").replace("vz:", "vz: ").split()
    for a, b in zip(words, words[1:]):
        if a.endswith(":"):
            out[a[:-1]] = b
    return out


def dive(ctx, root, packets, nav_json=True):
    m = repo(CV)
    (root / "raw" / "d").mkdir(parents=True)
    for n in ("mission.yaml", "vehicle.yaml"):
        write(root / "raw" / "d" / n)
    write(root / "processed" / "d" / "nav" / "nav_standard.json", "[]")
    ctx.patch(m, "json", types.SimpleNamespace(load=lambda f: packets))


@REG.harness([CV + ".oplab_to_acfr", CR + ".AcfrCombinedRawWriter.add", CR + ".AcfrCombinedRawWriter.__init__", S + ".BodyVelocity.to_acfr", S + ".Orientation.to_acfr", S + ".Depth.to_acfr", S + ".Usbl.to_acfr", S + ".Camera.to_acfr",
              S + ".Camera.from_df", S + ".SyncedOrientationBodyVelocity.from_df"], kind="bounded", bound="two poses, one reading of every kind in several orders", samples=40, budget_s=200)
def dive_to_acfr(ctx):
    """poses of the filter, and every reading once with its own values and time"""
    silence(ctx)
    tables(ctx)
    m = repo(CV)
    order = ctx.choice("order", ["adovui", "oavdiu", "vaodui", "avoviud", "aovvudi", "aovaovdui"])
    t0 = ctx.real("t0", lo=1000, hi=2000)
    # the first record of a nav_standard.json describes the dive, not a measurement
    ps, ts = [{"epoch_timestamp": 0.0, "class": "origin", "category": "origin"}], [t0]
    make = {"a": packet_altitude, "d": packet_depth, "o": packet_orientation, "u": packet_usbl}
    for k, c in enumerate(order):
        t = t0 + 1.5 * k if k else t0
        ts.append(t)
        if c == "v":
            ps.append(packet_velocity(ctx, k, t))
        elif c == "i":
            ps.append(packet_image(k, t, t + 0.25, True))
        else:
            ps.append(make[c](ctx, k, t))
        if c == "d":
            ps[-1]["epoch_timestamp_depth"] = t + ctx.real("depth_clock", lo=-0.5, hi=0.5)
    with Scratch() as root:
        dive(ctx, root, ps)
        NSO = NS(latitude=ctx.real("lat0", lo=-80, hi=80), longitude=ctx.real("lon0", lo=-170, hi=170), date="2020/01/02")
        ctx.patch(m, "Mission", lambda *a: NS(origin=NSO, image=NS(cameras=[NS(name="LC"), NS(name="RC")])))
        ctx.patch(m, "Vehicle", lambda *a: NS())
        csv = root / "processed" / "d" / "json_renav_20200101_000000_20200101_010000" / "csv" / "ekf"
        dr = [exported(ctx, repo(S).SyncedOrientationBodyVelocity(), "c%d" % k) for k in range(2)]
        lc = [exported(ctx, repo(S).Camera(), "l%d" % k) for k in range(2)]
        rc = [exported(ctx, repo(S).Camera(), "r%d" % k) for k in range(2)]
        camera_table(csv, "auv_ekf_centre", dr, None)
        camera_table(csv, "auv_ekf_LC", lc, ["image/l/%d.tif" % k for k in range(2)])
        camera_table(csv, "auv_ekf_RC", rc, ["image/r/%d.tif" % k for k in range(2)])
        out = root / "processed" / "out"
        out.mkdir()
        if ctx.symbolic:
            ctx.patch(m, "epoch_to_datetime", lambda t: "20200101000000")
        m.oplab_to_acfr(NS(dive_folder=str(root / "raw" / "d"), output_folder=str(root / "raw" / "out"), force=ctx.choice("force", [False, True])))
        v, vo = poses_in(out / "vehicle_pose_est.data")
        s, so = poses_in(out / "stereo_pose_est.data")
        for o in (vo, so):
            ctx.ensure_eq("origin-latitude", num(ctx, o["ORIGIN_LATITUDE"]), NSO.latitude)
            ctx.ensure_eq("origin-longitude", num(ctx, o["ORIGIN_LONGITUDE"]), NSO.longitude)
        ctx.ensure("one-line-per-pose", len(v) == 2 and len(s) == 2)
        for k in range(2):
            check_pose_line(ctx, "-vehicle-%d" % k, v[k], k, dr[k], (dr[k].roll, dr[k].pitch, dr[k].yaw))
            ctx.ensure_eq("altitude-vehicle-%d" % k, num(ctx, v[k][10]), dr[k].altitude)
            check_pose_line(ctx, "-stereo-%d" % k, s[k], k, lc[k], (-lc[k].pitch, lc[k].roll, lc[k].yaw - 90))
            ctx.ensure("images-%d" % k, s[k][10:12] == ["%d.tif" % k] * 2)
            ctx.ensure_eq("altitude-stereo-%d" % k, num(ctx, s[k][12]), lc[k].altitude)
        raw = (out / "dRAWLOGS_cv" / "combined.RAW.auv").read_text().split("\n")
        ctx.ensure("complete-lines", raw[-1] == "")
        raw = raw[:-1]
        cfg = (out / "mission.cfg").read_text().split()
        ctx.ensure_eq("mission-latitude", num(ctx, cfg[cfg.index("MAG_VAR_LAT") + 1]), NSO.latitude)
        ctx.ensure_eq("mission-longitude", num(ctx, cfg[cfg.index("MAG_VAR_LNG") + 1]), NSO.longitude)
        ctx.ensure("mission-date", cfg[cfg.index("MAG_VAR_DATE") + 1] == '"2020/01/02"')
        # a velocity goes with the latest altitude and attitude; it is there at least when
        # both are new since the velocity before
        want, a, o, new = [], None, None, ""
        for k, c in enumerate(order):
            p, t = ps[k + 1], ts[k + 1]
            D = lambda i: p["data"][i]
            new += c
            if c == "a":
                a = p
            elif c == "o":
                o = p
                want.append(("PHINS_COMPASS", {"PHINS_COMPASS": t, "r": D(1)["roll"], "p": D(2)["pitch"], "h": D(0)["heading"], "std_r": D(1)["roll_std"], "std_p": D(2)["pitch_std"], "std_h": D(0)["heading_std"]}))
            elif c == "d":
                want.append(("PAROSCI", [p["epoch_timestamp_depth"], D(0)["depth"]]))
            elif c == "v" and a is not None and o is not None:
                want.append(("RDI" if "a" in new and "o" in new else "maybe RDI", {"RDI": t, "alt": a["data"][0]["altitude"], "h": o["data"][0]["heading"], "r": o["data"][1]["roll"], "p": o["data"][2]["pitch"], "vx": D(0)["x_velocity"], "vy": D(1)["y_velocity"], "vz": D(2)["z_velocity"]}))
                new = ""
            elif c == "u":
                g = p["data_target"]
                n, e, dp, ds = g[2]["northings"], g[3]["eastings"], g[4]["depth"], g[5]["distance_to_ship"]
                r = ctx.sqrt(ds * ds - dp * dp) if ds > dp and ds > 0 else -1
                want.append(("SSBL_FIX", {"SSBL_FIX": t, "target_x": n, "target_y": e, "target_z": dp, "target_sr": ds, "target_hr": r}))
            elif c == "i":
                want += [("VIS", [t, "a%d.raw" % k]), ("VIS", [t + 0.25, "b%d.raw" % k])]
        for j in range(len(want)):
            if j < len(want) and want[j][0] == "maybe RDI":
                if j < len(raw) and raw[j].startswith("RDI"):
                    want[j] = ("RDI", want[j][1])
                else:
                    del want[j]
        ctx.ensure("one-line-per-reading", [l.split(":")[0] for l in raw] == [w[0] for w in want], "%r %r" % ([l.split(":")[0] for l in raw], [w[0] for w in want]))
        for j, (l, (kind, w)) in enumerate(zip(raw, want)):
            if kind == "PAROSCI":
                x = l.split()
                ctx.ensure_eq("depth-time", num(ctx, x[1]), w[0])
                ctx.ensure_eq("depth", num(ctx, x[2]), w[1])
            elif kind == "VIS":
                x = l.replace("[", " ").replace("]", " ").split()
                ctx.ensure_eq("image-time", num(ctx, x[1]), w[0])
                ctx.ensure_eq("image-time-again", num(ctx, x[2]), w[0])
                ctx.ensure("image-name", x[3] == w[1], "%r %r" % (x, w))
            else:
                x = fields(l)
                for n, val in w.items():
                    ctx.ensure("field-%s-%s" % (kind, n), n in x, l)
                    ctx.ensure_eq("%s-%s" % (kind, n), num(ctx, x[n]), val, scale=1000)


@REG.harness([CV + ".acfr_to_oplab", "auv_nav.tools.interpolate.interpolate_camera"], kind="bounded", bound="three poses, two laser images between them, both record formats", samples=30, budget_s=200)
def dive_from_acfr(ctx):
    """tables of the vehicle, of both cameras and of the laser images"""
    silence(ctx)
    tables(ctx)
    m = repo(CV)
    ts = ctx.increasing("t", 3, gap=0.1, lo=1000, hi=1100)
    dr = [pose(ctx, repo(S).SyncedOrientationBodyVelocity(), "c%d" % k, t) for k, t in enumerate(ts)]
    l = [pose(ctx, repo(S).Camera(), "l%d" % k, t) for k, t in enumerate(ts)]
    r = [pose(ctx, repo(S).Camera(), "r%d" % k, t) for k, t in enumerate(ts)]
    for k in range(3):
        l[k].filename, r[k].filename = "L%d.tif" % k, "R%d.tif" % k
    old = ctx.choice("record", ["filename", "camera3"])
    tl = [ctx.between("laser_t0", ts[0], ts[1], strict=True), ctx.between("laser_t1", ts[1], ts[2], strict=True)]
    las = []
    for k, t in enumerate(tl):
        p = {"epoch_timestamp": t, "category": "laser"}
        p.update({"filename": "las%d.tif" % k} if old == "filename" else {"camera3": [{"epoch_timestamp": t, "filename": "las%d.tif" % k}]})
        las.append(p)
    ps = [{"epoch_timestamp": 0.0, "category": "origin"}, {"epoch_timestamp": ts[0], "category": "depth"}] + las + ([{"epoch_timestamp": ts[2], "category": "depth"}] if old == "filename" else [])
    laser = ctx.flag("laser")
    with Scratch() as root:
        dive(ctx, root, ps)
        vf, sf, out = root / "v.data", root / "s.data", root / "out"
        out.mkdir()
        repo(VP).AcfrVehiclePoseWriter(vf, 1.0, 2.0).write(dr)
        repo(SP).AcfrStereoPoseWriter(sf, 1.0, 2.0).write(l, r)
        if ctx.symbolic:
            ctx.patch(m, "epoch_to_datetime", lambda t: "20200101000000")
        m.acfr_to_oplab(NS(vehicle_pose=str(vf), stereo_pose=str(sf), dive_folder=str(root / "processed" / "d") if laser else None, output_folder=str(out), force=False))
        ctx.ensure("tables", sorted(p.name for p in out.iterdir() if not p.name.endswith("_cov.csv")) == sorted(["auv_acfr_centre.csv", "auv_acfr_LC.csv", "auv_acfr_RC.csv"] + (["auv_acfr_laser.csv"] if laser else [])), str(list(out.iterdir())))
        ang = ("roll", "pitch", "yaw")
        P3 = {c: a for c, a in CAM.items() if "std" not in c and "velocity" not in c}
        for name, want, cols, files in (("centre", dr, {c: a for c, a in TRACK.items() if "std" not in c}, None), ("LC", l, P3, ["L%d.tif" % k for k in range(3)]), ("RC", l, P3, ["R%d.tif" % k for k in range(3)])):
            got = table(ctx, out / ("auv_acfr_%s.csv" % name), 3, "-" + name)
            for k, row in enumerate(got):
                same(ctx, "-%s-%d" % (name, k), row, {c: getattr(want[k], a) for c, a in cols.items()}, scale=1000)
                if files:
                    ctx.ensure("image-%s-%d" % (name, k), row["relative_path"] == files[k])
        if laser:
            got = table(ctx, out / "auv_acfr_laser.csv", 2, "-laser")
            for k, row in enumerate(got):
                a, b, t = l[k], l[k + 1], tl[k]
                w = {c: lin(t, ts[k], ts[k + 1], getattr(a, n), getattr(b, n)) for c, n in P3.items() if n not in ("yaw", "epoch_timestamp")}
                w["timestamp [s]"] = t
                same(ctx, "-laser-%d" % k, row, w, scale=1000)
                congruent_360(ctx, "heading-laser-%d" % k, num(ctx, row["heading [deg]"]), a.yaw + shortest(ctx, a.yaw, b.yaw) * (t - ts[k]) / (ts[k + 1] - ts[k]))
                ctx.ensure("image-laser-%d" % k, row["relative_path"] == "las%d.tif" % k)


# ------------------------------------------------------------------ KOYO20 ROV
def base(ctx):
    return ctx.epoch(2020, 3, 4, 8, 0, 0)


KO_FNS = [KO + ".RovParser." + f for f in ("load_data", "check_for_outputs", "interpolate_vector_pos", "interpolate_vector_rot", "interpolate_to_images", "filter_nans", "add_northings_eastings", "add_lever_arms", "write_outputs")]
SENSORS = ("origin", "dvl", "depth", "usbl", "ins", "camA", "camB")


def ship_log(ctx, recs, tag):
    """ship_log rows: (minute, second, values, kind)"""
    out = []
    for mi, s, r, date in recs:
        c = ["0"] * 34
        c[2], c[3] = date, "08:%02d:" % mi + (ctx.digits(s, 2) if not isinstance(s, int) else "%02d" % s)
        for k, a in ((23, "depth"), (24, "altitude"), (31, "lat"), (32, "lon")):
            c[k] = txt(ctx, r[a])
        out.append(",".join(c) + "\n")
    return "".join(out)


def _koyo(tag, zero=False, late=False, outside=(), long_rot=False, two_logs=False, early=False, minutes=((5, 45), (25, 5), (45, 25)), headings=(350, 20, 200)):
    def h(ctx):
        silence(ctx)
        tables(ctx)
        m2l, l2m = geodesy(ctx)
        m = repo(KO)
        ctx.patch(m, "print", lambda *a, **k: None)
        num_s = lambda n: ctx.int(n, 0, 59)
        # positions 08:00:00 / 08:20:SS / 08:59:59, attitudes 08:00:01 / 08:30:SS.mmm / 08:59:50
        ptime, prec = [0, 1200 + num_s("pos_s"), 3599], []
        for k in range(3):
            r = {a: ctx.real("%s%d" % (a, k), lo=lo, hi=hi) for a, lo, hi in (("lat", 1, 60), ("lon", -60, -1), ("depth", 1, 90), ("altitude", 1, 90))}
            if zero and k == 1:
                r["depth"] = r["altitude"] = 0
            prec.append(r)
        logs = [[(0, 0, prec[0], "2020/03/04"), (20, num_s("pos_s"), prec[1], "20/03/04"), (59, 59, prec[2], "2020/03/04")]]
        if late:
            # a record going back in time within one log is dropped, and so are rows without a date
            stray = {a: 7 for a in ("lat", "lon", "depth", "altitude")}
            logs[0].insert(2, (10, num_s("stray_s"), stray, "2020/03/04"))
            logs[0].insert(1, (11, num_s("stray_s"), stray, "NoFix"))
        if two_logs:
            logs = [logs[0][1:], logs[0][:1]]
        if zero:
            for a in ("depth", "altitude"):
                prec[1] = dict(prec[1], **{a: lin(ptime[1], ptime[0], ptime[2], prec[0][a], prec[2][a])})
        rs, rms = num_s("rot_s"), ctx.int("rot_ms", 0, 999)
        rtime = [-1800 if long_rot else 1, 1800 + rs + rms / 1000, 5400 if long_rot else 3590]
        rrec = [{a: ctx.real("%s%d" % (a, k), lo=lo, hi=hi) for a, lo, hi in (("heading", 0, 360), ("pitch", -60, 60), ("roll", -60, 60))} for k in range(3)]
        for r, x in zip(rrec, headings or ()):
            r["heading"] = x
        rot = "index,date(YYYYMMDD),time(hhmmss),time_ms(iiii),heading(degrees),pitch(degrees),roll(degrees)\n"
        rows = ["%d,20200304,%s,%s,%s\n" % (k, c, ms, ",".join(txt(ctx, rrec[k][a]) for a in ("heading", "pitch", "roll"))) for k, (c, ms) in enumerate((("073000" if long_rot else "080001", "0"), ("0830" + ctx.digits(rs, 2), ctx.digits(rms, 3)), ("093000" if long_rot else "085950", "0")))]
        # the log need not be in order
        rot += rows[1] + rows[0] + rows[2]
        mins = dict(zip(("LM165", "Xviii"), ctx.choice("minutes", minutes)))
        imt, ims = {}, {}
        for c in mins:
            s, ms = num_s("s_" + c), ctx.int("ms_" + c, 0, 999)
            imt[c] = mins[c] * 60 + s + ms / 1000
            r = ["%d,20200304,08%02d%s,%s\n" % (104003 if c == "LM165" else 17, mins[c], ctx.digits(s, 2), ctx.digits(ms, 3))]
            if c in outside:
                r += ["8,20200304,074500,0\n", "9,20200304,091500,0\n"]
            if early and c == "LM165":
                # out of order in the file
                r.insert(0, "104009,20200304,085500,250\n")
            ims[c] = "index,date,time,ms\n" + "".join(r)
        pos = {k: [ctx.real("%s_%s" % (k, a), lo=-3, hi=3) for a in "xyz"] for k in SENSORS}
        lat0, lon0 = ctx.real("lat0", lo=1, hi=60), ctx.real("lon0", lo=-60, hi=-1)
        ctx.patch(m, "Vehicle", lambda *a: NS(data={k: dict(surge_m=v[0], sway_m=v[1], heave_m=v[2]) for k, v in pos.items()}))
        ctx.patch(m, "Mission", lambda *a: NS(origin=NS(latitude=lat0, longitude=lon0), image=NS(cameras=[NS(name="camA", path="image/a"), NS(name="camB", path="image/b"), NS(name="LM165", path="image/LM165")])))
        with Scratch() as root:
            raw = root / "raw" / "d"
            for k, lg in enumerate(logs):
                write(raw / "nav" / "ship_log" / ("log%d.csv" % k), ship_log(ctx, lg, str(k)))
            write(raw / "nav" / "ship_log" / "log_FIX.csv", "nothing\n")
            write(raw / "nav" / "TCM" / "TCM.csv", rot)
            for c in ims:
                write(raw / "image" / c / "FileTime.csv", ims[c])
            for n in ("vehicle.yaml", "mission.yaml"):
                write(raw / n)
            was = {p: p.read_bytes() for p in raw.rglob("*") if p.is_file()}
            p = m.RovParser(str(raw))
            p.load_data()
            p.check_for_outputs(False)
            p.interpolate_to_images()
            p.filter_nans()
            p.add_northings_eastings()
            p.add_lever_arms()
            p.write_outputs()
            ctx.ensure("raw-untouched", was == {p: p.read_bytes() for p in raw.rglob("*") if p.is_file()})
            out = root / "processed" / "d" / ("json_renav_20200304_073000_20200304_093000" if long_rot else "json_renav_20200304_080000_20200304_085959") / "csv" / "dead_reckoning"
            ctx.ensure("folder-of-the-time-span", out.is_dir() and sorted(q.name for q in out.iterdir()) == ["auv_dr_LM165_at_dvl.csv", "auv_dr_camA.csv", "auv_dr_camB.csv"], str(list(root.rglob("*.csv"))))
            for cam, src, target, path in (("LM165_at_dvl", "LM165", "dvl", "image/LM165/104/image0104003.tif"), ("camA", "Xviii", "camA", "image/a/0000017.raw"), ("camB", "Xviii", "camB", "image/b/0000017.raw")):
                tg = "-" + cam
                two = early and src == "LM165"
                got = table(ctx, out / ("auv_dr_%s.csv" % cam), 2 if two else 1, tg)
                row = got[0]
                if two:
                    ctx.ensure("second-image" + tg, got[1]["relative_path"] == "image/LM165/104/image0104009.tif")
                    ctx.ensure_eq("second-time" + tg, num(ctx, got[1]["timestamp [s]"]), base(ctx) + 3300.25, tol=1e-6)
                t = imt[src]
                i = 0 if t <= ptime[1] else 1
                w = {a: lin(t, ptime[i], ptime[i + 1], prec[i][a], prec[i + 1][a]) for a in prec[0]}
                j = 0 if t <= rtime[1] else 1
                a, b = rrec[j], rrec[j + 1]
                u = {n: lin(t, rtime[j], rtime[j + 1], a[n], b[n]) for n in ("roll", "pitch")}
                hd = a["heading"] + shortest(ctx, a["heading"], b["heading"]) * (t - rtime[j]) / (rtime[j + 1] - rtime[j])
                # the printed attitude is compared with these, the rest is computed from what is printed
                same(ctx, tg, row, {"roll [deg]": u["roll"], "pitch [deg]": u["pitch"], "heading [deg]": hd, "timestamp [s]": base(ctx) + t})
                R = [num(ctx, row[n]) for n in ("roll [deg]", "pitch [deg]", "heading [deg]")]
                d_dep = rot_zyx(ctx, *R, [pos[target][k] - pos["depth"][k] for k in range(3)])
                d_dvl = rot_zyx(ctx, *R, [pos[target][k] - pos["dvl"][k] for k in range(3)])
                same(ctx, tg, row, {"depth [m]": w["depth"] + d_dep[2], "altitude [m]": w["altitude"] - d_dvl[2]})
                dist, bear = l2m(w["lat"], w["lon"], lat0, lon0)
                n, e = dist * ctx.cos(ctx.rad(bear)) + d_dvl[0], dist * ctx.sin(ctx.rad(bear)) + d_dvl[1]
                same(ctx, tg, row, {"northing [m]": n, "easting [m]": e})
                la, lo = m2l(lat0, lon0, num(ctx, row["easting [m]"]), num(ctx, row["northing [m]"]))
                same(ctx, tg, row, {"latitude [deg]": la, "longitude [deg]": lo})
                ctx.ensure("path" + tg, row["relative_path"] == path, row["relative_path"])

    h.__name__ = "koyo20rov_" + tag
    return REG.harness(KO_FNS, kind="bounded", bound="three positions and attitudes within an hour, one image of each kind (one more outside the records)", samples=40, budget_s=250)(h)


_koyo("images")
_koyo("headings", headings=None, minutes=((25, 45),))
_koyo("with_missing_depth_and_altitude", zero=True, minutes=((5, 45),))
_koyo("with_records_out_of_order", late=True, two_logs=True, early=True, minutes=((25, 5),))
_koyo("images_outside_the_record", outside=("LM165", "Xviii"), minutes=((45, 25),))
_koyo("images_outside_the_positions", outside=("LM165", "Xviii"), long_rot=True, minutes=((45, 25),))
