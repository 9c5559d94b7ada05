"""R15: every time is UTC: clock reading - time zone + time offset, on any computer."""
from common import *
from parserun import *

REG = Registry("R15")
TC = "auv_nav.tools.time_conversions"
Z = ["UTC0", "JST-9", "XXX+03:30", "Europe/London", "America/St_Johns"]


class Computer:
    """the contract must hold in every time zone of the computer (proofs: a free constant)"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        import os
        import time

        self.old = os.environ.get("TZ")
        if not self.ctx.symbolic:
            os.environ["TZ"] = self.ctx.choice("computer", Z)
            time.tzset()

    def __exit__(self, *a):
        import os
        import time

        if not self.ctx.symbolic:
            if self.old is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = self.old
            time.tzset()


def when(ctx, tag="", years=(1990, 2099)):
    """a UTC calendar date and clock reading (any)"""
    y, mo, d = ctx.int("year" + tag, *years), ctx.int("month" + tag, 1, 12), ctx.int("day" + tag, 1, 31)
    if not ctx.symbolic:
        import calendar

        if d > calendar.monthrange(y, mo)[1]:
            d = calendar.monthrange(y, mo)[1]
    return y, mo, d, ctx.int("hour" + tag, 0, 23), ctx.int("minute" + tag, 0, 59), ctx.int("second" + tag, 0, 59)


def zone(ctx):
    return ctx.real("timezone_h", lo=-12, hi=14), ctx.real("timeoffset", lo=-5000, hi=5000)


def stamp_text(ctx, w, fmt):
    """fmt: Y year, y two digit year, M, D, h, m, s fields, everything else literally"""
    y, mo, d, h, mi, s = w
    f = {"Y": (y, 4), "M": (mo, 2), "D": (d, 2), "h": (h, 2), "m": (mi, 2), "s": (s, 2)}
    if "y" in fmt:
        f["y"] = (y - 2000, 2)
    out = ""
    for c in fmt:
        out += ctx.digits(*f[c]) if c in f else c
    return out


def check(ctx, name, got, w, frac, tz=0, off=0):
    ctx.ensure_eq(name, got, ctx.epoch(*w) + frac - tz * 3600 + off, tol=2e-6)


# ------------------------------------------------------------------ conversions
@REG.harness([TC + ".date_time_to_epoch"])
def clock_to_epoch(ctx):
    w = when(ctx)
    tz = ctx.real("timezone_h", lo=-12, hi=14)
    us = ctx.int("us", 0, 999999)
    if not ctx.symbolic:
        tz = round(tz * 4) / 4
    with Computer(ctx):
        check(ctx, "epoch", repo(TC).date_time_to_epoch(*w, tz, us), w, us / 1000000, tz)
        check(ctx, "epoch-utc", repo(TC).date_time_to_epoch(*w), w, 0)


@REG.harness([TC + ".string_to_epoch"])
def compact_date_to_epoch(ctx):
    w = when(ctx)
    with Computer(ctx):
        check(ctx, "epoch", repo(TC).string_to_epoch(stamp_text(ctx, w, "YMDhms")), w, 0)


@REG.harness([TC + ".epoch_to_datetime", TC + ".string_to_epoch", TC + ".epoch_to_day"], kind="sample", samples=200)
def epoch_to_compact_date_and_back(ctx):
    t = ctx.int("t", 0, 4000000000)
    import datetime

    with Computer(ctx):
        ctx.ensure("round-trip", repo(TC).string_to_epoch(repo(TC).epoch_to_datetime(t)) == t)
        # the second a time falls into, never the next one
        x = t + ctx.choice("fraction", [0.0, 0.25, 0.5, 0.75, 0.999])
        ctx.ensure("second", repo(TC).string_to_epoch(repo(TC).epoch_to_datetime(x)) == t)
        u = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
        ctx.ensure("day", repo(TC).epoch_to_day(t) == u.strftime("%Y/%m/%d"))


@REG.harness([TC + ".read_timezone", "oplab.mission.TimeZoneEntry.load"])
def configured_zone(ctx):
    silence(ctx)
    x, off = zone(ctx)
    name, h = ctx.choice("name", [("utc", 0), ("UTC", 0), ("jst", 9), ("JST", 9), ("cet", 1), ("CET", 1), ("number", None), ("text", None), ("missing", 0)])
    E = repo("oplab.mission").TimeZoneEntry()
    node = {"timeoffset": off}
    if name == "number":
        node["timezone"], h = x, x
    elif name == "text":
        node["timezone"], h = ctx.choice("txt", [("-3.5", -3.5), ("8", 8), ("+5.75", 5.75)])
    elif name != "missing":
        node["timezone"] = name
    E.load(node)
    ctx.ensure_eq("hours", E.timezone, h)
    ctx.ensure_eq("seconds", E.timezone_s, h * 3600, scale=50000)
    ctx.ensure_eq("timeoffset", E.timeoffset_s, off)
    ctx.ensure_eq("total", E.offset_s, h * 3600 + off, scale=50000)
    ctx.ensure_eq("read-number", repo(TC).read_timezone(E.timezone), h)
    if name not in ("number", "text", "missing"):
        ctx.ensure_eq("read-name", repo(TC).read_timezone(name), h)
    ctx.ensure_eq("read-bst", repo(TC).read_timezone("BST"), 1)


@REG.harness(["oplab.mission.TimeZoneEntry.load"])
def unknown_zone_stops_the_run(ctx):
    silence(ctx)
    E = repo("oplab.mission").TimeZoneEntry()
    try:
        E.load({"timezone": ctx.choice("name", ["mars", "", "1h"])})
        ctx.ensure("stopped", False)
    except Quit:
        ctx.ensure("stopped", True)


@REG.harness([TC + ".datetime_tz_to_epoch"], kind="sample", samples=100)
def named_zone(ctx):
    import calendar
    import datetime

    w = when(ctx)
    name, h = ctx.choice("zone", [("UTC", 0), ("Asia/Tokyo", 9), ("Etc/GMT+7", -7)])
    with Computer(ctx):
        check(ctx, "epoch", repo(TC).datetime_tz_to_epoch(datetime.datetime(*w), name), w, 0, h)


@REG.harness([TC + ".datetime_tz_to_epoch"], kind="sample", samples=30)
def named_zone_with_summer_time(ctx):
    """local times of a zone with summer time; a local time that occurs twice or never is
    not silently given some UTC time"""
    import datetime
    import zoneinfo

    y = ctx.int("y", 1999, 2035)
    name = ctx.choice("zone", ["Europe/London", "Europe/Madrid", "Atlantic/Canary"])
    z = zoneinfo.ZoneInfo(name)
    with Computer(ctx):
        d = datetime.datetime(y, ctx.int("mo", 1, 12), ctx.int("d", 1, 28), ctx.int("h", 4, 23), ctx.int("mi", 0, 59))
        ctx.assume(not (d.month in (3, 10) and d.day > 23))
        check_ = d.replace(tzinfo=z).timestamp()
        ctx.ensure_eq("epoch", repo(TC).datetime_tz_to_epoch(d, name), check_)
        last = max(k for k in range(25, 32) if datetime.date(y, 10, k).weekday() == 6)
        twice = datetime.datetime(y, 10, last, 1 if name != "Europe/Madrid" else 2, 30)
        try:
            r = repo(TC).datetime_tz_to_epoch(twice, name)
        except BaseException as e:
            if type(e).__name__ == "Unsupported":
                raise
            r = None
        ctx.ensure("ambiguous-is-refused", r is None, "%s %s gives %r" % (twice, name, r))


# ------------------------------------------------------------------ file names
FMT = [("xxxYYYYMMDDxhhmmssxfffxxxxx.xxx", "PR_YMD_hms_fff_RC16.tif", 3), ("YYYYMMDDxhhmmssxfffuuuxxx.xxx", "YMD-hms.ffffff_ab.tif", 6), ("hhmmss_YYYYMMDD", "hms_YMD.png", 0), ("YYYYxMMxDDxhhxmmxssxxfff", "Y-M-D_h.m.s__fff.jpeg", 3), ("xYYYYMMDD_hhmmss_uuu.png", "xYMD_hms_fff.png", -3)]


@REG.harness(["oplab.filename_to_date.FilenameToDate.__call__", "oplab.filename_to_date.FilenameToDate.string_to_epoch"])
def time_in_the_file_name(ctx):
    silence(ctx)
    w = when(ctx)
    F, name, nd = ctx.choice("format", FMT)
    unit = 10**6 if nd < 0 else 10**nd
    nd = abs(nd)
    us = ctx.int("us", 0, 10**nd - 1)
    txt = stamp_text(ctx, w, name.split("f", 1)[0]) if nd else stamp_text(ctx, w, name.split(".")[0])
    rest = name[len(name.split("f", 1)[0]) + nd :] if nd else ".png"
    f = repo("oplab.filename_to_date").FilenameToDate(F)
    with Computer(ctx):
        check(ctx, "epoch", f("/a/b.c/" + txt + (ctx.digits(us, nd) if nd else "") + rest), w, us / unit)


@REG.harness(["oplab.filename_to_date.FilenameToDate.string_to_epoch"])
def epoch_in_the_file_name(ctx):
    silence(ctx)
    a, b = ctx.int("s", 1000000000, 1999999999), ctx.int("ms", 0, 999)
    f = repo("oplab.filename_to_date").FilenameToDate("xxeeeeeeeeeeeeee.xxx")
    ctx.ensure_eq("epoch", f("c_" + ctx.digits(a, 10) + "." + ctx.digits(b, 3) + ".png"), a + b / 1000, tol=1e-6)


@REG.harness(["oplab.filename_to_date.FilenameToDate.read_timestamp_file", "oplab.filename_to_date.FilenameToDate.__call__"], kind="bounded", bound="timestamp files of two rows", samples=25)
def time_in_the_timestamp_file(ctx):
    silence(ctx)
    w, us = [when(ctx, str(k)) for k in range(2)], [ctx.int("ms%d" % k, 0, 999) for k in range(2)]
    with Dataset() as d:
        (d.raw[0] / "FileTime.csv").write_text("index,date,name,time,ms\n" + "".join("000000%d,%s,a%d.raw,%s,%s\n" % (7 - 4 * k, stamp_text(ctx, w[k], "YMD"), k, stamp_text(ctx, w[k], "hms"), ctx.digits(us[k], 3)) for k in range(2)))
        cols = [{"name": "index", "content": "iiiiiii"}, {"name": "date", "content": "YYYYMMDD"}, {"name": "name", "content": "filename"}, {"name": "time", "content": "hhmmss"}, {"name": "ms", "content": "fff"}]
        with Computer(ctx):
            f = repo("oplab.filename_to_date").FilenameToDate("iiiiiii.raw", "FileTime.csv", cols, d.raw[0])
            for k in range(2):
                check(ctx, "epoch-%d" % k, f("000000%d.raw" % (7 - 4 * k)), w[k], us[k] / 1000)


def _image_name(name, mod, fn, make):
    def h(ctx):
        silence(ctx)
        w = when(ctx, years=(2001, 2098))
        tz, off = zone(ctx)
        if not ctx.symbolic:
            tz = round(tz * 4) / 4
        with Computer(ctx):
            make(ctx, getattr(repo("auv_nav.parsers." + mod), fn), w, tz, off)

    h.__name__ = name
    REG.harness(["auv_nav.parsers.%s.%s" % (mod, fn)])(h)


def _acfr(ctx, f, w, tz, off):
    ms = ctx.int("ms", 0, 999)
    check(ctx, "epoch", f(stamp_text(ctx, w, "PR_YMD_hms_") + ctx.digits(ms, 3) + "_LC16.tif", tz, off), w, ms / 1000, tz, off)


def _ntnu(ctx, f, w, tz, off):
    q = ctx.int("q", 0, 9999)
    check(ctx, "epoch", f(stamp_text(ctx, w, "yMD-hms.") + ctx.digits(q, 4) + "L.jpg", tz, off), w, q / 10000, tz, off)


def _biocam(ctx, f, w, tz, off):
    us, v, us2 = ctx.int("us", 0, 999999), when(ctx, "_cam", years=(2001, 2098)), ctx.int("us_cam", 0, 999999)
    a, b = f(stamp_text(ctx, w, "YMD_hms_") + ctx.digits(us, 6) + stamp_text(ctx, v, "_YMD_hms_") + ctx.digits(us2, 6) + "_pcoc.tif", tz, off)
    check(ctx, "computer-time", a, w, us / 1000000, tz, off)
    check(ctx, "camera-time", b, v, us2 / 1000000, tz, off)
    c, e = f(stamp_text(ctx, w, "img_YMD_hms_") + ctx.digits(us, 6), tz, off)
    check(ctx, "short-name", c, w, us / 1000000, tz, off)
    check(ctx, "short-name-camera", e, w, us / 1000000, tz, off)


def _biocam_ms(ctx, f, w, tz, off):
    ms = ctx.int("ms", 0, 999)
    check(ctx, "milliseconds", f(stamp_text(ctx, w, "YMD"), stamp_text(ctx, w, "hms"), ctx.digits(ms, 3), tz, off), w, ms / 1000, tz, off)


_image_name("acfr_image_name", "parse_acfr_images", "acfr_timestamp_from_filename", _acfr)
_image_name("ntnu_image_name", "parse_ntnu_stereo", "timestamp_from_filename", _ntnu)
_image_name("biocam_image_name", "parse_biocam_images", "biocam_timestamp_from_filename", _biocam)
_image_name("biocam_milliseconds", "parse_biocam_images", "time_from_string", _biocam_ms)


# ------------------------------------------------------------------ navigation logs
@REG.harness(["auv_nav.parsers.parse_phins.PhinsTimestamp.epoch_timestamp_from_phins", "auv_nav.parsers.parse_phins.PhinsTimestamp.get", "auv_nav.sensors.BodyVelocity.parse_dvl_time", "auv_nav.sensors.Depth.from_phins"])
def phins_times(ctx):
    silence(ctx)
    w = when(ctx)
    tz, off = zone(ctx)
    if not ctx.symbolic:
        tz = round(tz * 4) / 4
    ms = ctx.int("ms", 0, 999)
    S = repo("auv_nav.sensors")
    with Computer(ctx):
        ts = repo("auv_nav.parsers.parse_phins").PhinsTimestamp(w[:3], tz, off)
        txt = stamp_text(ctx, w, "hms.") + ctx.digits(ms, 3)
        check(ctx, "time-message", ts.epoch_timestamp_from_phins(["$PIXSE", "TIME__", txt + "000"]), w, ms / 1000, tz, off)
        check(ctx, "time-message-short", ts.epoch_timestamp_from_phins(["$PIXSE", "TIME__", txt]), w, ms / 1000, tz, off)
        v = S.BodyVelocity(0.1, 0.1, 0, ts)
        check(ctx, "dvl-message", v.parse_dvl_time(["$PIXSE", "LOGIN_", "1", "2", "3", "0", txt]), w, ms / 1000, tz, off)
        d = S.Depth(0.1, ts)
        d.from_phins(["$PIXSE", "DEPIN_", "12.5", txt])
        check(ctx, "depth-message", d.depth_timestamp, w, ms / 1000, tz, off)


@REG.harness(["auv_nav.parsers.parse_phins.PhinsTimestamp.epoch_timestamp_from_phins"])
def phins_leap_second_is_dropped(ctx):
    silence(ctx)
    ts = repo("auv_nav.parsers.parse_phins").PhinsTimestamp((2019, 2, 3), 0, 0)
    s = ctx.int("second", 60, 99)
    ctx.ensure("no-time", ts.epoch_timestamp_from_phins(["$PIXSE", "TIME__", "1122" + ctx.digits(s, 2) + ".123"]) is None)


@REG.harness(["auv_nav.sensors.BodyVelocity.from_ntnu_dvl", "auv_nav.sensors.Altitude.from_ntnu_dvl", "auv_nav.sensors.Depth.from_eiva_navipac", "auv_nav.sensors.Usbl.from_eiva_navipac"])
def ntnu_and_eiva_times(ctx):
    silence(ctx)
    geodesy(ctx)
    w = when(ctx, years=(1971, 2099))
    us = ctx.int("us", 0, 999999)
    ctx.assume(ctx.epoch(*w) > 0)
    ctx.assume(ctx.cos(ctx.rad(10.1)) > 0)
    S = repo("auv_nav.sensors")
    with Computer(ctx):
        f, row = stamp_text(ctx, w, "YMD_x.csv"), {"time": stamp_text(ctx, w, "h:m:s.") + ctx.digits(us, 6), "u_dvl": "1.0", "v_dvl": "0.5", "z_dvl": "0.1", "dvl_alt1": "3.0", "dvl_alt3": "4.0"}
        v, a, d, u = S.BodyVelocity(), S.Altitude(), S.Depth(), S.Usbl(0.1, 0.1, 10.0, 20.0)
        v.from_ntnu_dvl(f, row)
        a.from_ntnu_dvl(f, row)
        t = stamp_text(ctx, w, "Y:M:D:h:m:s.") + ctx.digits(us, 6)
        d.from_eiva_navipac("R x x x %s 12.5" % t)
        u.from_eiva_navipac("P x x %s x x -12.5 10.1 20.1" % t)
        for n, o in (("dvl", v.epoch_timestamp_dvl), ("altitude", a.altitude_timestamp), ("depth", d.depth_timestamp), ("usbl", u.epoch_timestamp)):
            check(ctx, n, o, w, us / 1000000)
    ctx.ensure_eq("altitude-value", a.altitude, 3.5)
    ctx.ensure_eq("depth-value", d.depth, 12.5)
    ctx.ensure_eq("usbl-depth", u.depth, 12.5)


@REG.harness(["auv_nav.parsers.parse_koyo21rov.parse_koyo21rov"], kind="bounded", bound="logs of two rows, both layouts", samples=25)
def koyo_times(ctx):
    silence(ctx)
    import pathlib

    geodesy(ctx)
    w = [when(ctx, str(k), years=(1975, 2099)) for k in range(2)]
    ctx.assume(ctx.epoch(*w[0]) < ctx.epoch(*w[1]))
    ctx.assume(ctx.epoch(*w[0]) > 0)
    lay = ctx.choice("layout", ["raw", "filtered"])
    with Dataset() as ds:
        (ds.raw[0] / "a").mkdir()
        if lay == "raw":
            txt = "Date,Time,Roll,Pich,Hedding,Depth(ROV),ALT\n" + "".join("%s,%s,1.5,2.5,3.5,%d.5,4.5\n" % (stamp_text(ctx, x, "Y/M/D"), stamp_text(ctx, x, "h:m:s"), k) for k, x in enumerate(w))
        else:
            txt = "timestamp,Roll,Pich,Hedding,Depth(ROV),ALT\n" + "".join("%s,1.5,2.5,3.5,%d.5,4.5\n" % (stamp_text(ctx, x, "Y-M-D h:m:s"), k) for k, x in enumerate(w))
        (ds.raw[0] / "a" / "k.csv").write_text(txt)
        out = pathlib.Path(ds.root).resolve() / "processed" / "2020" / ds.names[0] / "nav"
        out.mkdir(parents=True)
        M = repo("oplab.mission").Mission(ds.raw[0] / "mission.yaml")
        V = repo("oplab.vehicle").Vehicle(ds.raw[0] / "vehicle.yaml")
        M.orientation.filename = "k.csv"
        with Computer(ctx):
            got = repo("auv_nav.parsers.parse_koyo21rov").parse_koyo21rov(M, V, "depth", "oplab", out)
    ctx.ensure("one-per-row", len(got) == 2)
    for k in range(2):
        check(ctx, "epoch-%d" % k, got[k]["epoch_timestamp"], w[k], 0)
        ctx.ensure_eq("depth-%d" % k, got[k]["data"][0]["depth"], k + 0.5)
