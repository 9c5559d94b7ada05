"""R26: raw readings are converted to the pipeline's units, axes and uncertainties."""
from common import *
from parserun import *
from types import SimpleNamespace as NS

REG = Registry("R26")
S = "auv_nav.sensors"


def cell(ctx, x):
    """the number as it stands in a log file"""
    return str(x) if ctx.symbolic else repr(float(x))


def stamp(ctx):
    s, n, tz = ctx.int("secs", lo=0, hi=2000000000), ctx.int("nsecs", lo=0, hi=999999999), ctx.real("tz_s", lo=-50000, hi=50000)
    return NS(stamp=NS(secs=s, nsecs=n), frame_id="base"), s + n * 1e-9 - tz, tz


def rotz(ctx, yaw, x, y):
    a = ctx.rad(yaw)
    return ctx.cos(a) * x - ctx.sin(a) * y, ctx.sin(a) * x + ctx.cos(a) * y


def T(ctx, o, t):
    ctx.ensure_eq("time", o.epoch_timestamp, t, tol=1e-5)


def vel(ctx, o, v, std):
    for a, x, s in zip("xyz", v, std):
        ctx.ensure_eq(a, getattr(o, a + "_velocity"), x, scale=50)
        ctx.ensure_eq(a + "-std", getattr(o, a + "_velocity_std"), s, scale=10)


# ------------------------------------------------------------------ velocity
@REG.harness([S + ".BodyVelocity.from_ros", S + ".BodyVelocity.apply_offset", S + ".ros_stamp_to_epoch"])
def ros_dvl_cola2(ctx):
    silence(ctx)
    yaw = ctx.real("yaw", lo=-180, hi=180)
    o = repo(S).BodyVelocity(heading_offset=yaw)
    h, t, o.tz_offset_s = stamp(ctx)
    v = [ctx.real("v" + a, lo=-4, hi=4) for a in "xyz"]
    c = [ctx.real("c" + a, lo=-1, hi=4) for a in "xyz"]
    ctx.assume(c[1] >= 0)
    ctx.assume(c[2] >= 0)
    alt = ctx.real("alt", lo=-2, hi=20)
    o.from_ros(NS(header=h, altitude=alt, velocity=NS(x=v[0], y=v[1], z=v[2]), velocity_covariance=[c[0], 0, 0, 0, c[1], 0, 0, 0, c[2]]), "cola2_msgs/DVL", None)
    good = ctx.And(c[0] > 0, alt >= 0, v[0] ** 2 + v[1] ** 2 < 6.25)
    near = ctx.And(c[0] > 0, alt >= 0, v[0] ** 2 + v[1] ** 2 < 6.2501)
    if good:
        vel(ctx, o, (*rotz(ctx, yaw, v[0], v[1]), v[2]), [ctx.sqrt(x) for x in c])
        T(ctx, o, t)
    elif not near:
        ctx.ensure("no-reading-without-bottom-lock", not o.valid())


@REG.harness([S + ".BodyVelocity.from_ros"])
def ros_dvl_teledyne(ctx):
    silence(ctx)
    yaw = ctx.real("yaw", lo=-180, hi=180)
    o = repo(S).BodyVelocity(heading_offset=yaw)
    h, t, o.tz_offset_s = stamp(ctx)
    st = ctx.choice("status", ["AA", "AV", "VA", "VV"])
    d = {p + n: ctx.real(p + n, lo=-5000, hi=5000) for p in ("bi_", "wi_") for n in ("x_axis_mms", "y_axis_mms", "z_axis_mms", "error_mms")}
    o.from_ros(NS(header=h, bi_status=st[0], wi_status=st[1], **d), "teledyne_explorer_dvl/TeledyneExplorerDVLData", None)
    if st == "VV":
        ctx.ensure("no-reading-without-lock", not o.valid())
        return
    p = "bi_" if st[0] == "A" else "wi_"
    x, y, z, e = [d[p + n] / 1000 for n in ("x_axis_mms", "y_axis_mms", "z_axis_mms", "error_mms")]
    vel(ctx, o, (*rotz(ctx, yaw, x, y), z), [abs(e)] * 3)
    T(ctx, o, t)


@REG.harness([S + ".BodyVelocity.from_ros", S + ".Orientation.from_ros", S + ".Depth.from_ros", S + ".Altitude.from_ros"])
def ros_sprintnav(ctx):
    silence(ctx)
    h, t, tz = stamp(ctx)
    f = {k: ctx.real(k, lo=-30, hi=30) for k in ("forward_velocity", "starboard_velocity", "down_velocity", "roll", "pitch", "depth")}
    f.update({k: ctx.real(k, lo=0, hi=9) for k in ("velocity_quality", "heading_quality", "altitude", "position_quality_cep50")})
    f["heading"] = ctx.real("heading", lo=0, hi=360)
    m = NS(header=h, **f)
    ty = "sonardyne_sprintnav_ins/HNav"
    v, o, d, a = repo(S).BodyVelocity(), repo(S).Orientation(), repo(S).Depth(), repo(S).Altitude(0.02)
    for s in (v, o, d, a):
        s.tz_offset_s = tz
    v.from_ros(m, ty, None)
    vel(ctx, v, (f["forward_velocity"], f["starboard_velocity"], f["down_velocity"]), [f["velocity_quality"]] * 3)
    T(ctx, v, t)
    o.from_ros(m, ty, None)
    for k, w in (("roll", "roll"), ("pitch", "pitch"), ("yaw", "heading")):
        ctx.ensure_eq(k, getattr(o, k), f[w], scale=100)
        ctx.ensure_eq(k + "-std", getattr(o, k + "_std"), f["heading_quality"], scale=10)
    T(ctx, o, t)
    d.from_ros(m, ty, None)
    ctx.ensure_eq("depth", d.depth, f["depth"])
    ctx.ensure("depth-std-not-negative", d.depth_std >= 0)
    T(ctx, d, t)
    a.from_ros(m, ty, None)
    if f["altitude"] == 0:
        ctx.ensure("zero-altitude-is-no-reading", not a.valid())
    else:
        ctx.ensure_eq("altitude", a.altitude, f["altitude"])
        ctx.ensure_eq("altitude-std", a.altitude_std, f["altitude"] * 0.02)
        T(ctx, a, t)


@REG.harness([S + ".BodyVelocity.from_alr", S + ".BodyVelocity.from_autosub", S + ".BodyVelocity.from_koyo21rov", S + ".BodyVelocity.get_std"])
def velocity_of_other_vehicles(ctx):
    silence(ctx)
    fac, off = ctx.real("factor", lo=0, hi=1), ctx.real("offset", lo=0, hi=1)
    t = ctx.real("t", lo=0, hi=2e9)
    v = [ctx.real("v" + a, lo=-4000, hi=4000) for a in "xyz"]
    e = ctx.real("err", lo=-100, hi=100)
    src = ctx.choice("source", ["alr", "autosub", "koyo"])
    o = repo(S).BodyVelocity(fac, off, 0)
    if src == "alr":
        o.from_alr(t, *v)
        w, std = v, [abs(x) * fac + off for x in v]
    elif src == "autosub":
        o.from_autosub({"eTime": [0, t], "Vnorth0": [0, v[0]], "Veast0": [0, v[1]], "Vdown0": [0, v[2]], "Verr0": [0, e]}, 1)
        w, std = [-x / 1000 for x in v], [abs(e) / 1000] * 3
    else:
        o.from_koyo21rov(t, v[0], v[2])
        w = [v[0], 0, v[2]]
        std = [abs(x) * fac + off for x in w]
    for a, x, s in zip("xyz", w, std):
        ctx.ensure_eq(a, getattr(o, a + "_velocity"), x, scale=4000)
        ctx.ensure_eq(a + "-std", getattr(o, a + "_velocity_std"), s, scale=4000)
    T(ctx, o, t)
    ctx.ensure("valid", o.valid())


@REG.harness([S + ".BodyVelocity.from_phins", S + ".BodyVelocity.parse_dvl_time", "auv_nav.parsers.parse_phins.PhinsTimestamp.get"], kind="bounded", bound="symbolic velocities and mounting angle; four times of day, three time zones")
def phins_dvl(ctx):
    silence(ctx)
    import calendar

    yaw = ctx.real("yaw", lo=-180, hi=180)
    tz, off = ctx.choice("tz", [0, 9, -3.5]), ctx.real("timeoffset", lo=-100, hi=100)
    ts = repo("auv_nav.parsers.parse_phins").PhinsTimestamp((2019, 2, 28), tz, off)
    fac, of = ctx.real("factor", lo=0, hi=1), ctx.real("offset", lo=0, hi=1)
    o = repo(S).BodyVelocity(fac, of, yaw, ts)
    o.epoch_timestamp = 5.0
    v = [ctx.real("v" + a, lo=-4, hi=4) for a in "xyz"]
    hh, mm, ss, ms = ctx.choice("time", [(0, 0, 0, 0), (23, 59, 59, 999), (12, 5, 9, 40), (7, 31, 45, 500)])
    o.from_phins(["$PIXSE", "LOGIN_", cell(ctx, v[0]), cell(ctx, v[1]), cell(ctx, v[2]), "0", "%02d%02d%02d.%03d" % (hh, mm, ss, ms)])
    x, y = rotz(ctx, yaw, v[0], v[1])
    w = (x, -y, -v[2])
    vel(ctx, o, w, [abs(q) * fac + of for q in w])
    ctx.ensure_eq("time", o.epoch_timestamp_dvl, calendar.timegm((2019, 2, 28, hh, mm, ss)) + ms / 1000 - tz * 3600 + off, tol=1e-6)


@REG.harness([S + ".InertialVelocity.from_phins", S + ".Orientation.from_phins", S + ".Orientation.apply_offset", S + ".Orientation.apply_std_offset", S + ".Depth.from_phins", S + ".Altitude.from_phins"], kind="bounded", bound="symbolic values; four times of day")
def phins_other(ctx):
    silence(ctx)
    import calendar

    n = [ctx.real("n%d" % k, lo=-40, hi=40) for k in range(3)]
    p = [ctx.real("p%d" % k, lo=0, hi=5) for k in range(3)]
    iv = repo(S).InertialVelocity()
    iv.from_phins(["$PIXSE", "STDSPD"] + [cell(ctx, x) for x in p])
    iv.from_phins(["$PIXSE", "SPEED_"] + [cell(ctx, x) for x in n])
    for a, x, s in (("east", n[0], p[0]), ("north", n[1], p[1]), ("down", -n[2], p[2])):
        ctx.ensure_eq(a, getattr(iv, a + "_velocity"), x, scale=40)
        ctx.ensure_eq(a + "-std", getattr(iv, a + "_velocity_std"), s, scale=10)
    o = repo(S).Orientation(0.0)
    hd = ctx.real("heading", lo=0, hi=360)
    o.from_phins(["$HEHDT", cell(ctx, hd), "T"])
    o.from_phins(["$PIXSE", "ATITUD", cell(ctx, n[0]), cell(ctx, n[1])])
    o.from_phins(["$PIXSE", "STDHRP"] + [cell(ctx, x) for x in p])
    for a, x, s in (("roll", -n[0], p[1]), ("pitch", -n[1], p[2]), ("yaw", hd, p[0])):
        ctx.ensure_eq(a, getattr(o, a), x, scale=360)
        ctx.ensure_eq(a + "-std", getattr(o, a + "_std"), s, scale=10)
    ts = repo("auv_nav.parsers.parse_phins").PhinsTimestamp((2019, 2, 28), 0, 0)
    fac = ctx.real("factor", lo=0, hi=1)
    d = repo(S).Depth(fac, ts)
    hh, mm, ss, ms = ctx.choice("time", [(0, 0, 0, 0), (23, 59, 59, 999), (12, 5, 9, 40), (7, 31, 45, 500)])
    d.from_phins(["$PIXSE", "DEPIN_", cell(ctx, n[0]), "%02d%02d%02d.%03d" % (hh, mm, ss, ms)])
    ctx.ensure_eq("depth", d.depth, n[0])
    ctx.ensure_eq("depth-std", d.depth_std, abs(n[0]) * fac, scale=40)
    ctx.ensure_eq("depth-time", d.depth_timestamp, calendar.timegm((2019, 2, 28, hh, mm, ss)) + ms / 1000, tol=1e-6)
    a = repo(S).Altitude(fac)
    t = ctx.real("t", lo=0, hi=2e9)
    a.from_phins(["$PIXSE", "LOGDVL", "1500.0", "1.0", cell(ctx, p[0])], t)
    ctx.ensure_eq("altitude", a.altitude, p[0])
    ctx.ensure_eq("altitude-std", a.altitude_std, p[0] * fac, scale=5)
    ctx.ensure_eq("altitude-time", a.altitude_timestamp, t)


@REG.harness([S + ".Orientation.apply_std_offset", S + ".Orientation.apply_offset"])
def heading_offset_of_the_attitude(ctx):
    silence(ctx)
    yaw = ctx.real("yaw_offset", lo=-180, hi=180)
    o = repo(S).Orientation(yaw)
    r, p, y = ctx.real("roll", lo=-40, hi=40), ctx.real("pitch", lo=-40, hi=40), ctx.real("heading", lo=0, hi=360)
    sr, sp = ctx.real("sr", lo=0, hi=5), ctx.real("sp", lo=0, hi=5)
    o.roll, o.pitch, o.yaw, o.roll_std, o.pitch_std, o.yaw_std = r, p, y, sr, sp, 1.0
    o.apply_offset()
    o.apply_std_offset()
    a, b = rotz(ctx, yaw, r, p)
    ctx.ensure_eq("roll", o.roll, a, scale=50)
    ctx.ensure_eq("pitch", o.pitch, b, scale=50)
    ctx.ensure("std-not-negative", ctx.And(o.roll_std >= 0, o.pitch_std >= 0))
    ctx.ensure_eq("total-variance", o.roll_std**2 + o.pitch_std**2, sr**2 + sp**2, scale=50)
    ctx.ensure("heading-in-range", ctx.And(o.yaw >= 0, o.yaw <= 360))


@REG.harness([S + ".Orientation.from_alr", S + ".Orientation.from_koyo21rov", S + ".Orientation.from_autosub", S + ".Depth.from_alr", S + ".Depth.from_koyo21rov", S + ".Depth.from_autosub", S + ".Altitude.from_alr", S + ".Altitude.from_koyo21rov", S + ".Altitude.from_autosub"])
def attitude_depth_altitude_of_other_vehicles(ctx):
    silence(ctx)
    src = ctx.choice("source", ["alr", "autosub", "koyo"])
    t = ctx.real("t", lo=0, hi=2e9)
    r = [ctx.real(k, lo=-6, hi=6) for k in ("roll", "pitch", "yaw")]
    d, a = ctx.real("depth", lo=-5, hi=5000), ctx.real("altitude", lo=0, hi=50)
    fac, off = ctx.real("factor", lo=0, hi=1), ctx.real("offset", lo=0, hi=1)
    o, D, A = repo(S).Orientation(0.0, off), repo(S).Depth(fac), repo(S).Altitude(fac)
    if src == "alr":
        o.from_alr(t, *r)
        D.from_alr(t, d)
        A.from_alr(t, a)
    elif src == "autosub":
        data = {"eTime": [0, t], "Roll": [0, r[0]], "Pitch": [0, r[1]], "Heading": [0, r[2]], "DepCtldepth": [0, d], "ADCPAvAlt": [0, a]}
        o.from_autosub(data, 1)
        D.from_autosub(data, 1)
        A.from_autosub(data, 1)
    else:
        o.from_koyo21rov(t, *r)
        D.from_koyo21rov(t, d)
        A.from_koyo21rov(t, a)
    for k, x in zip(("roll", "pitch", "yaw"), r):
        ctx.ensure_eq(k, getattr(o, k), x if src == "koyo" else ctx.deg(x), scale=400)
        ctx.ensure_eq(k + "-std", getattr(o, k + "_std"), off)
    ctx.ensure_eq("depth", D.depth, d)
    ctx.ensure_eq("depth-std", D.depth_std, abs(d) * fac, scale=5000)
    ctx.ensure_eq("altitude", A.altitude, a)
    ctx.ensure_eq("altitude-std", A.altitude_std, a * fac, scale=50)
    for s in (o, D, A):
        T(ctx, s, t)
        ctx.ensure("complete-%s" % type(s).__name__, s.valid())


@REG.harness([S + ".Depth.from_ros", S + ".Altitude.from_ros"])
def ros_depth_and_altitude(ctx):
    silence(ctx)
    h, t, tz = stamp(ctx)
    fac = ctx.real("factor", lo=0, hi=1)
    D, A = repo(S).Depth(fac), repo(S).Altitude(fac)
    D.tz_offset_s = A.tz_offset_s = tz
    p, v = ctx.real("pressure", lo=-10000, hi=6e7), ctx.real("variance", lo=0, hi=1e6)
    k = 1030 * 9.80665
    kind = ctx.choice("kind", ["pressure", "pose"])
    if kind == "pressure":
        D.from_ros(NS(header=h, fluid_pressure=p, variance=v), "sensor_msgs/FluidPressure", None)
    else:
        k = 1
        cov = [7.0] * 36
        cov[14] = v
        D.from_ros(NS(header=h, pose=NS(pose=NS(position=NS(x=1, y=2, z=p)), covariance=cov)), "geometry_msgs/PoseWithCovarianceStamped", None)
    ctx.ensure_eq("depth", D.depth, p / k, scale=6000)
    if v > 1e-9:
        ctx.ensure_eq("depth-std", D.depth_std, ctx.sqrt(v) / k, scale=1000)
    elif v == 0:
        ctx.ensure_eq("depth-std-from-model", D.depth_std, abs(p / k) * fac, scale=6000)
    T(ctx, D, t)
    a = ctx.real("altitude", lo=-3, hi=50)
    src = ctx.choice("altimeter", ["cola2_msgs/DVL", "sensor_msgs/Range", "teledyne_explorer_dvl/TeledyneExplorerDVLData"])
    lock = ctx.choice("lock", ["A", "V"])
    A.from_ros(NS(header=h, altitude=a, range=a, bd_range=a, bi_status=lock), src, None)
    ok = lock == "A" if src.startswith("tele") else a >= 0
    if ok:
        ctx.ensure_eq("altitude", A.altitude, a)
        ctx.ensure_eq("altitude-std", A.altitude_std, a * fac, scale=50)
        T(ctx, A, t)
    else:
        ctx.ensure("no-reading-without-echo", not A.valid())


# ------------------------------------------------------------------ positions
def fix(ctx, o, lat, lon, depth, fac, off, l2m, ref):
    dist, brg = l2m(lat, lon, *ref)
    b = ctx.rad(brg)
    ctx.ensure_eq("latitude", o.latitude, lat)
    ctx.ensure_eq("longitude", o.longitude, lon)
    ctx.ensure_eq("depth", o.depth, depth)
    ctx.ensure_eq("northings", o.northings, ctx.cos(b) * dist, scale=1e5)
    ctx.ensure_eq("eastings", o.eastings, ctx.sin(b) * dist, scale=1e5)
    m = fac * abs(depth) + off
    for k in ("northings_std", "eastings_std", "depth_std"):
        ctx.ensure_eq(k, getattr(o, k), m, scale=1000)
    ctx.ensure_eq("latitude_std", o.latitude_std, m / 111111, scale=1)
    ctx.ensure_eq("longitude_std", o.longitude_std * ctx.cos(ctx.rad(lat)), m / 111111, scale=1)


def not_a_pole(ctx, lat):
    if ctx.symbolic:
        ctx.assume(ctx.cos(ctx.rad(lat)) > 0)


@REG.harness([S + ".Usbl.fill_from_lat_lon_depth", S + ".Usbl.from_koyo21rov", S + ".Usbl.from_alr", S + ".Usbl.from_gga", S + ".Usbl.from_nmea"])
def fixes_in_degrees(ctx):
    silence(ctx)
    _m, l2m = geodesy(ctx)
    ref = (ctx.real("lat0", lo=-80, hi=80), ctx.real("lon0", lo=-179, hi=179))
    fac, off = ctx.real("factor", lo=0, hi=1), ctx.real("offset", lo=0, hi=3)
    o = repo(S).Usbl(fac, off, *ref)
    lat, lon, d, t = ctx.real("lat", lo=-80, hi=80), ctx.real("lon", lo=-179, hi=179), ctx.real("depth", lo=-20, hi=5000), ctx.real("t", lo=0, hi=2e9)
    not_a_pole(ctx, lat)
    src = ctx.choice("source", ["alr", "koyo", "gga", "nmea"])
    if src == "alr":
        o.from_alr(t, lat, lon, d)
    elif src == "koyo":
        o.from_koyo21rov(t, lat, lon, d)
    elif src == "gga":
        o.from_gga(t, lat, lon, d)
    else:
        o.from_nmea(NS(timestamp=t, latitude=lat, longitude=lon, altitude=-d))
    fix(ctx, o, lat, lon, d, fac, off, l2m, ref)
    T(ctx, o, t)


@REG.harness([S + ".Usbl.from_ros"])
def ros_gps_fix(ctx):
    silence(ctx)
    _m, l2m = geodesy(ctx)
    ref = (ctx.real("lat0", lo=-80, hi=80), ctx.real("lon0", lo=-179, hi=179))
    o = repo(S).Usbl(0.1, 1.0, *ref)
    h, t, o.tz_offset_s = stamp(ctx)
    lat, lon = ctx.real("lat", lo=-80, hi=80), ctx.real("lon", lo=-179, hi=179)
    not_a_pole(ctx, lat)
    c = [ctx.real("c%d" % k, lo=0, hi=100) for k in range(3)]
    st = ctx.choice("status", [-1, 0])
    o.from_ros(NS(header=h, status=NS(status=st), latitude=lat, longitude=lon, position_covariance=[c[0], 0, 0, 0, c[1], 0, 0, 0, c[2]]), "sensor_msgs/NavSatFix", None)
    if st == -1:
        ctx.ensure("no-fix", not o.valid())
        return
    dist, brg = l2m(lat, lon, *ref)
    b = ctx.rad(brg)
    ctx.ensure_eq("latitude", o.latitude, lat)
    ctx.ensure_eq("longitude", o.longitude, lon)
    ctx.ensure_eq("depth", o.depth, 0)
    ctx.ensure_eq("northings", o.northings, ctx.cos(b) * dist, scale=1e5)
    ctx.ensure_eq("eastings", o.eastings, ctx.sin(b) * dist, scale=1e5)
    for k, x in zip(("eastings_std", "northings_std", "depth_std"), c):
        ctx.ensure_eq(k, getattr(o, k), ctx.sqrt(x), scale=100)
    T(ctx, o, t)


@REG.harness([S + ".Usbl.from_ros"])
def ros_usbl_fix(ctx):
    silence(ctx)
    m2l, _l = geodesy(ctx)
    ref = (ctx.real("lat0", lo=-80, hi=80), ctx.real("lon0", lo=-179, hi=179))
    fac, off = ctx.real("factor", lo=0, hi=1), ctx.real("offset", lo=0.1, hi=3)
    o = repo(S).Usbl(fac, off, *ref)
    h, t, o.tz_offset_s = stamp(ctx)
    n, e, d = ctx.real("n", lo=-900, hi=900), ctx.real("e", lo=-900, hi=900), ctx.real("d", lo=0, hi=900)
    c = [ctx.real("c%d" % k, lo=0, hi=100) for k in range(3)]
    for x in c:
        ctx.assume(ctx.Or(x == 0, x > 1e-6))
    cov = [3.0] * 36
    cov[0], cov[7], cov[14] = c
    if ctx.choice("type", ["pose", "evologics"]) == "pose":
        o.from_ros(NS(header=h, pose=NS(pose=NS(position=NS(x=n, y=e, z=d)), covariance=cov)), "geometry_msgs/PoseWithCovarianceStamped", None)
        for k, x in zip(("northings_std", "eastings_std", "depth_std"), c):
            if x == 0:
                ctx.ensure_eq(k + "-from-model", getattr(o, k), fac * d + off, scale=1000)
            else:
                ctx.ensure_eq(k, getattr(o, k), ctx.sqrt(x), scale=100)
        ctx.ensure("degrees-std-not-negative", ctx.And(o.latitude_std >= 0, o.longitude_std >= 0))
        if not ctx.symbolic:
            ctx.ensure("degrees-std", abs(o.latitude_std * 111111 - o.northings_std) < 0.02 * o.northings_std + 0.01, "%r %r" % (o.latitude_std, o.northings_std))
    else:
        o.from_ros(NS(header=h, N=n, E=e, D=d), "evologics_ros_sync/EvologicsUsbllong", None)
    lat, lon = m2l(*ref, e, n)
    ctx.ensure_eq("northings", o.northings, n)
    ctx.ensure_eq("eastings", o.eastings, e)
    ctx.ensure_eq("depth", o.depth, d)
    ctx.ensure_eq("latitude", o.latitude, lat, tol=1e-9)
    ctx.ensure_eq("longitude", o.longitude, lon, tol=1e-9)
    T(ctx, o, t)


# ------------------------------------------------------------------ log files
def parse_file(ctx, mod, fn, category, text, fname, setup, cat_entry=None, yaw=0.0):
    import pathlib

    with Dataset() as d:
        (d.raw[0] / "a").mkdir()
        (d.raw[0] / "a" / fname).write_text(text)
        out = pathlib.Path(d.root).resolve() / "processed" / "2020" / d.names[0] / "nav"
        out.mkdir(parents=True)
        M = repo("oplab.mission").Mission(d.raw[0] / "mission.yaml")
        V = repo("oplab.vehicle").Vehicle(d.raw[0] / "vehicle.yaml")
        V.dvl.yaw = yaw
        for e in (M.velocity, M.orientation, M.depth, M.altitude, M.usbl):
            e.filename, e.filepath = fname, "a"
        setup(M)
        return getattr(repo(mod), fn)(M, V, category, "oplab", out)


def clock_at(start, k, step=1):
    """the calendar time k steps after `start`"""
    import calendar, time

    return tuple(time.gmtime(calendar.timegm(tuple(start) + (0,) * (6 - len(start))) + int(k * step)))[:6]


def zone(ctx):
    return ctx.choice("tz", [0, 9, -3.5]), ctx.real("timeoffset", lo=-100, hi=100)


@REG.harness(["auv_nav.parsers.parse_rdi.parse_rdi"], kind="bounded", bound="logs of two packets, symbolic values, three time zones")
def rdi_log(ctx):
    silence(ctx)
    import calendar

    tz, off = zone(ctx)
    yaw = ctx.real("yaw", lo=-180, hi=180)
    cat = ctx.choice("category", ["velocity", "orientation", "altitude"])
    times = [(2020, 1, 2, 3, 4, 5, 25), (2020, 1, 2, 3, 4, 6, 99)]
    times += [(*clock_at((2020, 1, 2, 3, 4, 7), k), (k * 37) % 100) for k in range(ctx.size("more", [0], many=(30, 130)))]
    lines, want = [], []
    for k, (y, mo, da, h, mi, s, cs) in enumerate(times):
        r = [ctx.real("%s%d" % (n, k), lo=-40, hi=40) for n in ("pitch", "roll")] + [ctx.real("heading%d" % k, lo=0, hi=360)]
        v = [ctx.real("%s%d" % (n, k), lo=-4000, hi=4000) for n in ("vx", "vy", "vz", "err")]
        al = ctx.real("alt%d" % k, lo=0, hi=50)
        ok = ctx.choice("lock%d" % k, ["A", "V"])
        lines += [":TS,%02d%02d%02d%02d%02d%02d%02d,35.0,+10.0,0.0,1500.0,0" % (y % 100, mo, da, h, mi, s, cs), ":SA,%s,%s,%s" % tuple(cell(ctx, x) for x in r), ":BI,%s,%s,%s,%s,%s" % (*[cell(ctx, x) for x in v], ok), ":BD,0,0,0,%s,0" % cell(ctx, al)]
        want.append((calendar.timegm((y, mo, da, h, mi, s)) + cs / 100 - tz * 3600 + off, r, v, al, ok))

    def setup(M):
        for n in ("velocity", "orientation", "altitude"):
            e = getattr(M, n)
            # the other sensors have other clocks
            e.timezone, e.timeoffset_s = (tz, off) if n == cat else (5, 77)
            e.timezone_s = e.timezone * 3600
            e.offset_s = e.timezone_s + e.timeoffset_s
        M.altitude.std_factor = 0.02

    got = parse_file(ctx, "auv_nav.parsers.parse_rdi", "parse_rdi", cat, "\n".join(lines) + "\n", "x.pd0", setup, yaw=yaw if cat == "velocity" else 0.0)
    if cat != "orientation":
        want = [w for w in want if w[4] == "A"]
    ctx.ensure("one-per-packet-with-lock", len(got) == len(want), "%d of %d" % (len(got), len(want)))
    for k, (g, (t, r, v, al, ok)) in enumerate(zip(got, want)):
        ctx.ensure_eq("time-%d" % k, g["epoch_timestamp"], t, tol=1e-6)
        D = g["data"]
        if cat == "orientation":
            for a, b in ((D[0]["heading"], r[2]), (D[1]["roll"], r[1]), (D[2]["pitch"], r[0])):
                ctx.ensure_eq("degrees-%d" % k, a, b, scale=360)
        elif cat == "altitude":
            ctx.ensure_eq("altitude-time-%d" % k, g["epoch_timestamp_dvl"], t, tol=1e-6)
            ctx.ensure_eq("sound-velocity-%d" % k, D[1]["sound_velocity"], 1500)
            ctx.ensure_eq("altitude-%d" % k, D[0]["altitude"], al)
            ctx.ensure_eq("altitude-std-%d" % k, D[0]["altitude_std"], al * 0.02)
        else:
            ctx.ensure_eq("dvl-time-%d" % k, g["epoch_timestamp_dvl"], t, tol=1e-6)
            x, y = rotz(ctx, yaw, v[0] / 1000, v[1] / 1000)
            for n, q, w in zip("xyz", range(3), (x, y, v[2] / 1000)):
                ctx.ensure_eq("%s-%d" % (n, k), D[q][n + "_velocity"], w, scale=10)
                ctx.ensure_eq("%s-std-%d" % (n, k), D[q][n + "_velocity_std"], abs(v[3]) / 1000, scale=10)


@REG.harness(["auv_nav.parsers.parse_usbl_dump.parse_usbl_dump"], kind="bounded", bound="logs of three lines (one of another beacon), symbolic minutes, depths and ranges, four hemispheres, three time zones")
def usbl_dump_log(ctx):
    silence(ctx)
    import calendar

    m2l, l2m = geodesy(ctx)
    tz, off = zone(ctx)
    ref = (10.5, 20.25)
    ns, ew = ctx.choice("ns", "NS"), ctx.choice("ew", "EW")
    L, W = [], []
    labels = ["A1", "A12", "A1"] + ["A12" if k % 5 == 2 else "A1" for k in range(ctx.size("more", [0], many=(30, 130)))]
    for k, lab in enumerate(labels):
        when = (2019, 3, k + 1, 23, 10 + k, 9) if k < 3 else clock_at((2019, 3, 3, 23, 30, 9), k, 60)
        la, lo = ctx.real("latmin%d" % k, lo=0, hi=59.9), ctx.real("lonmin%d" % k, lo=0, hi=59.9)
        d, r = ctx.real("depth%d" % k, lo=0, hi=900), ctx.real("range%d" % k, lo=0, hi=900)
        L.append("2019-03-%02d,%02d:%02d:09,%s,x,x,x,35-%s %s,139-%s %s,depth=%s,lat=1.0,brg=2.0,dist=%s" % (*when[2:5], lab, cell(ctx, la), ns, cell(ctx, lo), ew, cell(ctx, d), cell(ctx, r)))
        if lab == "A1":
            W.append((calendar.timegm(when) - tz * 3600 + off, (35 + la / 60) * (1 if ns == "N" else -1), (139 + lo / 60) * (1 if ew == "E" else -1), d, r))

    if ctx.flag("line_without_fix"):
        L.insert(1, "2019-03-04,23:15:09,A1,x,x,x,,,depth=,lat=,brg=,dist=")

    def setup(M):
        M.usbl.timezone, M.usbl.timeoffset_s, M.usbl.label, M.usbl.std_factor, M.usbl.std_offset = tz, off, "A1", 0.05, 0.5

    got = parse_file(ctx, "auv_nav.parsers.parse_usbl_dump", "parse_usbl_dump", "usbl", "\n".join(L) + "\n", "u.csv", setup)
    ctx.ensure("one-per-line-of-the-beacon", len(got) == len(W), str(len(got)))
    usbl_records(ctx, got, W, ref, l2m, m2l)


def usbl_records(ctx, got, W, ref, l2m, m2l, fac=0.05, off=0.5):
    for k, (g, (t, lat, lon, d, r)) in enumerate(zip(got, W)):
        D = g["data_target"]
        dist, brg = l2m(lat, lon, *ref)
        b = ctx.rad(brg)
        ctx.ensure_eq("time-%d" % k, g["epoch_timestamp"], t, tol=1e-6)
        ctx.ensure_eq("latitude-%d" % k, D[0]["latitude"], lat, tol=1e-9)
        ctx.ensure_eq("longitude-%d" % k, D[1]["longitude"], lon, tol=1e-9)
        ctx.ensure_eq("northings-%d" % k, D[2]["northings"], ctx.cos(b) * dist, tol=1e-3)
        ctx.ensure_eq("eastings-%d" % k, D[3]["eastings"], ctx.sin(b) * dist, tol=1e-3)
        ctx.ensure_eq("depth-%d" % k, D[4]["depth"], d)
        ctx.ensure_eq("range-%d" % k, D[5]["distance_to_ship"], r, scale=1000)
        for q, n in ((2, "northings"), (3, "eastings"), (4, "depth")):
            ctx.ensure_eq("%s-std-%d" % (n, k), D[q][n + "_std"], fac * r + off, scale=1000)
        ctx.ensure("degrees-std-not-negative-%d" % k, ctx.And(D[0]["latitude_std"] >= 0, D[1]["longitude_std"] >= 0))
        # the degrees of that many metres north and east, the same in both hemispheres
        q = fac * r + off
        if not ctx.symbolic:
            la, lo = m2l(abs(lat), abs(lon), q, q)
            ctx.ensure("latitude-std-%d" % k, abs(D[0]["latitude_std"] - abs(la - abs(lat))) < 0.02 * abs(la - abs(lat)), "%r" % D[0])
            ctx.ensure("longitude-std-%d" % k, abs(D[1]["longitude_std"] - abs(lo - abs(lon))) < 0.02 * abs(lo - abs(lon)), "%r" % D[1])


def ptsag(ctx, t, who, lat, ns, lon, ew, d, F="F", D="1"):
    h, mi, s, ms = t
    return "<< $PTSAG,#1,%02d%02d%02d.%03d,05,11,2019,%s,%s,%s,%s,%s,%s,%s,%s,0.0,1*00" % (h, mi, s, ms, who, lat, ns, lon, ew, F, d, D)


@REG.harness(["auv_nav.parsers.parse_gaps.parse_gaps"], kind="bounded", bound="logs of one fix between two ship records (or one of another beacon, without position or without depth), symbolic minutes, depth and headings, four hemispheres", samples=40)
def gaps_log(ctx):
    silence(ctx)
    import calendar

    m2l, l2m = geodesy(ctx)
    tz, off = zone(ctx)
    ns, ew = ctx.choice("ns", "NS"), ctx.choice("ew", "EW")
    sn, se = (1 if ns == "N" else -1), (1 if ew == "E" else -1)
    mi = [ctx.real("min%d" % k, lo=0, hi=59.9) for k in range(6)]
    if not ctx.symbolic:
        mi = [round(x, 4) for x in mi]
    c = [str(x) if ctx.symbolic else "%07.4f" % x for x in mi]
    d = ctx.real("depth", lo=0, hi=900)
    h0, h1 = ctx.real("heading0", lo=0, hi=360), ctx.real("heading1", lo=0, hi=360)
    ts = [(9, 8, 1, 0), (9, 8, 2, 250), (9, 8, 4, 0)]
    fix = ctx.choice("fix", ["good", "other", "no-position", "no-depth"])
    cat = ctx.choice("category", ["usbl", "depth"])
    L = ["$HEHDT,%s,T*00" % cell(ctx, h0), ptsag(ctx, ts[0], "0", "35" + c[0], ns, "139" + c[1], ew, "0.0"), ptsag(ctx, ts[1], "5" if fix == "other" else "4", "35" + c[2], ns, "139" + c[3], ew, cell(ctx, d), "V" if fix == "no-position" else "F", "0" if fix == "no-depth" else "1"), ptsag(ctx, ts[2], "0", "35" + c[4], ns, "139" + c[5], ew, "0.0"), "$HEHDT,%s,T*00" % cell(ctx, h1)]

    def setup(M):
        M.usbl.timezone, M.usbl.timeoffset_s, M.usbl.label, M.usbl.std_factor, M.usbl.std_offset = tz, off, 4, 0.05, 0.5

    got = parse_file(ctx, "auv_nav.parsers.parse_gaps", "parse_gaps", cat, "\n".join(L) + "\n", "g.dat", setup)
    ctx.ensure("one-per-complete-fix-of-the-beacon", len(got) == (1 if fix == "good" else 0), "%s: %d" % (fix, len(got)))
    if fix != "good" or len(got) != 1:
        return
    lat, lon = sn * (35 + mi[2] / 60), se * (139 + mi[3] / 60)
    sla = lin(1.25, 0, 3, sn * (35 + mi[0] / 60), sn * (35 + mi[4] / 60))
    slo = lin(1.25, 0, 3, se * (139 + mi[1] / 60), se * (139 + mi[5] / 60))
    g = got[0]
    t = calendar.timegm((2019, 11, 5, *ts[1][:3])) + ts[1][3] / 1000 - tz * 3600 + off
    if cat == "depth":
        ctx.ensure_eq("time", g["epoch_timestamp"], t, tol=1e-6)
        ctx.ensure_eq("depth-time", g["epoch_timestamp_depth"], t, tol=1e-6)
        ctx.ensure_eq("depth", g["data"][0]["depth"], d)
        ctx.ensure("depth-std-not-negative", g["data"][0]["depth_std"] >= 0)
        return
    Sh = g["data_ship"]
    ctx.ensure_eq("ship-latitude", Sh[0]["latitude"], sla, tol=1e-9)
    ctx.ensure_eq("ship-longitude", Sh[0]["longitude"], slo, tol=1e-9)
    dist, brg = l2m(Sh[0]["latitude"], Sh[0]["longitude"], 10.5, 20.25)
    ctx.ensure_eq("ship-northings", Sh[1]["northings"], ctx.cos(ctx.rad(brg)) * dist, tol=1e-3)
    ctx.ensure_eq("ship-eastings", Sh[1]["eastings"], ctx.sin(ctx.rad(brg)) * dist, tol=1e-3)
    if abs(abs(h1 - h0) - 180) > 1e-6:
        congruent_360(ctx, "ship-heading", Sh[2]["heading"], h0 + 1.25 * shortest(ctx, h0, h1) / 3)
    hd, _b = l2m(lat, lon, Sh[0]["latitude"], Sh[0]["longitude"])
    usbl_records(ctx, got, [(t, lat, lon, d, ctx.sqrt(hd * hd + d * d))], (10.5, 20.25), l2m, m2l)


@REG.harness(["auv_nav.parsers.parse_ae2000.parse_ae2000"], kind="bounded", bound="logs of two rows, symbolic values, three fractions of a second")
def ae2000_log(ctx):
    silence(ctx)
    import calendar

    off = ctx.real("timeoffset", lo=-100, hi=100)
    cat = ctx.choice("category", ["velocity", "orientation", "depth", "altitude"])
    fr = ctx.choice("fraction", ["500", "25", "007"])
    n = 2 + ctx.size("more", [0], many=(60, 130))
    v = [[ctx.real("v%d_%d" % (k, j), lo=0.5, hi=300) for j in range(3)] for k in range(n)]
    if cat == "depth":
        for k in range(1, n):
            ctx.assume(v[k - 1][0] != v[k][0])
    head = {"velocity": "dvl_surgeVelBottom,dvl_swayVelBottom,dvl_heaveVelBottom,dvl_validBottom", "orientation": "roll,pitch,yaw", "depth": "Depth,q,r", "altitude": "dvl_rangeBottom,q,r,dvl_validBottom"}[cat]
    T0 = [(2019, 3, 1, 5, 6, 7), (2019, 3, 1, 23, 59, 59)] + [clock_at((2019, 3, 2, 0, 0, 3), k) for k in range(n - 2)]
    lock = [ctx.choice("lock%d" % k, [1, 0]) for k in range(n)]
    txt = "no,time,%s\n" % head + "".join("%d,%d/%02d/%02d %02d:%02d:%02d.%s,%s%s\n" % (k, *T0[k], fr, ",".join(cell(ctx, x) for x in v[k]), ",%d" % lock[k] if "valid" in head else "") for k in range(n))
    fname = {"velocity": "dvl190301050607.csv", "altitude": "dvl190301050607.csv", "orientation": "quadrans190301050607.csv", "depth": "pos190301050607.csv"}[cat]

    def setup(M):
        M.velocity.timezone, M.velocity.timeoffset_s = 0, off
        for e in (M.velocity, M.orientation, M.depth, M.altitude):
            e.std_factor, e.std_offset = 0.02, 0.1

    got = parse_file(ctx, "auv_nav.parsers.parse_ae2000", "parse_ae2000", cat, txt, fname, setup)
    rows = [k for k in range(n) if lock[k] or "valid" not in head]
    ctx.ensure("one-per-row-with-lock", len(got) == len(rows), str(len(got)))
    for g, k in zip(got, rows):
        D = g["data"]
        ctx.ensure_eq("time-%d" % k, g["epoch_timestamp"], calendar.timegm(T0[k]) + float("0." + fr) + off, tol=1e-6)
        if cat == "velocity":
            names, w = ["x_velocity", "y_velocity", "z_velocity"], [x / 1000 for x in v[k]]
        elif cat == "orientation":
            names, w = ["heading", "roll", "pitch"], [v[k][2], v[k][0], v[k][1]]
        else:
            names, w = [cat], [v[k][0]]
        for q, (n, x) in enumerate(zip(names, w)):
            ctx.ensure_eq("%s-%d" % (n, k), D[q][n], x, scale=300)
            ctx.ensure_eq("%s-std-%d" % (n, k), D[q][n + "_std"], abs(x) * 0.02 + 0.1, scale=300)


@REG.harness(["auv_nav.parsers.parse_NOC_nmea.parse_NOC_nmea", S + ".Usbl.from_nmea"], kind="sample", bound="random fixes through pynmea2", samples=60)
def nmea_log(ctx):
    silence(ctx)
    import calendar

    m2l, l2m = geodesy(ctx)
    tz, off = zone(ctx)
    ns, ew = ctx.choice("ns", "NS"), ctx.choice("ew", "EW")
    la, lo = round(ctx.real("lat", lo=0, hi=59.9), 4), round(ctx.real("lon", lo=0, hi=59.9), 4)
    d = round(ctx.real("depth", lo=0, hi=900), 2)
    fr = ctx.choice("fraction", ["00", "250", "07", "5"])
    hh, mm, ss = ctx.choice("clock", [(0, 0, 0), (23, 59, 59), (12, 3, 4)])
    L = []
    ident7 = [(3, hh, mm, ss), (7, hh, mm, ss)] + [(3 if k % 4 == 1 else 7, *clock_at((2019, 11, 5, 1, 2, 3), k)[3:6]) for k in range(ctx.size("more", [0], many=(40, 130)))]
    for ident, hh, mm, ss in ident7:
        s = "GPGGA,%02d%02d%02d.%s,12%07.4f,%s,034%07.4f,%s,2,0,0,%.2f,M,0.0,M,0.0,%04d" % (hh, mm, ss, fr, la, ns, lo, ew, -d, ident)
        x = 0
        for ch in s:
            x ^= ord(ch)
        L.append("05/11/2019 10:00:00\t$%s*%02X\n" % (s, x))

    def setup(M):
        M.usbl.timezone, M.usbl.timeoffset_s, M.usbl.label, M.usbl.std_factor, M.usbl.std_offset = tz, off, 7, 0.05, 0.5

    got = parse_file(ctx, "auv_nav.parsers.parse_NOC_nmea", "parse_NOC_nmea", "usbl", "".join(L), "n.txt", setup)
    ctx.ensure("one-fix-of-the-beacon", len(got) == len([x for x in ident7 if x[0] == 7]), str(len(got)))
    for g, x in zip(got, [x for x in ident7 if x[0] == 7]):
        ctx.ensure_eq("time-of-each", g["epoch_timestamp"], calendar.timegm((2019, 11, 5, *x[1:])) + float("0." + fr) - tz * 3600 + off, tol=1e-6)
    _, hh, mm, ss = ident7[1]
    lat, lon = (1 if ns == "N" else -1) * (12 + la / 60), (1 if ew == "E" else -1) * (34 + lo / 60)
    D = got[0]["data_target"]
    dist, brg = l2m(lat, lon, 10.5, 20.25)
    ctx.ensure_eq("time", got[0]["epoch_timestamp"], calendar.timegm((2019, 11, 5, hh, mm, ss)) + float("0." + fr) - tz * 3600 + off, tol=1e-6)
    ctx.ensure_eq("latitude", D[0]["latitude"], lat, tol=1e-9)
    ctx.ensure_eq("longitude", D[1]["longitude"], lon, tol=1e-9)
    ctx.ensure_eq("northings", D[2]["northings"], ctx.cos(ctx.rad(brg)) * dist, tol=1e-3)
    ctx.ensure_eq("eastings", D[3]["eastings"], ctx.sin(ctx.rad(brg)) * dist, tol=1e-3)
    ctx.ensure_eq("depth", D[4]["depth"], d)


# ------------------------------------------------------------------ whole logs, record by record
def own_noise(ctx, M, entries="velocity orientation depth altitude usbl"):
    """every sensor has a noise model of its own"""
    out = {}
    for k, n in enumerate(entries.split()):
        e = getattr(M, n)
        e.std_factor, e.std_offset = ctx.real("factor_" + n, lo=0, hi=1), ctx.real("offset_" + n, lo=0, hi=1)
        out[n] = (e.std_factor, e.std_offset)
    return out


def check_velocity(ctx, tag, g, t, v, fac, off, tdvl=None):
    ctx.ensure("category" + tag, g["category"] == "velocity" and g["frame"] == "body", str((g["category"], g["frame"])))
    ctx.ensure_eq("time" + tag, g["epoch_timestamp"], t, tol=1e-6)
    ctx.ensure_eq("dvl-time" + tag, g["epoch_timestamp_dvl"], t if tdvl is None else tdvl, tol=1e-6)
    for n, q, w in zip("xyz", range(3), v):
        ctx.ensure_eq(n + tag, g["data"][q][n + "_velocity"], w, scale=10)
        ctx.ensure_eq(n + "-std" + tag, g["data"][q][n + "_velocity_std"], fac * abs(w) + off, scale=10)


def check_attitude(ctx, tag, g, t, rpy, std):
    ctx.ensure("category" + tag, g["category"] == "orientation", g["category"])
    ctx.ensure_eq("time" + tag, g["epoch_timestamp"], t, tol=1e-6)
    D = g["data"]
    for n, a, b, s, w in (("heading", D[0]["heading"], rpy[2], D[0]["heading_std"], std[2]), ("roll", D[1]["roll"], rpy[0], D[1]["roll_std"], std[0]), ("pitch", D[2]["pitch"], rpy[1], D[2]["pitch_std"], std[1])):
        ctx.ensure_eq(n + tag, a, b, scale=360)
        ctx.ensure_eq(n + "-std" + tag, s, w, scale=10)


def check_one(ctx, tag, g, cat, t, x, s, tother=None):
    ctx.ensure("category" + tag, g["category"] == cat, g["category"])
    ctx.ensure_eq("time" + tag, g["epoch_timestamp"], t, tol=1e-6)
    ctx.ensure_eq("sensor-time" + tag, g["epoch_timestamp_depth" if cat == "depth" else "epoch_timestamp_dvl"], t if tother is None else tother, tol=1e-6)
    ctx.ensure_eq(cat + tag, g["data"][0][cat], x, scale=50)
    ctx.ensure_eq(cat + "-std" + tag, g["data"][0][cat + "_std"], s, scale=50)


def check_fix(ctx, tag, g, t, lat, lon, d, l2m, noise, ref=(10.5, 20.25)):
    ctx.ensure("category" + tag, g["category"] == "usbl", g["category"])
    ctx.ensure_eq("time" + tag, g["epoch_timestamp"], t, tol=1e-6)
    D = g["data_target"]
    ctx.ensure_eq("latitude" + tag, D[0]["latitude"], lat)
    ctx.ensure_eq("longitude" + tag, D[1]["longitude"], lon)
    dist, brg = l2m(lat, lon, *ref)
    ctx.ensure_eq("northings" + tag, D[2]["northings"], ctx.cos(ctx.rad(brg)) * dist, scale=100)
    ctx.ensure_eq("eastings" + tag, D[3]["eastings"], ctx.sin(ctx.rad(brg)) * dist, scale=100)
    ctx.ensure_eq("depth" + tag, D[4]["depth"], d, scale=50)
    fac, off = noise
    m = fac * abs(d) + off
    for a, n in ((2, "northings"), (3, "eastings"), (4, "depth")):
        ctx.ensure_eq("%s-std%s" % (n, tag), D[a][n + "_std"], m, scale=50)
    ctx.ensure_eq("latitude-std" + tag, D[0]["latitude_std"], m / 111111, scale=1)
    ctx.ensure_eq("longitude-std" + tag, D[1]["longitude_std"] * ctx.cos(ctx.rad(lat)), m / 111111, scale=1)


def phins_line(body):
    s = 0
    for c in body[1:]:
        s ^= ord(c)
    return body + "*" + hex(s)[2:].zfill(2).upper()


@REG.harness(["auv_nav.parsers.parse_phins.parse_phins", "auv_nav.parsers.parse_phins.PhinsParser.parse", "auv_nav.parsers.parse_phins.PhinsParser.process_line", "auv_nav.parsers.parse_phins.PhinsParser.line_is_valid", "auv_nav.parsers.parse_phins.PhinsTimestamp.epoch_timestamp_from_phins"], kind="bounded", bound="logs of two measurement cycles, one of which has a broken line or a leap second, symbolic values, three time zones", samples=30)
def phins_log(ctx):
    silence(ctx)
    import calendar

    tz, off = zone(ctx)
    yaw = ctx.real("yaw", lo=-180, hi=180)
    cat = ctx.choice("category", ["velocity", "orientation", "depth", "altitude"])
    fault = ctx.choice("fault", ["none", "checksum", "leap"] + (["heading"] if cat == "orientation" else []))
    bad = ctx.choice("faulty_cycle", [0, 1]) if fault != "none" else None
    c = lambda x: cell(ctx, x)
    L, W = [], []
    for k in range(2 + ctx.size("more", [0], many=(20, 40))):
        hd, r, p = ctx.real("heading%d" % k, lo=0, hi=360), ctx.real("roll%d" % k, lo=-40, hi=40), ctx.real("pitch%d" % k, lo=-40, hi=40)
        sd = [ctx.real("sd%d%d" % (k, i), lo=0, hi=5) for i in range(3)]
        v = [ctx.real("v%s%d" % (a, k), lo=-4, hi=4) for a in "xyz"]
        iv = [ctx.real("iv%s%d" % (a, k), lo=-4, hi=4) for a in "xyz"]
        d, a = ctx.real("depth%d" % k, lo=-5, hi=500), ctx.real("altitude%d" % k, lo=0, hi=50)
        leap = fault == "leap" and k == bad
        hms = "23%02d%s" % (10 + k, "60.257" if leap else "07.257")
        ls = ["$PIXSE,TIME__,%s000" % hms]
        if cat == "orientation":
            ls += ["$PIXSE,STDHRP,%s,%s,%s" % tuple(map(c, sd)), "$HEHDT,%s,T" % c(hd), "$PIXSE,ATITUD,%s,%s" % (c(r), c(p))]
        else:
            ls += ["$HEHDT,%s,T" % c(hd), "$PIXSE,ATITUD,%s,%s" % (c(r), c(p))]
        ls += ["$PIXSE,STDSPD,%s,%s,%s" % tuple(map(c, sd)), "$PIXSE,SPEED_,%s,%s,%s" % tuple(map(c, iv)), "$PIXSE,UTMWGS,N,54,1.0,2.0,3.0",
               "$PIXSE,LOGIN_,%s,%s,%s,0.0,23%02d06.125000" % (*map(c, v), 10 + k), "$PIXSE,LOGDVL,1500.0,1.0,%s" % c(a), "$PIXSE,DEPIN_,%s,23%02d05.5080" % (c(d), 10 + k)]
        ls = [phins_line(x) for x in ls]
        if fault in ("checksum", "heading") and k == bad:
            hit = {"velocity": "LOGIN_", "orientation": "ATITUD" if fault == "checksum" else "HEHDT", "depth": "DEPIN_", "altitude": "LOGDVL"}[cat]
            ls = [x[:-1] + ("0" if x[-1] != "0" else "1") if hit in x else x for x in ls]
        L += ls
        at = lambda s: calendar.timegm((2019, 2, 28, 23, 10 + k, 0)) + s - tz * 3600 + off
        W.append((None if leap else at(7.257), at(6.125), at(5.508), hd, r, p, sd, v, iv, d, a, not (fault in ("checksum", "heading") and k == bad)))
    noise = {}

    def setup(M):
        noise.update(own_noise(ctx, M))
        M.velocity.timezone, M.velocity.timeoffset_s = tz, off

    got = parse_file(ctx, "auv_nav.parsers.parse_phins", "parse_phins", cat, "\n".join(["garbage", ""] + L) + "\n", "20190228_phins.txt", setup, yaw=yaw)
    want = []
    for t, tv, td, hd, r, p, sd, v, iv, d, a, whole in W:
        if t is None:
            continue
        if cat == "velocity":
            want.append(("inertial", t, iv, sd))
            if whole:
                want.append(("body", t, tv, v))
        elif whole:
            want.append({"orientation": ("att", t, hd, r, p, sd), "depth": ("depth", t, td, d), "altitude": ("alt", t, tv, a)}[cat])
    ctx.ensure("one-per-whole-record", len(got) == len(want), "%d of %d" % (len(got), len(want)))
    for k, (g, w) in enumerate(zip(got, want)):
        tag = "-%d" % k
        if w[0] == "inertial":
            ctx.ensure("frame" + tag, g["frame"] == "inertial")
            ctx.ensure_eq("time" + tag, g["epoch_timestamp"], w[1], tol=1e-6)
            for i, (n, x, s) in enumerate((("north", w[2][1], w[3][1]), ("east", w[2][0], w[3][0]), ("down", -w[2][2], w[3][2]))):
                ctx.ensure_eq(n + tag, g["data"][i][n + "_velocity"], x, scale=10)
                ctx.ensure_eq(n + "-std" + tag, g["data"][i][n + "_velocity_std"], s, scale=10)
        elif w[0] == "body":
            x, y = rotz(ctx, yaw, w[3][0], w[3][1])
            check_velocity(ctx, tag, g, w[1], (x, -y, -w[3][2]), *noise["velocity"], tdvl=w[2])
        elif w[0] == "att":
            x, y = rotz(ctx, yaw, -w[3], -w[4])
            D = g["data"]
            ctx.ensure_eq("time" + tag, g["epoch_timestamp"], w[1], tol=1e-6)
            ctx.ensure_eq("roll" + tag, D[1]["roll"], x, scale=50)
            ctx.ensure_eq("pitch" + tag, D[2]["pitch"], y, scale=50)
            ctx.ensure_eq("heading" + tag, D[0]["heading"], w[2], scale=360)
            ctx.ensure_eq("heading-std" + tag, D[0]["heading_std"], w[5][0], scale=10)
            ctx.ensure("std-not-negative" + tag, ctx.And(D[1]["roll_std"] >= 0, D[2]["pitch_std"] >= 0))
            ctx.ensure_eq("std" + tag, D[1]["roll_std"] ** 2 + D[2]["pitch_std"] ** 2, w[5][1] ** 2 + w[5][2] ** 2, scale=50)
        elif w[0] == "depth":
            check_one(ctx, tag, g, "depth", w[1], w[3], abs(w[3]) * noise["depth"][0], w[2])
        else:
            check_one(ctx, tag, g, "altitude", w[1], w[3], w[3] * noise["altitude"][0], w[2])


def _rows(ctx, names, n, lo=-40, hi=40, ranges={}):
    out = [{c: ctx.real("%s%d" % (c, k), lo=ranges.get(c, (lo, hi))[0], hi=ranges.get(c, (lo, hi))[1]) for c in names} for k in range(n)]
    for r in out:
        for c in ("lat", "Lat_flt", "GPS_latitude"):
            if c in r:
                not_a_pole(ctx, r[c])
    return out


def _three_rows(ctx):
    """three rows in time order; two may have the same time (the later one counts); any one cell set may be missing"""
    t = [ctx.real("t%d" % k, lo=1, hi=2e9) for k in range(3)]
    more = ctx.size("more", [0], many=(30, 130))
    order = ctx.choice("times", ["increasing", "repeated"])
    ctx.assume(t[0] + 0.01 <= t[1])
    if order == "increasing":
        ctx.assume(t[1] + 0.01 <= t[2])
    else:
        t[2] = t[1]
    t += [t[2] + 0.75 * (k + 1) for k in range(more)]
    gone = ctx.choice("missing", [None, 0, 1, 2])
    return t, gone


def _kept(t, ok):
    """rows that count: of rows with the same time the last one"""
    out = []
    for k in range(len(t)):
        if ok[k]:
            if out and t[out[-1]] is t[k]:
                out[-1] = k
            else:
                out.append(k)
    return out


_AR = {"AUV_depth": (-3, 500), "AUV_altitude": (0, 50), "GPS_latitude": (-80, 80), "GPS_longitude": (-179, 179), "AUV_heading": (0, 6.28), "AUV_roll": (-0.7, 0.7), "AUV_pitch": (-0.7, 0.7)}


@REG.harness(["auv_nav.parsers.parse_alr.parse_alr"], kind="bounded", bound="logs of three rows in time order, two possibly of the same time, any one of them incomplete or without bottom lock; both file formats; symbolic values", samples=40)
def alr_log(ctx):
    silence(ctx)
    tables(ctx)
    m2l, l2m = geodesy(ctx)
    cat = ctx.choice("category", ["velocity", "orientation", "depth", "altitude", "usbl"])
    fmt = ctx.choice("format", ["corrected_timestamp", "timestamp", "mat"])
    t, gone = _three_rows(ctx)
    lock = ctx.choice("no_lock", [None, 0, 1]) if cat in ("velocity", "altitude") else None
    cols = ["DVL_down_BT_x", "DVL_down_BT_y", "DVL_down_BT_z", "AUV_roll", "AUV_pitch", "AUV_heading", "AUV_depth", "AUV_altitude", "GPS_latitude", "GPS_longitude"]
    R = _rows(ctx, cols, len(t), -4, 4, _AR)
    first = {"velocity": "DVL_down_BT_y", "orientation": "AUV_pitch", "depth": "AUV_depth", "altitude": "AUV_altitude", "usbl": "GPS_longitude"}[cat]
    key = "DVL_down_BT_is_good" if fmt == "mat" else "DVL_down_BT_valid"
    val = lambda k, c: float("nan") if gone == k and c == first else R[k][c]
    ok = [gone != k and lock != k for k in range(len(t))]
    if fmt == "mat":
        data = {c: [val(k, c) for k in range(len(t))] for c in cols}
        data["epoch_timestamp"], data[key] = list(t), [0 if lock == k else 1 for k in range(len(t))]
        repo("auv_nav.parsers.parse_alr")
        replace_everywhere(ctx, "auv_nav.parsers.load_matlab_file", "loadmat", lambda f: {"MissionData": data})
        text, name = "", "x.mat"
    else:
        extra = ["timestamp"] if fmt == "corrected_timestamp" else []
        text = ",".join([fmt] + extra + [key] + cols) + "\n"
        for k in range(len(t)):
            text += ",".join([cell(ctx, t[k])] + ["7.0" for _ in extra] + ["0" if lock == k else "1"] + ["" if gone == k and c == first else cell(ctx, R[k][c]) for c in cols]) + "\n"
        name = "x.csv"
    noise = {}
    got = parse_file(ctx, "auv_nav.parsers.parse_alr", "parse_alr", cat, text, name, lambda M: noise.update(own_noise(ctx, M)))
    keep = _kept(t, ok)
    ctx.ensure("one-per-complete-row", len(got) == len(keep), "%d of %d" % (len(got), len(keep)))
    for i, (g, k) in enumerate(zip(got, keep)):
        tag, r = "-%d" % i, R[k]
        if cat == "velocity":
            check_velocity(ctx, tag, g, t[k], [r["DVL_down_BT_" + a] for a in "xyz"], *noise["velocity"])
        elif cat == "orientation":
            check_attitude(ctx, tag, g, t[k], [ctx.deg(r["AUV_" + a]) for a in ("roll", "pitch", "heading")], [noise["orientation"][1]] * 3)
        elif cat == "depth":
            check_one(ctx, tag, g, "depth", t[k], r["AUV_depth"], abs(r["AUV_depth"]) * noise["depth"][0])
        elif cat == "altitude":
            check_one(ctx, tag, g, "altitude", t[k], r["AUV_altitude"], r["AUV_altitude"] * noise["altitude"][0])
        else:
            check_fix(ctx, tag, g, t[k], r["GPS_latitude"], r["GPS_longitude"], r["AUV_depth"], l2m, noise["usbl"])


@REG.harness(["auv_nav.parsers.parse_autosub.parse_autosub"], kind="bounded", bound="logs of three rows in time order, two possibly of the same time; symbolic values", samples=30)
def autosub_log(ctx):
    silence(ctx)
    cat = ctx.choice("category", ["velocity", "orientation", "depth", "altitude"])
    times = {}
    where = {"velocity": "ADCPbin00", "orientation": "INSAttitude", "depth": "DepCtlNode", "altitude": "ADCPLog_1"}
    cols = {"ADCPbin00": ["Vnorth0", "Veast0", "Vdown0", "Verr0"], "INSAttitude": ["Roll", "Pitch", "Heading"], "DepCtlNode": ["DepCtldepth"], "ADCPLog_1": ["ADCPAvAlt"]}
    t, _ = [ctx.real("t%d" % k, lo=1, hi=2e9) for k in range(3)], None
    rep = ctx.choice("times", ["increasing", "repeated"])
    ctx.assume(t[0] + 0.01 <= t[1])
    if rep == "increasing":
        ctx.assume(t[1] + 0.01 <= t[2])
    else:
        t[2] = t[1]
    t += [t[2] + 0.75 * (k + 1) for k in range(ctx.size("more", [0], many=(30, 130)))]
    data = {}
    rng = {"Heading": (0, 6.28), "Roll": (-0.7, 0.7), "Pitch": (-0.7, 0.7), "ADCPAvAlt": (0, 50)}
    for s, cs in cols.items():
        data[s] = {c: [ctx.real("%s%d" % (c, k), lo=rng.get(c, (-4000, 4000))[0], hi=rng.get(c, (-4000, 4000))[1]) for k in range(len(t))] for c in cs}
        data[s]["eTime"] = list(t) if s == where[cat] else [5.0, 6.0]
    repo("auv_nav.parsers.parse_autosub")
    replace_everywhere(ctx, "auv_nav.parsers.load_matlab_file", "loadmat", lambda f: {"missionData": data})
    noise = {}
    got = parse_file(ctx, "auv_nav.parsers.parse_autosub", "parse_autosub", cat, "", "x.mat", lambda M: noise.update(own_noise(ctx, M)))
    keep = _kept(t, [True] * len(t))
    ctx.ensure("one-per-time", len(got) == len(keep), "%d of %d" % (len(got), len(keep)))
    D = data[where[cat]]
    for i, (g, k) in enumerate(zip(got, keep)):
        tag = "-%d" % i
        if cat == "velocity":
            check_velocity(ctx, tag, g, t[k], [-D[c][k] / 1000 for c in ("Vnorth0", "Veast0", "Vdown0")], 0, abs(D["Verr0"][k]) / 1000)
        elif cat == "orientation":
            check_attitude(ctx, tag, g, t[k], [ctx.deg(D[a][k]) for a in ("Roll", "Pitch", "Heading")], [noise["orientation"][1]] * 3)
        elif cat == "depth":
            check_one(ctx, tag, g, "depth", t[k], D["DepCtldepth"][k], abs(D["DepCtldepth"][k]) * noise["depth"][0])
        else:
            check_one(ctx, tag, g, "altitude", t[k], D["ADCPAvAlt"][k], D["ADCPAvAlt"][k] * noise["altitude"][0])


@REG.harness(["auv_nav.parsers.parse_koyo21rov.parse_koyo21rov"], kind="bounded", bound="logs of three rows, any one of them incomplete; symbolic values", samples=30)
def koyo21_log(ctx):
    silence(ctx)
    tables(ctx)
    m2l, l2m = geodesy(ctx)
    import calendar

    cat = ctx.choice("category", ["velocity", "orientation", "depth", "altitude", "usbl"])
    gone = ctx.choice("missing", [None, 0, 1, 2])
    cols = ["Roll", "Pich", "Hedding", "Depth(ROV)", "ALT", "Lat", "Lon", "Lat_flt", "Lon_flt", "surge", "heave"]
    more = ctx.size("more", [0], many=(30, 130))
    R = _rows(ctx, cols, 3 + more, -4, 4, {"Hedding": (0, 360), "Depth(ROV)": (0, 2000), "ALT": (0, 50), "Lat": (-80, 80), "Lat_flt": (-80, 80), "Lon": (-179, 179), "Lon_flt": (-179, 179)})
    first = {"velocity": "heave", "orientation": "Pich", "depth": "Depth(ROV)", "altitude": "ALT", "usbl": "Depth(ROV)"}[cat]
    twice = ctx.choice("times", ["increasing", "repeated"])
    times = [(2021, 11, 17, 19, 59, 59), (2021, 11, 17, 20, 0, 0), (2021, 11, 17, 20, 0, 1 if twice == "increasing" else 0)]
    times += [clock_at((2021, 11, 17, 20, 0, 2), k) for k in range(more)]
    raw = cat in ("orientation", "depth", "altitude")
    text = ("Date,Time," if raw else "timestamp,") + ",".join(cols) + "\n"
    for k, w in enumerate(times):
        text += ("%04d/%02d/%02d,%02d:%02d:%02d," if raw else "%04d-%02d-%02d %02d:%02d:%02d,") % w + ",".join("" if gone == k and c == first else cell(ctx, R[k][c]) for c in cols) + "\n"
    noise = {}
    got = parse_file(ctx, "auv_nav.parsers.parse_koyo21rov", "parse_koyo21rov", cat, text, "k.csv", lambda M: noise.update(own_noise(ctx, M)))
    keep = [k for k in range(len(times)) if k != gone and not (k == 1 and gone != 2 and twice == "repeated")]
    ctx.ensure("one-per-complete-row", len(got) == len(keep), "%d of %d" % (len(got), len(keep)))
    for i, (g, k) in enumerate(zip(got, keep)):
        tag, r, t = "-%d" % i, R[k], calendar.timegm(times[k])
        if cat == "velocity":
            check_velocity(ctx, tag, g, t, [r["surge"], 0.0, r["heave"]], *noise["velocity"])
        elif cat == "orientation":
            check_attitude(ctx, tag, g, t, [r["Roll"], r["Pich"], r["Hedding"]], [noise["orientation"][1]] * 3)
        elif cat == "depth":
            check_one(ctx, tag, g, "depth", t, r["Depth(ROV)"], abs(r["Depth(ROV)"]) * noise["depth"][0])
        elif cat == "altitude":
            check_one(ctx, tag, g, "altitude", t, r["ALT"], r["ALT"] * noise["altitude"][0])
        else:
            check_fix(ctx, tag, g, t, r["Lat_flt"], r["Lon_flt"], r["Depth(ROV)"], l2m, noise["usbl"])


@REG.harness(["auv_nav.parsers.parse_ntnu_dvl.parse_ntnu_dvl"], kind="bounded", bound="logs of two rows, symbolic values", samples=30)
def ntnu_dvl_log(ctx):
    silence(ctx)
    tables(ctx)
    import calendar

    yaw = ctx.real("yaw", lo=-180, hi=180)
    cat = ctx.choice("category", ["velocity", "altitude"])
    lost = ctx.choice("no_lock", [None, 0, 1])
    H = repo("auv_nav.parsers.parse_ntnu_dvl").header_list
    names = ["u_dvl", "v_dvl", "z_dvl", "dvl_alt1", "dvl_alt3"]
    n = 2 + ctx.size("more", [0], many=(30, 130))
    R = _rows(ctx, names, n, -4, 4, {"dvl_alt1": (0, 50), "dvl_alt3": (0, 50)})
    text = "first\t%s\nsecond\t%s\n" % ("\t" * (len(H) - 2), "\t" * (len(H) - 2))
    clock = ["07:08:09.250", "07:08:10.500"] + ["%02d:%02d:%02d.500" % clock_at((2019, 2, 28, 7, 8, 11), k)[3:6] for k in range(n - 2)]
    for k in range(n):
        row = dict(R[k])
        if lost == k:
            row.update(u_dvl=-50.0, v_dvl=-50.0, z_dvl=-50.0)
        text += "\t".join(clock[k] if h == "time" else cell(ctx, row[h]) if h in row else "777.5" for h in H) + "\n"
    noise = {}
    got = parse_file(ctx, "auv_nav.parsers.parse_ntnu_dvl", "parse_ntnu_dvl", cat, text, "20190228_x.log", lambda M: noise.update(own_noise(ctx, M)), yaw=yaw)
    keep = [k for k in range(n) if cat == "altitude" or k != lost]
    ctx.ensure("one-per-row-with-lock", len(got) == len(keep), "%d of %d" % (len(got), len(keep)))
    for i, (g, k) in enumerate(zip(got, keep)):
        t, r, tag = calendar.timegm((2019, 2, 28, 7, 8, 9 + k)) + (0.25, 0.5)[min(k, 1)], R[k], "-%d" % i
        if cat == "velocity":
            check_velocity(ctx, tag, g, t, (*rotz(ctx, yaw, r["u_dvl"], r["v_dvl"]), r["z_dvl"]), *noise["velocity"])
        else:
            al = (r["dvl_alt1"] + r["dvl_alt3"]) / 2
            check_one(ctx, tag, g, "altitude", t, al, al * noise["altitude"][0])


@REG.harness(["auv_nav.parsers.parse_eiva_navipac.parse_eiva_navipac"], kind="bounded", bound="logs of two lines of each kind (one of another vehicle), symbolic values", samples=30)
def eiva_log(ctx):
    silence(ctx)
    m2l, l2m = geodesy(ctx)
    import calendar
    import pynmea2

    cat = ctx.choice("category", ["orientation", "depth", "usbl"])
    n = 2 + ctx.size("more", [0], many=(30, 130))
    R = _rows(ctx, ["roll", "pitch", "heading", "depth", "lat", "lon"], n, -40, 40, {"heading": (0, 360), "depth": (0, 500), "lat": (-80, 80), "lon": (-179, 179)})
    L = []
    # contract of the NMEA library: the fields of the sentence
    msgs = {}
    for k in range(n):
        r, c = R[k], lambda x: cell(ctx, x)
        when = "%04d:%02d:%02d:%02d:%02d:%02d.2500" % clock_at((2019, 2, 28, 7, 8, 9), k)
        s = "$PRDID,%s,%s,%s" % (c(r["pitch"]), c(r["roll"]), c(r["heading"]))
        if not ctx.symbolic:
            x = 0
            for ch in s[1:]:
                x ^= ord(ch)
            s += "*%02X" % x
        msgs[s] = NS(roll=c(r["roll"]), pitch=c(r["pitch"]), heading=c(r["heading"]))
        L += ["R132  4 %s %s" % (when, s), "R133  4 %s %s" % (when, s), "D     4  19  1 %s %s" % (when, c(r["depth"])), "D     5  19  1 %s 5.0" % when, "P  D     5 %s 1.0 2.0 -3.0 4.0 5.0" % when, "P  D     4 %s 1.0 2.0 %s %s %s" % (when, c(-r["depth"]), c(r["lat"]), c(r["lon"]))]
    if ctx.symbolic:
        ctx.patch(pynmea2, "parse", lambda s, *a, **k: msgs[s])
        ctx.trusted.add("assumed contract: pynmea2.parse returns the fields of the sentence")
    noise = {}

    def setup(M):
        noise.update(own_noise(ctx, M))
        M.usbl.label = 4

    got = parse_file(ctx, "auv_nav.parsers.parse_eiva_navipac", "parse_eiva_navipac", cat, "\n".join(L) + "\n", "x_G.NPD", setup)
    ctx.ensure("one-per-own-line", len(got) == n, str(len(got)))
    for k, g in enumerate(got):
        t, r, tag = calendar.timegm((2019, 2, 28, 7, 8, 9 + k)) + 0.25, R[k], "-%d" % k
        if cat == "orientation":
            check_attitude(ctx, tag, g, t, [r["roll"], r["pitch"], r["heading"]], [noise["orientation"][1]] * 3)
        elif cat == "depth":
            check_one(ctx, tag, g, "depth", t, r["depth"], abs(r["depth"]) * noise["depth"][0])
        else:
            check_fix(ctx, tag, g, t, r["lat"], r["lon"], r["depth"], l2m, noise["usbl"])


@REG.harness(["auv_nav.parsers.generic_csv_payload_parser.generic_csv_payload_parser"], kind="bounded", bound="payload tables of 1-3 rows, columns in any order; samples up to 120 rows", samples=20)
def payload_table(ctx):
    """one reading per row, in order, at the corrected time of the row plus the offset,
    carrying every column of the table"""
    import pathlib
    import tempfile
    from r29_conversions import tables

    silence(ctx)
    tables(ctx)
    n = ctx.size("n", [1, 2, 3], many=(60, 130))
    cols = ctx.choice("columns", [["corrected_timestamp", "Temperature [C]", "pH"], ["pH", "corrected_timestamp", "depth"], ["timestamp", "turbidity", "corrected_timestamp"]])
    off = ctx.real("offset", lo=-50000, hi=50000)
    rows = [{c: ctx.real("v%d_%d" % (k, i), lo=1e9 if "timestamp" in c else -100, hi=2e9 if "timestamp" in c else 100) for i, c in enumerate(cols)} for k in range(n)]
    with tempfile.TemporaryDirectory() as d:
        f = pathlib.Path(d) / "payload.csv"
        f.write_text(",".join(cols) + "\n" + "".join(",".join(cell(ctx, r[c]) for c in cols) + "\n" for r in rows))
        got = repo("auv_nav.parsers.generic_csv_payload_parser").generic_csv_payload_parser(f, {}, off)
    ctx.ensure("one-per-row", len(got) == n, str(len(got)))
    for k, (g, r) in enumerate(zip(got, rows)):
        ctx.ensure_eq("time-%d" % k, g.epoch_timestamp, r["corrected_timestamp"] + off, tol=1e-5)
        ctx.ensure("columns-%d" % k, list(g.data) == cols, str(list(g.data)))
        for i, c in enumerate(cols):
            ctx.ensure_eq("value-%d-%d" % (k, i), g.data[c], r[c], tol=1e-6)
