"""R03: pose of every image / payload reading from the vehicle track."""
from common import *
from common import geodesy, stub_clock
import numpy as np

REG = Registry("R03")
M = "auv_nav.tools.interpolate"
S = "auv_nav.sensors"
E = "auv_nav.localisation.ekf"
L = "auv_nav.tools.latlon_wgs84"

LIN = ["roll", "pitch", "x_velocity", "y_velocity", "z_velocity"]
STD = ["northings_std", "eastings_std", "depth_std", "roll_std", "pitch_std", "yaw_std", "x_velocity_std", "y_velocity_std",
       "z_velocity_std", "vroll_std", "vpitch_std", "vyaw_std"]
POS = ["northings", "eastings", "depth", "altitude"]


def track(ctx, n, cov=True, tmax=1000):
    C = repo(S).SyncedOrientationBodyVelocity
    out = []
    ts = ctx.increasing("T", n, hi=tmax)
    for i in range(n):
        o = C()
        o.epoch_timestamp = ts[i]
        for a in LIN + STD + POS:
            setattr(o, a, ctx.real("%s_%d" % (a, i), lo=-80, hi=80))
        o.yaw = ctx.real("yaw_%d" % i, lo=0, hi=360)
        if cov:
            o.covariance = np.array([[ctx.real("cov%d%d_%d" % (a, b, i)) for b in range(2)] for a in range(2)], dtype=object)
        out.append(o)
    return out


def offsets(ctx, tag):
    return [ctx.real("%s_%s" % (tag, a), lo=-5, hi=5) for a in "xyz"]


def refs(ctx):
    return [ctx.real("lat0", lo=-60, hi=60), ctx.real("lon0", lo=-170, hi=170)]


def pose_between(ctx, s, t, a, b, org, off, ref, m2l, tag=""):
    """the contract of one sensor entry s at time t between track points a and b"""
    ta, tb = a.epoch_timestamp, b.epoch_timestamp
    L2 = lambda n: lin(t, ta, tb, getattr(a, n), getattr(b, n))
    for n in LIN + STD:
        ctx.ensure_eq(n + tag, getattr(s, n), L2(n), scale=80)
    # the stated attitude defines the rotation of the lever arm
    arm = rot_zyx(ctx, s.roll, s.pitch, s.yaw, [off[k] - org[k] for k in range(3)])
    ctx.ensure_eq("northings" + tag, s.northings, L2("northings") + arm[0], scale=80)
    ctx.ensure_eq("eastings" + tag, s.eastings, L2("eastings") + arm[1], scale=80)
    ctx.ensure_eq("depth" + tag, s.depth, L2("depth") + arm[2], scale=80)
    ctx.ensure_eq("altitude" + tag, s.altitude, L2("altitude") - arm[2], scale=80)
    la, lo = m2l(ref[0], ref[1], s.eastings, s.northings)
    ctx.ensure_eq("latitude" + tag, s.latitude, la, tol=1e-9)
    ctx.ensure_eq("longitude" + tag, s.longitude, lo, tol=1e-9)
    if a.covariance is not None:
        w = (t - ta) / (tb - ta)
        ctx.ensure_eq("covariance" + tag, list(s.covariance.reshape(-1)),
                      [x + (y - x) * w for x, y in zip(a.covariance.reshape(-1), b.covariance.reshape(-1))], scale=100)
    else:
        ctx.ensure("covariance-none" + tag, s.covariance is None)
    ctx.ensure("heading-in-0-360" + tag, ctx.And(ctx.le(0, s.yaw), ctx.le(s.yaw, 360)))
    w = (t - ta) / (tb - ta)
    d = b.yaw - a.yaw
    if abs(abs(d) - 180) > 1e-6:
        congruent_360(ctx, "heading" + tag, s.yaw, a.yaw + w * shortest(ctx, a.yaw, b.yaw))


def list_case(ctx, ntrack, nsens, cov=True, prefix=False):
    silence(ctx)
    m2l, _ = geodesy(ctx)
    stub_clock(ctx, repo(M))
    tr = track(ctx, ntrack, cov)
    ss = []
    st = ctx.increasing("s", nsens, strict=False, lo=-500, hi=1500, around=(tr[0].epoch_timestamp, tr[-1].epoch_timestamp))
    for i in range(nsens):
        c = repo(S).Camera()
        c.epoch_timestamp = st[i]
        c.filename = "f%d" % i
        ss.append(c)
    ts = [c.epoch_timestamp for c in ss]
    org, off, ref = offsets(ctx, "org"), offsets(ctx, "off"), refs(ctx)
    t0, t1 = tr[0].epoch_timestamp, tr[-1].epoch_timestamp
    # some overlap, otherwise nothing is promised but a warning
    ctx.assume(ts[0] <= t1)
    ctx.assume(ts[-1] >= t0)
    lst = list(ss)
    repo(M).interpolate_sensor_list(lst, "camera", off, org, ref, tr)
    keep = [c for c, t in zip(ss, ts) if t >= t0 and t <= t1]
    ctx.ensure("exactly-the-entries-inside-the-track-in-order", len(lst) == len(keep) and all(a is b for a, b in zip(lst, keep)))
    for c in lst:
        i = ss.index(c)
        t = ts[i]
        ctx.ensure_eq("time-kept", c.epoch_timestamp, t)
        ctx.ensure_eq("filename-kept", c.filename, "f%d" % i)
        k = 1
        while k < ntrack - 1 and tr[k].epoch_timestamp < t:
            k += 1
        pose_between(ctx, c, t, tr[k - 1], tr[k], org, off, ref, m2l)


for _nt, _ns in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 1)):
    def _f(ctx, a=_nt, b=_ns):
        list_case(ctx, a, b, cov=(a == 2))

    _f.__name__ = "sensor_list_%d_track_%d_sensor" % (_nt, _ns)
    REG.harness([M + ".interpolate_sensor_list", M + ".interpolate_property", M + ".interpolate_covariance"], kind="bounded",
                bound="track of %d points, %d sensor entries, symbolic contents" % (_nt, _ns), thorough_only=(_nt, _ns) == (3, 2))(_f)


@REG.harness([M + ".interpolate_sensor_list", M + ".interpolate_property", M + ".interpolate_covariance"], loops=[M + ".interpolate_sensor_list"], max_paths=4000)
def any_number_of_entries_on_a_track_of_any_length(ctx):
    if not ctx.symbolic:
        nt, ns = ctx.choice("size", [(2, 30), (40, 3), (60, 200), (2, 1), (1500, 40)])
        return list_case(ctx, nt, ns, cov=nt < 100)
    from anylen import records, integer, field
    from pyvc.loops import Loop
    from pyvc.sym import SymInt, SymReal
    from pyvc.symlist import SymWindow

    silence(ctx)
    m2l, _ = geodesy(ctx)
    stub_clock(ctx, repo(M))
    c2 = [[field("cov%d%d" % (a, b)) for b in range(2)] for a in range(2)]
    withcov = ctx.flag("with-covariance")

    def point(o, e):
        ctx.axiom(("yaw", e.get_id()), ctx.And(o.yaw >= 0, o.yaw <= 360).e)
        o.covariance = np.array([[SymReal(f(e)) for f in r] for r in c2], dtype=object) if withcov else None

    tr = records("track", repo(S).SyncedOrientationBodyVelocity, LIN + STD + POS + ["yaw"], init=point)
    cams = records("camera", repo(S).Camera, [], strict=False)
    ctx.assume(tr.n >= 2)
    ctx.assume(cams.n >= 1)
    time = lambda L, i: L.item(integer(i)).epoch_timestamp
    start, end = time(tr, 0), time(tr, tr.n - 1)
    ctx.assume(ctx.And(time(cams, 0) <= end, time(cams, cams.n - 1) >= start))
    org, off, ref = offsets(ctx, "org"), offsets(ctx, "off"), refs(ctx)
    w = SymWindow(cams)

    def before(env, k):
        return [("all-before-the-track", ctx.Or(k == 0, time(w, k - 1) < start))]

    def inside(env, k):
        j = env["j"]
        r = [("none-after-the-track", ctx.Or(k == 0, time(w, k - 1) <= end)), ("track-point-in-range", ctx.And(j >= 0, j < tr.n))]
        if not isinstance(j, int):
            r.append(("no-track-point-skipped", ctx.Or(j <= 1, ctx.And(k >= 1, time(tr, j - 1) < time(w, k - 1)))))
        return r

    def one(env, k):
        for e in cams.touched():
            ctx.ensure("only-this-entry-is-written", bool(SymInt(e) == w.a + k))
        j, s = env["j"], w.item(k)
        t = SymReal(cams.key((w.a + k).e))
        ctx.ensure("bracketed", ctx.And(j >= 1, j < tr.n, time(tr, j - 1) <= t, t <= time(tr, j)))
        ctx.ensure_eq("time-kept", s.epoch_timestamp, t)
        pose_between(ctx, s, t, tr.item(j - 1), tr.item(j), org, off, ref, m2l)

    def bracket(env, k):
        j = env["j"]
        r = [("track-point-in-range", ctx.And(j >= 0, j < tr.n)), ("forward", j >= env["_vc_entry"]["j"])]
        if not isinstance(j, int):
            r.append(("no-track-point-skipped", ctx.Or(j <= 1, time(tr, j - 1) < time(w, env["i"]))))
        return r

    key = "interpolate_sensor_list"
    ctx.scratch["loops"] = {(key, "kinds"): "ffw", (key, 0): Loop("before", before), (key, 1): Loop("inside", inside, modifies=[cams], each=one),
                            (key, 2): Loop("bracket", bracket, decreases=lambda env: tr.n - env["j"])}
    repo(M).interpolate_sensor_list(w, "camera", off, org, ref, tr)
    ctx.ensure("none-before", ctx.Or(w.a == 0, SymReal(cams.key((w.a - 1).e)) < start))
    ctx.ensure("first-kept-inside", ctx.Or(w.a == w.b, SymReal(cams.key(w.a.e)) >= start))
    ctx.ensure("last-kept-inside", ctx.Or(w.a == w.b, SymReal(cams.key((w.b - 1).e)) <= end))
    ctx.ensure("none-after", ctx.Or(w.b == cams.n, SymReal(cams.key(w.b.e)) > end))


COPY = ["epoch_timestamp", "roll", "pitch", "yaw", "roll_std", "pitch_std", "yaw_std", "vroll", "vpitch", "vyaw", "vroll_std", "vpitch_std",
        "vyaw_std", "x_velocity", "y_velocity", "z_velocity", "x_velocity_std", "y_velocity_std", "z_velocity_std", "north_velocity",
        "east_velocity", "down_velocity", "north_velocity_std", "east_velocity_std", "down_velocity_std", "northings_std", "eastings_std",
        "depth_std"]


def full_state(ctx, tag=""):
    o = repo(S).SyncedOrientationBodyVelocity()
    for a in COPY + POS:
        setattr(o, a, ctx.real(a + tag, lo=-300, hi=300))
    o.covariance = np.array([[ctx.real("c%d%d%s" % (a, b, tag)) for b in range(2)] for a in range(2)], dtype=object)
    return o


def pose_at(ctx, c, o, org, off, ref, m2l):
    for a in COPY:
        ctx.ensure_eq(a, getattr(c, a), getattr(o, a))
    ctx.ensure_eq("covariance", c.covariance, o.covariance)
    arm = rot_zyx(ctx, o.roll, o.pitch, o.yaw, [off[k] - org[k] for k in range(3)])
    ctx.ensure_eq("northings", c.northings, o.northings + arm[0], scale=300)
    ctx.ensure_eq("eastings", c.eastings, o.eastings + arm[1], scale=300)
    ctx.ensure_eq("depth", c.depth, o.depth + arm[2], scale=300)
    ctx.ensure_eq("altitude", c.altitude, o.altitude - arm[2], scale=300)
    la, lo = m2l(ref[0], ref[1], o.eastings + arm[1], o.northings + arm[0])
    ctx.ensure_eq("latitude", c.latitude, la, tol=1e-9)
    ctx.ensure_eq("longitude", c.longitude, lo, tol=1e-9)


@REG.harness([S + ".Camera.fromSyncedBodyVelocity"])
def camera_from_one_track_point(ctx):
    m2l, _ = geodesy(ctx)
    o = full_state(ctx)
    org, off, ref = offsets(ctx, "org"), offsets(ctx, "off"), refs(ctx)
    c = repo(S).Camera()
    c.filename = "x.png"
    c.fromSyncedBodyVelocity(o, org, off, ref)
    pose_at(ctx, c, o, org, off, ref, m2l)
    ctx.ensure_eq("filename-kept", c.filename, "x.png")


def update_case(ctx, nc, ne):
    silence(ctx)
    m2l, _ = geodesy(ctx)
    ekf = repo(E)
    stub_clock(ctx, ekf)
    org, off, ref = offsets(ctx, "org"), offsets(ctx, "off"), refs(ctx)
    es, cs = [], []
    et, ct = ctx.increasing("et", ne, hi=6), ctx.increasing("ct", nc, hi=6)
    for i in range(ne):
        o = full_state(ctx, "_e%d" % i)
        o.epoch_timestamp = et[i]
        es.append(o)
    for i in range(nc):
        c = repo(S).Camera()
        c.epoch_timestamp = ct[i]
        c.filename = "img%d" % i
        cs.append(c)
    got = ekf.update_camera_list(cs, es, org, off, ref)
    want = [(c, o) for c in cs for o in es if c.epoch_timestamp == o.epoch_timestamp]
    ctx.ensure("one-pose-per-image-with-a-state-at-its-time", len(got) == len(want))
    for g, (c, o) in zip(got, want):
        ctx.ensure_eq("filename", g.filename, c.filename)
        pose_at(ctx, g, o, org, off, ref, m2l)


for _c, _e in ((1, 2), (2, 2), (2, 3)):
    def _g(ctx, a=_c, b=_e):
        update_case(ctx, a, b)

    _g.__name__ = "ekf_camera_list_%d_images_%d_states" % (_c, _e)
    REG.harness([E + ".update_camera_list"], kind="bounded", bound="%d images, %d filter states, symbolic contents" % (_c, _e), samples=200)(_g)


@REG.harness([L + ".metres_to_latlon"])
def metres_to_latlon_solves_the_direct_problem(ctx):
    from geographiclib.geodesic import Geodesic

    rec = []
    real = Geodesic.WGS84.Direct

    def direct(la, lo, azi, s, *a):
        rec.append((la, lo, azi, s))
        return {"lat2": -77, "lon2": -88} if ctx.symbolic else real(la, lo, azi, s, *a)

    ctx.patch(Geodesic.WGS84, "Direct", direct)
    la0, lo0 = refs(ctx)
    e, n = ctx.real("e", lo=-1e5, hi=1e5), ctx.real("n", lo=-1e5, hi=1e5)
    out = repo(L).metres_to_latlon(la0, lo0, e, n)
    ctx.ensure("one-geodesic", len(rec) == 1)
    la, lo, azi, s = rec[0]
    ctx.ensure_eq("reference", [la, lo], [la0, lo0])
    ctx.ensure("distance-positive", ctx.le(0, s))
    ctx.ensure_eq("north-component", s * ctx.cos(ctx.rad(azi)), n, scale=1e5)
    ctx.ensure_eq("east-component", s * ctx.sin(ctx.rad(azi)), e, scale=1e5)
    if ctx.symbolic:
        ctx.ensure_eq("result", list(out), [-77, -88])


@REG.harness([L + ".latlon_to_metres"])
def latlon_to_metres_solves_the_inverse_problem(ctx):
    from geographiclib.geodesic import Geodesic

    rec = []
    real = Geodesic.WGS84.Inverse

    def inverse(*a):
        rec.append(a[:4])
        return {"s12": 123, "azi1": 45, "azi2": 46, "a12": 9, "lat1": 1, "lat2": 2, "lon1": 3, "lon2": 4} if ctx.symbolic else real(*a)

    ctx.patch(Geodesic.WGS84, "Inverse", inverse)
    la0, lo0 = refs(ctx)
    la, lo = ctx.real("la", lo=-80, hi=80), ctx.real("lo", lo=-170, hi=170)
    out = repo(L).latlon_to_metres(la, lo, la0, lo0)
    ctx.ensure("one-geodesic", len(rec) == 1)
    ctx.ensure_eq("from-reference-to-point", list(rec[0]), [la0, lo0, la, lo])
    if ctx.symbolic:
        ctx.ensure_eq("distance-and-bearing", list(out), [123, 45])


def _process():
    """what process() hands to the functions above (see R10)"""
    import r10_ekf_schedule as w

    for h in (w.THREE, w.BIOCAM):
        REG.harness(["auv_nav.process.process"], kind="bounded", bound="one packet order, symbolic contents and offsets", samples=4)(h)


_process()
