"""R02: linear interpolation in time, headings the short way round north."""
from common import Registry, repo, lin, set_fields, silence, shortest, congruent_360

REG = Registry("R02")
M = "auv_nav.tools.interpolate"
I = lambda: repo(M)
T = dict(lo=0, hi=1000)


def times(ctx):
    t1, t2 = ctx.increasing("t", 2)
    return t1, t2, ctx.between("q", t1, t2)


@REG.harness([M + ".interpolate"])
def scalar_is_the_straight_line(ctx):
    x0, x1, q = ctx.real("x0", lo=-1000, hi=1000), ctx.real("x1", lo=-1000, hi=1000), ctx.real("q", lo=-1000, hi=1000)
    a, b = ctx.real("a"), ctx.real("b")
    ctx.assume(abs(x0 - x1) > 0.01)
    ctx.ensure_eq("line", I().interpolate(q, x0, x1, a, b), lin(q, x0, x1, a, b), scale=1e6)


@REG.harness([M + ".interpolate"])
def samples_arbitrarily_close_together(ctx):
    """the two samples may be any distance apart (here down to a few microseconds)"""
    x0 = ctx.real("x0", lo=-10, hi=10)
    h = ctx.choice("gap", [1e-6, 1e-5, 1e-4, 1e-3, 1e-2])
    d = ctx.real("d", lo=0, hi=1) * h
    ctx.assume(d > h / 10)
    w = ctx.real("w", lo=0, hi=1)
    a, b = ctx.real("a", lo=-1, hi=1), ctx.real("b", lo=-1, hi=1)
    ctx.ensure_eq("line", I().interpolate(x0 + w * d, x0, x0 + d, a, b), a + w * (b - a), tol=1e-6)


@REG.harness([M + ".interpolate"])
def scalar_endpoints_and_range(ctx):
    t1, t2, q = times(ctx)
    a, b = ctx.real("a"), ctx.real("b")
    f = I().interpolate
    ctx.ensure_eq("at-lower", f(t1, t1, t2, a, b), a)
    ctx.ensure_eq("at-upper", f(t2, t1, t2, a, b), b)
    r = f(q, t1, t2, a, b)
    ctx.ensure("never-outside", ctx.Or(ctx.And(ctx.le(a, r), ctx.le(r, b)), ctx.And(ctx.le(b, r), ctx.le(r, a))))


@REG.harness([M + ".interpolate"])
def scalar_degenerate_interval(ctx):
    t, a, b = ctx.real("t"), ctx.real("a"), ctx.real("b")
    r = I().interpolate(t, t, t, a, b)
    ctx.ensure("one-of-the-two-values", ctx.Or(ctx.eq(r, a), ctx.eq(r, b)))


def heading_contract(ctx, got, t1, t2, q, y1, y2):
    ctx.ensure("heading-in-0-360", ctx.And(ctx.le(0, got), ctx.le(got, 360)))
    ctx.assume(abs(abs(y2 - y1) - 180) > 1e-6)  # antipodal: either way round is right
    w = (q - t1) / (t2 - t1)
    congruent_360(ctx, "heading-short-way", got, y1 + w * shortest(ctx, y1, y2))


DVL = ["x_velocity", "y_velocity", "z_velocity", "roll", "pitch"]


def rec(ctx, cls, tag, t, names, yaw=None):
    o = cls()
    o.epoch_timestamp = t
    for n in names:
        setattr(o, n, ctx.real("%s_%s" % (n, tag), lo=-400, hi=400))
    if yaw:
        o.yaw = ctx.real("yaw_" + tag, lo=0, hi=360)
    return o


@REG.harness([M + ".interpolate_dvl"])
def orientation_and_velocity_record(ctx):
    t1, t2, q = times(ctx)
    C = repo("auv_nav.sensors").SyncedOrientationBodyVelocity
    d1, d2 = rec(ctx, C, "1", t1, DVL, True), rec(ctx, C, "2", t2, DVL, True)
    y1, y2 = d1.yaw, d2.yaw
    r = I().interpolate_dvl(q, d1, d2)
    ctx.ensure_eq("time", r.epoch_timestamp, q)
    for n in DVL:
        ctx.ensure_eq(n, getattr(r, n), lin(q, t1, t2, getattr(d1, n), getattr(d2, n)), scale=400)
    ctx.ensure_eq("inputs-untouched", [d1.yaw, d2.yaw, d1.epoch_timestamp, d2.epoch_timestamp], [y1, y2, t1, t2])
    heading_contract(ctx, r.yaw, t1, t2, q, y1, y2)


USBL = ["northings", "eastings", "northings_std", "eastings_std", "depth"]


@REG.harness([M + ".interpolate_usbl"])
def acoustic_position_record(ctx):
    t1, t2, q = times(ctx)
    C = repo("auv_nav.sensors").Usbl
    d1, d2 = rec(ctx, C, "1", t1, USBL), rec(ctx, C, "2", t2, USBL)
    r = I().interpolate_usbl(q, d1, d2)
    ctx.ensure_eq("time", r.epoch_timestamp, q)
    for n in USBL:
        ctx.ensure_eq(n, getattr(r, n), lin(q, t1, t2, getattr(d1, n), getattr(d2, n)), scale=400)


CAM = ["northings", "eastings", "depth", "latitude", "longitude", "roll", "pitch", "x_velocity", "y_velocity", "z_velocity", "altitude"]


def camera_list_case(ctx, n):
    C = repo("auv_nav.sensors").Camera
    ts = ctx.increasing("t", n)
    cs = [rec(ctx, C, str(i), t, CAM, True) for i, t in enumerate(ts)]
    q = ctx.between("q", ts[0], ts[-1])
    r = I().interpolate_camera(q, cs, "images/cam1/a.png")
    ctx.ensure_eq("filename", r.filename, "images/cam1/a.png")
    ctx.ensure_eq("time", r.epoch_timestamp, q)
    # the bracketing pair
    for k in range(1, n):
        if q <= ts[k]:
            break
    c1, c2 = cs[k - 1], cs[k]
    for m in CAM:
        ctx.ensure_eq(m, getattr(r, m), lin(q, ts[k - 1], ts[k], getattr(c1, m), getattr(c2, m)), scale=400)
    heading_contract(ctx, r.yaw, ts[k - 1], ts[k], q, c1.yaw, c2.yaw)


for _n in (2, 3, 4):
    def _f(ctx, n=_n):
        camera_list_case(ctx, n)

    _f.__name__ = "camera_in_list_of_%d" % _n
    REG.harness([M + ".interpolate_camera"], kind="bounded", bound="camera list of %d entries, symbolic contents and query" % _n)(_f)


@REG.harness([M + ".interpolate_altitude"], kind="bounded", bound="altitude list of 3 entries, symbolic contents and query")
def altitude_in_list(ctx):
    C = repo("auv_nav.sensors").Altitude
    ts = ctx.increasing("t", 3)
    cs = [rec(ctx, C, str(i), t, ["altitude"]) for i, t in enumerate(ts)]
    q = ctx.between("q", ts[0], ts[-1])
    r = I().interpolate_altitude(q, cs)
    k = 1 if q <= ts[1] else 2
    ctx.ensure_eq("altitude", r, lin(q, ts[k - 1], ts[k], cs[k - 1].altitude, cs[k].altitude), scale=400)


def anywhere(ctx, cls, fields, init=None):
    """records of any number, a query time inside them, and the bracketing index"""
    from anylen import records, integer
    from pyvc.sym import SymInt, z3

    L = records("list", cls, fields, init=init)
    ctx.assume(L.n >= 2)
    q, b = ctx.real("q"), ctx.int("bracket")
    t = lambda i: L.item(integer(i)).epoch_timestamp
    ctx.assume(ctx.And(q >= t(0), q <= t(L.n - 1), b >= 1, b < L.n))
    ctx.assume(ctx.And(ctx.Or(b == 1, t(b - 1) < q), q <= t(b)))
    return L, q, b, t


@REG.harness([M + ".interpolate_altitude"], loops=[M + ".interpolate_altitude"])
def altitude_in_list_of_any_length(ctx):
    C = repo("auv_nav.sensors").Altitude
    if not ctx.symbolic:
        n = ctx.choice("n", [2, 5, 30, 1500])
        ts = ctx.increasing("t", n)
        cs = [rec(ctx, C, str(i), t, ["altitude"]) for i, t in enumerate(ts)]
        q = ctx.between("q", ts[0], ts[-1])
        k = [i for i in range(1, n) if q <= ts[i]][0]
        ctx.ensure_eq("altitude", I().interpolate_altitude(q, cs), lin(q, ts[k - 1], ts[k], cs[k - 1].altitude, cs[k].altitude), scale=400)
        return
    from pyvc.loops import Loop

    L, q, b, t = anywhere(ctx, C, ["altitude"])
    inv = lambda env, k: [("range", ctx.And(env["i"] >= 1, env["i"] <= L.n)), ("passed", ctx.Or(env["i"] == 1, t(env["i"] - 1) < q))]
    ctx.scratch["loops"] = {("interpolate_altitude", "kinds"): "w", ("interpolate_altitude", 0): Loop("bracket", inv, decreases=lambda env: L.n - env["i"])}
    r = I().interpolate_altitude(q, L)
    ctx.ensure_eq("altitude", r, lin(q, t(b - 1), t(b), L.item(b - 1).altitude, L.item(b).altitude))


@REG.harness([M + ".interpolate_camera"], loops=[M + ".interpolate_camera"])
def camera_in_list_of_any_length(ctx):
    if not ctx.symbolic:
        return camera_list_case(ctx, ctx.choice("n", [2, 5, 30, 1500]))
    from pyvc.loops import Loop
    from pyvc.sym import SymReal

    C = repo("auv_nav.sensors").Camera

    def yaw(o, e):
        ctx.axiom(("yaw", e.get_id()), ctx.And(o.yaw >= 0, o.yaw <= 360).e)

    L, q, b, t = anywhere(ctx, C, CAM + ["yaw"], yaw)
    inv = lambda env, k: [("passed", ctx.Or(k == 0, t(k - 1) < q))]
    ctx.scratch["loops"] = {("interpolate_camera", "kinds"): "f", ("interpolate_camera", 0): Loop("bracket", inv)}
    r = I().interpolate_camera(q, L, "images/cam1/a.png")
    ctx.ensure_eq("filename", r.filename, "images/cam1/a.png")
    ctx.ensure_eq("time", r.epoch_timestamp, q)
    c1, c2 = L.item(b - 1), L.item(b)
    for m in CAM:
        ctx.ensure_eq(m, getattr(r, m), lin(q, t(b - 1), t(b), getattr(c1, m), getattr(c2, m)))
    heading_contract(ctx, r.yaw, t(b - 1), t(b), q, c1.yaw, c2.yaw)


@REG.harness([M + ".interpolate_property"])
def optional_property(ctx):
    t1, t2, q = times(ctx)
    C = repo("auv_nav.sensors").SyncedOrientationBodyVelocity
    a, b = C(), C()
    s = repo("auv_nav.sensors").Camera()
    a.epoch_timestamp, b.epoch_timestamp, s.epoch_timestamp = t1, t2, q
    has1, has2 = ctx.flag("has1"), ctx.flag("has2")
    for i, p in enumerate(["northings_std", "yaw_std", "vroll_std"]):
        va, vb = ctx.real("va%d" % i, lo=-400, hi=400), ctx.real("vb%d" % i, lo=-400, hi=400)
        setattr(a, p, va if has1 else None)
        setattr(b, p, vb if has2 else None)
        dummy = C()
        r = I().interpolate_property([dummy, a, b], 1, [None, s], 2, p)
        if has1 and has2:
            ctx.ensure_eq("value", r, lin(q, t1, t2, va, vb), scale=400)
        else:
            ctx.ensure("missing-stays-missing", r is None)


@REG.harness([M + ".interpolate_covariance"])
def covariance_matrix(ctx):
    import numpy as np

    t1, t2, q = times(ctx)
    A, B = np.empty((2, 2), dtype=object), np.empty((2, 2), dtype=object)
    for i in range(2):
        for j in range(2):
            A[i, j], B[i, j] = ctx.real("a%d%d" % (i, j)), ctx.real("b%d%d" % (i, j))
    r = I().interpolate_covariance(q, t1, t2, A, B)
    for i in range(2):
        for j in range(2):
            ctx.ensure_eq("entry", r[i, j], lin(q, t1, t2, A[i, j], B[i, j]))
