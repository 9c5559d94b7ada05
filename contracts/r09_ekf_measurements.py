"""R09: what a sensor reading tells the filter (values, units, noise)."""
from ekfspec import *

REG = Registry("R09")
M = E + ".Measurement."


def stds(ctx):
    r = lambda n, hi=1: ctx.real(n, lo=0, hi=hi)
    s = {"speed": {"factor": r("fs"), "offset": r("os")}, "orientation": {"factor": r("fo"), "offset": r("oo")},
         "position_z": {"factor": r("fz"), "offset": r("oz")}, "position_xy": {"factor": r("fxy"), "offset": r("oxy")}}
    if ctx.flag("per_axis_speed"):
        s["speed"] = {k + "_" + a: r(k + a) for a in "xyz" for k in ("factor", "offset")}
    return s


def std_or_none(ctx, *names):
    """either all standard deviations are known (positive) or none is"""
    if ctx.flag("known_std"):
        return True, [ctx.real(n, gt=0, hi=5) for n in names]
    return False, [ctx.real(n, lo=-5, hi=0) for n in names]


def only(ctx, m, entries, typ, t):
    """entries: {index: (value, variance)}; everything else must stay out"""
    ctx.ensure_eq("time", m.time, t)
    ctx.ensure("type", m.type == typ)
    ctx.ensure("update-vector", [int(v) for v in m.update_vector] == [1 if i in entries else 0 for i in range(DIM)])
    for i in range(DIM):
        for j in range(DIM):
            if i == j and i in entries:
                ctx.ensure_eq("variance-" + NAMES[i], m.covariance[i, i], entries[i][1])
            else:
                ctx.ensure_eq("no-other-covariance", m.covariance[i, j], 0)
        if i in entries:
            ctx.ensure_eq("value-" + NAMES[i], m.measurement[i], entries[i][0], scale=100)


def off(ctx, tag):
    return [ctx.real("%s_%s" % (tag, a), lo=-5, hi=5) for a in "xyz"]


@REG.harness([M + "from_depth"])
def depth_reading(ctx):
    silence(ctx)
    s = stds(ctx)
    d = repo("auv_nav.sensors").Depth()
    known, (d.depth_std,) = std_or_none(ctx, "depth_std")
    d.depth, d.epoch_timestamp = ctx.real("depth", lo=-10, hi=500), ctx.real("t", lo=0, hi=100)
    att, arm = list(angles(ctx)), off(ctx, "arm")
    m = repo(E).Measurement(s)
    m.from_depth(d, list(att), list(arm))
    var = d.depth_std ** 2 if known else (abs(d.depth) * s["position_z"]["factor"] + s["position_z"]["offset"]) ** 2
    only(ctx, m, {2: (d.depth + rot_zyx(ctx, *att, arm)[2], var)}, "depth", d.epoch_timestamp)


@REG.harness([M + "from_usbl"])
def usbl_reading(ctx):
    silence(ctx)
    s = stds(ctx)
    u = repo("auv_nav.sensors").Usbl()
    known, (u.northings_std, u.eastings_std) = std_or_none(ctx, "ns", "es")
    for a in ("northings", "eastings", "depth"):
        setattr(u, a, ctx.real(a, lo=-500, hi=500))
    u.epoch_timestamp = ctx.real("t", lo=0, hi=100)
    att, arm = list(angles(ctx)), off(ctx, "arm")
    m = repo(E).Measurement(s)
    m.from_usbl(u, list(att), list(arm))
    o = rot_zyx(ctx, *att, arm)
    e = s["position_xy"]["offset"] + s["position_xy"]["factor"] * ctx.sqrt(u.northings ** 2 + u.eastings ** 2 + u.depth ** 2)
    only(ctx, m, {0: (u.northings + o[0], u.northings_std ** 2 if known else e * e), 1: (u.eastings + o[1], u.eastings_std ** 2 if known else e * e)}, "USBL", u.epoch_timestamp)


@REG.harness([M + "from_dvl"])
def velocity_reading(ctx):
    silence(ctx)
    s = stds(ctx)
    v = repo("auv_nav.sensors").SyncedOrientationBodyVelocity()
    known, sd = std_or_none(ctx, "sx", "sy", "sz")
    v.x_velocity_std, v.y_velocity_std, v.z_velocity_std = sd
    vel = [ctx.real("v" + a, lo=-5, hi=5) for a in "xyz"]
    v.x_velocity, v.y_velocity, v.z_velocity = vel
    v.epoch_timestamp = ctx.real("t", lo=0, hi=100)
    m = repo(E).Measurement(s)
    m.from_dvl(v)
    sp = s["speed"]
    ent = {}
    for i, a in enumerate("xyz"):
        f, o = sp.get("factor_" + a, sp.get("factor")), sp.get("offset_" + a, sp.get("offset"))
        ent[6 + i] = (vel[i], sd[i] ** 2 if known else (abs(vel[i]) * f + o) ** 2)
    only(ctx, m, ent, "DVL", v.epoch_timestamp)


@REG.harness([M + "from_orientation"])
def attitude_reading(ctx):
    silence(ctx)
    s = stds(ctx)
    v = repo("auv_nav.sensors").Orientation()
    known, sd = std_or_none(ctx, "sr", "sp", "sy")
    v.roll_std, v.pitch_std, v.yaw_std = sd
    a = [ctx.real("roll", lo=-180, hi=180), ctx.real("pitch", lo=-90, hi=90), ctx.real("yaw", lo=0, hi=360)]
    v.roll, v.pitch, v.yaw = a
    v.epoch_timestamp = ctx.real("t", lo=0, hi=100)
    m = repo(E).Measurement(s)
    m.from_orientation(v)
    so = s["orientation"]
    ent = {3 + i: (ctx.rad(a[i]), ctx.rad(sd[i] if known else so["offset"] + so["factor"] * abs(a[i])) ** 2) for i in range(3)}
    only(ctx, m, ent, "orientation", v.epoch_timestamp)
