"""R05: dead-reckoned track."""
from common import *
from procrun import *
from procrun import run as run_process, NS

REG = Registry("R05")
DR = "auv_nav.localisation.dead_reckoning"
UO = "auv_nav.localisation.usbl_offset"
FUN = [P + ".process", "auv_nav.tools.body_to_inertial.body_to_inertial", "auv_nav.tools.dvl_level_arm.correct_lever_arm",
       "auv_nav.tools.dvl_level_arm.compute_angular_speeds", DR + ".dead_reckoning", "auv_nav.tools.interpolate.interpolate"]


@REG.harness([DR + ".dead_reckoning"])
def trapezoidal_step(ctx):
    t0, t1 = ctx.real("t0", lo=0, hi=1000), ctx.real("t1", lo=0, hi=1000)
    v = [ctx.real("v%d" % i, lo=-5, hi=5) for i in range(4)]
    n, e = ctx.real("n", lo=-500, hi=500), ctx.real("e", lo=-500, hi=500)
    gn, ge = repo(DR).dead_reckoning(t1, t0, v[0], v[1], v[2], v[3], n, e)
    ctx.ensure_eq("northings", gn, n + (v[0] + v[1]) / 2 * (t1 - t0), scale=5000)
    ctx.ensure_eq("eastings", ge, e + (v[2] + v[3]) / 2 * (t1 - t0), scale=5000)


def at(seq, t, get):
    """linear interpolation; before the first measurement the first one"""
    if t <= seq[0]["epoch_timestamp"]:
        return get(seq[0])
    k = 1
    while k < len(seq) - 1 and seq[k]["epoch_timestamp"] < t:
        k += 1
    return lin(t, seq[k - 1]["epoch_timestamp"], seq[k]["epoch_timestamp"], get(seq[k - 1]), get(seq[k]))


def spec(ctx, os_, vs, ds, al, veh):
    """-> list of dicts, the dead-reckoned states at the DVL (before USBL shift)"""
    out = []
    vs = [dict(p, epoch_timestamp=p["epoch_timestamp_dvl"]) for p in vs]
    first = [i for i, o in enumerate(os_) if o["epoch_timestamp"] >= vs[0]["epoch_timestamp"]][0]
    for i in range(first, len(os_)):
        o = os_[i]
        t = o["epoch_timestamp"]
        if t > vs[-1]["epoch_timestamp"]:
            break
        yaw, roll, pitch = o["data"][0]["heading"], o["data"][1]["roll"], o["data"][2]["pitch"]
        a, b = os_[max(i - 1, 0)], os_[min(i + 1, len(os_) - 1)]
        dt = b["epoch_timestamp"] - a["epoch_timestamp"]
        w = [(b["data"][1]["roll"] - a["data"][1]["roll"]) / dt, (b["data"][2]["pitch"] - a["data"][2]["pitch"]) / dt,
             shortest(ctx, a["data"][0]["heading"], b["data"][0]["heading"]) / dt]
        w = [ctx.rad(x) for x in w]
        v = [at(vs, t, lambda p, k=k, c=c: p["data"][k][c + "_velocity"]) for k, c in enumerate("xyz")]
        s = [at(vs, t, lambda p, k=k, c=c: p["data"][k][c + "_velocity_std"]) for k, c in enumerate("xyz")]
        r = off3(veh.dvl)
        v = [v[0] + w[1] * r[2] - w[2] * r[1], v[1] + w[2] * r[0] - w[0] * r[2], v[2] + w[0] * r[1] - w[1] * r[0]]
        ned = rot_zyx(ctx, roll, pitch, yaw, v)
        e = dict(t=t, roll=roll, pitch=pitch, yaw=yaw, v=v, s=s, ned=ned, i=i,
                 std=[o["data"][1]["roll_std"], o["data"][2]["pitch_std"], o["data"][0]["heading_std"]],
                 depth=at(ds, t, lambda p: p["data"][0]["depth"]), depth_std=at(ds, t, lambda p: p["data"][0]["depth_std"]),
                 altitude=at(al, t, lambda p: p["data"][0]["altitude"]))
        if out:
            q = out[-1]
            h = (t - q["t"]) / 2
            e["n"], e["e"] = q["n"] + h * (ned[0] + q["ned"][0]), q["e"] + h * (ned[1] + q["ned"][1])
        else:
            e["n"], e["e"] = 0, 0
        out.append(e)
    return out, first


def check_tracks(ctx, rec, sp, first, veh, mis, shift=None, full=True):
    dvl, _ = rec.csv["auv_dr_dvl"]
    cen, _ = rec.csv["auv_dr_centre"]
    if first == 1:
        sp = sp[1:]
    ctx.ensure("one-state-per-attitude-inside-the-velocity-record", len(dvl) == len(sp) and len(cen) == len(sp), "%d/%d states, expected %d" % (len(dvl), len(cen), len(sp)))
    dn, de = shift if shift is not None else (0, 0)
    sc = 2000
    prev = None
    for g, c, e in zip(dvl, cen, sp):
        # position: the code's own previous state and velocities (each checked
        # against the specification above) plus the trapezoid of this step
        if prev is not None:
            h2 = (e["t"] - prev[1]["t"]) / 2
            e = dict(e)
            e["n"] = (prev[0].northings - dn) + h2 * (g.north_velocity + prev[0].north_velocity)
            e["e"] = (prev[0].eastings - de) + h2 * (g.east_velocity + prev[0].east_velocity)
        prev = (g, e)
        for h in (g, c):
            ctx.ensure_eq("time", h.epoch_timestamp, e["t"])
            ctx.ensure_eq("attitude", [h.roll, h.pitch, h.yaw], [e["roll"], e["pitch"], e["yaw"]])
            ctx.ensure_eq("attitude-std", [h.roll_std, h.pitch_std, h.yaw_std], e["std"])
            if full:
                ctx.ensure_eq("body-velocity", [h.x_velocity, h.y_velocity, h.z_velocity], e["v"], scale=20)
                ctx.ensure_eq("body-velocity-std", [h.x_velocity_std, h.y_velocity_std, h.z_velocity_std], e["s"], scale=5)
                ctx.ensure_eq("inertial-velocity", [h.north_velocity, h.east_velocity, h.down_velocity], list(e["ned"]), scale=50)
            ctx.ensure_eq("depth-std", h.depth_std, e["depth_std"])
        ctx.ensure_eq("dvl-northings", g.northings, e["n"] + dn, scale=sc)
        ctx.ensure_eq("dvl-eastings", g.eastings, e["e"] + de, scale=sc)
        ctx.ensure_eq("dvl-depth", g.depth, e["depth"], scale=100)
        ctx.ensure_eq("dvl-altitude", g.altitude, e["altitude"], scale=100)
        arm = rot_zyx(ctx, e["roll"], e["pitch"], e["yaw"], [a - b for a, b in zip(off3(veh.origin), off3(veh.dvl))])
        darm = rot_zyx(ctx, e["roll"], e["pitch"], e["yaw"], [a - b for a, b in zip(off3(veh.origin), off3(veh.depth))])
        ctx.ensure_eq("centre-northings", c.northings, e["n"] + arm[0] + dn, scale=sc)
        ctx.ensure_eq("centre-eastings", c.eastings, e["e"] + arm[1] + de, scale=sc)
        ctx.ensure_eq("centre-altitude", c.altitude, e["altitude"] - arm[2], scale=100)
        ctx.ensure_eq("centre-depth", c.depth, e["depth"] + darm[2], scale=100)
        if shift is not None:
            for h in (g, c):
                la, lo = rec.m2l(mis.origin.latitude, mis.origin.longitude, h.eastings, h.northings)
                ctx.ensure_eq("latitude", h.latitude, la, tol=1e-9)
                ctx.ensure_eq("longitude", h.longitude, lo, tol=1e-9)


def case(ctx, no, nv, nd, na, order, turns=False, usbl=0, full=True, base=0):
    """order: string over o/v/d/a giving the time order of all packets"""
    assert all(order.count(c) == n for c, n in zip("ovda", (no, nv, nd, na)))
    ts = ctx.increasing("t", len(order), gap=0.05, lo=1000, hi=1000 + 100)
    cnt = dict.fromkeys("ovda", 0)
    pk = {c: [] for c in "ovda"}
    allp = []
    for c, t in zip(order, ts):
        i = cnt[c]
        cnt[c] += 1
        if c == "o" and not turns:
            p = packet_orientation(ctx, i, t, ctx.real("yaw_centre", lo=90, hi=270) + ctx.real("yaw_d%d" % i, lo=-89, hi=89))
        else:
            p = {"o": packet_orientation, "v": packet_velocity, "d": packet_depth, "a": packet_altitude}[c](ctx, i, t)
        pk[c].append(p)
        allp.append(p)
    veh, mis = make_vehicle(ctx), make_mission(ctx)
    snapshot = copy.deepcopy(pk) if not ctx.symbolic else pk
    rec = run_process(ctx, allp, veh, mis)
    sp, first = spec(ctx, snapshot["o"], snapshot["v"], snapshot["d"], snapshot["a"], veh)
    check_tracks(ctx, rec, sp, first, veh, mis, full=full)


CASES = {
    # orientation measurements all inside one velocity interval
    "three_attitudes_one_velocity_interval": "vdaooovda",
    # attitudes before the velocity record
    "first_attitude_before_velocities": "odavooodav",
    "two_attitudes_before_velocities": "dovdaoovda".replace("d", "d", 1),
    # attitudes after the velocity record
    "attitudes_after_velocities": "davoovodao",
    # several velocity intervals
    "three_velocities": "davovoovda",
    "velocity_interval_without_attitude": "davovvodavo",
    # depth and altitude interleaved
    "depth_between_attitudes": "vdaoddoavo",
    "altitude_between_attitudes": "vdaoaaodv",
    "depth_and_altitude_start_late": "vodaovda",
}


def _mk(order, turns=False, full=True):
    def h(ctx):
        case(ctx, *[order.count(c) for c in "ovda"], order, turns=turns, full=full)

    return h


CASES["two_attitudes_before_velocities"] = "oodavoodav"
for _n, _o in CASES.items():
    _h = _mk(_o)
    _h.__name__ = _n
    REG.harness(FUN, kind="bounded", bound="packet order %s (o attitude, v velocity, d depth, a altitude), symbolic times and contents" % _o, samples=25, timeout_ms=15000)(_h)



@REG.harness(FUN, kind="bounded", bound="packet order vdaoovda; samples: up to 60 packets of each kind in any order", samples=20, timeout_ms=15000)
def long_missions(ctx):
    n = ctx.size("packets", [0], many=(25, 60))
    mid = list("o" + "ovda" * n)
    if n:
        import random

        random.Random(ctx.int("mixed", 0, 9999)).shuffle(mid)
    order = "vda" + "".join(mid) + "ovda"
    case(ctx, *[order.count(c) for c in "ovda"], order)


_h = _mk("vdaoovda", turns=True)
_h.__name__ = "turning_through_north"
REG.harness(FUN, kind="bounded", bound="2 attitudes, any headings", samples=40, timeout_ms=15000)(_h)


def offset_case(ctx, nd, nu):
    silence(ctx)
    td = ctx.increasing("td", nd, gap=0.05, lo=0, hi=18)
    tu = ctx.increasing("tu", nu, gap=0.05, lo=-10, hi=30, around=(td[0], td[-1]))
    n = [ctx.real("n%d" % i, lo=-50, hi=50) for i in range(nd)]
    e = [ctx.real("e%d" % i, lo=-50, hi=50) for i in range(nd)]
    un = [ctx.real("un%d" % i, lo=-50, hi=50) for i in range(nu)]
    ue = [ctx.real("ue%d" % i, lo=-50, hi=50) for i in range(nu)]
    for i in range(1, nu):
        ctx.assume(tu[i] - tu[i - 1] < 19)
    # fixes that count: those after the first one, inside the track
    if tu[0] < td[0]:
        first = 1
        while first < nu and tu[first] < td[0]:
            first += 1
        ctx.assume(first < nu and True)
        if first >= nu:
            return
        ctx.assume(td[0] - tu[first - 1] < 20)
    else:
        sd = 0
        while sd < nd and td[sd] < tu[0]:
            sd += 1
        if sd >= nd:
            ctx.assume(False)
        first = 1
        ctx.assume(tu[1] >= td[sd])
    used = [k for k in range(first, nu) if tu[k] <= td[-1]]
    if not used or (tu[0] >= td[0] and sd + 1 >= nd):
        ctx.assume(False)

    def dr(t, y):
        k = 1
        while k < nd - 1 and td[k] < t:
            k += 1
        return lin(t, td[k - 1], td[k], y[k - 1], y[k])

    got = repo(UO).usbl_offset(list(td), list(n), list(e), list(tu), list(un), list(ue))
    ctx.ensure_eq("north-shift", got[0], sum(un[k] - dr(tu[k], n) for k in used) / len(used), scale=100)
    ctx.ensure_eq("east-shift", got[1], sum(ue[k] - dr(tu[k], e) for k in used) / len(used), scale=100)


for _nd, _nu in ((2, 2), (3, 2), (3, 3), (4, 3), (4, 4)):
    def _f(ctx, a=_nd, b=_nu):
        offset_case(ctx, a, b)
    _f.__name__ = "usbl_offset_%d_track_%d_fixes" % (_nd, _nu)
    REG.harness([UO + ".usbl_offset"], kind="bounded", bound="%d track points, %d fixes less than 20 s apart" % (_nd, _nu), samples=150, thorough_only=(_nd, _nu) == (4, 4))(_f)


@REG.harness([P + ".process", UO + ".usbl_offset"], kind="bounded", bound="2 attitudes, 2 USBL fixes; the mean USBL offset is the callee's contract", samples=30)
def track_shifted_by_mean_usbl_offset(ctx):
    ts, ps = four(ctx)
    us = [packet_usbl(ctx, 0, ts[2]), packet_usbl(ctx, 1, ts[2])]
    veh, mis = make_vehicle(ctx), make_mission(ctx)
    dn, de = ctx.real("dn", lo=-50, hi=50), ctx.real("de", lo=-50, hi=50)
    seen = []

    def result(b):
        seen.append(b)
        return dn, de

    rec = run_process(ctx, ps[:4] + us + ps[4:], veh, mis, record=[("usbl_offset", result)])
    g = lambda c: [p for p in ps if p["category"] == c]
    sp, first = spec(ctx, g("orientation"), g("velocity"), g("depth"), g("altitude"), veh)
    cen, _ = rec.csv["auv_dr_centre"]
    ctx.ensure("offset-computed-once", len(seen) == 1)
    b = seen[0]
    ctx.ensure_eq("offset-track-times", b["time_dead_reckoning"], [c.epoch_timestamp for c in cen])
    ctx.ensure_eq("offset-track-northings", b["northings_dead_reckoning"], [c.northings - dn for c in cen], scale=1000)
    ctx.ensure_eq("offset-track-eastings", b["eastings_dead_reckoning"], [c.eastings - de for c in cen], scale=1000)
    ctx.ensure_eq("offset-fix-times", b["time_usbl"], [u["epoch_timestamp"] for u in us])
    ctx.ensure_eq("offset-fix-northings", b["northings_usbl"], [u["data_target"][2]["northings"] for u in us])
    ctx.ensure_eq("offset-fix-eastings", b["eastings_usbl"], [u["data_target"][3]["eastings"] for u in us])
    check_tracks(ctx, rec, sp, first, veh, mis, shift=(dn, de))


@REG.harness([P + ".process"], kind="bounded", bound="particle filter result of 2 states", samples=30)
def particle_filter_track_moved_to_the_centre(ctx):
    ts, ps = four(ctx)
    us = [packet_usbl(ctx, 0, ts[2])]
    veh, mis = make_vehicle(ctx), make_mission(ctx)
    pf, raw = [], []
    for i in range(2):
        o = repo("auv_nav.sensors").SyncedOrientationBodyVelocity()
        o.epoch_timestamp = ts[1 + 2 * i]
        for a in ("northings", "eastings", "depth", "altitude", "roll", "pitch", "yaw"):
            setattr(o, a, ctx.real("pf_%s%d" % (a, i), lo=-80, hi=80))
        pf.append(o)
        raw.append((o.northings, o.eastings, o.depth, o.altitude, o.roll, o.pitch, o.yaw))
    rec = run_process(ctx, ps[:4] + us + ps[4:], veh, mis, pf=pf, record=[("usbl_offset", lambda b: (0, 0))])
    dvl, _ = rec.csv["auv_pf_dvl"]
    cen, _ = rec.csv["auv_pf_centre"]
    ctx.ensure("states", len(dvl) == 2 and len(cen) == 2)
    for d, c, (n, e, z, alt, r, p, y) in zip(dvl, cen, raw):
        arm = rot_zyx(ctx, r, p, y, [a - b for a, b in zip(off3(veh.origin), off3(veh.dvl))])
        darm = rot_zyx(ctx, r, p, y, [a - b for a, b in zip(off3(veh.origin), off3(veh.depth))])
        ctx.ensure_eq("dvl", [d.northings, d.eastings, d.depth, d.altitude, d.roll, d.pitch, d.yaw], [n, e, z, alt, r, p, y])
        ctx.ensure_eq("centre", [c.northings, c.eastings], [n + arm[0], e + arm[1]], scale=100)
        ctx.ensure_eq("centre-depth", c.depth, z + darm[2], scale=100)
        ctx.ensure_eq("centre-altitude", c.altitude, alt - arm[2], scale=100)
        ctx.ensure_eq("attitude", [c.roll, c.pitch, c.yaw], [r, p, y])
        for h in (d, c):
            la, lo = rec.m2l(mis.origin.latitude, mis.origin.longitude, h.eastings, h.northings)
            ctx.ensure_eq("latlon", [h.latitude, h.longitude], [la, lo], tol=1e-9)


@REG.harness([P + ".process"], kind="bounded", bound="one packet of each kind outside the requested time span", samples=30)
def only_packets_inside_the_time_span(ctx):
    ts, ps = four(ctx)
    early, late = ctx.real("early", lo=0, hi=899), ctx.real("late", lo=1201, hi=2000)
    extra = []
    for k, t in enumerate((early, late)):
        extra.append([packet_velocity(ctx, 10 + k, t), packet_depth(ctx, 10 + k, t), packet_altitude(ctx, 10 + k, t), packet_orientation(ctx, 10 + k, t), packet_usbl(ctx, 10 + k, t)])
    veh, mis = make_vehicle(ctx), make_mission(ctx)
    # 900 s .. 1200 s after 1970-01-01 00:00
    rec = run_process(ctx, [None] + extra[0] + ps + extra[1], veh, mis, start="19700101001500", finish="19700101002000")
    g = lambda c: [p for p in ps if p["category"] == c]
    sp, first = spec(ctx, g("orientation"), g("velocity"), g("depth"), g("altitude"), veh)
    check_tracks(ctx, rec, sp, first, veh, mis)


@REG.harness([P + ".process"], kind="bounded", bound="one packet of each kind outside the time span, which starts and ends exactly at a packet", samples=20)
def packets_at_the_ends_of_the_time_span_count(ctx):
    inner = ctx.increasing("t", 3, gap=0.05, lo=901, hi=1199)
    ts, ps = four(ctx, ts=[900.0] + list(inner) + [1200.0])
    span = ctx.choice("span", ["given", "whole record"])
    extra = [[], []]
    if span == "given":
        for k, t in enumerate((ctx.real("early", lo=0, hi=899), ctx.real("late", lo=1201, hi=2000))):
            extra[k] = [packet_velocity(ctx, 10 + k, t), packet_depth(ctx, 10 + k, t), packet_altitude(ctx, 10 + k, t)]
    veh, mis = make_vehicle(ctx), make_mission(ctx)
    st, fi = ("19700101001500", "19700101002000") if span == "given" else ("", "")
    rec = run_process(ctx, [None] + extra[0] + ps + extra[1], veh, mis, start=st, finish=fi)
    g = lambda c: [p for p in ps if p["category"] == c]
    sp, first = spec(ctx, g("orientation"), g("velocity"), g("depth"), g("altitude"), veh)
    check_tracks(ctx, rec, sp, first, veh, mis)
