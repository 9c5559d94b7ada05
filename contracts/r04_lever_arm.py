"""R04: velocities corrected for the DVL position, angular rates from attitude."""
from common import *

REG = Registry("R04")
D = "auv_nav.tools.dvl_level_arm"


@REG.harness([D + ".correct_lever_arm"])
def lever_arm_adds_omega_cross_r(ctx):
    v, w, r = vec(ctx, "v", -10, 10), vec(ctx, "w", -400, 400), vec(ctx, "r", -10, 10)
    got = repo(D).correct_lever_arm(v, w, r)
    o = [ctx.rad(x) for x in w]
    want = [v[0] + o[1] * r[2] - o[2] * r[1], v[1] + o[2] * r[0] - o[0] * r[2], v[2] + o[0] * r[1] - o[1] * r[0]]
    ctx.ensure_eq("velocity", list(got), want, scale=10)


def attitude(ctx, n):
    C = repo("auv_nav.sensors").SyncedOrientationBodyVelocity
    ts = ctx.increasing("t", n)
    out = []
    for i in range(n):
        o = C()
        o.epoch_timestamp = ts[i]
        o.roll, o.pitch = ctx.real("roll%d" % i, lo=-80, hi=80), ctx.real("pitch%d" % i, lo=-80, hi=80)
        o.yaw = ctx.real("yaw%d" % i, lo=0, hi=360)
        out.append(o)
    return out


def rate_spec(ctx, a, b, got):
    dt = b.epoch_timestamp - a.epoch_timestamp
    ctx.ensure_eq("roll-rate", got[0], (b.roll - a.roll) / dt)
    ctx.ensure_eq("pitch-rate", got[1], (b.pitch - a.pitch) / dt)
    d = b.yaw - a.yaw
    turn = got[2] * dt
    ctx.ensure("yaw-rate-short-way", ctx.And(ctx.le(-180, turn, 1e-6), ctx.le(turn, 180, 1e-6)))
    congruent_360(ctx, "yaw-rate", turn, d)


def _mk(n):
    def h(ctx):
        o = attitude(ctx, n)
        i = ctx.int("i", 0, n - 1)
        i = int(i) if not ctx.symbolic else ctx.concretise(i)
        got = repo(D).compute_angular_speeds(o, i)
        a, b = o[max(i - 1, 0)], o[min(i + 1, n - 1)]
        rate_spec(ctx, a, b, got)

    h.__name__ = "angular_rates_of_%d_measurements" % n
    return h


for _n in (2, 3, 4, 6):
    REG.harness([D + ".compute_angular_speeds"], kind="bounded", bound="%d orientation measurements, any index, symbolic contents" % _n)(_mk(_n))
