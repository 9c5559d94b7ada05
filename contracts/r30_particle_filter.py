"""R30: the particle filter moves every particle along the dead reckoning and
weighs it by the USBL fixes, whatever noise is drawn.

randn() and uniform() are replaced by arbitrary reals (uniform in [0, 1)): their
contract is only their range, so what is shown holds for every draw."""
import itertools
import math

import numpy as np

from common import *
from r10_ekf_schedule import wiring_of_the_particle_filter

REG = Registry("R30")
PF = "auv_nav.localisation.pf"
NAMES = ("northings", "eastings", "depth", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity", "altitude")
ANGLES = ("roll", "pitch", "yaw")


def stds(ctx, axes):
    r = lambda n: ctx.real(n, lo=0, hi=2)
    sp = {k: r("speed_" + k) for k in (["factor" + a for a in ("_x", "_y", "_z")] + ["offset" + a for a in ("_x", "_y", "_z")] if axes else ["factor", "offset"])}
    return {"speed": dict(sp, model="linear"), "orientation": {"model": "linear", "factor": r("ori_f"), "offset": r("ori_o")},
            "position_z": {"model": "linear", "factor": r("z_f"), "offset": r("z_o")}, "position_xy": {"model": "linear", "factor": r("xy_f"), "offset": r("xy_o")}}


def state_record(ctx, tag, t=None):
    o = repo("auv_nav.sensors").SyncedOrientationBodyVelocity()
    o.epoch_timestamp = ctx.real("t_" + tag, lo=1, hi=1000) if t is None else t
    for a in NAMES:
        setattr(o, a, ctx.real("%s_%s" % (tag, a), lo=-170 if a in ANGLES else -50, hi=170 if a in ANGLES else 50))
    return o


def fix(ctx, tag, t):
    u = repo("auv_nav.sensors").Usbl()
    u.epoch_timestamp = t
    for a in ("northings", "eastings", "depth"):
        setattr(u, a, ctx.real("%s_%s" % (tag, a), lo=-50, hi=50))
        setattr(u, a + "_std", ctx.real("%s_%s_std" % (tag, a), gt=0, lo=0.1, hi=5))
    return u


def particle(ctx, tag, exact=None):
    p = repo(PF).Particle()
    x = np.array([ctx.real("%s_%s" % (tag, a), lo=-3 if a in ANGLES else -50, hi=3 if a in ANGLES else 50) for a in NAMES], dtype=object if ctx.symbolic else float)
    p.state = arr(ctx, x.reshape(10, 1))
    p.time = ctx.real(tag + "_time", lo=0, hi=1000)
    p.weight = ctx.real(tag + "_weight", lo=0.001, hi=1)
    return p


def arr(ctx, x):
    if not ctx.symbolic:
        return np.array(x, dtype=float)
    from pyvc.shims import SA

    return SA(np.array(x, dtype=object))


def draws(ctx, seq):
    """randn() yields the numbers of seq one after the other"""
    it = iter(seq)

    def randn(*shape):
        if not shape:
            return next(it)
        return arr(ctx, np.array([next(it) for _ in range(int(np.prod(shape)))], dtype=object).reshape(shape))

    ctx.patch(repo(PF), "randn", randn)


def noise_std(s, a, m, kd, ki, ctx):
    if a == "depth":
        return abs(m) * s["position_z"]["factor"] + s["position_z"]["offset"]
    if a in ANGLES:
        return (abs(m) * s["orientation"]["factor"] + ctx.rad(s["orientation"]["offset"])) * ki
    k = "_" + a[0] if "factor_x" in s["speed"] else ""
    return (abs(m) * s["speed"]["factor" + k] + s["speed"]["offset" + k]) * kd


def model(ctx, axes):
    s = stds(ctx, axes)
    kd, ki = ctx.real("kd", lo=0, hi=3), ctx.real("ki", lo=0, hi=3)
    return s, kd, ki, repo(PF).DeadReckoningMovementModel(s, kd, ki)


def rad_state(ctx, rec):
    return {a: ctx.rad(getattr(rec, a)) if a in ANGLES else getattr(rec, a) for a in NAMES}


def turned(ctx, x, v):
    return rot_zyx(ctx, ctx.deg(x["roll"]), ctx.deg(x["pitch"]), ctx.deg(x["yaw"]), v)


def _propagate(axes):
    def h(ctx):
        s, kd, ki, mm = model(ctx, axes)
        rec = state_record(ctx, "m")
        p = particle(ctx, "p")
        n0, e0, t0 = p.state[0, 0], p.state[1, 0], p.time
        g, dt = ctx.real("draw", lo=-4, hi=4), ctx.real("dt", lo=0, hi=10)
        draws(ctx, itertools.repeat(g))
        mm.set_movement(rec)
        mm.propagate(p, dt)
        m = rad_state(ctx, rec)
        x = {a: p.state[i, 0] for i, a in enumerate(NAMES)}
        for a in NAMES[3:9]:
            ctx.ensure_eq(a, x[a], m[a] + g * noise_std(s, a, m[a], kd, ki, ctx), scale=100)
        ctx.ensure_eq("altitude", x["altitude"], m["altitude"])
        d = turned(ctx, x, [x["x_velocity"], x["y_velocity"], x["z_velocity"]])
        ctx.ensure_eq("northings", x["northings"], n0 + d[0] * dt, scale=1000)
        ctx.ensure_eq("eastings", x["eastings"], e0 + d[1] * dt, scale=1000)
        ctx.ensure_eq("depth", x["depth"], m["depth"] + g * noise_std(s, "depth", m["depth"], kd, ki, ctx) + d[2] * dt, scale=1000)
        ctx.ensure_eq("time", p.time, t0 + dt)
        ctx.ensure("one-step", len(p.trajectory) == 1 and len(p.trajectory_time) == 1)
        ctx.ensure_eq("trajectory-state", np.asarray(p.trajectory[0]).reshape(-1), [x[a] for a in NAMES], scale=1000)
        ctx.ensure_eq("trajectory-time", p.trajectory_time[0], t0 + dt)

    h.__name__ = "one_step_of_a_particle" + ("_noise_per_axis" if axes else "")
    REG.harness([PF + ".DeadReckoningMovementModel.propagate", PF + ".DeadReckoningMovementModel.set_movement"], samples=60)(h)


_propagate(False)
_propagate(True)


@REG.harness([PF + ".DeadReckoningMovementModel.propagate", PF + ".ParticleToSyncedOrientationBodyVelocity"], samples=40)
def trajectory_keeps_every_step(ctx):
    """two steps; each keeps its own state and time, exported in degrees"""
    s, kd, ki, mm = model(ctx, False)
    p = particle(ctx, "p")
    n0, e0, t0 = p.state[0, 0], p.state[1, 0], p.time
    draws(ctx, itertools.repeat(0))
    recs, dts = [], []
    for k in range(2):
        recs.append(state_record(ctx, "m%d" % k))
        dts.append(ctx.real("dt%d" % k, lo=0, hi=10))
        mm.set_movement(recs[-1])
        mm.propagate(p, dts[-1])
    out = repo(PF).ParticleToSyncedOrientationBodyVelocity(p)
    ctx.ensure("two-states", len(out) == 2)
    n, e, t = n0, e0, t0
    for k, (o, r, dt) in enumerate(zip(out, recs, dts)):
        d = rot_zyx(ctx, r.roll, r.pitch, r.yaw, [r.x_velocity, r.y_velocity, r.z_velocity])
        n, e, t = n + d[0] * dt, e + d[1] * dt, t + dt
        ctx.ensure_eq("time%d" % k, o.epoch_timestamp, t)
        ctx.ensure_eq("northings%d" % k, o.northings, n, scale=1000)
        ctx.ensure_eq("eastings%d" % k, o.eastings, e, scale=1000)
        ctx.ensure_eq("depth%d" % k, o.depth, r.depth + d[2] * dt, scale=1000)
        for a in ANGLES:
            ctx.ensure_eq("%s%d" % (a, k), getattr(o, a), getattr(r, a), scale=100)
        for a in ("x_velocity", "y_velocity", "z_velocity", "altitude"):
            ctx.ensure_eq("%s%d" % (a, k), getattr(o, a), getattr(r, a), scale=100)


@REG.harness([PF + ".DeadReckoningMovementModel.propagate"], kind="bounded", bound="one draw of 1 and the others 0, each in turn", samples=20)
def every_quantity_has_noise_of_its_own(ctx):
    m = repo(PF)
    s = {"speed": {"factor": 0, "offset": 0.5}, "orientation": {"factor": 0, "offset": 3}, "position_z": {"factor": 0, "offset": 2}}
    rec = state_record(ctx, "m", t=0)
    rec.x_velocity = rec.y_velocity = rec.z_velocity = 0
    touched = []
    for k in range(7):
        mm = m.DeadReckoningMovementModel(s, 1, 1)
        p = m.Particle()
        p.time = 0
        draws(ctx, [1 if i == k else 0 for i in range(7)] + [0] * 20)
        mm.set_movement(rec)
        mm.propagate(p, 0)
        want = rad_state(ctx, rec)
        std = dict(depth=2, roll=ctx.rad(3), pitch=ctx.rad(3), yaw=ctx.rad(3), x_velocity=0.5, y_velocity=0.5, z_velocity=0.5)
        ch = [a for i, a in enumerate(NAMES) if i > 1 and not bool(abs(p.state[i, 0] - want[a]) < 1e-9)]
        ctx.ensure("one-quantity-per-draw", len(ch) == 1, str(ch))
        touched += ch
        ctx.ensure_eq("noise-of-" + ch[0], p.state[NAMES.index(ch[0]), 0], want[ch[0]] + std[ch[0]], scale=10)
    ctx.ensure("every-quantity-noisy", sorted(touched) == sorted(NAMES[2:9]), str(touched))


def gauss(ctx, d2, sigma2):
    return ctx.exp(-d2 / sigma2 / 2) / ctx.sqrt(2 * math.pi * sigma2)


@REG.harness([PF + ".UsblObservationModel.measure", PF + ".UsblObservationModel.set_observation"], samples=80)
def distance_of_a_particle_to_a_fix(ctx):
    """the weight is the Gaussian of the distance, its width the three standard
    deviations of the fix together times the factor (gaussian_pdf by contract)"""
    m = repo(PF)
    k = ctx.real("k", gt=0, lo=0.1, hi=3)
    om = m.UsblObservationModel(k)
    p, u = particle(ctx, "p"), fix(ctx, "u", 5.0)
    seen = []
    g = ctx.real("density", lo=0, hi=1)
    ctx.patch(m, "gaussian_pdf", lambda mu, sigma, x: (seen.append((mu, sigma, x)), g)[1])
    before = np.array(np.asarray(p.state), dtype=object if ctx.symbolic else float)
    om.set_observation(u)
    w = om.measure(p)
    ctx.ensure_eq("density-is-the-weight", w, g)
    ctx.ensure("one-density", len(seen) == 1)
    mu, sigma, x = seen[0]
    d2 = sum([(getattr(u, a) - before[i, 0]) ** 2 for i, a in enumerate(NAMES[:3])])
    s2 = u.northings_std ** 2 + u.eastings_std ** 2 + u.depth_std ** 2
    ctx.ensure("distance-not-negative", x >= mu)
    ctx.ensure_eq("distance", (x - mu) ** 2, d2, scale=10000)
    ctx.ensure("width-positive", sigma > 0)
    ctx.ensure_eq("width", sigma ** 2, k ** 2 * s2, scale=100)
    ctx.ensure("error-recorded", len(p.trajectory_error) == 1)
    ctx.ensure_eq("error", p.trajectory_error[0] ** 2, d2, scale=10000)
    ctx.ensure_eq("particle-unchanged", np.asarray(p.state).reshape(-1), before.reshape(-1))


@REG.harness([PF + ".gaussian_pdf"], samples=100)
def gaussian(ctx):
    mu, x, s = ctx.real("mu", lo=-50, hi=50), ctx.real("x", lo=-50, hi=50), ctx.real("sigma", gt=0, lo=0.5, hi=20)
    g = repo(PF).gaussian_pdf(mu, s, x)
    if ctx.symbolic:
        # exp() by contract: the exponent is what is handed to it
        from pyvc.sym import rv
        e = ctx.exp(-((mu - x) ** 2) / (s * s) / 2)
        r = ctx.sqrt(2 * math.pi * (s * s))
        ctx.ensure_eq("density", g * r, e)
    else:
        ctx.ensure_eq("density", g, math.exp(-((mu - x) ** 2) / s ** 2 / 2) / (s * math.sqrt(2 * math.pi)), tol=1e-9)


def filled(ctx, n, mm=None, om=None, weights=None):
    m = repo(PF)
    f = m.ParticleFilter(n, mm, om, expected_iterations=ctx.choice("expected", [0, 40]))
    ps = []
    for i in range(n):
        p = m.Particle()
        p.time = i
        p.weight = weights[i]
        p.tag = i
        ps.append(p)
    f.particles = list(ps)
    return f, ps


def _measure(n):
    def h(ctx):
        w = [ctx.real("w%d" % i, gt=0, lo=0.01, hi=1) for i in range(n)]
        g = [ctx.real("g%d" % i, lo=0, hi=1) for i in range(n)]
        seen = []

        class Om:
            def measure(self, p):
                seen.append(p.tag)
                return g[p.tag]

        f, ps = filled(ctx, n, None, Om(), w)
        f.measure()
        ctx.ensure("every-particle-weighed-once", sorted(seen) == list(range(n)), str(seen))
        ctx.ensure("same-particles", sorted(p.tag for p in f.particles) == list(range(n)) and all(any(p is q for q in ps) for p in f.particles))
        tot = sum([a * b for a, b in zip(w, g)])
        ctx.ensure_eq("weights-add-up-to-one", sum([p.weight for p in f.particles]), 1)
        for p in f.particles:
            if tot > 0:
                ctx.ensure_eq("weight", p.weight * tot, w[p.tag] * g[p.tag])
            else:
                ctx.ensure_eq("indistinguishable", p.weight, 1.0 / n)
        for p, q in zip(f.particles, f.particles[1:]):
            ctx.ensure("likeliest-first", p.weight >= q.weight - (0 if ctx.symbolic else 1e-12))
        sq = sum([p.weight ** 2 for p in f.particles])
        ctx.ensure_eq("effective-number", f.get_neff() * sq, 1)
        ctx.ensure("resamples-below-half", bool(f.should_resample()) == bool(1 < sq * n / 2.0))

    h.__name__ = "measuring_%d_particles" % n
    REG.harness([PF + ".ParticleFilter.measure", PF + ".ParticleFilter.normalize", PF + ".ParticleFilter.get_neff", PF + ".ParticleFilter.should_resample"], kind="bounded", bound="%d particles, any weights and densities" % n, samples=100)(h)


for _n in (1, 2, 3):
    _measure(_n)


@REG.harness([PF + ".ParticleFilter.measure"], kind="sample", bound="3 particles, fixes up to hundreds of standard deviations away", samples=60)
def fixes_after_an_outlier_count(ctx):
    m = repo(PF)
    om = m.UsblObservationModel(1.0)
    f = m.ParticleFilter(3, None, om)
    f.set_prior(m.Particle())
    for i, p in enumerate(f.particles):
        p.state[0, 0] = 10.0 * i
    S = repo("auv_nav.sensors").Usbl
    for far in (ctx.real("far", lo=5, hi=5000), 0.0):
        u = S()
        u.northings, u.eastings, u.depth = 10.0, far, 0.0
        u.northings_std = u.eastings_std = u.depth_std = 1.0
        f.set_observation(u)
        f.measure()
        ctx.ensure_eq("weights-add-up-to-one", sum(p.weight for p in f.particles), 1)
    ctx.ensure("nearest-particle-wins", f.particles[0].state[0, 0] == 10.0)


def _resample(n):
    def h(ctx):
        if ctx.symbolic:
            w = [ctx.real("w%d" % i, gt=0) for i in range(n)]
            ctx.assume(sum(w) == 1)
        else:
            w = [ctx.real("w%d" % i, lo=0.01, hi=1) for i in range(n)]
            w = [x / sum(w) for x in w]
        u = ctx.real("uniform", lo=0, hi=0.999999)
        m = repo(PF)
        ctx.patch(m, "uniform", lambda *a, **k: u)
        f, ps = filled(ctx, n, weights=w)
        for p in ps:
            p.state[0, 0] = p.tag
            p.trajectory = [np.array([[float(p.tag)]])]
        f.resample()
        ctx.ensure("number-kept", len(f.particles) == n)
        tags = []
        for p in f.particles:
            ctx.ensure("copy-of-a-particle", p is not None and p.state[0, 0] == p.tag and p.time == p.tag and p.trajectory[0][0, 0] == p.tag)
            ctx.ensure_eq("equal-weights", p.weight, 1.0 / n)
            tags.append(p.tag)
        ctx.ensure("independent-copies", len({id(p) for p in f.particles}) == n and len({id(p.state) for p in f.particles}) == n and len({id(p.trajectory) for p in f.particles}) == n)
        # systematic resampling: the number of copies is the weight times n,
        # rounded up or down
        eps = 1e-9  # 1/n is a machine number
        for i in range(n):
            c = tags.count(i)
            ctx.ensure("copies-by-weight", ctx.And(c > w[i] * n - 1 - eps, c < w[i] * n + 1 + eps), "%d copies of %s" % (c, w[i] * n))
        for a, b in zip(tags, tags[1:]):
            ctx.ensure("order-kept", a <= b)

    h.__name__ = "resampling_%d_particles" % n
    REG.harness([PF + ".ParticleFilter.resample"], kind="bounded", bound="%d particles, any weights" % n, samples=100)(h)


for _n in (1, 2, 3, 4):
    _resample(_n)


@REG.harness([PF + ".ParticleFilter.propagate", PF + ".ParticleFilter.set_prior", PF + ".ParticleFilter.__init__"], kind="bounded", bound="3 particles, 5 steps", samples=20)
def every_particle_moves_on_its_own(ctx):
    m = repo(PF)
    log = []

    class Mm:
        def propagate(self, p, dt):
            log.append((p, dt))
            p.state[0, 0] = len(log)
            p.trajectory.append(len(log))

    f = m.ParticleFilter(3, Mm(), None, expected_iterations=ctx.choice("expected", [0, 20, 60]))
    prior = particle(ctx, "p")
    x = [v for v in np.asarray(prior.state).reshape(-1)]
    f.set_prior(prior)
    ctx.ensure("three", len(f.particles) == 3 and len({id(p) for p in f.particles}) == 3)
    for p in f.particles:
        ctx.ensure_eq("prior-state", np.asarray(p.state).reshape(-1), x)
        ctx.ensure_eq("prior-time", p.time, prior.time)
        ctx.ensure_eq("equal-weights", p.weight, 1.0 / 3)
    for k in range(5):
        dt = ctx.real("dt%d" % k, lo=0, hi=10)
        ps = list(f.particles)
        f.propagate(dt)
        step = log[-3:]
        ctx.ensure("each-once", len(log) == 3 * (k + 1) and {id(p) for p, _ in step} == {id(p) for p in ps})
        for _, d in step:
            ctx.ensure_eq("step", d, dt)
        ctx.ensure("same-particles", all(a is b for a, b in zip(ps, f.particles)))
    for p in f.particles:
        ctx.ensure("own-trajectory", len(p.trajectory) == 5 and p.state[0, 0] == p.trajectory[-1])
    for past in f.particles_history[1:]:
        ctx.ensure("history-not-shared", not any(a is b for a in past for b in f.particles))


def _prior(nd, nu):
    def h(ctx):
        td = ctx.increasing("td", nd, gap=0.05, lo=100, hi=150)
        tu = ctx.increasing("tu", nu, gap=0.05, lo=90, hi=160)
        dr = [state_record(ctx, "d%d" % i, t) for i, t in enumerate(td)]
        us = [fix(ctx, "u%d" % i, t) for i, t in enumerate(tu)]
        p, di, ui = repo(PF).get_prior(dr, us)
        want = rad_state(ctx, dr[0])
        ctx.ensure_eq("starts-at-the-first-state", np.asarray(p.state).reshape(-1), [want[a] for a in NAMES], scale=100)
        ctx.ensure_eq("start-time", p.time, td[0])
        ctx.ensure("starts-with-the-first-state", di == 0)
        k = len([t for t in tu if t < td[0]])
        ctx.ensure("skips-the-fixes-before-it", ui == k, "%s, expected %d" % (ui, k))

    h.__name__ = "start_of_the_filter_%d_states_%d_fixes" % (nd, nu)
    REG.harness([PF + ".get_prior"], kind="bounded", bound="%d states, %d fixes in any order" % (nd, nu), samples=60)(h)


for _a in ((2, 1), (3, 2), (2, 3)):
    _prior(*_a)


class Recorder:
    """callee contract of ParticleFilter: records what it is asked to do"""

    def __init__(self, ctx, log, resample):
        self.log, self.resample_flag = log, resample
        self.particles, self.particles_history = [], ["history"]

    def set_prior(self, p):
        self.log.append(("prior", p))
        other = repo(PF).Particle()
        p.weight, other.weight = 0.75, 0.25  # the likeliest first, as measure() leaves them
        self.particles = [p, other]

    def set_movement(self, v):
        self.movement = v

    def set_observation(self, v):
        self.observation = v

    def propagate(self, dt):
        self.log.append(("propagate", dt, self.movement))

    def measure(self):
        self.log.append(("measure", self.observation))

    def should_resample(self):
        return self.resample_flag()

    def resample(self):
        self.log.append(("resample", None))


def run_case(ctx, nd, nu):
    m = repo(PF)
    silence(ctx)
    td = ctx.increasing("td", nd, gap=0.05, lo=100, hi=150)
    tu = ctx.increasing("tu", nu, gap=0.05, lo=90, hi=160)
    S = repo("auv_nav.sensors")
    dr, us = [], []
    for lst, cls, ts in ((dr, S.SyncedOrientationBodyVelocity, td), (us, S.Usbl, tu)):
        for t in ts:
            lst.append(cls())
            lst[-1].epoch_timestamp = t
    ui = len([t for t in tu if t < td[0]])
    log = []
    prior = m.Particle()
    prior.time = td[0]
    k = [0]

    def flag():
        k[0] += 1
        log.append(("asked", None))
        return ctx.flag("resample%d" % k[0])

    rec = Recorder(ctx, log, flag)
    s = stds(ctx, ctx.choice("axes", [False, True]))
    made = {}

    def make(n, mm, om, **kw):
        made.update(n=n, mm=mm, om=om)
        return rec

    ctx.patch(m, "ParticleFilter", make)
    ctx.patch(m, "get_prior", lambda d, u: (prior, 0, ui))
    ctx.patch(m, "DeadReckoningMovementModel", lambda *a: ("mm",) + a)
    ctx.patch(m, "UsblObservationModel", lambda *a: ("om",) + a)
    ctx.patch(m, "ParticleToSyncedOrientationBodyVelocity", lambda p: ("track of", p))
    out = m.run_particle_filter(us, dr, 7, s, 2.0, 3.0, 4.0, True)
    ctx.ensure("settings", made["n"] == 7 and made["mm"][1] is s and made["mm"][2:] == (2.0, 3.0) and made["om"][1:] == (4.0,))
    ctx.ensure("starts-from-the-prior", log[0] == ("prior", prior))
    # events in time order; a fix at the time of a state may come before or after it
    ev = [(t, "d", x) for t, x in zip(td, dr)] + [(t, "u", x) for t, x in zip(tu, us) if t >= td[0]]
    n = len([1 for e in ev if e[1] == "d"])
    pos, last, mv, used, resampled = 1, td[0], None, [], []
    todo_d, todo_u = list(dr), [x for t, x in zip(tu, us) if t >= td[0]]
    while todo_d:
        ctx.ensure("every-state-and-fix-has-its-step", pos < len(log))
        e = log[pos]
        ctx.ensure("moves-first", e[0] == "propagate", e[0])
        pos += 1
        is_fix = pos < len(log) and log[pos][0] == "measure"
        if is_fix:
            ctx.ensure("fix-in-order", len(todo_u) > 0 and log[pos][1] is todo_u[0])
            x = todo_u.pop(0)
            ctx.ensure("fix-not-late", x.epoch_timestamp <= todo_d[0].epoch_timestamp)
            ctx.ensure("moves-as-in-the-last-state", e[2] is (mv if mv is not None else dr[0]))
            pos += 1
            ctx.ensure("asks-whether-to-resample", log[pos][0] == "asked")
            pos += 1
            if pos < len(log) and log[pos][0] == "resample":
                resampled.append(x)
                pos += 1
        else:
            x = todo_d.pop(0)
            ctx.ensure("state-not-late", not todo_u or bool(x.epoch_timestamp <= todo_u[0].epoch_timestamp))
            ctx.ensure("moves-as-in-this-state", e[2] is x)
            mv = x
        ctx.ensure_eq("step", e[1], x.epoch_timestamp - last)
        last = x.epoch_timestamp
    if pos < len(log):  # a fix at the very last state
        ctx.ensure("nothing-after-the-track", len(todo_u) > 0 and bool(ctx.And(todo_u[0].epoch_timestamp == td[-1])), str(log[pos:]))
    for i in range(1, k[0] + 1):
        if ctx.flag("resample%d" % i):
            pass
    ctx.ensure("resamples-when-needed", len(resampled) == len([1 for i in range(1, k[0] + 1) if ctx.flag("resample%d" % i)]))
    ctx.ensure("track-of-the-likeliest", out[0][0] == "track of" and out[0][1] is prior)
    ctx.ensure("fixes-that-led-to-resampling", len(out[1]) == len(resampled) and all(a is b for a, b in zip(out[1], resampled)))


for _nd, _nu in ((2, 0), (2, 1), (2, 2), (3, 1), (3, 2)):
    def _h(ctx, a=_nd, b=_nu):
        run_case(ctx, a, b)

    _h.__name__ = "run_%d_states_%d_fixes" % (_nd, _nu)
    REG.harness([PF + ".run_particle_filter"], kind="bounded", bound="%d states, %d fixes, any order and ties" % (_nd, _nu), samples=60)(_h)


# ------------------------------------------------- records of any length
def any_length(ctx, phase):
    from anylen import records, integer
    from pyvc.loops import Loop
    from pyvc.symlist import same_item

    silence(ctx)
    m, S = repo(PF), repo("auv_nav.sensors")
    dr = records("dr", S.SyncedOrientationBodyVelocity, [])
    us = records("us", S.Usbl, [])
    log, old = [], {}
    prior = m.Particle()
    first = ctx.fresh_int("first_fix")
    ctx.assume(ctx.And(dr.n >= 2, first >= 0, first <= us.n))
    td = lambda i: dr.item(i).epoch_timestamp
    tu = lambda i: us.item(i).epoch_timestamp
    ctx.assume(ctx.implies(first < us.n, tu(first) >= td(integer(0))))
    ctx.assume(ctx.implies(first > 0, tu(first - 1) < td(integer(0))))

    class Pf:
        particles = [prior]
        particles_history = []

        def set_prior(self, p):
            pass

        def set_movement(self, v):
            self.movement = v

        def set_observation(self, v):
            self.observation = v

        def propagate(self, dt):
            log.append(("propagate", dt, self.movement))

        def measure(self):
            log.append(("measure", self.observation))

        def should_resample(self):
            return ctx.fresh_bool("resample")

        def resample(self):
            log.append(("resample",))

    ctx.patch(m, "ParticleFilter", lambda *a, **k: Pf())
    ctx.patch(m, "get_prior", lambda d, u: (prior, 0, first))
    ctx.patch(m, "ParticleToSyncedOrientationBodyVelocity", lambda p: ["track"])

    def ordered(env):
        d, u, last = integer(env["dr_idx"]), integer(env["usbl_idx"]), env["last_t"]
        r = [("in-range", ctx.And(d >= 0, d <= dr.n, u >= first, u <= us.n))]
        r.append(("states-not-late", ctx.implies(ctx.And(d > 0, u < us.n), td(d - 1) <= tu(u))))
        r.append(("fixes-not-late", ctx.implies(ctx.And(u > first, d < dr.n), tu(u - 1) <= td(d))))
        r.append(("time-reached", ctx.And(ctx.implies(d > 0, last >= td(d - 1)), ctx.implies(u > first, last >= tu(u - 1)),
                                          ctx.Or(ctx.And(d == 0, u == first, last == td(integer(0))), ctx.And(d > 0, last == td(d - 1)), ctx.And(u > first, last == tu(u - 1))))))
        return r

    def check(env):
        d, u, last = old["d"], old["u"], old["last"]
        seq = list(log)
        e = seq.pop(0) if seq else ("nothing",)
        ctx.ensure("moves-first", e[0] == "propagate", e[0])
        if e[0] != "propagate":
            return
        if seq and seq[0][0] == "measure":
            b = seq.pop(0)
            ctx.ensure("next-fix", same_item(b[1], us.item(u)))
            ctx.ensure("fix-is-due", tu(u) <= td(d))
            ctx.ensure("moves-as-in-the-last-state", e[2] is old["movement"])
            ctx.ensure_eq("step-to-the-fix", e[1], tu(u) - last)
            if seq and seq[0][0] == "resample":
                seq.pop(0)
            nd, nu = d, u + 1
        else:
            ctx.ensure("moves-as-in-this-state", same_item(e[2], dr.item(d)))
            ctx.ensure("state-is-due", ctx.implies(u < us.n, td(d) <= tu(u)))
            ctx.ensure_eq("step-to-the-state", e[1], td(d) - last)
            nd, nu = d + 1, u
        ctx.ensure("nothing-else", not seq, str(seq))
        ctx.ensure_eq("next-state", integer(env["dr_idx"]), nd)
        ctx.ensure_eq("next-fix-index", integer(env["usbl_idx"]), nu)

    def inv(env, k):
        if "d" in old:
            if old.pop("fresh", None):
                return ordered(env)
            check(env)
        else:
            ctx.ensure("nothing-before-the-first-event", not log)
        return ordered(env)

    def havoc(env, k):
        old.update(d=ctx.fresh_int("d"), u=ctx.fresh_int("u"), last=ctx.fresh_real("last"), fresh=True)
        old["movement"] = S.SyncedOrientationBodyVelocity()
        env["pf"].movement = old["movement"]
        del log[:]
        return {"dr_idx": old["d"], "usbl_idx": old["u"], "last_t": old["last"]}

    F = "run_particle_filter"
    ctx.scratch["loops"] = {(F, "kinds"): ctx.scratch["kinds"], (F, ctx.scratch["main"]): Loop(
        "steps", inv, havoc, modifies=lambda env: [env["pf"], env["resampled_usbl_list"]], decreases=lambda env: dr.n - env["dr_idx"] + us.n - env["usbl_idx"])}
    sd = {k: {"factor": 0.1, "offset": 0.2} for k in ("speed", "orientation", "position_z", "position_xy")}
    out = m.run_particle_filter(us, dr, 7, sd, 2.0, 3.0, 4.0, True)
    ctx.ensure("ends-with-the-track", old["d"] >= dr.n)
    ctx.ensure("nothing-after-the-track", not log, str(log))
    ctx.ensure("result", out[0] == ["track"])


def _any(ctx):
    if ctx.symbolic:
        ctx.scratch["kinds"], ctx.scratch["main"] = "fw", 1
        return any_length(ctx, None)
    run_case(ctx, ctx.choice("nd", [2, 5, 40]), ctx.choice("nu", [0, 3, 12]))


_any.__name__ = "records_of_any_length"
REG.harness([PF + ".run_particle_filter"], loops=[PF + ".run_particle_filter"], samples=15, max_paths=20000)(_any)


REG.harness(["auv_nav.process.process"], kind="bounded", bound="one packet order, three camera layouts", samples=6)(wiring_of_the_particle_filter)


@REG.harness([PF + ".run_particle_filter", PF + ".ParticleFilter.propagate", PF + ".ParticleFilter.measure", PF + ".ParticleFilter.resample"], kind="sample", bound="whole filter, 30 states, 4 fixes, 5 particles, drawn noise", samples=6)
def whole_filter_without_noise_follows_the_track(ctx):
    """with no noise all the particles are the same and the result is the dead
    reckoned track"""
    silence(ctx)
    m = repo(PF)
    z = {"factor": 0.0, "offset": 0.0}
    s = {"speed": z, "orientation": z, "position_z": z, "position_xy": z}
    dr = [state_record(ctx, "d%d" % i, t) for i, t in enumerate(ctx.increasing("td", 30, gap=0.05, lo=100, hi=150))]
    us = [fix(ctx, "u%d" % i, t) for i, t in enumerate(ctx.increasing("tu", 4, gap=0.05, lo=90, hi=149))]
    out = m.run_particle_filter(us, dr, 5, s, 1.0, 1.0, 1.0, True)[0]
    ts = sorted([(d.epoch_timestamp, 1, d) for d in dr] + [(u.epoch_timestamp, 0, None) for u in us if u.epoch_timestamp >= dr[0].epoch_timestamp], key=lambda e: e[:2])
    ctx.ensure("one-pose-per-event", len(out) == len(ts), "%d, expected %d" % (len(out), len(ts)))
    n, e, last, mv = dr[0].northings, dr[0].eastings, dr[0].epoch_timestamp, dr[0]
    for o, (t, _, d) in zip(out, ts):
        mv = d if d is not None else mv
        v = rot_zyx(ctx, mv.roll, mv.pitch, mv.yaw, [mv.x_velocity, mv.y_velocity, mv.z_velocity])
        n, e = n + v[0] * (t - last), e + v[1] * (t - last)
        ctx.ensure_eq("pose", [o.epoch_timestamp, o.northings, o.eastings, o.depth, o.roll, o.pitch, o.yaw, o.altitude], [t, n, e, mv.depth + v[2] * (t - last), mv.roll, mv.pitch, mv.yaw, mv.altitude], scale=1000)
        last = t
