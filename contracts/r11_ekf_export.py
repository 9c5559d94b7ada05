"""R11: filter states exported as navigation states and camera poses."""
from ekfspec import *
from procrun import NS, off3, offsets_of

REG = Registry("R11")
S = "auv_nav.sensors"
POS = ("northings", "eastings", "depth")
ANG = ("roll", "pitch", "yaw")
VEL = ("x_velocity", "y_velocity", "z_velocity")
RATE = ("vroll", "vpitch", "vyaw")


def cov_diag(ctx):
    """any covariance; its diagonal may be slightly negative (round-off)"""
    C = any_matrix(ctx, "C", DIM, DIM, lim=9)
    return C


def ekf_state(ctx, tag="s", t=None, full=True):
    x = state(ctx, tag, ang=7, lim=500)
    C = cov_diag(ctx) if full else sym_matrix(ctx, "P", idx=[])
    return repo(E).EkfState(ctx.real(tag + "_t", lo=0, hi=1000) if t is None else t, arr(ctx, x), mat(ctx, C)), x, C


def std_of(ctx, v):
    return ctx.ite(v > 0, ctx.sqrt(ctx.ite(v > 0, v, 0)), 0)


def check_units(ctx, b, t, x, C):
    ctx.ensure_eq("time", b.epoch_timestamp, t)
    for i, n in enumerate(POS):
        ctx.ensure_eq(n, getattr(b, n), x[i, 0])
    for i, n in enumerate(ANG):
        ctx.ensure_eq(n + "-degrees", getattr(b, n), ctx.deg(x[3 + i, 0]), scale=100)
    for i, n in enumerate(VEL):
        ctx.ensure_eq(n, getattr(b, n), x[6 + i, 0])
    for i, n in enumerate(RATE):
        ctx.ensure_eq(n + "-degrees", getattr(b, n), ctx.deg(x[9 + i, 0]), scale=100)


@REG.harness([E + ".EkfState.toSyncedOrientationBodyVelocity"], max_paths=9000)
def state_values_and_units(ctx):
    silence(ctx)
    s, x, C = ekf_state(ctx, full=False)
    b = s.toSyncedOrientationBodyVelocity()
    check_units(ctx, b, s.time, x, C)
    ctx.ensure_eq("covariance", np.asarray(b.covariance).reshape(-1), np.asarray(C).reshape(-1))


STD = (["northing_std", "easting_std", "depth_std", "roll_std_deg", "pitch_std_deg", "yaw_std_deg", "surge_velocity_std", "sway_velocity_std", "heave_velocity_std",
        "roll_velocity_std_deg_p_s", "pitch_velocity_std_deg_p_s", "yaw_velocity_std_deg_p_s"])
FIELD = [n + "_std" for n in POS + ANG + VEL + RATE]


def _std(i):
    def h(ctx):
        silence(ctx)
        C = sym_matrix(ctx, "P", idx=[], spd=False)
        v = ctx.real("var", lo=-9, hi=9)
        C[i, i] = v
        s = repo(E).EkfState(0, arr(ctx, state(ctx)), mat(ctx, C))
        want = ctx.ite(v > 0, ctx.sqrt(ctx.ite(v > 0, v, 0)), 0)
        want = ctx.deg(want) if 3 <= i <= 5 or i >= 9 else want
        ctx.ensure_eq("std", getattr(s, STD[i])(), want, scale=100)
        b = s.toSyncedOrientationBodyVelocity()
        ctx.ensure_eq("exported-std", getattr(b, FIELD[i]), want, scale=100)

    h.__name__ = "std_of_" + FIELD[i][:-4]
    REG.harness([E + ".EkfState." + STD[i], E + ".EkfState.toSyncedOrientationBodyVelocity"])(h)


for _i in range(DIM):
    _std(_i)


@REG.harness([E + ".EkfState.toSyncedOrientationBodyVelocity", E + ".EkfState.fromSyncedOrientationBodyVelocity"])
def state_round_trip(ctx):
    silence(ctx)
    s, x, C = ekf_state(ctx, full=False)
    b = s.toSyncedOrientationBodyVelocity()
    r = repo(E).EkfState(None, arr(ctx, np.zeros((DIM, 1))), None)
    r.fromSyncedOrientationBodyVelocity(b)
    ctx.ensure_eq("time", r.time, s.time)
    ctx.ensure_eq("state", np.asarray(r.state).reshape(-1), x.reshape(-1), scale=500)
    ctx.ensure("covariance", r.covariance is b.covariance)


@REG.harness([E + ".ExtendedKalmanFilter.build_state"])
def initial_state_in_filter_units(ctx):
    silence(ctx)
    b = repo(S).SyncedOrientationBodyVelocity()
    v = {n: ctx.real(n, lo=-400, hi=400) for n in POS + ANG + VEL}
    for n, w in v.items():
        setattr(b, n, w)
    f = repo(E).ExtendedKalmanFilter(b, 0, None, None, None, None, None, None, None, 1, True, [0, 0, 0], [0, 0, 0])
    x = np.asarray(f.build_state(b))
    ctx.ensure("column", x.shape == (DIM, 1), str(x.shape))
    ctx.ensure_eq("state", x.reshape(-1), [v[n] for n in POS] + [ctx.rad(v[n]) for n in ANG] + [v[n] for n in VEL] + [0, 0, 0], scale=400)


# ------------------------------------------------------------------ exported track
SAVE = {}


def _save(ns, nd, shift):
    def h(ctx):
        silence(ctx)
        m2l, _ = geodesy(ctx)
        td = ctx.increasing("td", nd, gap=0.05, lo=0, hi=100)
        ts = ctx.increasing("ts", ns, lo=0, hi=100, strict=False, around=(td[0], td[-1]), inside=True)
        ctx.assume(ts[0] >= td[0])
        ctx.assume(ts[-1] <= td[-1])
        dr = []
        for i, t in enumerate(td):
            o = repo(S).SyncedOrientationBodyVelocity()
            o.epoch_timestamp, o.altitude = t, ctx.real("alt%d" % i, lo=0, hi=50)
            dr.append(o)
        sts = [ekf_state(ctx, "s%d" % i, t, full=False) for i, t in enumerate(ts)]
        veh = NS(origin=offsets_of(ctx, "origin"), dvl=offsets_of(ctx, "dvl"))
        mis = NS(origin=NS(latitude=ctx.real("lat0", lo=-60, hi=60), longitude=ctx.real("lon0", lo=-170, hi=170)))
        f = repo(E).save_ekf_to_list
        got = f([s[0] for s in sts], mis, veh, dr) if shift else f([s[0] for s in sts], mis, veh, dr, False)
        ctx.ensure("one-per-state", len(got) == ns)
        for b, (s, x, C) in zip(got, sts):
            a = [ctx.deg(x[3 + i, 0]) for i in range(3)]
            o = rot_zyx(ctx, *a, [p - q for p, q in zip(off3(veh.origin), off3(veh.dvl))]) if shift else (0, 0, 0)
            ctx.ensure_eq("time", b.epoch_timestamp, s.time)
            ctx.ensure_eq("position", [b.northings, b.eastings, b.depth], [x[i, 0] + o[i] for i in range(3)], scale=500)
            ctx.ensure_eq("attitude", [b.roll, b.pitch, b.yaw], a, scale=400)
            ctx.ensure_eq("velocity", [b.x_velocity, b.y_velocity, b.z_velocity], [x[6 + i, 0] for i in range(3)])
            la, lo = m2l(mis.origin.latitude, mis.origin.longitude, b.eastings, b.northings)
            ctx.ensure_eq("latlon", [b.latitude, b.longitude], [la, lo], tol=1e-9)
            k = 1
            while k < nd - 1 and td[k] < s.time:
                k += 1
            ctx.ensure_eq("altitude", b.altitude, lin(s.time, td[k - 1], td[k], dr[k - 1].altitude, dr[k].altitude) - o[2], scale=50)

    SAVE[ns, nd, shift] = h
    h.__name__ = "%d_states_on_%d_track_points_%s" % (ns, nd, "centre" if shift else "dvl")
    if ns < 10:
        REG.harness([E + ".save_ekf_to_list"], kind="bounded", bound="%d filter states, %d track points" % (ns, nd), samples=80)(h)


for _ns, _nd, _sh in ((1, 2, True), (1, 2, False), (2, 2, True), (1, 3, True), (2, 3, True), (3, 3, False)):
    _save(_ns, _nd, _sh)
for _ns, _nd in ((1, 2), (40, 10), (300, 700), (700, 40)):
    for _sh in (True, False):
        if (_ns, _nd, _sh) not in SAVE:
            _save(_ns, _nd, _sh)


def _long_save(shift):
    def h(ctx):
        if not ctx.symbolic:
            ns, nd = ctx.choice("size", [(1, 2), (40, 10), (300, 700), (700, 40)])
            return SAVE[ns, nd, shift](ctx)
        from anylen import records, integer
        from pyvc.loops import Loop
        from pyvc.symlist import Acc
        from pyvc.sym import SymInt, SymBool

        silence(ctx)
        m2l, _ = geodesy(ctx)
        names = list(POS + ANG + VEL)

        class State:
            """contract of EkfState.toSyncedOrientationBodyVelocity (own harnesses)"""

            def toSyncedOrientationBodyVelocity(self):
                b = repo(S).SyncedOrientationBodyVelocity()
                b.epoch_timestamp, b.index = self.time, self.index
                for a in names:
                    setattr(b, a, getattr(self, a))
                return b

        def index(o, e):
            o.index = SymInt(e)

        sts = records("state", State, names, key="time", strict=False, init=index)
        dr = records("track", repo(S).SyncedOrientationBodyVelocity, ["altitude"])
        ctx.assume(dr.n >= 2)
        T, D = (lambda i: sts.item(integer(i)).time), (lambda i: dr.item(integer(i)).epoch_timestamp)
        ctx.assume(ctx.Or(sts.n == 0, ctx.And(T(0) >= D(0), T(sts.n - 1) <= D(dr.n - 1))))
        veh = NS(origin=offsets_of(ctx, "origin"), dvl=offsets_of(ctx, "dvl"))
        mis = NS(origin=NS(latitude=ctx.real("lat0", lo=-60, hi=60), longitude=ctx.real("lon0", lo=-170, hi=170)))
        out = Acc("exported", lambda i: [i], one=True, match=lambda got, i: SymBool(got.index.e == i.e))

        def inv(env, k):
            j = integer(env["dr_idx"])
            return [("exported", out.holds(env["ekf_list"], k)), ("in-range", ctx.And(j >= 1, j < dr.n)), ("none-skipped", ctx.Or(j == 1, ctx.And(k >= 1, D(j - 1) < T(k - 1))))]

        def bracket(env, k):
            j = integer(env["dr_idx"])
            return [("in-range", ctx.And(j >= 1, j < dr.n)), ("none-skipped", ctx.Or(j == 1, D(j - 1) < env["b"].epoch_timestamp))]

        def each(env, k):
            s, b, j = sts.item(k), env["ekf_list"].appended[0], env["dr_idx"]
            o = rot_zyx(ctx, s.roll, s.pitch, s.yaw, [p - q for p, q in zip(off3(veh.origin), off3(veh.dvl))]) if shift else (0, 0, 0)
            ctx.ensure_eq("time", b.epoch_timestamp, s.time)
            ctx.ensure_eq("position", [b.northings, b.eastings, b.depth], [getattr(s, a) + o[i] for i, a in enumerate(POS)], scale=500)
            ctx.ensure_eq("attitude", [getattr(b, a) for a in ANG], [getattr(s, a) for a in ANG], scale=400)
            ctx.ensure_eq("velocity", [getattr(b, a) for a in VEL], [getattr(s, a) for a in VEL])
            ctx.ensure_eq("latlon", [b.latitude, b.longitude], list(m2l(mis.origin.latitude, mis.origin.longitude, b.eastings, b.northings)))
            ctx.ensure("bracketed", ctx.And(j >= 1, j < dr.n, D(j - 1) <= s.time, s.time <= D(j)))
            ctx.ensure_eq("altitude", b.altitude, lin(s.time, D(j - 1), D(j), dr.item(j - 1).altitude, dr.item(j).altitude) - o[2], scale=50)

        f = "save_ekf_to_list"
        ctx.scratch["loops"] = {(f, "kinds"): "fw", (f, 0): Loop("export", inv, lambda env, k: {"ekf_list": out.state(k)}, each=each),
                                (f, 1): Loop("bracket", bracket, decreases=lambda env: dr.n - env["dr_idx"])}
        a = (sts, mis, veh, dr) + (() if shift else (False,))
        got = getattr(repo(E), f)(*a)
        ctx.ensure("one-per-state-in-order", got.acc is out and not got.appended and bool(got.k == sts.n))

    h.__name__ = "any_number_of_states_on_a_track_of_any_length_%s" % ("centre" if shift else "dvl")
    REG.harness([E + ".save_ekf_to_list"], loops=[E + ".save_ekf_to_list"], samples=60)(h)


_long_save(True)
_long_save(False)


CAMS = {}


def _cams(nc, ns, burst=False):
    def h(ctx):
        silence(ctx)
        m2l, _ = geodesy(ctx)
        m = repo(E)
        stub_clock(ctx, m)
        tc = ctx.increasing("tc", nc, gap=0.01, lo=0, hi=20)
        if burst:
            # several images of the same time
            tc = [tc[0], tc[0]] + tc[1:-1]
        ts = ctx.increasing("ts", ns, gap=0.01, lo=0, hi=20, around=(tc[0], tc[-1] + 0.02))
        if not ctx.symbolic:
            # some triggers coincide with states
            ts = sorted(set(ts) | set(t for i, t in enumerate(tc) if ctx.flag("hit%d" % i)))
        cams, sts = [], []
        for i, t in enumerate(tc):
            c = repo(S).Camera()
            c.epoch_timestamp, c.filename = t, "img%d" % i
            cams.append(c)
        for i, t in enumerate(ts):
            o = repo(S).SyncedOrientationBodyVelocity()
            o.epoch_timestamp = t
            sts.append(o)
        oo, co, ref = ["o"], ["c"], ["r"]

        def fsbv(self, other, origin_offsets, sensor_offsets, latlon_reference):
            self.pose_of = other
            self.epoch_timestamp = other.epoch_timestamp
            self.args = (origin_offsets, sensor_offsets, latlon_reference)

        ctx.patch(m.Camera, "fromSyncedBodyVelocity", fsbv)
        got = m.update_camera_list(list(cams), list(sts), oo, co, ref)
        want = []
        for c in cams:
            for s in sts:
                if c.epoch_timestamp == s.epoch_timestamp:
                    want.append((c, s))
        ctx.ensure("exactly-the-images-with-a-state", [g.filename for g in got] == [c.filename for c, s in want], "%s vs %s" % ([g.filename for g in got], [c.filename for c, s in want]))
        for g, (c, s) in zip(got, want):
            ctx.ensure("state-of-that-time", g.pose_of is s)
            ctx.ensure("offsets", g.args[0] is oo and g.args[1] is co and g.args[2] is ref)

    CAMS[nc, ns, burst] = h
    h.__name__ = "%d_images_%d_states%s" % (nc, ns, "_burst" * burst)
    if nc < 10:
        REG.harness([E + ".update_camera_list"], kind="bounded", bound="%d images, %d states, any times" % (nc, ns), samples=100)(h)


for _nc, _ns in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 4)):
    _cams(_nc, _ns)


CAMS[2, 3, True] = CAMS[2, 3, False]


for _b in ((3, 2), (4, 3)):
    _cams(*_b, True)


for _nc, _ns in ((30, 60), (100, 20), (400, 900)):
    _cams(_nc, _ns)
    _cams(_nc, _ns, True)


@REG.harness([E + ".update_camera_list"], loops=[E + ".update_camera_list"], samples=60)
def any_number_of_images_and_states(ctx):
    if not ctx.symbolic:
        return CAMS[ctx.choice("size", [(2, 3), (30, 60), (100, 20), (400, 900)]) + (ctx.flag("burst"),)](ctx)
    from anylen import records, integer, field
    from pyvc.loops import Loop
    from pyvc.symlist import Acc, same_item
    from pyvc.sym import SymInt, SymBool, SymReal, z3

    silence(ctx)
    m = repo(E)
    stub_clock(ctx, m)
    upd = z3.Function("updated", z3.IntSort(), z3.BoolSort())
    which = z3.Function("state_of_image", z3.IntSort(), z3.IntSort())

    def image(o, e):
        o.updated = SymBool(upd(e))

    cams = records("image", repo(S).Camera, ["filename"], init=image, strict=False)
    sts = records("state", repo(S).SyncedOrientationBodyVelocity, [])
    C, T = (lambda i: cams.item(integer(i)).epoch_timestamp), (lambda i: sts.item(integer(i)).epoch_timestamp)

    def hit(c):
        """image c has a state: which(c) is one where there is one at all"""
        w = SymInt(which(integer(c).e))
        return ctx.And(w >= 0, w < sts.n) and bool(T(w) == C(c))

    def defined(c, e):
        """the definition of `which`, instantiated: a state e at the time of image c is a hit"""
        w = SymInt(which(integer(c).e))
        ctx.axiom(("which", integer(c).e.get_id(), integer(e).e.get_id()),
                  z3.Implies(z3.And((e >= 0).e, (e < sts.n).e, T(e).e == C(c).e), z3.And((w >= 0).e, (w < sts.n).e, T(w).e == C(c).e)))

    oo, co, ref = ["o"], ["c"], ["r"]

    def fsbv(self, other, origin_offsets, sensor_offsets, latlon_reference):
        self.pose_of, self.epoch_timestamp = other, other.epoch_timestamp
        self.args = (origin_offsets, sensor_offsets, latlon_reference)

    def same(got, c):
        if not (got.args[0] is oo and got.args[1] is co and got.args[2] is ref):
            return False
        w = SymInt(which(integer(c).e))
        return ctx.And(got.filename == cams.item(c).filename, same_item(got.pose_of, sts.item(w)), got.epoch_timestamp == C(c))

    ctx.patch(m.Camera, "fromSyncedBodyVelocity", fsbv)
    V = Acc("valid", lambda c: [c] if hit(c) else [], match=same)

    def inv(env, k):
        c, e = integer(env["c_idx"]), integer(env["ekf_idx"])
        return [("in-range", ctx.And(c >= 0, c <= cams.n, e >= 0, e <= sts.n)), ("poses-so-far", V.holds(env["valid_camera_list"], c)),
                ("no-state-skipped", ctx.Or(e == 0, c == cams.n, T(e - 1) < C(c)))]

    def havoc(env, k):
        c, e = ctx.fresh_int("c"), ctx.fresh_int("e")
        ctx.assume(ctx.And(c >= 0, e >= 0))
        defined(c, e)
        return {"c_idx": c, "ekf_idx": e, "valid_camera_list": V.state(c)}

    f = "update_camera_list"
    ctx.scratch["loops"] = {(f, "kinds"): "w", (f, 0): Loop("merge", inv, havoc, decreases=lambda env: cams.n - integer(env["c_idx"]) + sts.n - integer(env["ekf_idx"]))}
    got = m.update_camera_list(cams, sts, oo, co, ref)
    ctx.ensure("poses-in-image-order", got.acc is V and not got.appended)
    c = ctx.int("later image")
    ctx.assume(ctx.And(c >= got.k, c < cams.n))
    ctx.ensure("no-pose-missing", not hit(c))


def _process():
    """what process() hands to the functions above (see R10)"""
    import r10_ekf_schedule as w

    for h in (w.THREE,):
        REG.harness(["auv_nav.process.process"], kind="bounded", bound="one packet order, symbolic contents and offsets", samples=4)(h)


_process()
