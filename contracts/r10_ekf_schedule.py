"""R10: which predictions and corrections the filter performs, and with what."""
import pathlib

from ekfspec import *
from procrun import NS, P, make_vehicle, make_mission, off3, packet_image, packet_laser
from procrun import run as run_process

REG = Registry("R10")
RUN = [E + ".ExtendedKalmanFilter.run", E + ".ExtendedKalmanFilter.__init__", E + ".ExtendedKalmanFilter.build_state"]
KINDS = ("o", "u", "d", "v")  # attitude, USBL, depth, velocity
CLS = {"o": "Orientation", "u": "Usbl", "d": "Depth", "v": "SyncedOrientationBodyVelocity"}


def reading(ctx, kind, i, t):
    S = repo("auv_nav.sensors")
    m = getattr(S, CLS[kind])()
    m.epoch_timestamp = t
    return m


def recorder(ctx, log, x0):
    """callee contracts: predict moves the filter to the requested time, correct
    uses one measurement; both may change the state in any way (a new attitude
    after every call); smooth is called once at the end"""
    m = repo(E)
    n = [0]

    def new_state(f):
        n[0] += 1
        x = np.array(np.asarray(x0), dtype=object if ctx.symbolic else float).reshape(DIM, 1)
        for i in (3, 4, 5):
            x[i, 0] = ctx.real("att%d_%d" % (n[0], i), lo=-1, hi=1)
        f.set_state(arr(ctx, x))
        return [x[3, 0], x[4, 0], x[5, 0]]

    def predict(self, timestamp, delta, save_state=True):
        log.append(("predict", timestamp, delta, save_state, self.get_last_update_time()))
        self.set_last_update_time(timestamp)
        log.append(("attitude", new_state(self)))

    def correct(self, measurement):
        log.append(("correct", measurement))
        log.append(("attitude", new_state(self)))
        return True

    def smooth(self, enable=True):
        log.append(("smooth", enable))

    ctx.patch(m.EkfImpl, "predict", predict)
    ctx.patch(m.EkfImpl, "correct", correct)
    ctx.patch(m.EkfImpl, "smooth", smooth)
    ctx.patch(m.EkfImpl, "print_report", lambda self: None)
    M = m.Measurement
    ctx.patch(M, "from_orientation", lambda self, value: log.append(("o", self, value)))
    ctx.patch(M, "from_dvl", lambda self, value: log.append(("v", self, value)))
    import inspect

    for k, name in (("d", "from_depth"), ("u", "from_usbl")):
        names = list(inspect.signature(getattr(M, name)).parameters)

        def f(self, *a, _k=k, _n=names, **kw):
            b = dict(zip(_n[1:], a))
            b.update(kw)
            v = [b[x] for x in _n[1:]]
            log.append((_k, self, v[0], list(v[1]), list(v[2])))

        ctx.patch(M, name, f)


def schedule(ctx, counts, nt=0, limits=True, ties=True, tmax=40):
    """counts: number of readings per kind; nt extra requested times"""
    silence(ctx)
    m = repo(E)
    lists, evs = {}, []
    for k in KINDS:
        ts = ctx.increasing("t" + k, counts.get(k, 0), gap=0.01, lo=1000, hi=1000 + tmax)
        lists[k] = [reading(ctx, k, i, t) for i, t in enumerate(ts)]
        evs += [(t, k, r) for t, r in zip(ts, lists[k])]
    req = ctx.increasing("treq", nt, gap=0.01, lo=1000, hi=1000 + tmax)
    evs += [(t, "t", None) for t in req]
    if limits:
        start = ctx.real("start", lo=1000, hi=1000 + tmax, near=1010.0)
        end = ctx.between("end", start, 1000 + tmax)
    else:
        start, end = 999, 1000 + tmax + 1
    if not ties:
        for i in range(len(evs)):
            for j in range(i):
                ctx.assume(evs[i][0] != evs[j][0])
    elif not ctx.symbolic and len(evs) > 1 and ctx.flag("tie") and evs[0][1] != evs[-1][1]:
        # make simultaneous readings likely
        if evs[-1][1] != "t":
            evs[-1][2].epoch_timestamp = evs[0][0]
            evs[-1] = (evs[0][0],) + evs[-1][1:]
            for k in KINDS:
                ctx.assume(all(a.epoch_timestamp < b.epoch_timestamp for a, b in zip(lists[k], lists[k][1:])))
    init = repo("auv_nav.sensors").SyncedOrientationBodyVelocity()
    init.epoch_timestamp = start
    names = ("northings", "eastings", "depth", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity")
    vals = [ctx.real("i_" + n, lo=-20, hi=20) for n in names]
    for n, v in zip(names, vals):
        setattr(init, n, v)
    x0 = np.array(vals[:3] + [ctx.rad(v) for v in vals[3:6]] + vals[6:] + [0, 0, 0], dtype=object if ctx.symbolic else float).reshape(DIM, 1)
    P0, Q = sym_matrix(ctx, "P0", idx=[0]), sym_matrix(ctx, "Q", idx=[0])
    ua, da = [ctx.real("ua" + a, lo=-5, hi=5) for a in "xyz"], [ctx.real("da" + a, lo=-5, hi=5) for a in "xyz"]
    thr, smoother = ctx.real("thr", lo=0, hi=10), ctx.flag("smoother") if limits else True
    stds = NS(tag="stds")
    log = []
    recorder(ctx, log, x0)
    f = m.ExtendedKalmanFilter(init, end, mat(ctx, P0), mat(ctx, Q), stds, lists["u"], lists["d"], lists["o"], lists["v"], thr, smoother, list(ua), list(da))
    seen = {}
    rs = m.EkfImpl.set_initial_state

    def si(self, timestamp, state, covariance):
        seen["init"] = (timestamp, np.array(np.asarray(state)).reshape(-1), np.array(np.asarray(covariance)))
        return rs(self, timestamp, state, covariance)

    ctx.patch(m.EkfImpl, "set_initial_state", si)
    f.run(list(req))
    # ---- filter set up
    ctx.ensure("initialised-once", "init" in seen)
    ctx.ensure_eq("initial-time", seen["init"][0], start)
    ctx.ensure_eq("initial-state", seen["init"][1], x0.reshape(-1), scale=20)
    ctx.ensure_eq("initial-covariance", seen["init"][2].reshape(-1), np.asarray(P0).reshape(-1), scale=5)
    ctx.ensure_eq("process-noise", np.asarray(f.ekf.process_noise_covariance).reshape(-1), np.asarray(Q).reshape(-1), scale=5)
    ctx.ensure_eq("gate", f.ekf.mahalanobis_threshold, thr)
    # ---- expected events
    later = [e for e in evs if e[0] > start]
    times = []
    while later:
        t = later[0][0]
        for e in later[1:]:
            if e[0] < t:
                t = e[0]
        now = [e for e in later if e[0] == t]
        later = [e for e in later if not any(e is n for n in now)]
        times.append((t, now))
        if t >= end:
            break
    pos, last = 0, start
    att = None

    def nxt():
        nonlocal pos
        pos += 1
        return log[pos - 1] if pos <= len(log) else ("nothing",)

    for t, now in times:
        e = nxt()
        ctx.ensure("predicts-to-next-event", e[0] == "predict", "got %s" % e[0])
        if e[0] != "predict":
            return
        ctx.ensure_eq("prediction-time", e[1], t)
        ctx.ensure_eq("prediction-step", e[2], t - last)
        ctx.ensure("history-kept", e[3] is True)
        last = t
        att = nxt()[1]
        for k in KINDS:
            for ev in now:
                if ev[1] != k:
                    continue
                b = nxt()
                ctx.ensure("reading-used", b[0] == k and b[2] is ev[2], "expected a %s reading, got %s" % (k, b[0]))
                if b[0] != k:
                    return
                ctx.ensure("noise-configuration", b[1].sensors_std is stds)
                if k in "du":
                    ctx.ensure_eq("current-attitude", b[3], [ctx.deg(a) for a in att], scale=60)
                    ctx.ensure_eq("arm", b[4], ua if k == "u" else da)
                c = nxt()
                ctx.ensure("reading-applied", c[0] == "correct" and c[1] is b[1], c[0])
                att = nxt()[1]
    e = nxt()
    ctx.ensure("smoothed-at-the-end", e[0] == "smooth" and e[1] == smoother, "got %s after %d events" % (e[0], len(times)))
    ctx.ensure("nothing-after-that", pos == len(log))


def _mk(name, counts, nt, bound, **k):
    s = k.pop("samples", 120)
    th = k.pop("thorough_only", False)

    def h(ctx):
        schedule(ctx, counts, nt, **k)

    h.__name__ = name
    REG.harness(RUN, kind="bounded", bound=bound, samples=s, max_paths=20000, thorough_only=th)(h)


for _i, _a in enumerate("oudv"):
    _mk("two_of_" + {"o": "attitude", "u": "usbl", "d": "depth", "v": "velocity"}[_a], {_a: 2}, 0, "2 readings of one sensor, any start and end time")
    for _b in "oudv"[_i + 1:]:
        _mk("one_each_%s%s" % (_a, _b), {_a: 1, _b: 1}, 0, "one reading of each of two sensors, any order or tie, any start and end time")
    _mk("one_%s_one_request" % _a, {_a: 1}, 1, "one reading, one requested time, any start and end time")
_mk("two_requests", {}, 2, "two requested times")
_mk("all_sensors_together", {"o": 1, "u": 1, "d": 1, "v": 1}, 0, "one reading of every sensor, any order and ties", limits=False)
_mk("two_sensors_twice", {"o": 2, "v": 2}, 0, "two attitude and two velocity readings, any order and ties", limits=False)
_mk("two_sensors_twice_b", {"u": 2, "d": 2}, 0, "two USBL and two depth readings, any order and ties", limits=False)
_mk("requests_between_readings", {"o": 2, "d": 1}, 2, "three readings, two requested times, any order and ties", limits=False, thorough_only=True)


def _long(name, counts, nt):
    def h(ctx):
        schedule(ctx, counts, nt, limits=False, tmax=4000)

    h.__name__ = name
    REG.harness(RUN, kind="sample", bound="%s, %d requested times, drawn" % (counts, nt), samples=1)(h)


_long("long_dive_many_images", {"o": 5, "u": 3, "d": 4, "v": 6}, 1300)
_long("long_dive_many_readings", {"o": 700, "u": 300, "d": 400, "v": 500}, 5)


# ------------------------------------------------- records of any length
IDX = {"u": "usbl_idx", "d": "depth_idx", "o": "orientation_idx", "v": "velocity_idx", "t": "timestamp_list_idx"}


def any_length(ctx, phase, part=None):
    from pyvc.loops import Loop
    from pyvc.symlist import SymList, same_item
    from pyvc.sym import SymInt, SymReal, z3

    silence(ctx)
    m = repo(E)
    S = repo("auv_nav.sensors")
    L, T = {}, {}
    for k in "udovt":
        T[k] = z3.Function("time_" + k, z3.IntSort(), z3.RealSort())

        def make(e, k=k):
            t = SymReal(T[k](e))
            if k == "t":
                return t
            r = getattr(S, CLS[k])()
            r.epoch_timestamp = t
            return r

        L[k] = SymList("list_" + k, make, key=T[k])
    stamp = lambda k, i: L[k].item(i) if k == "t" else L[k].item(i).epoch_timestamp
    start, end = ctx.real("start", lo=1, hi=10 ** 10), ctx.real("end", lo=1, hi=10 ** 10)
    init = S.SyncedOrientationBodyVelocity()
    init.epoch_timestamp = start
    for n in ("northings", "eastings", "depth", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity"):
        setattr(init, n, 0)
    x0 = np.array([0] * DIM, dtype=object).reshape(DIM, 1)
    ua, da, stds, log = [1, 2, 3], [4, 5, 6], NS(tag="stds"), []
    recorder(ctx, log, x0)
    eye = mat(ctx, np.eye(DIM, dtype=object))
    smoother = True
    f = m.ExtendedKalmanFilter(init, end, eye, eye, stds, L["u"], L["d"], L["o"], L["v"], ctx.real("thr", lo=0), smoother, list(ua), list(da))
    old = {}

    def skip(k):
        def inv(env, _):
            i = SymInt(z3.IntVal(0)) + env[IDX[k]]
            return [("in-range", ctx.And(i >= 0, i <= L[k].n)), ("skipped-only-earlier-readings", ctx.implies(i > 0, stamp(k, i - 1) <= start))]

        return Loop("skip-" + CLS.get(k, "requests"), inv, decreases=lambda env: L[k].n - env[IDX[k]], skip=phase == "events")

    def pending(env):
        """no reading up to the filter's time is left, none after it is used"""
        cur = env["self"].ekf.get_last_update_time()
        r = [("time-not-before-start", cur >= start)]
        for k in "udovt":
            i = SymInt(z3.IntVal(0)) + env[IDX[k]]
            r.append(("in-range-" + k, ctx.And(i >= 0, i <= L[k].n)))
            r.append(("used-readings-are-due-" + k, ctx.implies(i > 0, stamp(k, i - 1) <= cur)))
            r.append(("due-readings-are-used-" + k, ctx.implies(i < L[k].n, stamp(k, i) > cur)))
        c = env["current_stamp"]
        r.append(("loop-time", ctx.Or(c == cur, ctx.And(c == 0, cur == start))))
        return r

    def check(env):
        """what one pass over the loop did"""
        ix = old["ix"]
        nxt = [(k, stamp(k, ix[k])) for k in "udovt" if ix[k] < L[k].n]
        now = [k for k, t in nxt if all(bool(t <= s) for _, s in nxt)]
        if not now:
            ctx.ensure("stops-when-nothing-is-left", False)
            return
        t = [s for k, s in nxt if k == now[0]][0]
        seq = list(log)
        e = seq.pop(0) if seq else ("nothing",)
        ctx.ensure("predicts-to-next-event", e[0] == "predict", "got %s" % e[0])
        if e[0] != "predict":
            return
        ctx.ensure_eq("prediction-time", e[1], t)
        ctx.ensure_eq("prediction-step", e[2], t - old["cur"])
        ctx.ensure("history-kept", e[3] is True)
        att = seq.pop(0)[1]
        for k in KINDS:
            if k in now:
                b = seq.pop(0) if seq else ("nothing",)
                ctx.ensure("reading-used", b[0] == k and same_item(b[2], L[k].item(ix[k])), "expected a %s reading, got %s" % (k, b[0]))
                if b[0] != k:
                    return
                ctx.ensure("noise-configuration", b[1].sensors_std is stds)
                if k in "du":
                    ctx.ensure_eq("current-attitude", b[3], [ctx.deg(a) for a in att])
                    ctx.ensure_eq("arm", b[4], ua if k == "u" else da)
                c = seq.pop(0) if seq else ("nothing",)
                ctx.ensure("reading-applied", c[0] == "correct" and c[1] is b[1], c[0])
                att = seq.pop(0)[1]
        ctx.ensure("nothing-else", not seq)
        for k in "udovt":
            ctx.ensure_eq("next-" + k, env[IDX[k]], ix[k] + (1 if k in now else 0))

    def inv(env, k):
        if "ix" in old:
            if old.pop("fresh", None):
                return pending(env)  # assumption of the generic pass
            check(env)
        elif phase == "first-event":
            ctx.ensure("nothing-before-the-first-event", not log)
        return pending(env)

    def havoc(env, k):
        ekf = env["self"].ekf
        old["ix"] = {k: ctx.fresh_int("i" + k) for k in IDX}
        old["cur"] = ctx.fresh_real("cur")
        old["fresh"] = True
        ekf.set_last_update_time(old["cur"])
        st = np.array([ctx.fresh_real("x") for _ in range(DIM)], dtype=object).reshape(DIM, 1)
        ekf.set_state(arr(ctx, st))
        if part is not None:  # case split: is the next request / USBL fix pending?
            for q, yes in zip("tu", part):
                ctx.assume(old["ix"][q] < L[q].n if yes else old["ix"][q] >= L[q].n)
        del log[:]
        d = {IDX[k]: v for k, v in old["ix"].items()}
        d["current_stamp"] = ctx.fresh_real("stamp")
        old["stamp"] = d["current_stamp"]
        return d

    F = "ExtendedKalmanFilter.run"
    ctx.scratch["loops"] = {(F, "kinds"): "wwwwww"}
    for i, k in enumerate("udovt"):
        ctx.scratch["loops"][(F, i)] = skip(k)
    ctx.scratch["loops"][(F, 5)] = Loop("events", inv, havoc, entry_only=phase == "first-event", entry=phase == "first-event", modifies=lambda env: [env["self"].ekf],
                                       decreases=lambda env: sum([L[k].n - env[IDX[k]] for k in "udovt"], SymInt(z3.IntVal(0))))
    f.run(L["t"])
    # here the loop was left from its generic state, before any other event
    e = [x for x in log if x[0] != "attitude"]
    ctx.ensure("smoothed-at-the-end", len(e) == 1 and e[0][0] == "smooth" and e[0][1] == smoother, str([x[0] for x in e]))
    done = ctx.And(*[old["ix"][k] >= L[k].n for k in IDX])
    ctx.ensure("runs-until-the-end-time-or-the-last-event", ctx.Or(done, old["stamp"] >= end))


def _any(phase, part, name):
    def h(ctx):
        if ctx.symbolic:
            return any_length(ctx, phase, part)
        c = {k: ctx.choice("n" + k, [0, 3, 12]) for k in KINDS}
        schedule(ctx, c, ctx.choice("nt", [0, 3, 12]), limits=True, tmax=400)

    h.__name__ = "records_of_any_length_" + name
    REG.harness(RUN, loops=[E + ".ExtendedKalmanFilter.run"], samples=15, max_paths=20000)(h)


_any("first-event", None, "start")
for _t in (True, False):
    for _u in (True, False):
        _any("events", (_t, _u), "next_event%s%s" % ("_requested" if _t else "", "_usbl" if _u else ""))


# ------------------------------------------------------------------ wiring
EKFP = [P + ".process"]


def ekf_run(ctx, smoother=True, ncam=3, payloads=("pl",), laser=True, cameras=None, fmt="seaxerocks_3", lasercam=None, pf=False, ekf=True, fixed=False, **kw):
    from procrun import four, packet_usbl

    between = (lambda n, a, b, strict: (a + b) / 2) if fixed else ctx.between
    ts, ps = four(ctx, ts=[1000.0, 1010.0, 1020.0, 1030.0, 1040.0] if fixed else None)
    us = [packet_usbl(ctx, 0, ts[2]), packet_usbl(ctx, 1, ts[2])]
    # every camera has its own clock: trigger times of the second camera and of
    # the laser differ from those of the first
    six = [ts[1]]
    for i in range(6):
        six.append(between("trigger%d" % i, six[-1], ts[3], strict=True))
    tc, t2, tl = [six[1], six[4]], [six[2], six[5]], [six[3], six[6]]
    tp = between("tp", ts[1], ts[3], strict=True)
    cams = [packet_image(i, t, t2[i], two=True) for i, t in enumerate(tc)]
    las = [packet_laser(i, t, fmt) for i, t in enumerate(tl)] if laser else []
    veh, mis = make_vehicle(ctx, payloads), make_mission(ctx, ncam=ncam, payloads=payloads, fmt=fmt, laser=lasercam)
    m = repo(P)
    made = []

    class Filter:
        def __init__(self, *a, **k):
            from procrun import bound
            made.append(bound(real.__init__, (self,) + a, k))
            made[-1]["cov"] = np.array(np.asarray(made[-1]["initial_estimate_covariance"]), dtype=float)

        def run(self, *a, **k):
            from procrun import bound
            made[-1]["timestamps"] = list(bound(real.run, (self,) + a, k)["timestamp_list"])

        def get_result(self):
            return ["raw"]

        def get_smoothed_result(self):
            return ["smoothed"]

        def get_rejected_measurements(self):
            return []

    real = m.ExtendedKalmanFilter
    ctx.patch(m, "ExtendedKalmanFilter", Filter)
    track = {True: [], False: []}
    S = repo("auv_nav.sensors").SyncedOrientationBodyVelocity
    for k in track:
        for i in range(2):
            o = S()
            o.epoch_timestamp = tc[i]
            o.depth = 1
            track[k].append(o)
    pftrack = None
    if pf:
        pftrack = Tagged()
        for i in range(2):
            o = S()
            o.epoch_timestamp = ts[1 + 2 * i]
            for a in ("northings", "eastings", "depth", "altitude", "roll", "pitch", "yaw"):
                setattr(o, a, 1.0 + i)
            pftrack.append(o)

    def upd(b):
        c = repo("auv_nav.sensors").Camera()
        c.depth = 1
        r = Tagged([c])
        if cameras is not None:
            r = cameras(b)
        b["result"] = r
        return r

    def pay():
        r = []
        o = repo("auv_nav.sensors").Payload()
        o.epoch_timestamp = tp
        r.append(o)
        return r

    rec = run_process(ctx, ps[:4] + us + cams + las + ps[4:], veh, mis, ekf=ekf, smoother=smoother, payload_data=pay, pf=pftrack,
                      p0=[float(i % 7 + 1) for i in range(144)], q=[float(i % 5) for i in range(144)],
                      **kw,
                      record=[("usbl_offset", lambda b: (0, 0)), ("save_ekf_to_list", lambda b: track[bool(b["shift_to_origin"])]),
                              ("update_camera_list", upd), ("interpolate_sensor_list", lambda b: None)])
    return NS(rec=rec, made=made, track=track, veh=veh, mis=mis, ts=ts, tc=tc, t2=t2, tl=tl, tp=tp, ps=ps, us=us, cams=cams, las=las, pf=pftrack)


class Tagged(list):
    """compared by identity, also after a copy of the outer list"""

    def __deepcopy__(self, memo):
        return self


def laser_names(ncam, lasercam):
    """the file of the laser images is named after a camera; with three cameras
    after the third, with two (BioCam) after the second or the one declared to
    record the laser"""
    return ["Cam2_laser"] if ncam == 3 else sorted({"Cam1_laser", "Cam%d_laser" % lasercam})


def layout(ctx, r, ncam, lasercam):
    """-> {file stem: (mounting offset, image prefix, trigger times, csv flag)}"""
    veh, rec = r.veh, r.rec
    las = [n for n in laser_names(ncam, lasercam) if "auv_dr_" + n in rec.csv]
    ctx.ensure("laser-images-exported-once", len(las) == 1, str(sorted(rec.csv)))
    arm = off3(veh.camera3) if ncam == 3 else off3([veh.camera1, veh.camera2][lasercam])
    return {"Cam0": (off3(veh.camera1), "a", r.tc, "camera_1"), "Cam1": (off3(veh.camera2), "b", r.t2, "camera_2"), las[0]: (arm, "l", r.tl, "camera_3")}


def interpolated(ctx, r, name, o, track, times):
    rec, veh, mis = r.rec, r.veh, r.mis
    ctx.ensure("exported-" + name, name in rec.csv)
    data = rec.csv[name][0]
    cs = [b for b in rec.calls["interpolate_sensor_list"] if b["sensor_list"] is data]
    ctx.ensure("interpolated-once-" + name, len(cs) == 1, "%d" % len(cs))
    b = cs[0]
    ctx.ensure_eq("mounting-offset-" + name, list(b["sensor_offsets"]), o)
    ctx.ensure_eq("origin-" + name, list(b["origin_offsets"]), off3(veh.origin))
    ctx.ensure_eq("reference-" + name, list(b["latlon_reference"]), [mis.origin.latitude, mis.origin.longitude])
    ctx.ensure("track-" + name, b["_centre_list"] is track)
    ctx.ensure_eq("trigger-times-" + name, [c.epoch_timestamp for c in data], times)
    return data


def tables(ctx, r, off):
    """every table goes to the folder of its solution, switched by its own flag"""
    for name, (data, b) in r.rec.csv.items():
        v = list(b.values())
        if not name.startswith("auv_") and name[-3:] not in ("_dr", "_pf", "ekf"):
            # tables of the readings
            cat = {"velocity_body": "velocity"}.get(name, name)
            ctx.ensure("readings-" + name, [x.epoch_timestamp for x in data] == [p.get("epoch_timestamp_dvl", p["epoch_timestamp"]) for p in r.ps + r.us if p["category"] == cat])
            ctx.ensure("folder-" + name, pathlib.Path(v[0]).name == "sensor_values_and_uncertainties")
            continue
        sec = "ekf" if name.startswith("auv_ekf") or name.endswith("_ekf") else "particle_filter" if name.startswith("auv_pf") or name.endswith("_pf") else "dead_reckoning"
        folder = pathlib.Path(v[0])
        ctx.ensure("folder-" + name, folder.name == sec and folder.parent.name == "csv", str(folder))
        key = "payload" if not name.startswith("auv_") else {"centre": "auv_centre", "dvl": "auv_dvl", "Cam0": "camera_1"}.get(name.split("_")[2], "camera_3" if "_laser" in name else "camera_2")
        ctx.ensure("switch-" + name, v[3] is ((sec, key) != off), "%s with (%s, %s) off" % (v[3], off[0], off[1]))


def _wiring(smoother, ncam=3, lasercam=None, off=None, tag=""):
    def h(ctx):
        fmt = "seaxerocks_3" if ncam == 3 else "biocam"
        r = ekf_run(ctx, smoother, ncam=ncam, lasercam=lasercam, fmt=fmt, csv_off=off)
        rec, veh, mis = r.rec, r.veh, r.mis
        ctx.ensure("one-filter", len(r.made) == 1)
        a = r.made[0]
        dvl, _ = rec.csv["auv_dr_dvl"]
        first = dvl[0]
        darm = [p - q for p, q in zip(off3(veh.dvl), off3(veh.depth))]
        uarm = [p - q for p, q in zip(off3(veh.dvl), off3(veh.usbl))]
        z = rot_zyx(ctx, first.roll, first.pitch, first.yaw, darm)[2]
        i = a["initial_state"]
        for n in ("epoch_timestamp", "northings", "eastings", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity"):
            ctx.ensure_eq("starts-from-first-track-point-" + n, getattr(i, n), getattr(first, n), scale=100)
        ctx.ensure_eq("starts-at-the-depth-of-the-velocity-sensor", i.depth, first.depth + z, scale=100)
        ctx.ensure_eq("ends-with-the-track", a["end_time"], dvl[-1].epoch_timestamp)
        ctx.ensure_eq("depth-arm", list(a["depth_to_dvl"]), darm)
        ctx.ensure_eq("usbl-arm", list(a["usbl_to_dvl"]), uarm)
        ctx.ensure_eq("initial-covariance", a["cov"].reshape(-1), [float(k % 7 + 1) for k in range(144)])
        ctx.ensure_eq("process-noise", np.array(np.asarray(a["process_noise_covariance"]), dtype=float).reshape(-1), [float(k % 5) for k in range(144)])
        ctx.ensure_eq("gate", a["mahalanobis_distance_threshold"], 2.5)
        ctx.ensure("smoother-flag", a["activate_smoother"] == smoother)
        g = lambda c: [p.get("epoch_timestamp_dvl", p["epoch_timestamp"]) for p in r.ps + r.us if p["category"] == c]
        for n, c in (("usbl_list", "usbl"), ("depth_list", "depth"), ("orientation_list", "orientation"), ("velocity_body_list", "velocity")):
            ctx.ensure_eq("readings-" + c, [o.epoch_timestamp for o in a[n]], g(c))
        want = list(r.tc) + list(r.t2) + list(r.tl) + [r.tp]
        for t in want:
            ctx.ensure("requested-time-present", any(bool(t == x) for x in a["timestamps"]))
        for x in a["timestamps"]:
            ctx.ensure("no-other-requested-time", any(bool(t == x) for t in want))
        for x, y in zip(a["timestamps"], a["timestamps"][1:]):
            ctx.ensure("requested-times-increase", x < y)
        sv = rec.calls["save_ekf_to_list"]
        ctx.ensure("exported-at-both-places", sorted(bool(b["shift_to_origin"]) for b in sv) == [False, True])
        for b in sv:
            ctx.ensure("exports-the-%s-history" % ("smoothed" if smoother else "filtered"), b["ekf_states"] == (["smoothed"] if smoother else ["raw"]))
            ctx.ensure("exports-with-this-vehicle", b["vehicle"] is veh and b["mission"] is mis)
            ctx.ensure_eq("altitude-from-this-track", [x.epoch_timestamp for x in b["dead_reckoning_dvl_list"]], [x.epoch_timestamp for x in dvl])
        ctx.ensure("centre-track-exported", rec.csv["auv_ekf_centre"][0] is r.track[True])
        # cameras
        calls = rec.calls["update_camera_list"]
        lay = layout(ctx, r, ncam, lasercam)
        expect = {"auv_ekf_" + n: (o, True, pre, t) for n, (o, pre, t, _) in lay.items()}
        las = [n for n in lay if "laser" in n][0]
        expect["auv_ekf_%s_at_dvl" % las] = ([0, 0, 0], False, "l", r.tl)
        for name, (o, centre, pre, times) in expect.items():
            ctx.ensure("exported-" + name, name in rec.csv)
            data = rec.csv[name][0]
            cs = [b for b in calls if any(x is y for x in b["result"] for y in data) or b["result"] is data]
            if name.endswith("at_dvl"):
                cs = [b for b in calls if b["ekf_list"] is r.track[False]]
            ctx.ensure("from-one-update-" + name, len(cs) == 1)
            b = cs[0]
            ctx.ensure("track-" + name, b["ekf_list"] is r.track[centre])
            ctx.ensure_eq("mounting-offset-" + name, list(b["camera1_offsets"]), o)
            ctx.ensure_eq("origin-" + name, list(b["origin_offsets"]), off3(veh.origin) if centre else [0, 0, 0])
            ctx.ensure_eq("reference-" + name, list(b["latlon_reference"]), [mis.origin.latitude, mis.origin.longitude])
            ctx.ensure("images-" + name, [c.filename for c in b["camera_list"]] == [pre + "0.raw", pre + "1.raw"], str([c.filename for c in b["camera_list"]]))
            ctx.ensure_eq("trigger-times-" + name, [c.epoch_timestamp for c in b["camera_list"]], times)
        # payloads and dead-reckoned cameras
        cen = rec.csv["auv_dr_centre"][0]
        pl = off3(veh.payloads["pl"])
        interpolated(ctx, r, "pl_ekf", pl, r.track[True], [r.tp])
        interpolated(ctx, r, "pl_dr", pl, cen, [r.tp])
        for n, (o, pre, t, _) in lay.items():
            data = interpolated(ctx, r, "auv_dr_" + n, o, cen, t)
            ctx.ensure("images-auv_dr_" + n, [c.filename for c in data] == [pre + "0.raw", pre + "1.raw"])
        tables(ctx, r, off or ("", ""))

    h.__name__ = "process_runs_the_filter_" + ("with_smoother" if smoother else "without_smoother") + tag
    REG.harness(EKFP, kind="bounded", bound="one packet order, %s cameras, one payload; symbolic contents and offsets" % ncam, samples=8)(h)
    return h


THREE = _wiring(True)
_wiring(False, off=("ekf", "camera_2"))
BIOCAM = _wiring(True, ncam=2, lasercam=0, tag="_biocam_first")
_wiring(True, ncam=2, lasercam=1, tag="_biocam_second", off=("dead_reckoning", "camera_3"))


def every_switch(ctx):
    from procrun import FLAGS

    off = ctx.choice("off", [(s, k) for s, ks in FLAGS.items() for k in ks])
    r = ekf_run(ctx, pf=True, csv_off=off, fixed=True)
    ctx.ensure("tables", set(n for n in r.rec.csv if n.startswith("auv_") or n.startswith("pl")) == {"auv_%s_%s" % (s, n) for s in ("dr", "pf", "ekf") for n in ("Cam0", "Cam1", "Cam2_laser", "centre")} | {"auv_dr_dvl", "auv_pf_dvl", "auv_ekf_Cam2_laser_at_dvl", "pl_dr", "pl_pf", "pl_ekf"}, str(sorted(r.rec.csv)))
    tables(ctx, r, off)


REG.harness(EKFP, kind="bounded", bound="one packet order, three cameras, one payload; every one table switched off in turn", samples=4)(every_switch)


def wiring_of_the_particle_filter(ctx):
    """registered in R30"""
    ncam, lasercam = ctx.choice("layout", [(3, None), (2, 0), (2, 1)])
    r = ekf_run(ctx, ncam=ncam, lasercam=lasercam, fmt="seaxerocks_3" if ncam == 3 else "biocam", pf=True, ekf=False)
    rec, veh = r.rec, r.veh
    calls = rec.calls["run_particle_filter"]
    ctx.ensure("one-filter", len(calls) == 1)
    b = calls[0]
    dvl, cen = rec.csv["auv_dr_dvl"][0], rec.csv["auv_pf_centre"][0]
    ctx.ensure_eq("fixes", [u.epoch_timestamp for u in b["usbl_list"]], [u["epoch_timestamp"] for u in r.us])
    ctx.ensure_eq("track", [x.epoch_timestamp for x in b["dr_list"]], [x.epoch_timestamp for x in dvl])
    for x, y in zip(b["dr_list"], dvl):
        ctx.ensure_eq("track-state", [x.northings, x.eastings, x.depth, x.roll, x.pitch, x.yaw], [y.northings, y.eastings, y.depth, y.roll, y.pitch, y.yaw])
    ctx.ensure_eq("particles", b["num_particles"], 2)
    ctx.ensure_eq("noise-factors", [b["dvl_noise_sigma_factor"], b["imu_noise_sigma_factor"], b["usbl_noise_sigma_factor"]], [1.0, 1.25, 1.5])
    ctx.ensure("fixes-are-used", b["measurement_update_flag"] is True)
    ctx.ensure("result", rec.csv["auv_pf_dvl"][0] is r.pf)
    lay = layout(ctx, r, ncam, lasercam)
    pl = off3(veh.payloads["pl"])
    interpolated(ctx, r, "pl_pf", pl, cen, [r.tp])
    for n, (o, pre, t, _) in lay.items():
        data = interpolated(ctx, r, "auv_pf_" + n, o, cen, t)
        ctx.ensure("images-auv_pf_" + n, [c.filename for c in data] == [pre + "0.raw", pre + "1.raw"])
    tables(ctx, r, ("", ""))
