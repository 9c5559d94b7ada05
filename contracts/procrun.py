"""Runs the real auv_nav.process.process() on symbolic packets.

What is replaced, and by what:
  json.load            -> the (symbolic) packets of the harness
  Vehicle / Mission    -> plain objects holding the (symbolic) offsets and origin
  threading.Thread     -> recorder (the CSV writers are under contract in R13)
  particle filter      -> its result is an arbitrary track
  Console output       -> nothing
"""
import copy
import inspect
import os
import shutil
import tempfile
import types

from common import *

P = "auv_nav.process"

YAML = """
usbl_filter: {activate: %(usbl_filter)s, max_auv_speed: 1.0, sigma_factor: 2.0}
particle_filter: {activate: %(pf)s, dvl_noise_sigma_factor: 1.0, imu_noise_sigma_factor: 1.25, usbl_noise_sigma_factor: 1.5, particles_number: 2, particles_plot_time_interval: 3.0}
std:
  position_xy: {model: sensor}
  speed: {model: sensor}
  position_z: {model: sensor}
  orientation: {model: sensor}
ekf:
  activate: %(ekf)s
  activate_smoother: %(smoother)s
  mahalanobis_distance_threshold: 2.5
  process_noise_covariance: %(q)s
  initial_estimate_covariance: %(p0)s
csv_output:
  activate: True
  usbl: %(usbl_csv)s
%(csv)s
plot_output: {activate: False, html_plot: False}
spp_output:
  activate: %(spp)s
  ekf: {auv_centre: True, camera_1: True, camera_2: True, camera_3: True}
"""

# 20000101000000 .. 20300101000000 : every packet time used here lies inside
START, FINISH = "19700101000000", "20300101000000"


FLAGS = {
    "dead_reckoning": ["auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload"],
    "particle_filter": ["auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload"],
    "ekf": ["auv_centre", "camera_1", "camera_2", "camera_3", "payload"],
}


def flags(off):
    """csv_output settings with the one entry `off` = (section, key) switched off"""
    return "\n".join("  %s: {%s}" % (sec, ", ".join("%s: %s" % (k, (sec, k) != off) for k in keys)) for sec, keys in FLAGS.items())


class Rec:
    def __init__(self):
        self.csv = {}
        self.threads = []
        self.calls = {}


class NS(types.SimpleNamespace):
    pass


def offsets_of(ctx, name, lo=-5, hi=5):
    return NS(**{a: ctx.real("%s_%s" % (name, a), lo=lo, hi=hi) for a in ("surge", "sway", "heave")}, roll=0, pitch=0, yaw=0, empty=lambda: False)


def make_vehicle(ctx, payloads=()):
    v = NS(**{n: offsets_of(ctx, n) for n in ("origin", "ins", "dvl", "depth", "usbl", "camera1", "camera2", "camera3")})
    v.payloads = {p: offsets_of(ctx, p) for p in payloads}
    return v


def make_mission(ctx, ncam=0, fmt="seaxerocks_3", payloads=(), laser=None):
    cams = [NS(name="Cam%d" % i, records_laser=(i == laser), type="x", path="p", origin=None) for i in range(ncam)]
    return NS(
        origin=NS(latitude=ctx.real("lat0", lo=-60, hi=60), longitude=ctx.real("lon0", lo=-170, hi=170)),
        image=NS(format=fmt, cameras=cams),
        velocity=NS(format="phins"),
        usbl=NS(apply_depth_filter=True, apply_north_east_filter=True),
        payloads={p: NS(format="generic_csv", path="x", columns=[], timeoffset_s=0) for p in payloads},
    )


def off3(o):
    return [o.surge, o.sway, o.heave]


def packet_orientation(ctx, i, t, yaw=None):
    r = lambda n, lo, hi: ctx.real("%s_o%d" % (n, i), lo=lo, hi=hi)
    return {"epoch_timestamp": t, "category": "orientation", "sensor": "x", "frame": "body",
            "data": [{"heading": r("yaw", 0, 360) if yaw is None else yaw, "heading_std": r("yaw_std", 0, 5)}, {"roll": r("roll", -80, 80), "roll_std": r("roll_std", 0, 5)},
                     {"pitch": r("pitch", -80, 80), "pitch_std": r("pitch_std", 0, 5)}]}


def packet_velocity(ctx, i, t, clocks=False):
    """measured at t by the DVL's clock; the record's own time may differ by up to a second"""
    r = lambda n, lo, hi: ctx.real("%s_v%d" % (n, i), lo=lo, hi=hi)
    d = []
    for a in "xyz":
        d.append({a + "_velocity": r("v" + a, -3, 3), a + "_velocity_std": r("s" + a, 0, 1)})
    return {"epoch_timestamp": t + ctx.real("clocks_v%d" % i, lo=-0.9, hi=0.9) if clocks else t, "epoch_timestamp_dvl": t, "category": "velocity", "frame": "body", "sensor": "x", "data": d}


def packet_depth(ctx, i, t):
    return {"epoch_timestamp": t, "epoch_timestamp_depth": t, "category": "depth", "frame": "inertial", "sensor": "x",
            "data": [{"depth": ctx.real("dep%d" % i, lo=0, hi=100), "depth_std": ctx.real("dep_std%d" % i, lo=0, hi=5)}]}


def packet_altitude(ctx, i, t):
    return {"epoch_timestamp": t, "epoch_timestamp_dvl": t, "category": "altitude", "frame": "body", "sensor": "x", "sound_velocity": 1500, "sound_velocity_correction": 0,
            "data": [{"altitude": ctx.real("alt%d" % i, lo=0, hi=100), "altitude_std": ctx.real("alt_std%d" % i, lo=0, hi=5)}]}


def packet_usbl(ctx, i, t):
    r = lambda n, lo, hi: ctx.real("%s_u%d" % (n, i), lo=lo, hi=hi)
    return {"epoch_timestamp": t, "category": "usbl", "frame": "inertial", "sensor": "x",
            "data_ship": [{"latitude": 0.0, "longitude": 0.0}, {"northings": 0.0, "eastings": 0.0}, {"heading": 0.0}],
            "data_target": [{"latitude": r("lat", -60, 60), "latitude_std": 1e-5}, {"longitude": r("lon", -60, 60), "longitude_std": 1e-5},
                            {"northings": r("n", -50, 50), "northings_std": r("ns", 0, 5)}, {"eastings": r("e", -50, 50), "eastings_std": r("es", 0, 5)},
                            {"depth": r("d", 0, 100), "depth_std": r("ds", 0, 5)}, {"distance_to_ship": r("dist", 0, 100)}]}


def packet_image(i, t, t2=None, two=False):
    p = {"epoch_timestamp": t, "category": "image", "frame": "body", "sensor": "x", "camera1": [{"epoch_timestamp": t, "filename": "a%d.raw" % i}]}
    if two:
        p["camera2"] = [{"epoch_timestamp": t if t2 is None else t2, "filename": "b%d.raw" % i}]
    return p


def packet_laser(i, t, fmt="seaxerocks_3"):
    """as the image parsers write them: BioCam under "camera3", SeaXerocks at the top"""
    p = {"epoch_timestamp": t, "category": "laser", "frame": "body", "sensor": "x"}
    if fmt == "biocam":
        p["camera3"] = [{"epoch_timestamp": t, "filename": "l%d.raw" % i}]
    else:
        p["filename"] = "l%d.raw" % i
    return p


def bound(fn, a, k):
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


def run(ctx, packets, vehicle, mission, pf=None, ekf=False, smoother=True, p0=None, q=None, payload_data=None, record=(), start=START, finish=FINISH, usbl_filter=False, spp=False, on_thread=None, force=True, before=None, after=None, relative=False, usbl_csv=False, csv_off=None):
    silence(ctx)
    m2l, l2m = geodesy(ctx)
    m = repo(P)
    rec = Rec()
    rec.m2l = m2l
    real_thread = m.threading

    class Thread:
        def __init__(self, target=None, args=(), kwargs=None, **kw):
            rec.threads.append(target)
            if on_thread is not None:
                on_thread(target, list(args), dict(kwargs or {}))
            if getattr(target, "__name__", "") == "write_csv":
                b = bound(target, args, kwargs or {})
                vals = list(b.values())
                rec.csv[vals[2]] = (vals[1], b)

        def start(self):
            pass

        def join(self, *a):
            pass

    fake = types.SimpleNamespace(Thread=Thread, Lock=lambda: None)
    ctx.patch(m, "threading", fake)
    ctx.patch(m, "json", types.SimpleNamespace(load=lambda f: packets))
    ctx.patch(m, "Vehicle", lambda *a, **k: vehicle)
    ctx.patch(m, "Mission", lambda *a, **k: mission)

    def rec_call(name, result):
        real = getattr(m, name)

        def f(*a, **k):
            b = bound(real, a, k)
            rec.calls.setdefault(name, []).append(b)
            return result(b)

        ctx.patch(m, name, f)

    for name, result in record:
        rec_call(name, result)
    if pf is not None:
        rec_call("run_particle_filter", lambda b: [pf, [], [], [], [], []])
    if payload_data is not None:
        ctx.patch(m, "generic_csv_payload_parser", lambda *a, **k: payload_data())
    d = tempfile.mkdtemp(prefix="pyvc_proc_")
    try:
        for sub in ("raw/dive", "processed/dive/nav", "configuration/dive"):
            os.makedirs(os.path.join(d, sub))
        open(os.path.join(d, "raw/dive/vehicle.yaml"), "w").write("a: 1\n")
        open(os.path.join(d, "raw/dive/mission.yaml"), "w").write("a: 1\n")
        open(os.path.join(d, "processed/dive/nav/nav_standard.json"), "w").write("[]")
        q = q if q is not None else [float(i) for i in range(144)]
        p0 = p0 if p0 is not None else [float(i) for i in range(144)]
        open(os.path.join(d, "configuration/dive/auv_nav.yaml"), "w").write(YAML % dict(usbl_csv=usbl_csv, csv=flags(csv_off), spp=spp, usbl_filter=usbl_filter, pf=pf is not None, ekf=ekf, smoother=smoother, q=list(q), p0=list(p0)))
        if before is not None:
            before(d)
        try:
            if relative:
                m.process(os.path.join(d, "processed/dive"), force, start, finish, True, None, None)
            else:
                m.process(os.path.join(d, "processed/dive"), force, start, finish)
        finally:
            if after is not None:
                after(d)
        rec.folders = sorted(os.listdir(os.path.join(d, "processed/dive")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec


def four(ctx, turns=False, ts=None):
    clocks = ts is None
    ts = ctx.increasing("t", 5, gap=0.05, lo=1000, hi=1100) if ts is None else ts
    yaw = lambda i: ctx.real("yaw_centre", lo=90, hi=270) + ctx.real("yaw_d%d" % i, lo=-89, hi=89)
    ps = [packet_velocity(ctx, 0, ts[0], clocks), packet_depth(ctx, 0, ts[0]), packet_altitude(ctx, 0, ts[0]), packet_orientation(ctx, 0, ts[1], yaw(0)),
          packet_orientation(ctx, 1, ts[3], yaw(1)), packet_velocity(ctx, 1, ts[4], clocks), packet_depth(ctx, 1, ts[4]), packet_altitude(ctx, 1, ts[4])]
    return ts, ps
