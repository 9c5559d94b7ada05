"""R12: measurements survive the standard navigation format."""
from common import *

REG = Registry("R12")
S = "auv_nav.sensors"
CASES = {
    # class: (values, stds, time fields set on the sensor, which time is read back)
    "BodyVelocity": (["x_velocity", "y_velocity", "z_velocity"], True, ["epoch_timestamp", "epoch_timestamp_dvl"], "epoch_timestamp_dvl", "body", "velocity"),
    "InertialVelocity": (["north_velocity", "east_velocity", "down_velocity"], True, ["epoch_timestamp"], "epoch_timestamp", "inertial", "velocity"),
    "Orientation": (["roll", "pitch", "yaw"], True, ["epoch_timestamp"], "epoch_timestamp", "body", "orientation"),
    "Depth": (["depth"], True, ["epoch_timestamp", "depth_timestamp"], "epoch_timestamp", "inertial", "depth"),
    "Altitude": (["altitude"], True, ["epoch_timestamp", "altitude_timestamp"], "epoch_timestamp", "body", "altitude"),
    "Usbl": (["latitude", "longitude", "northings", "eastings", "depth"], True, ["epoch_timestamp"], "epoch_timestamp", "inertial", "usbl"),
    "Tide": (["height"], True, ["epoch_timestamp"], "epoch_timestamp", "inertial", "tide"),
}
NO_MODEL = ("InertialVelocity", "Altitude")


def fill(ctx, o, values, times):
    d = {}
    for v in values:
        d[v] = ctx.real(v, lo=-80, hi=80) if v == "latitude" else ctx.real(v, lo=-170, hi=170)
        d[v + "_std"] = ctx.real(v + "_std", lo=0, hi=9)
    for t in times:
        d[t] = ctx.real(t, lo=0, hi=2e9)
    for k, v in d.items():
        setattr(o, k, v)
    return d


def read(o, j, model):
    return o.from_json(j) if type(o).__name__ in NO_MODEL else o.from_json(j, model)


def _trip(name):
    values, _, times, tback, frame, cat = CASES[name]

    def h(ctx):
        silence(ctx)
        o = getattr(repo(S), name)()
        d = fill(ctx, o, values, times)
        if name == "Usbl":
            for k in ("latitude_ship", "longitude_ship", "northings_ship", "eastings_ship", "heading_ship", "distance_to_ship"):
                d[k] = ctx.real(k, lo=-100, hi=100)
                setattr(o, k, d[k])
        j = o.export("oplab")
        ctx.ensure("exported", isinstance(j, dict))
        ctx.ensure("tags", j["class"] == "measurement" and j["frame"] == frame and j["category"] == cat, str(j["category"]))
        ctx.ensure_eq("stamp", j["epoch_timestamp"], d["epoch_timestamp"])
        r = getattr(repo(S), name)()
        read(r, j, {"model": "sensor"})
        ctx.ensure_eq("time", r.epoch_timestamp, d[tback])
        for v in values:
            ctx.ensure_eq(v, getattr(r, v), d[v])
            ctx.ensure_eq(v + "_std", getattr(r, v + "_std"), d[v + "_std"])
        if name == "Usbl":
            for k in ("latitude_ship", "longitude_ship", "northings_ship", "eastings_ship", "heading_ship", "distance_to_ship"):
                ctx.ensure_eq(k, getattr(r, k), d[k])
        # one reading is exported once: afterwards there is nothing left to export
        ctx.ensure("exported-once", o.export("oplab") is None)

    h.__name__ = "%s_file_round_trip" % name
    REG.harness(["%s.%s._to_json" % (S, name), "%s.%s.from_json" % (S, name), S + ".OutputFormat.export", "%s.%s.clear" % (S, name), "%s.%s.valid" % (S, name)])(h)


for _n in CASES:
    _trip(_n)


def _model(name, per_axis=False):
    values, _, times, tback, frame, cat = CASES[name]

    def h(ctx):
        silence(ctx)
        m2l, _l = geodesy(ctx)
        o = getattr(repo(S), name)()
        d = fill(ctx, o, values, times)
        if name == "Usbl":
            d["distance_to_ship"] = o.distance_to_ship = ctx.real("dist", lo=0, hi=500)
        j = o._to_json()
        f, q = ctx.real("factor", lo=0, hi=1), ctx.real("offset", lo=0, hi=3)
        model = {"model": "linear", "factor": f, "offset": q}
        ax = {v: (f, q) for v in values}
        if per_axis:
            model = {"model": "linear"}
            for v in values:
                ax[v] = (ctx.real("factor_" + v[0], lo=0, hi=1), ctx.real("offset_" + v[0], lo=0, hi=3))
                model["factor_" + v[0]], model["offset_" + v[0]] = ax[v]
        r = getattr(repo(S), name)()
        read(r, j, model)
        ctx.ensure_eq("time", r.epoch_timestamp, d[tback])
        for v in values:
            ctx.ensure_eq(v, getattr(r, v), d[v])
            if name == "Usbl":
                if v in ("latitude", "longitude"):
                    # what the uncertainty of the slant range amounts to in degrees
                    far = ctx.sqrt(d["distance_to_ship"] * d["distance_to_ship"] + d["depth"] * d["depth"])
                    s = f * far + q
                    at = m2l(abs(d["latitude"]), abs(d["longitude"]), s, s)[v == "longitude"]
                    ctx.ensure_eq(v + "_std", getattr(r, v + "_std"), abs(abs(d[v]) - at), scale=1)
                if v in ("northings", "eastings"):
                    ctx.ensure_eq(v + "_std", getattr(r, v + "_std"), q + f * d["distance_to_ship"], scale=500)
                if v == "depth":
                    ctx.ensure_eq("depth_std", r.depth_std, d["depth_std"])
                continue
            ctx.ensure_eq(v + "_std", getattr(r, v + "_std"), ax[v][1] + ax[v][0] * abs(d[v]), scale=200)

    h.__name__ = "%s_linear_noise_model%s" % (name, "_per_axis" if per_axis else "")
    REG.harness(["%s.%s.from_json" % (S, name)])(h)


for _n in CASES:
    if _n not in NO_MODEL:
        _model(_n)
_model("BodyVelocity", True)


def _incomplete(name):
    """a reading that misses a value or its time is not written"""
    values, _, times, tback, frame, cat = CASES[name]
    must = {"BodyVelocity": ["x_velocity", "y_velocity"], "InertialVelocity": ["north_velocity"], "Orientation": ["roll", "yaw"], "Usbl": ["latitude", "longitude", "northings", "eastings"]}.get(name, values)

    def h(ctx):
        silence(ctx)
        o = getattr(repo(S), name)()
        fill(ctx, o, values, times)
        miss = ctx.choice("missing", must + times)
        kept = getattr(o, miss)
        setattr(o, miss, None)
        ctx.ensure("not-written-without-" + miss, o.export("oplab") is None)
        # the rest of the reading may still follow
        setattr(o, miss, kept)
        j = o.export("oplab")
        ctx.ensure("written-once-complete", isinstance(j, dict) and j["category"] == cat)

    h.__name__ = "%s_incomplete_reading_is_not_written" % name
    REG.harness([S + ".OutputFormat.export", "%s.%s.valid" % (S, name)])(h)


for _n in CASES:
    _incomplete(_n)


@REG.harness([S + ".Camera._to_json", S + ".Camera.from_json"])
def image_round_trip(ctx):
    silence(ctx)
    c = repo(S).Camera()
    c.sensor_string = "x"
    t = c.epoch_timestamp = ctx.real("t", lo=0, hi=2e9)
    c.filename = "a/b.png"
    j = c.export("oplab")
    r = repo(S).Camera()
    r.from_json(j, "camera1")
    ctx.ensure("category", j["category"] == "image" and j["frame"] == "body")
    ctx.ensure_eq("time", r.epoch_timestamp, t)
    ctx.ensure_eq("stamp", j["epoch_timestamp"], t)
    ctx.ensure("file", r.filename == "a/b.png")
    ctx.ensure("exported-once", c.export("oplab") is None)


@REG.harness([S + ".StereoCamera._to_json", S + ".Camera.from_json"])
def stereo_round_trip(ctx):
    silence(ctx)
    s = repo(S).StereoCamera()
    a, b = ctx.real("ta", lo=0, hi=2e9), ctx.real("tb", lo=0, hi=2e9)
    s.left.epoch_timestamp, s.left.filename, s.right.epoch_timestamp, s.right.filename = a, "l.png", b, "r.png"
    j = s._to_json()
    l, r = repo(S).Camera(), repo(S).Camera()
    l.from_json(j, "camera1")
    r.from_json(j, "camera2")
    ctx.ensure_eq("left-time", l.epoch_timestamp, a)
    ctx.ensure_eq("right-time", r.epoch_timestamp, b)
    ctx.ensure("files", (l.filename, r.filename) == ("l.png", "r.png"))
    ctx.ensure_eq("stamp", j["epoch_timestamp"], a)


@REG.harness([S + ".Camera.from_json"])
def laser_image_is_read(ctx):
    """laser images stand in the file on their own, not under the name of a camera"""
    silence(ctx)
    t = ctx.real("t", lo=0, hi=2e9)
    r = repo(S).Camera()
    r.from_json({"epoch_timestamp": t, "class": "measurement", "category": "laser", "filename": "a/b.png"}, "camera3")
    ctx.ensure_eq("time", r.epoch_timestamp, t)
    ctx.ensure("file", r.filename == "a/b.png")
