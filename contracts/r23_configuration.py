"""R23: mission.yaml and vehicle.yaml: every sensor gets the settings written for it."""
from common import *
import copy, pathlib, shutil, tempfile

REG = Registry("R23")
MI, VE = "oplab.mission", "oplab.vehicle"
SENSORS = {"velocity": "dvl", "orientation": "ins", "depth": "depth", "altitude": "dvl", "usbl": "usbl"}


class Yaml:
    """assumed contract of yaml: loading a dumped structure returns an equal structure
    (proofs; replays use the real yaml)"""

    def __init__(self, ctx):
        self.docs = []
        ctx.trusted.add("assumed contract: yaml.safe_load(yaml.dump(x)) == x")

    def put(self, x):
        self.docs.append(x)
        return "doc:%d\n" % (len(self.docs) - 1)

    def safe_load(self, f):
        t = f if isinstance(f, str) else f.read()
        out, first = {}, t.split("\n", 1)[0]
        out.update(copy.deepcopy(self.docs[int(first[4:])]))
        if "\nmetadata:" in t:
            out["metadata"] = {"username": "?"}
        return out

    def load(self, f, *a, **k):
        return self.safe_load(f)

    def dump(self, x, f=None, *a, **k):
        def plain(v):
            return {p: plain(q) for p, q in v.items()} if isinstance(v, dict) else [plain(q) for q in v] if isinstance(v, list) else v

        t = self.put(plain(x))
        if f is None:
            return t
        f.write(t)

    safe_dump = dump


class Setup:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
        ctx = self.ctx
        silence(ctx)
        C = repo("oplab.console").Console
        for n in ("get_username", "get_date", "get_hostname", "get_version"):
            ctx.patch(C, n, staticmethod(lambda: "x"))
        if ctx.symbolic:
            self.yaml = Yaml(ctx)
            ctx.patch(repo(MI), "yaml", self.yaml)
            ctx.patch(repo(VE), "yaml", self.yaml)
        return self

    def file(self, name, x):
        p = self.root / name
        p.parent.mkdir(parents=True, exist_ok=True)
        if self.ctx.symbolic:
            p.write_text(self.yaml.put(x))
        else:
            import yaml

            p.write_text(yaml.safe_dump(x))
        return p

    def __exit__(self, *a):
        shutil.rmtree(self.root)


def sensor(ctx, tag, full, frame=None):
    n = {"format": "f_" + tag}
    if full:
        n.update(filepath="p_" + tag, filename="n_" + tag, std_factor=ctx.real(tag + "_factor", lo=0, hi=1), std_offset=ctx.real(tag + "_offset", lo=0, hi=1), timezone=ctx.real(tag + "_zone", lo=-12, hi=14), timeoffset=ctx.real(tag + "_timeoffset", lo=-100, hi=100), topic="/t_" + tag, field_id=ctx.int(tag + "_field", 0, 9), apply_depth_filter=full == "label", apply_north_east_filter=full == "id")
        n[full] = ctx.int(tag + "_label", 0, 9)
    if frame:
        n["origin"] = frame
    return n


def check_sensor(ctx, name, got, n, frame):
    want = {"format": n["format"], "filepath": n.get("filepath", ""), "filename": n.get("filename", ""), "label": n.get("label", n.get("id", 0)), "std_factor": n.get("std_factor", 0), "std_offset": n.get("std_offset", 0), "timezone": n.get("timezone", 0), "timeoffset_s": n.get("timeoffset", 0), "topic": n.get("topic"), "field_id": n.get("field_id", 0)}
    for k, v in want.items():
        g = getattr(got, k)
        if isinstance(v, str) or v is None:
            ctx.ensure("%s.%s" % (name, k), g == v, "%r instead of %r" % (g, v))
        else:
            ctx.ensure_eq("%s.%s" % (name, k), g, v)
    ctx.ensure_eq(name + ".timezone_s", got.timezone_s, n.get("timezone", 0) * 3600)
    for k in ("apply_depth_filter", "apply_north_east_filter"):
        ctx.ensure("%s.%s" % (name, k), bool(getattr(got, k)) == n.get(k, True))
    ctx.ensure(name + ".present", not got.empty())
    if frame is not None:
        ctx.ensure(name + ".frame", got.origin == frame, "%r" % got.origin)


def offsets(ctx, tag):
    return {k: ctx.real("%s_%s" % (tag, k), lo=-400, hi=400) for k in ("surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg")}


def check_offset(ctx, name, got, n):
    for k, v in n.items():
        ctx.ensure_eq("%s.%s" % (name, k), getattr(got, k.split("_")[0]), v)
    ctx.ensure(name + ".present", not got.empty())


ORIGIN = {"latitude": 10.5, "longitude": -20.25, "coordinate_reference_system": "wgs84", "date": "2020/01/01"}
FRAMES = ("origin", "ins", "dvl", "depth", "usbl")


def cameras(ctx, lay):
    """lay: per camera, does it name its frame?"""
    out, frames = [], []
    for k, named in enumerate(lay):
        c = {"name": "cam%d" % k, "path": "image/p%d" % k, "records_laser": k == 1}
        if named:
            c["origin"] = "frame%d" % k
        if k == 1:
            c["timeoffset"] = ctx.real("camera_timeoffset", lo=-5, hi=5)
        if k == 2:
            c["timeoffset_s"] = ctx.real("camera_timeoffset_s", lo=-5, hi=5)
            c["topic"] = "/cam2"
        out.append(c)
        frames.append(c.get("origin", c["name"]))
    return out, frames


def make(ctx):
    full = ctx.choice("settings", ["label", "id", None])
    frame = ctx.choice("own_frame", [None, "velocity", "usbl"])
    lay = ctx.choice("cameras", [(), (True,), (False, False), (True, False, True), (False, True, False)])
    mission = {"version": 1, "origin": ORIGIN}
    for s in SENSORS:
        mission[s] = sensor(ctx, s, full, "frame_" + s if s == frame else None)
    mission["tide"] = sensor(ctx, "tide", full)
    # some missions have no tide or no usbl
    gone = "tide" if full is None else "usbl" if full == "id" and frame != "usbl" else None
    if gone:
        del mission[gone]
    cs, frames = cameras(ctx, lay)
    if cs:
        mission["image"] = {"format": "seaxerocks_3", "timezone": {"label": "jst", "id": "CET", None: "3.5"}[full] if len(cs) > 1 else "utc", "timeoffset": ctx.real("image_timeoffset", lo=-5, hi=5), "cameras": cs}
    pay = ctx.choice("payloads", [(), ("ph",), ("ph", "ctd")])
    if pay:
        mission["payloads"] = {p: {"path": "pp_" + p, "format": "csv", "timeoffset": ctx.real(p + "_timeoffset", lo=-5, hi=5), "columns": [{"name": p}]} for p in pay}
    vehicle = {f: offsets(ctx, f) for f in FRAMES}
    for f in frames:
        vehicle[f] = offsets(ctx, f)
    if frame:
        vehicle["frame_" + frame] = offsets(ctx, "own")
    if pay:
        vehicle["payloads"] = {p: offsets(ctx, "pay_" + p) for p in pay}
    return mission, vehicle, frames, frame, pay


def check_mission(ctx, m, mission, frames, frame, pay, sensors=SENSORS, tag=""):
    for s, d in sensors.items():
        if s in mission:
            check_sensor(ctx, tag + s, getattr(m, s), mission[s], "frame_" + s if s == frame else d)
        else:
            ctx.ensure(tag + s + ".absent", getattr(m, s).empty())
    if "tide" in mission:
        check_sensor(ctx, tag + "tide", m.tide, mission["tide"], None)
    else:
        ctx.ensure(tag + "tide.absent", m.tide.empty())
    ctx.ensure(tag + "origin", (m.origin.latitude, m.origin.longitude, m.origin.crs, m.origin.date) == (10.5, -20.25, "wgs84", "2020/01/01"))
    ctx.ensure(tag + "number-of-cameras", len(m.image.cameras) == len(frames))
    if frames:
        im = mission["image"]
        ctx.ensure_eq(tag + "image-zone", m.image.timezone, {"utc": 0, "jst": 9, "CET": 1, "3.5": 3.5}[im["timezone"]])
        ctx.ensure_eq(tag + "image-timeoffset", m.image.timeoffset_s, im["timeoffset"])
        for k, c in enumerate(m.image.cameras):
            n = im["cameras"][k]
            ctx.ensure(tag + "camera-%d" % k, (c.name, c.path, c.records_laser, c.origin, c.topic) == (n["name"], n["path"], n["records_laser"], frames[k], n.get("topic")), "%s" % vars(c))
            ctx.ensure_eq(tag + "camera-timeoffset-%d" % k, c.timeoffset_s, n.get("timeoffset_s", n.get("timeoffset", 0)))
    ctx.ensure(tag + "payloads", sorted(m.payloads) == sorted(pay))
    for p in pay:
        q, n = m.payloads[p], mission["payloads"][p]
        ctx.ensure(tag + "payload-" + p, (q.path, q.format, q.columns) == (n["path"], n["format"], n["columns"]))
        ctx.ensure_eq(tag + "payload-timeoffset-" + p, q.timeoffset_s, n["timeoffset"])


B = "section layouts, cameras and payloads enumerated (up to three cameras, two payloads), all numbers symbolic"


@REG.harness([MI + ".Mission.__init__", MI + ".DefaultEntry.load", MI + ".ImageEntry.load", MI + ".CameraEntry.__init__", MI + ".PayloadEntry.load", MI + ".TimeZoneEntry.load", MI + ".OriginEntry.load"], kind="bounded", bound=B, samples=40, max_paths=3000, budget_s=200)
def mission_settings(ctx):
    """each section of mission.yaml sets the fields of that sensor and of no other; absent
    fields have their defaults; cameras and payloads keep their own paths, frames and offsets"""
    with Setup(ctx) as s:
        mission, vehicle, frames, frame, pay = make(ctx)
        s.file("vehicle.yaml", vehicle)
        m = repo(MI).Mission(s.file("mission.yaml", mission))
        check_mission(ctx, m, mission, frames, frame, pay)


@REG.harness([VE + ".Vehicle.__init__", VE + ".SensorOffset.load"], kind="bounded", bound=B, samples=40, max_paths=3000, budget_s=200)
def vehicle_offsets(ctx):
    """each frame of vehicle.yaml gives the offsets of that sensor; camera k has the offsets of
    the frame of the k-th camera of mission.yaml"""
    with Setup(ctx) as s:
        mission, vehicle, frames, frame, pay = make(ctx)
        s.file("mission.yaml", mission)
        v = repo(VE).Vehicle(s.file("vehicle.yaml", vehicle))
        for f in FRAMES:
            check_offset(ctx, f, getattr(v, f), vehicle[f])
        for k in range(3):
            c = getattr(v, "camera%d" % (k + 1))
            if k < len(frames):
                check_offset(ctx, "camera%d" % (k + 1), c, vehicle[frames[k]])
            else:
                ctx.ensure("camera%d-absent" % (k + 1), c.empty())
                ctx.ensure_eq("camera%d-zero" % (k + 1), abs(c.surge) + abs(c.sway) + abs(c.heave), 0)
        ctx.ensure("payloads", sorted(v.payloads) == sorted(pay))
        for p in pay:
            check_offset(ctx, "payload-" + p, v.payloads[p], vehicle["payloads"][p])


@REG.harness([VE + ".Vehicle.__init__", VE + ".SensorOffset.load"], samples=30)
def legacy_vehicle_offsets(ctx):
    """legacy files give x, y, z offsets, and the heading offsets of mission.yaml"""
    with Setup(ctx) as s:
        three = lambda t: {a + "_offset": ctx.real("%s_%s" % (t, a), lo=-10, hi=10) for a in "xyz"}
        vehicle = {f: three(f) for f in FRAMES}
        mission = {"version": 1, "origin": ORIGIN}
        for n in SENSORS:
            mission[n] = sensor(ctx, n, None)
        h = {n: ctx.real("heading_" + n, lo=-180, hi=180) for n in ("orientation", "velocity", "depth")}
        for n in h:
            mission[n]["headingoffset"] = h[n]
        s.file("mission.yaml", mission)
        v = repo(VE).Vehicle(s.file("vehicle.yaml", vehicle))
        for f in FRAMES:
            o = getattr(v, f)
            for a, b in (("surge", "x"), ("sway", "y"), ("heave", "z")):
                ctx.ensure_eq("%s.%s" % (f, a), getattr(o, a), vehicle[f][b + "_offset"])
            ctx.ensure_eq(f + ".yaw", o.yaw, {"ins": h["orientation"], "dvl": h["velocity"]}.get(f, 0))
            ctx.ensure_eq(f + ".tilt", abs(o.roll) + abs(o.pitch), 0)


@REG.harness([MI + ".Mission.__init__", MI + ".ImageEntry.load", VE + ".Vehicle.__init__"], kind="bounded", bound="both legacy camera formats")
def legacy_cameras(ctx):
    """version 0 files: each camera has its own folder, name and frame"""
    with Setup(ctx) as s:
        fmt = ctx.choice("format", ["seaxerocks_3", "acfr_standard"])
        vehicle = {f: offsets(ctx, f) for f in FRAMES}
        for k in (1, 2, 3):
            vehicle["camera%d" % k] = offsets(ctx, "camera%d" % k)
        mission = {"origin": ORIGIN, "image": {"format": fmt, "filepath": "im/", "camera1": "one", "camera2": "two", "timeoffset": ctx.real("offset", lo=-5, hi=5), "timezone": ctx.real("zone", lo=-12, hi=14)}}
        want = [("one", "camera1", "im/"), ("two", "camera2", "im/")]
        if fmt == "seaxerocks_3":
            mission["image"]["camera3"] = "three"
            want = [("fore", "camera1", "im/one"), ("aft", "camera2", "im/two"), ("laser", "camera3", "im/three")]
        s.file("vehicle.yaml", vehicle)
        m = repo(MI).Mission(s.file("mission.yaml", mission))
        got = [(c.name, c.origin, c.path) for c in m.image.cameras]
        ctx.ensure("cameras", got == want, str(got))
        ctx.ensure_eq("image-timeoffset", m.image.timeoffset_s, mission["image"]["timeoffset"])
        ctx.ensure_eq("image-timezone", m.image.timezone, mission["image"]["timezone"])
        for c in m.image.cameras:
            ctx.ensure_eq("own-timeoffset", c.timeoffset_s, 0)
        v = repo(VE).Vehicle(s.root / "vehicle.yaml")
        for k in range(len(want)):
            check_offset(ctx, "camera%d" % (k + 1), getattr(v, "camera%d" % (k + 1)), vehicle["camera%d" % (k + 1)])


@REG.harness([MI + ".Mission.__init__", VE + ".Vehicle.__init__"], kind="bounded", bound="one missing frame, all choices of it", samples=40, max_paths=3000)
def unknown_frames_are_refused(ctx):
    """a mission is loaded exactly when every sensor, camera and payload has a frame in vehicle.yaml"""
    with Setup(ctx) as s:
        mission, vehicle, frames, frame, pay = make(ctx)
        used = set(SENSORS.values()) - ({"usbl"} if frame == "usbl" or "usbl" not in mission else set()) | set(frames) | ({"frame_" + frame} if frame else set())
        names = sorted(used) + ["payload " + p for p in pay] + ["origin"]
        i = ctx.int("missing", 0, 13)
        gone = None
        for k, n in enumerate(names):
            if i == k:
                gone = n
        if gone is None:
            pass
        elif gone.startswith("payload "):
            del vehicle["payloads"][gone[8:]]
            if not vehicle["payloads"]:
                del vehicle["payloads"]
        else:
            del vehicle[gone]
        s.file("vehicle.yaml", vehicle)
        try:
            repo(MI).Mission(s.file("mission.yaml", mission))
            ok = True
        except Quit:
            ok = False
        ctx.ensure("refused-exactly-if-missing", ok == (gone is None or gone == "origin"), "missing %s: %s" % (gone, "loaded" if ok else "refused"))


@REG.harness([MI + ".Mission.__init__"], kind="bounded", bound="both files", samples=6)
def missing_files_are_refused(ctx):
    with Setup(ctx) as s:
        mission, vehicle = {"version": 1, "origin": ORIGIN}, {}
        which = ctx.choice("missing", ["mission.yaml", "vehicle.yaml"])
        if which != "mission.yaml":
            s.file("mission.yaml", mission)
        if which != "vehicle.yaml":
            s.file("vehicle.yaml", vehicle)
        try:
            repo(MI).Mission(s.root / "mission.yaml")
            ok = True
        except Quit:
            ok = False
        ctx.ensure("refused", not ok)


@REG.harness([MI + ".Mission.write", MI + ".DefaultEntry.write", MI + ".ImageEntry.write", MI + ".CameraEntry.write", MI + ".PayloadEntry.write", MI + ".TimeZoneEntry.write", MI + ".OriginEntry.write"], kind="bounded", bound=B, samples=40, max_paths=3000, budget_s=200)
def written_mission_reads_back(ctx):
    """a mission written to a file (copied, or composed from its fields) loads as the same mission; the original file is unchanged"""
    with Setup(ctx) as s:
        mission, vehicle, frames, frame, pay = make(ctx)
        s.file("vehicle.yaml", vehicle)
        src = s.file("mission.yaml", mission)
        before = src.read_text()
        m = repo(MI).Mission(src)
        composed = ctx.flag("composed")
        if composed:
            m.filename = None
        s.file("out/deep/vehicle.yaml", vehicle)
        out = s.root / "out" / "deep" / "mission.yaml"
        m.write(out)
        ctx.ensure("original-unchanged", src.exists() and src.read_text() == before)
        if not src.exists():
            return
        again = repo(MI).Mission(out)
        if composed and frames:
            mission["image"]["timezone"] = {"utc": "utc", "jst": "jst", "CET": "CET", "3.5": "3.5"}[mission["image"]["timezone"]]
        check_mission(ctx, again, mission, frames, frame, pay, tag="again-")


@REG.harness([VE + ".Vehicle.write", VE + ".SensorOffset.write"], samples=25)
def written_vehicle_reads_back(ctx):
    with Setup(ctx) as s:
        mission = {"version": 1, "origin": ORIGIN}
        vehicle = {f: offsets(ctx, f) for f in FRAMES}
        s.file("mission.yaml", mission)
        src = s.file("vehicle.yaml", vehicle)
        before = src.read_text()
        v = repo(VE).Vehicle(src)
        s.file("out/mission.yaml", mission)
        v.write(s.root / "out" / "vehicle.yaml")
        ctx.ensure("original-unchanged", src.exists() and src.read_text() == before)
        if not src.exists():
            return
        w = repo(VE).Vehicle(s.root / "out" / "vehicle.yaml")
        for f in FRAMES:
            check_offset(ctx, f, getattr(w, f), vehicle[f])
            n = {}
            getattr(v, f).write(n)
            for k in vehicle[f]:
                ctx.ensure_eq("written-%s-%s" % (f, k), n[k], vehicle[f][k])
