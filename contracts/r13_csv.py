"""R13: exported tables carry each value under the column that names it."""
from common import *
import os
import pathlib
import shutil
import tempfile
import threading
import numpy as np

REG = Registry("R13")
S = "auv_nav.sensors"
T = "auv_nav.tools.csv_tools"


def num(ctx, x):
    """the number a printed cell reads back as"""
    if isinstance(x, str):
        if ctx.symbolic:
            from pyvc.shims import c_float

            return c_float(x)
        return float(x)
    return x


def cells(text):
    if not (text.endswith("\n") and text.count("\n") == 1):
        raise AssertionError("not exactly one line: %r" % text)
    return [c.strip() for c in text[:-1].split(",")]


PLAIN = {
    "BodyVelocity": ["epoch_timestamp", "x_velocity", "y_velocity", "z_velocity", "x_velocity_std", "y_velocity_std", "z_velocity_std"],
    "InertialVelocity": ["epoch_timestamp", "east_velocity", "north_velocity", "down_velocity", "east_velocity_std", "north_velocity_std", "down_velocity_std"],
    "Orientation": ["epoch_timestamp", "roll", "pitch", "yaw", "roll_std", "pitch_std", "yaw_std"],
    "Depth": ["epoch_timestamp", "depth", "depth_std"],
    "Altitude": ["epoch_timestamp", "altitude"],
    "Usbl": ["epoch_timestamp", "latitude", "longitude", "northings", "eastings", "depth", "distance_to_ship", "latitude_std", "longitude_std", "northings_std", "eastings_std", "depth_std"],
    "Tide": ["epoch_timestamp", "height", "height_std"],
}
POSE = {"northing [m]": "northings", "easting [m]": "eastings", "depth [m]": "depth", "altitude [m]": "altitude", "latitude [deg]": "latitude", "longitude [deg]": "longitude"}
TRACK = dict(POSE, **{
    "timestamp": "epoch_timestamp", "roll [deg]": "roll", "pitch [deg]": "pitch", "heading [deg]": "yaw",
    "vehicle_std_x [m]": "northings_std", "vehicle_std_y [m]": "eastings_std", "vehicle_std_z [m]": "depth_std",
    "vehicle_std_roll [deg]": "roll_std", "vehicle_std_pitch [deg]": "pitch_std", "vehicle_std_yaw [deg]": "yaw_std",
    "vehicle_std_vx [m/s]": "x_velocity_std", "vehicle_std_vy [m/s]": "y_velocity_std", "vehicle_std_vz [m/s]": "z_velocity_std",
    "vehicle_std_vroll [deg/s]": "vroll_std", "vehicle_std_vpitch [deg/s]": "vpitch_std", "vehicle_std_vyaw [deg/s]": "vyaw_std",
})
CAM = dict(TRACK, **{"timestamp [s]": "epoch_timestamp", "x_velocity [m/s]": "x_velocity", "y_velocity [m/s]": "y_velocity", "z_velocity [m/s]": "z_velocity"})
del CAM["timestamp"]
AX = ["x", "y", "z", "roll", "pitch", "yaw"]


def fill(ctx, o, attrs, tag=""):
    d = {}
    for a in attrs:
        lo, hi = (0, 2e9) if a == "epoch_timestamp" else (-400, 400)
        d[a] = ctx.real(a + tag, lo=lo, hi=hi)
        setattr(o, a, d[a])
    return d


def check_row(ctx, header, row, cols, d, tag=""):
    h, r = cells(header), cells(row)
    ctx.ensure("one-cell-per-column" + tag, len(h) == len(r) and len(set(h)) == len(h), "%r / %r" % (h, r))
    rec = dict(zip(h, r))
    for c, a in cols.items():
        ctx.ensure("column-present" + tag, c in rec, "%r missing in %r" % (c, h))
        ctx.ensure_eq("cell-%s%s" % (a, tag), num(ctx, rec[c]), d[a])
    return rec


def _plain(name):
    def h(ctx):
        silence(ctx)
        o = getattr(repo(S), name)()
        d = fill(ctx, o, PLAIN[name])
        check_row(ctx, o.get_csv_header(), o.to_csv_row(), {a: a for a in PLAIN[name]}, d)

    h.__name__ = "%s_row" % name
    REG.harness(["%s.%s.to_csv_row" % (S, name), "%s.%s.get_csv_header" % (S, name)])(h)


for _n in PLAIN:
    _plain(_n)


@REG.harness([S + ".SyncedOrientationBodyVelocity.to_csv_row", S + ".SyncedOrientationBodyVelocity.get_csv_header", S + ".SyncedOrientationBodyVelocity.from_df"])
def track_row_round_trip(ctx):
    o = repo(S).SyncedOrientationBodyVelocity()
    d = fill(ctx, o, TRACK.values())
    rec = check_row(ctx, o.get_csv_header(), o.to_csv_row(), TRACK, d)
    r = repo(S).SyncedOrientationBodyVelocity()
    r.from_df({k: num(ctx, v) for k, v in rec.items()})
    for a in TRACK.values():
        ctx.ensure_eq("read-back-" + a, getattr(r, a), d[a])


@REG.harness([S + ".Camera.to_csv_row", S + ".Camera.get_csv_header", S + ".Camera.from_df"])
def camera_row_round_trip(ctx):
    o = repo(S).Camera()
    d = fill(ctx, o, CAM.values())
    o.filename = "image/a b.png"
    rec = check_row(ctx, o.get_csv_header(), o.to_csv_row(), CAM, d)
    ctx.ensure("path", rec.get("relative_path") == "image/a b.png", str(rec))
    r = repo(S).Camera()
    r.from_df({k: (v if k == "relative_path" else num(ctx, v)) for k, v in rec.items()})
    for a in CAM.values():
        ctx.ensure_eq("read-back-" + a, getattr(r, a), d[a])
    ctx.ensure("read-back-path", r.filename == "image/a b.png")


@REG.harness([S + ".Camera.to_csv_cov_row", S + ".Camera.get_csv_header_cov"])
def camera_covariance_row(ctx):
    o = repo(S).Camera()
    o.filename = "i.png"
    n = ctx.choice("size", [6, 12])
    C = [[ctx.real("c%d_%d" % (i, j), lo=-9, hi=9) for j in range(n)] for i in range(n)]
    o.covariance = repo(S).np.array(C)
    h, r = cells(o.get_csv_header_cov()), cells(o.to_csv_cov_row())
    ctx.ensure("one-cell-per-column", len(h) == len(r) == 37 and len(set(h)) == 37)
    rec = dict(zip(h, r))
    ctx.ensure("path", rec["relative_path"] == "i.png")
    for i, a in enumerate(AX):
        for j, b in enumerate(AX):
            ctx.ensure_eq("cov-%s-%s" % (a, b), num(ctx, rec["cov_%s_%s" % (a, b)]), C[i][j])


@REG.harness([S + ".SyncedOrientationBodyVelocity.northing_std_from_cov", S + ".SyncedOrientationBodyVelocity.yaw_std_from_cov_deg"])
def std_from_covariance(ctx):
    o = repo(S).Camera()
    C = [[ctx.real("c%d_%d" % (i, j), lo=-9, hi=9) for j in range(6)] for i in range(6)]
    o.covariance = repo(S).np.array(C)
    for i, n in enumerate(["northing_std_from_cov", "easting_std_from_cov", "depth_std_from_cov", "roll_std_from_cov_deg", "pitch_std_from_cov_deg", "yaw_std_from_cov_deg"]):
        v = C[i][i]
        want = 0 if not (v > 0) else ctx.sqrt(v)
        if i > 2:
            want = ctx.deg(want)
        ctx.ensure_eq(n, getattr(o, n)(), want)


@REG.harness([S + ".Payload.to_csv_row", S + ".Payload.get_csv_header", S + ".Payload.from_json"])
def payload_row(ctx):
    o = repo(S).Payload()
    keys = ctx.choice("kind", [None, ("temp",), ("temp", "salinity", "ph")])
    vals = [ctx.real("v%d" % i, lo=-9, hi=9) for i in range(len(keys or ("data",)))]
    t = ctx.real("t", lo=0, hi=2e9)
    o.from_json({"epoch_timestamp": t, "data": vals[0] if keys is None else dict(zip(keys, vals))})
    ctx.ensure_eq("time", o.epoch_timestamp, t)
    d = fill(ctx, o, POSE.values())
    rec = check_row(ctx, o.get_csv_header(), o.to_csv_row(), POSE, d)
    for k, v in zip(keys or ("data",), vals):
        ctx.ensure_eq("payload-" + k, num(ctx, rec[k]), v)


# ------------------------------------------------------------------ files
class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vcR13_")
        return pathlib.Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def cams(ctx, n, cov=True):
    out = []
    for k in range(n):
        o = repo(S).Camera()
        d = fill(ctx, o, CAM.values(), "_%d" % k)
        o.filename = "image/%d.png" % k
        d["C"] = [[ctx.real("c%d_%d_%d" % (k, i, j), lo=-9, hi=9) for j in range(6)] for i in range(6)]
        o.covariance = repo(S).np.array(d["C"]) if cov else None
        out.append((o, d))
    return out


@REG.harness([T + ".write_csv"], kind="bounded", bound="lists of 2 and 3 records with symbolic contents", samples=10)
def table_has_every_record_in_order(ctx):
    silence(ctx)
    n = ctx.choice("n", [2, 3])
    kind = ctx.choice("kind", ["Camera", "SyncedOrientationBodyVelocity", "Depth"])
    objs = []
    for k in range(n):
        o = getattr(repo(S), kind)()
        cols = {"Camera": CAM, "Depth": {a: a for a in PLAIN["Depth"]}}.get(kind, TRACK)
        objs.append((o, fill(ctx, o, cols.values(), "_%d" % k)))
        if kind == "Camera":
            o.filename = "image/%d.png" % k
    lock = threading.Lock() if ctx.choice("mutex", [False, True]) else None
    with Scratch() as d:
        if ctx.choice("rerun", [False, True]):
            (d / "a" / "csv").mkdir(parents=True)
            (d / "a" / "csv" / "tab.csv").write_text("left over from an earlier run\n")
        repo(T).write_csv(d / "a" / "csv", [o for o, _ in objs], "tab", True, lock)
        lines = (d / "a" / "csv" / "tab.csv").read_text().splitlines(True)
        ctx.ensure("no-covariance-file", not (d / "a" / "csv" / "tab_cov.csv").exists())
    ctx.ensure("one-line-per-record", len(lines) == n + 1, str(lines)[:300])
    for k, (o, dd) in enumerate(objs):
        check_row(ctx, lines[0], lines[k + 1], cols, dd, "-%d" % k)
    if lock is not None:
        ctx.ensure("lock-released", not lock.locked())


@REG.harness([T + ".write_csv"])
def table_not_written_when_switched_off(ctx):
    silence(ctx)
    objs = []
    for k in range(2):
        o = repo(S).Depth()
        fill(ctx, o, PLAIN["Depth"], "_%d" % k)
        objs.append(o)
    with Scratch() as d:
        repo(T).write_csv(d, objs, "tab", False)
        ctx.ensure("nothing-written", not (d / "tab.csv").exists())


@REG.harness([T + ".write_csv", T + ".load_states"], kind="bounded", bound="three camera records with symbolic contents, every start/end pair", samples=12)
def camera_states_read_back(ctx):
    silence(ctx)
    cs = cams(ctx, 3)
    # image names need not be in alphabetical order, covariances may repeat
    names = ctx.choice("names", [["image/0.png", "image/1.png", "image/2.png"], ["image/7.png", "image/30.png", "image/12.png"], ["a/image/1.png", "image/1.png", "image/1.png.png"]])
    for (o, dd), n in zip(cs, names):
        o.filename = n
    if ctx.choice("covariances", ["own", "equal"]) == "equal":
        for o, dd in cs[1:]:
            dd["C"] = cs[0][1]["C"]
            o.covariance = repo(S).np.array(dd["C"])
    names.append("image/none.png")
    a = ctx.choice("start", [0, 1, 2])
    b = ctx.choice("end", [k for k in (0, 1, 2, 3) if k >= a])
    with Scratch() as d:
        if ctx.choice("rerun", [False, True]):
            repo(T).write_csv(d, [o for o, _ in reversed(cs)], "cam", True)
        repo(T).write_csv(d, [o for o, _ in cs], "cam", True)
        got = repo(T).load_states(d / "cam.csv", names[a], names[b])
    want = cs[a : b + 1]
    ctx.ensure("range", [g.filename for g in got] == [o.filename for o, _ in want], str([g.filename for g in got]))
    for k, (g, (o, dd)) in enumerate(zip(got, want)):
        for f in ("northings", "eastings", "depth", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity", "epoch_timestamp"):
            ctx.ensure_eq("state-%d-%s" % (k, f), num(ctx, getattr(g, f)), dd[f])
        for i in range(6):
            for j in range(6):
                ctx.ensure_eq("state-%d-cov" % k, num(ctx, g.covariance[i][j]), dd["C"][i][j])


@REG.harness([S + ".SyncedOrientationBodyVelocity.to_sidescan_row", T + ".write_sidescan_csv"], kind="bounded", bound="two records, four sample times, symbolic values", samples=12)
def sidescan_file(ctx):
    silence(ctx)
    objs = []
    for k in range(2):
        o = repo(S).SyncedOrientationBodyVelocity()
        d = fill(ctx, o, ["latitude", "longitude", "yaw", "roll", "pitch", "altitude", "depth", "x_velocity"], "_%d" % k)
        o.epoch_timestamp = ctx.choice("t%d" % k, [1500000000.0, 951782400.5, 1483228799.999, 1640995200.0])
        objs.append((o, d))
    with Scratch() as p:
        repo(T).write_sidescan_csv(p / "sss", [o for o, _ in objs], "sss", True)
        lines = (p / "sss" / "sss.txt").read_text().splitlines()
    ctx.ensure("one-line-per-record", len(lines) == 3)
    for k, (o, d) in enumerate(objs):
        sidescan_row(ctx, lines[0], lines[k + 1], o.epoch_timestamp, d)


def sidescan_row(ctx, header, line, t, d):
    import calendar

    names = header.split()
    want = {"NorthDeg": ("latitude", 6), "EastDeg": ("longitude", 6), "HeadingDeg": ("yaw", 3), "RollDeg": ("roll", 3), "PitchDeg": ("pitch", 3), "Altitude": ("altitude", 3), "Depth": ("depth", 3), "Speed": ("x_velocity", 3)}
    r = dict(zip(names, line.split()))
    ctx.ensure("cells", len(line.split()) == len(names))
    dt, tm = r["Date"], r["Time"]
    s = calendar.timegm((int(dt[:4]), int(dt[4:6]), int(dt[6:8]), int(tm[:2]), int(tm[2:4]), int(tm[4:6])))
    ctx.ensure("utc-second", s == int(t), "%s %s" % (dt, tm))
    for c, (a, nd) in want.items():
        v = num(ctx, r[c])
        ctx.ensure("sidescan-%s" % a, abs(v - d[a]) <= 0.5 * 10 ** -nd * (1 if ctx.symbolic else 1.001), "%s %s" % (c, r[c]))


@REG.harness([T + ".spp_csv"], kind="bounded", bound="two and three poses with symbolic contents and full 12x12 information matrices", samples=10)
def slam_edges(ctx):
    silence(ctx)
    n = ctx.size("n", [2, 3], many=(60, 130))
    first = ctx.choice("first", [0, 41])
    info = ctx.choice("information", [True, False])
    objs = []
    for k in range(n):
        o = repo(S).Camera()
        d = fill(ctx, o, ["northings", "eastings", "depth", "yaw", "pitch", "roll"], "_%d" % k)
        o.filename = "cam/%07d.png" % (first + k)
        if info:
            M = {}
            for i in range(12):
                for j in range(i, 12):
                    M[i, j] = M[j, i] = ctx.real("m%d_%d_%d" % (k, i, j), lo=-9, hi=9)
            o.information = repo(T).np.matrix([[M[i, j] for j in range(12)] for i in range(12)])
            d["M"] = M
        objs.append((o, d))
    with Scratch() as p:
        repo(T).spp_csv([o for o, _ in objs], "cam", p / "x", True)
        lines = (p / "x" / "cam.txt").read_text().splitlines()
    ctx.ensure("one-edge-per-pose", len(lines) == n)
    order = [0, 1, 2, 5, 4, 3]  # x y z yaw pitch roll
    for k, (o, d) in enumerate(objs):
        c = lines[k].split()
        ctx.ensure("nodes", c[:3] == ["EDGE3", str(k), str(k + 1)], str(c[:3]))
        for a, v in zip(("northings", "eastings", "depth", "yaw", "pitch", "roll"), c[3:9]):
            ctx.ensure_eq("pose-" + a, num(ctx, v), d[a])
        want = [d["M"][order[i], order[j]] for i in range(6) for j in range(i, 6)] if info else []
        ctx.ensure("upper-triangle", len(c) == 9 + len(want), "%d cells" % len(c))
        for i, (v, w) in enumerate(zip(c[9:], want)):
            ctx.ensure_eq("information-%d" % i, num(ctx, v), w)


@REG.harness(["auv_nav.process.process"], kind="bounded", bound="two and three USBL fixes with symbolic contents, before and after a first run", samples=8)
def usbl_table(ctx):
    from procrun import four, make_vehicle, make_mission, packet_usbl
    from procrun import run as run_process

    ts, ps = four(ctx)
    n = ctx.size("fixes", [2, 3], many=(60, 130))
    us = [packet_usbl(ctx, k, ts[2]) for k in range(n)]
    text = []

    def before(d):
        if ctx.choice("rerun", [False, True]):
            p = pathlib.Path(d) / "processed/dive/json_renav_19700101_000000_20300101_000000/csv"
            p.mkdir(parents=True)
            (p / "auv_usbl.csv").write_text("left over from an earlier run\n")

    def after(d):
        text.extend((pathlib.Path(d) / "processed/dive/json_renav_19700101_000000_20300101_000000/csv/auv_usbl.csv").read_text().splitlines(True))

    run_process(ctx, ps[:4] + us + ps[4:], make_vehicle(ctx), make_mission(ctx), usbl_csv=True, before=before, after=after, record=[("usbl_offset", lambda b: (0, 0))])
    ctx.ensure("one-line-per-fix", len(text) == n + 1, str(text)[:300])
    for k, u in enumerate(us):
        t = u["data_target"]
        d = {"t": u["epoch_timestamp"], "latitude": t[0]["latitude"], "longitude": t[1]["longitude"], "northings": t[2]["northings"], "eastings": t[3]["eastings"], "depth": t[4]["depth"]}
        cols = {"Timestamp": "t", "Northing [m]": "northings", "Easting [m]": "eastings", "Depth [m]": "depth", "Latitude [deg]": "latitude", "Longitude [deg]": "longitude"}
        check_row(ctx, text[0], text[k + 1], cols, d, "-%d" % k)


def _process():
    """what process() hands to the functions above (see R10)"""
    import r10_ekf_schedule as w

    for h in (w.every_switch,):
        REG.harness(["auv_nav.process.process"], kind="bounded", bound="one packet order, symbolic contents and offsets", samples=4)(h)


_process()


# ------------------------------------------------------------ tables of any length
def _concrete(ctx, kind, cols, cov):
    n = ctx.length("len_record", 2)
    objs = []
    for k in range(n):
        o = getattr(repo(S), kind)()
        d = {a: ((k * 7919 + 31 * i) % 4001 - 2000) / 16.0 + (1.5e9 if a == "epoch_timestamp" else 0) for i, a in enumerate(cols.values())}
        for a, v in d.items():
            setattr(o, a, v)
        if kind == "Camera":
            o.filename = "image/%d.png" % k
            d["C"] = [[((k * 101 + i * 13 + j) % 997) / 8.0 for j in range(6)] for i in range(6)]
            o.covariance = repo(S).np.array(d["C"]) if cov else None
        objs.append((o, d))
    with Scratch() as d:
        repo(T).write_csv(d / "csv", [o for o, _ in objs], "tab", True)
        lines = (d / "csv" / "tab.csv").read_text().splitlines(True)
        ctx.ensure("covariance-file", (d / "csv" / "tab_cov.csv").exists() == (kind == "Camera" and cov))
        clines = (d / "csv" / "tab_cov.csv").read_text().splitlines(True) if cov else None
    ctx.ensure("one-line-per-record", len(lines) == n + 1, str(len(lines)))
    ctx.ensure("one-line-per-covariance", clines is None or len(clines) == n + 1)
    for k, (o, dd) in enumerate(objs):
        rec = check_row(ctx, lines[0], lines[k + 1], cols, dd, "-%d" % k)
        if kind == "Camera":
            ctx.ensure("path", rec["relative_path"] == o.filename)
        if clines:
            cov_row(ctx, clines[0], clines[k + 1], o.filename, dd["C"])


def cov_row(ctx, header, row, name, C):
    rec = dict(zip(cells(header), cells(row)))
    ctx.ensure("covariance-path", rec.get("relative_path") == name, str(rec)[:200])
    for i in range(6):
        for j in range(6):
            ctx.ensure_eq("covariance-%s-%s" % (AX[i], AX[j]), num(ctx, rec["cov_%s_%s" % (AX[i], AX[j])]), C[i][j])


@REG.harness([T + ".write_csv"], loops=[T + ".write_csv"], samples=10)
def table_of_any_length(ctx):
    """any number of records: after the loop each file is its header followed by one row
    per record, in order, the row of record k holding the values of record k"""
    silence(ctx)
    kind = ctx.choice("kind", ["Camera", "SyncedOrientationBodyVelocity", "Depth", "Usbl", "Payload"] if ctx.symbolic else ["Camera", "SyncedOrientationBodyVelocity", "Depth", "Usbl"])
    cov = kind == "Camera" and ctx.choice("covariances", [False, True])
    cols = {"Camera": CAM, "SyncedOrientationBodyVelocity": TRACK, "Payload": POSE}.get(kind) or {a: a for a in PLAIN[kind]}
    if not ctx.symbolic:
        return _concrete(ctx, kind, cols, cov)
    from anylen import records, field
    from ghostfiles import FS, table_loop
    from pyvc.sym import SymReal

    cls = getattr(repo(S), kind)
    C = {(i, j): field("c_%d_%d" % (i, j)) for i in range(6) for j in range(6)}
    fid = field("name")

    def init(o, e):
        if kind == "Camera":
            o.filename = "image/%s.png" % SymReal(fid(e))
            o.covariance = repo(S).np.array([[SymReal(C[i, j](e)) for j in range(6)] for i in range(6)]) if cov else None
        if kind == "Payload":
            o.data = {"reading": SymReal(fid(e))}

    fields = [a for a in cols.values() if a != "epoch_timestamp"]
    objs = records("record", cls, fields, init=init)
    ctx.assume(objs.n >= 2)
    first = objs.item(0)
    fs = FS(dirs=["", "/out"] + (["/out/csv"] if ctx.choice("folder", [False, True]) else []))
    if ctx.choice("rerun", [False, True]) and "/out/csv" in fs.dirs:
        fs.files["/out/csv/tab.csv"] = ["left over\n"]
    head = {"/out/csv/tab.csv": first.get_csv_header()}
    if cov:
        head["/out/csv/tab_cov.csv"] = first.get_csv_header_cov()

    def row(p, t, k):
        o = objs.item(k)
        d = {a: getattr(o, a) for a in cols.values()}
        if p.endswith("_cov.csv"):
            return cov_row(ctx, head[p], t, o.filename, [[SymReal(C[i, j](k.e)) for j in range(6)] for i in range(6)])
        rec = check_row(ctx, head[p], t, {c: a for c, a in cols.items() if a != "epoch_timestamp" or c in cells(head[p])}, d)
        if kind == "Camera":
            ctx.ensure("path", rec.get("relative_path") == o.filename)
        if kind == "Payload":
            ctx.ensure_eq("reading", num(ctx, rec["reading"]), SymReal(fid(k.e)))

    ctx.patch(repo(T), "Path", fs.path)
    lock = threading.Lock() if ctx.choice("mutex", [False, True]) else None
    ctx.scratch["loops"] = {("write_csv", "kinds"): "f", ("write_csv", 0): table_loop(ctx, "rows", fs, head, row)}
    repo(T).write_csv("/out/csv", objs, "tab", True, lock)
    for p, h in head.items():
        got = fs.files[p]
        ctx.ensure("header-and-all-rows", got[0] == h and len(got) == 2 and bool(got[1].k == objs.n))
    if lock is not None:
        ctx.ensure("lock-released", not lock.locked())


SSS = ["latitude", "longitude", "yaw", "roll", "pitch", "altitude", "depth", "x_velocity"]


@REG.harness([T + ".write_sidescan_csv", S + ".SyncedOrientationBodyVelocity.to_sidescan_row"], loops=[T + ".write_sidescan_csv"], samples=6)
def sidescan_of_any_length(ctx):
    silence(ctx)
    t = ctx.choice("t", [1500000000.0, 951782400.5, 1483228799.999, 1640995200.0])
    if not ctx.symbolic:
        n = ctx.length("len_record", 1)
        objs = []
        for k in range(n):
            o = repo(S).SyncedOrientationBodyVelocity()
            for i, a in enumerate(SSS):
                setattr(o, a, ((k * 7919 + 31 * i) % 4001 - 2000) / 16.0)
            o.epoch_timestamp = t + 3 * k
            objs.append(o)
        with Scratch() as p:
            repo(T).write_sidescan_csv(p / "sss", objs, "sss", True)
            lines = (p / "sss" / "sss.txt").read_text().splitlines()
        ctx.ensure("one-line-per-record", len(lines) == n + 1)
        for k, o in enumerate(objs):
            sidescan_row(ctx, lines[0], lines[k + 1], o.epoch_timestamp, vars(o) if hasattr(o, "__dict__") else {a: getattr(o, a) for a in SSS})
        return
    from anylen import records
    from ghostfiles import FS, table_loop

    def init(o, e):
        o.epoch_timestamp = t

    objs = records("record", repo(S).SyncedOrientationBodyVelocity, SSS, key=None, init=init)
    ctx.assume(objs.n >= 1)
    fs = FS(dirs=["", "/out"] + (["/out/sss"] if ctx.choice("folder", [False, True]) else []))
    if "/out/sss" in fs.dirs:
        fs.files["/out/sss/sss.txt"] = ["left over\n"]
    head = {"/out/sss/sss.txt": objs.item(0).get_sidescan_header()}

    def row(p, line, k):
        o = objs.item(k)
        ctx.ensure("one-line", line.endswith("\n") and line.count("\n") == 1)
        sidescan_row(ctx, head[p], line, t, {a: getattr(o, a) for a in SSS})

    ctx.patch(repo(T), "Path", fs.path)
    f = "write_sidescan_csv"
    ctx.scratch["loops"] = {(f, "kinds"): "f", (f, 0): table_loop(ctx, "rows", fs, head, row)}
    repo(T).write_sidescan_csv("/out/sss", objs, "sss", True)
    for p, h in head.items():
        ctx.ensure("header-and-all-rows", fs.files[p][0] == h and len(fs.files[p]) == 2 and bool(fs.files[p][1].k == objs.n))
