"""R14: the standard navigation record holds every packet once, in time order."""
from common import *
from parserun import *
import pathlib

REG = Registry("R14")
I = "auv_nav.parsers.parse_interlacer"


def packet(ctx, k, name="t", category="depth"):
    return {"epoch_timestamp": ctx.real("%s%d" % (name, k), lo=0, hi=2e9), "class": "measurement", "category": category, "data": [{"depth": ctx.real("v%s%d" % (name, k), lo=-99, hi=99), "id": "%s%d" % (name, k)}]}


def ident(p):
    return p["data"][0].get("id", p["category"])


def check_order(ctx, got, put):
    ctx.ensure("every-packet-once", sorted(ident(p) for p in got) == sorted(ident(p) for p in put), str([ident(p) for p in got]))
    for a, b in zip(got, got[1:]):
        ctx.ensure("time-order", a["epoch_timestamp"] <= b["epoch_timestamp"])
    where = {ident(p): i for i, p in enumerate(put)}
    for a, b in zip(got, got[1:]):
        # packets of the same time keep the order in which they were recorded
        if a["epoch_timestamp"] == b["epoch_timestamp"]:
            ctx.ensure("same-time-order", where[ident(a)] < where[ident(b)])
    put = {ident(p): p for p in put}
    for p in got:
        q = put[ident(p)]
        ctx.ensure_eq("packet-time", p["epoch_timestamp"], q["epoch_timestamp"])
        for k, v in q["data"][0].items():
            if isinstance(v, str):
                ctx.ensure("packet-" + k, p["data"][0].get(k) == v, str(p))
            else:
                ctx.ensure_eq("packet-" + k, p["data"][0][k], v)
        ctx.ensure("packet-keys", p["category"] == q["category"] and set(p) == set(q))


@REG.harness([I + ".parse_interlacer", I + ".sort_values"], kind="bounded", bound="1 to 4 packets in any order, ties included, symbolic times and contents", samples=40)
def interlacing(ctx):
    silence(ctx)
    n = ctx.choice("n", [1, 2, 3, 4])
    put = [packet(ctx, k) for k in range(n)]
    with Dataset() as d:
        p = pathlib.Path(d.root) / "nav_standard.json"
        dump(ctx, put, p)
        repo(I).parse_interlacer(p.parent, p.name)
        got = load(ctx, p)
    check_order(ctx, got, put)


@REG.harness([I + ".parse_interlacer", I + ".sort_values"], kind="sample", bound="20 and 1500 drawn packets", samples=6)
def interlacing_many(ctx):
    silence(ctx)
    n = ctx.choice("n", [20, 1500])
    put = [packet(ctx, k) for k in range(n)]
    for p in put[::7]:
        p["epoch_timestamp"] = put[0]["epoch_timestamp"]
    with Dataset() as d:
        p = pathlib.Path(d.root) / "nav_standard.json"
        dump(ctx, put, p)
        repo(I).parse_interlacer(p.parent, p.name)
        got = load(ctx, p)
    check_order(ctx, got, put)


@REG.harness([I + ".parse_interlacer", I + ".sort_values"], loops=[I + ".parse_interlacer", I + ".sort_values"], samples=6)
def interlacing_of_any_number_of_packets(ctx):
    """sorted() itself is trusted: a stable permutation into key order"""
    if not ctx.symbolic:
        return interlacing_many(ctx)
    from anylen import integer, field
    from pyvc.loops import Loop
    from pyvc.symlist import Acc, SymList, SymSorted, frozen, base_list
    from pyvc.sym import SymInt, SymReal

    silence(ctx)
    t, v = field("packet_time"), field("packet_value")

    def make(e):
        return {"epoch_timestamp": SymReal(t(e)), "class": "measurement", "category": "depth", "data": [{"depth": SymReal(v(e))}], "n": SymInt(e)}

    L = SymList("packet", make)
    ctx.assume(L.n >= 1)
    T = Acc("times", lambda i: [L.item(i)["epoch_timestamp"]], one=True)
    sorts = []

    def order(env):
        """the permutation the function computed, found by its contract"""
        if not sorts:
            sorts.extend([s for s in ctx.scratch.get("sorts", [])])
        if len(sorts) != 1:
            raise KeyError("one sort")
        return sorts[0]

    out = Acc("ordered", lambda i: [order(None).source(i)], one=True, match=lambda a, b: a["n"] == b)
    f = "parse_interlacer"
    ctx.scratch["loops"] = {(f, "kinds"): "ff", (f, 0): Loop("times", lambda env, k: [("times", T.holds(env["value"], k))], lambda env, k: {"value": T.state(k)}),
                            (f, 1): Loop("order", lambda env, k: [("ordered", out.holds(env["data_ordered"], k))], lambda env, k: {"data_ordered": out.state(k)})}
    with Dataset() as d:
        p = pathlib.Path(d.root) / "nav_standard.json"
        dump(ctx, L, p)
        repo(I).parse_interlacer(p.parent, p.name)
        got = load(ctx, p)
    ctx.ensure("nothing-changed", frozen(L) == [])
    ctx.ensure("ordered-list-written", getattr(got, "acc", None) is out and not got.appended)
    n = got.sym_len()
    ctx.ensure("every-packet-once", n == L.n)
    i, j, k = (ctx.int(x, lo=0) for x in "ijk")
    ctx.assume(ctx.And(i < j, j < n, k < n))
    pos = order(None).position(k)
    a, b, c = (L.item(order(None).source(x)) for x in (i, j, pos))
    ctx.ensure("no-packet-lost", ctx.And(pos >= 0, pos < n, c["n"] == k))
    ctx.ensure("no-packet-twice", a["n"] != b["n"])
    ctx.ensure("time-order", a["epoch_timestamp"] <= b["epoch_timestamp"])
    ctx.ensure("same-time-order", ctx.Or(a["epoch_timestamp"] < b["epoch_timestamp"], a["n"] < b["n"]))


def origin(ctx, lat, lon):
    return {"epoch_timestamp": 0.0, "class": "origin", "category": "origin", "data": [{"latitude": lat, "longitude": lon}]}


@REG.harness([P + ".merge_json_files"], kind="bounded", bound="two dives of up to two packets each with symbolic contents", samples=30)
def merged_dives(ctx):
    silence(ctx)
    lat, lon = ctx.real("lat", lo=-89, hi=89), ctx.real("lon", lo=-179, hi=179)
    same = ctx.choice("same-origin", [True, False])
    lat2, lon2 = (lat, lon) if same else (ctx.real("lat2", lo=-89, hi=89), ctx.real("lon2", lo=-179, hi=179))
    a = [origin(ctx, lat, lon), packet(ctx, 0, "a"), packet(ctx, 1, "a", "orientation")]
    b = [origin(ctx, lat2, lon2), packet(ctx, 0, "b")]
    cam = {"epoch_timestamp": ctx.real("tc", lo=0, hi=2e9), "class": "measurement", "category": "image", "data": [{"id": "cam"}], "camera1": [{"epoch_timestamp": 1.0, "filename": "x/1.png"}], "camera2": [{"epoch_timestamp": 1.0, "filename": "x/2.png"}], "camera3": [{"epoch_timestamp": 1.0, "filename": "x/3.png"}]}
    b.append(cam)
    b.append({"epoch_timestamp": ctx.real("tl", lo=0, hi=2e9), "class": "measurement", "category": "laser", "data": [{"id": "laser"}], "filename": "y/4.png"})
    # a laser image that is recorded per camera
    b.append({"epoch_timestamp": ctx.real("tm", lo=0, hi=2e9), "class": "measurement", "category": "laser", "data": [{"id": "laser3"}], "camera3": [{"epoch_timestamp": 1.0, "filename": "z/5.png"}]})
    with Dataset() as d:
        dump(ctx, a, d.nav("dive1"))
        dump(ctx, b, d.nav("dive2"))
        try:
            got = repo(P).merge_json_files([d.nav("dive1"), d.nav("dive2")])
        except Quit:
            got = None
    if got is None:
        ctx.ensure("refused-only-other-origin", (lat != lat2) or (lon != lon2))
        return
    ctx.ensure("merged-only-same-origin", (lat == lat2) and (lon == lon2))
    ctx.ensure("one-origin-first", [p["class"] == "origin" for p in got] == [True] + [False] * 6)
    ctx.ensure_eq("origin-lat", got[0]["data"][0]["latitude"], lat)
    ctx.ensure_eq("origin-lon", got[0]["data"][0]["longitude"], lon)
    ctx.ensure("all-packets", [ident(p) for p in got[1:]] == ["a0", "a1", "b0", "cam", "laser", "laser3"])
    ctx.ensure("laser-path", got[5]["filename"] == "dive2/y/4.png", str(got[5]))
    ctx.ensure("laser-camera-path", got[6]["camera3"][0]["filename"] == "dive2/z/5.png" and "filename" not in got[6], str(got[6]))
    c = got[4]
    ctx.ensure("image-paths", [c["camera%d" % i][0]["filename"] for i in (1, 2, 3)] == ["dive2/x/%d.png" % i for i in (1, 2, 3)], str(c))
    for p, q in zip(got[1:], a[1:] + b[1:]):
        ctx.ensure_eq("time", p["epoch_timestamp"], q["epoch_timestamp"])
        if "depth" in q["data"][0]:
            ctx.ensure_eq("value", p["data"][0]["depth"], q["data"][0]["depth"])


CATS = ["velocity", "orientation", "depth", "altitude", "usbl"]


@REG.harness([P + ".parse_single", I + ".parse_interlacer"], kind="bounded", bound="two streams of up to two packets, every pair of streams, symbolic times and contents", samples=15)
def parsed_streams_are_interlaced(ctx):
    silence(ctx)
    c1 = ctx.choice("first", CATS)
    c2 = ctx.choice("second", [c for c in CATS if c != c1][:2])
    lists = {c1: [packet(ctx, k, c1[0] + "a", c1) for k in range(2)], c2: [packet(ctx, 0, c2[0] + "b", c2)]}
    install(ctx, lists)
    with Dataset() as d:
        repo(P).parse_single(d.raw[0], True)
        got = load(ctx, d.nav(d.names[0]))
    ctx.ensure("origin", sum(p["category"] == "origin" for p in got) == 1)
    o = [p for p in got if p["category"] == "origin"][0]
    ctx.ensure("origin-position", o["data"][0]["latitude"] == 10.5 and o["data"][0]["longitude"] == 20.25)
    first = {ident(p): i for i, p in enumerate(got)}
    put = [o] + lists[c1] + lists[c2]
    ctx.ensure("every-packet-once", sorted(ident(p) for p in got) == sorted(ident(p) for p in put))
    for a, b in zip(got, got[1:]):
        ctx.ensure("time-order", a["epoch_timestamp"] <= b["epoch_timestamp"])
    for p in put:
        q = got[first[ident(p)]]
        ctx.ensure_eq("packet-time", q["epoch_timestamp"], p["epoch_timestamp"])
        if "depth" in p["data"][0]:
            ctx.ensure_eq("packet-value", q["data"][0]["depth"], p["data"][0]["depth"])


@REG.harness([P + ".parse", P + ".parse_single", P + ".merge_json_files"], kind="bounded", bound="two dives of two packets each with symbolic times and contents", samples=10)
def merged_dives_are_interlaced(ctx):
    silence(ctx)
    a = [packet(ctx, k, "a") for k in range(2)]
    b = [packet(ctx, k, "b") for k in range(2)]
    lists = {}
    install(ctx, lists)
    m = repo(P)
    one = m.parse_single

    def single(p, force):
        lists["depth"] = a if pathlib.Path(p).name.endswith("a") else b
        return one(p, force)

    ctx.patch(m, "parse_single", single)
    with Dataset(names=("20200101_000000_a", "20200102_010203_b")) as d:
        m.parse([str(x) for x in d.raw], True, True)
        got = load(ctx, d.nav("20200101000000_20200102010203_merged"))
    ctx.ensure("every-packet-once", sorted(ident(p) for p in got) == ["a0", "a1", "b0", "b1", "origin"], str(got)[:200])
    for x, y in zip(got, got[1:]):
        ctx.ensure("time-order", x["epoch_timestamp"] <= y["epoch_timestamp"])
    for p in a + b:
        q = [g for g in got if ident(g) == ident(p)][0]
        ctx.ensure_eq("packet-time", q["epoch_timestamp"], p["epoch_timestamp"])
        ctx.ensure_eq("packet-value", q["data"][0]["depth"], p["data"][0]["depth"])


# the reader of every stream, by sensor and format (documented in docs/ and the sample mission files)
NAV = {"phins": "parse_phins", "ae2000": "parse_ae2000", "alr": "parse_alr", "koyo21rov": "parse_koyo21rov", "autosub": "parse_autosub", "rosbag": "parse_rosbag"}
READERS = {
    "image": {"acfr_standard": "parse_acfr_images", "unagi": "parse_acfr_images", "seaxerocks_3": "parse_seaxerocks_images", "biocam": "parse_biocam_images", "biocam4000_15c": "parse_biocam_images", "ntnu_stereo": "parse_ntnu_stereo_images",
              "rosbag_extracted_images": "parse_rosbag_extracted_images", "rosbag": "parse_rosbag", "stereo_gopro": "parse_stereo_gopro_images", "voyis": "parse_voyis_images"},
    "usbl": {"gaps": "parse_gaps", "usbl_dump": "parse_usbl_dump", "NOC_nmea": "parse_NOC_nmea", "eiva_navipac": "parse_eiva_navipac", "rosbag": "parse_rosbag", "koyo21rov": "parse_koyo21rov", "alr": "parse_alr", "alr2": "parse_alr", "sonardyne_mrt": "parse_sonardyne_mrt",
             "sonardyne_gga": "parse_sonardyne_gga", "sonardyne_gga2": "parse_sonardyne_gga2", "sonardyne_gga3": "parse_sonardyne_gga3", "sonardyne_gga4": "parse_sonardyne_gga4"},
    "velocity": dict(NAV, rdi="parse_rdi", ntnu_dvl="parse_ntnu_dvl"),
    "orientation": dict(NAV, rdi="parse_rdi", eiva_navipac="parse_eiva_navipac"),
    "depth": dict(NAV, gaps="parse_gaps", eiva_navipac="parse_eiva_navipac"),
    "altitude": dict(NAV, rdi="parse_rdi", ntnu_dvl="parse_ntnu_dvl"),
    "tide": {"NOC_polpred": "parse_NOC_polpred", "NOC_CTI": "parse_tide_CTI"},
}
NAMES = sorted({f for r in READERS.values() for f in r.values()})


@REG.harness([P + ".parse_single"], kind="bounded", bound="every format of every sensor, in missions of every single sensor and of all sensors; streams of twelve packets", samples=1)
def every_stream_is_read_by_its_own_parser(ctx):
    """each configured sensor is read once, by the reader of its own format and under its own
    name; all of what the readers return is in the record, whatever the number of packets; a
    format that is not known stops the run"""
    silence(ctx)
    m = repo(P)
    calls = []

    def reader(fn):
        def parse(mission, vehicle, category, *a, **k):
            calls.append((category, fn))
            n = {"images": "image"}.get(category, category)
            if n == "tide":
                return [{"epoch_timestamp": 1.0e8 + i, "class": "measurement", "category": "tide", "data": [{"height": 0.0}]} for i in range(2)]
            return [{"epoch_timestamp": 1.0e9 + (i * 7 % 12) + hash_(n), "class": "measurement", "category": n, "data": [{"id": "%s%d" % (n, i), "depth": float(i)}], "data_target": [{"depth": 1.0}] * 5} for i in range(12)]

        return parse

    hash_ = lambda n: sorted(READERS).index(n) / 16.0
    for fn in NAMES:
        g = getattr(m, fn)
        replace_everywhere(ctx, g.__module__, g.__name__, reader(fn))
    replace_everywhere(ctx, "auv_nav.plot.plot_parse_data", "plot_parse_data", lambda *a, **k: None)
    replace_everywhere(ctx, "auv_nav.parsers.parse_biocam_images", "correct_timestamps", lambda x: x)
    missions = [{s: f} for s in READERS if s != "tide" for f in READERS[s]]
    missions += [{s: sorted(READERS[s])[k % len(READERS[s])] for s in READERS} for k in range(10)]
    missions += [{"depth": "phins", s: "no_such_format"} for s in READERS if s != "depth"]
    for conf in missions:
        del calls[:]
        with Dataset() as d:
            head = MISSION.split("velocity:")[0]
            text = "".join("%s:\n  format: %s\n  filepath: a\n%s" % (s, f, "  cameras:\n    - name: ins\n      path: a\n" if s == "image" else "") for s, f in conf.items())
            (d.raw[0] / "mission.yaml").write_text(head + text)
            bad = "no_such_format" in conf.values()
            try:
                m.parse_single(d.raw[0], True)
            except Quit:
                ctx.ensure("refused-only-unknown-formats", bad, str(conf))
                continue
            ctx.ensure("unknown-format-refused", not bad, str(conf))
            got = load(ctx, d.nav(d.names[0]))
        want = sorted(({"image": "images"}.get(s, s), READERS[s][f]) for s, f in conf.items())
        ctx.ensure("own-reader", sorted(calls) == want, "%s: %s" % (conf, sorted(calls)))
        ids = [ident(p) for p in got]
        ctx.ensure("every-packet-once", sorted(ids) == sorted(["origin"] + ["%s%d" % (s, i) for s in conf if s != "tide" for i in range(12)]), "%s: %s" % (conf, ids))
        t = [p["epoch_timestamp"] for p in got]
        ctx.ensure("time-order", t == sorted(t), str(conf))
