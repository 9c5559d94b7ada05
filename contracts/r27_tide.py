"""R27: depths are referred to the tidal datum."""
from common import *
from parserun import *

REG = Registry("R27")


def tides(ctx, n):
    ts, out = [], []
    if n >= 9:
        TT = ctx.increasing("tide_t", n, gap=0.001)
    for k in range(n):
        t, h = ctx.real("tide_t%d" % k, lo=0, hi=1000) if n < 9 else TT[k], ctx.real("tide_h%d" % k, lo=-5, hi=5)
        if ts:
            ctx.assume(ts[-1] < t)
        ts.append(t)
        out.append({"epoch_timestamp": t, "class": "measurement", "category": "tide", "data": [{"height": h, "height_std": 0.0}]})
    return out


def reading(ctx, k, cat):
    t, v = ctx.real("t%d" % k, lo=0, hi=1000), ctx.real("depth%d" % k, lo=0, hi=100)
    p = {"epoch_timestamp": t, "class": "measurement", "category": cat}
    if cat == "usbl":
        p["data_target"] = [{"latitude": 1.0}, {"longitude": 2.0}, {"northings": 3.0}, {"eastings": 4.0}, {"depth": v, "depth_std": 0.5}]
        p["data_ship"] = [{"latitude": 1.0}]
    elif cat == "depth":
        p["data"] = [{"depth": v, "depth_std": 0.5}]
    else:
        p["data"] = [{"altitude": v, "altitude_std": 0.5}]
    p["id"] = "%s%d" % (cat, k)
    return p, t, v


def depth_of(p):
    return p["data_target"][4]["depth"] if p["category"] == "usbl" else p["data"][0].get("depth", p["data"][0].get("altitude"))


def _tide(nt, nr, sample=0):
    def h(ctx):
        silence(ctx)
        cat = ctx.choice("category", ["depth", "usbl", "altitude"])
        tide = tides(ctx, nt)
        if nr >= 9:
            ctx.increasing("t", nr, strict=False)
        rs = [reading(ctx, k, cat) for k in range(nr)]
        for a, b in zip(rs, rs[1:]):
            ctx.assume(a[1] <= b[1])
        # at the instant of the first tide record both readings of "before the tide data" are right
        for _, t, _v in rs:
            ctx.assume(t != tide[0]["epoch_timestamp"])
        install(ctx, {cat: [p for p, _, _ in rs]}, tide)
        T = [x["epoch_timestamp"] for x in tide]
        H = [x["data"][0]["height"] for x in tide]
        with Dataset(tide=True) as d:
            repo(P).parse_single(d.raw[0], True)
            got = load(ctx, d.nav(d.names[0]))
        byid = {}
        for x in got:
            byid.setdefault(x.get("id"), []).append(x)
        for k, (p, t, v) in enumerate(rs):
            g = byid.get(p["id"], [])
            ctx.ensure("kept-%d" % k, len(g) == 1)
            want = v
            if cat != "altitude" and t > T[0] and t <= T[-1]:
                j = 1
                if nt >= 9:
                    import bisect

                    j = bisect.bisect_left(T, t)
                while t > T[j]:
                    j += 1
                want = v - lin(t, T[j - 1], T[j], H[j - 1], H[j])
            ctx.ensure_eq("depth-%d" % k, depth_of(g[0]), want, scale=200)
            ctx.ensure_eq("time-%d" % k, g[0]["epoch_timestamp"], t)

    h.__name__ = "tide_of_%d_records_%d_readings" % (nt, nr)
    if sample:
        return h
    REG.harness([P + ".parse_single", "auv_nav.tools.interpolate.interpolate"], kind="bounded", bound="%d tide records, %d readings in time order, symbolic times and contents" % (nt, nr), samples=25)(h)


_tide(2, 2)
_tide(3, 2)
_tide(4, 1)
LONG = [_tide(15, 20, 10), _tide(1300, 1200, 3)]




@REG.harness([P + ".parse_single", "auv_nav.tools.interpolate.interpolate"], loops=[P + ".parse_single"], samples=4)
def tide_of_any_length_any_number_of_readings(ctx):
    """readings and tide records in time order"""
    if not ctx.symbolic:
        return LONG[ctx.choice("size", [0, 1])](ctx)
    from anylen import integer, field
    from pyvc.loops import Loop
    from pyvc.symlist import SymList, SymConcat
    from pyvc.sym import SymInt, SymReal

    silence(ctx)
    cat = ctx.choice("category", ["depth", "usbl", "altitude"])
    ft, fh, fr, fd, fid = (field(x) for x in ("tide_time", "tide_height", "time", "depth", "id"))

    def tide_record(e):
        return {"epoch_timestamp": SymReal(ft(e)), "class": "measurement", "category": "tide", "data": [{"height": SymReal(fh(e)), "height_std": 0.0}]}

    def make(e):
        p = {"epoch_timestamp": SymReal(fr(e)), "class": "measurement", "category": cat, "id": SymReal(fid(e))}
        v = SymReal(fd(e))
        if cat == "usbl":
            p["data_target"] = [{"latitude": 1.0}, {"longitude": 2.0}, {"northings": 3.0}, {"eastings": 4.0}, {"depth": v, "depth_std": 0.5}]
            p["data_ship"] = [{"latitude": 1.0}]
        else:
            p["data"] = [{cat: v, cat + "_std": 0.5}]
        return p

    tide, rs = SymList("tide", tide_record, key=ft), SymList("reading", make, key=fr, strict=False)
    ctx.assume(ctx.And(tide.n >= 1, rs.n >= 1))
    T = lambda i: SymReal(tide.item(integer(i))["epoch_timestamp"].e)
    H = lambda i: tide.item(integer(i))["data"][0]["height"]
    R = lambda i: rs.item(integer(i))["epoch_timestamp"]
    nt = tide.n

    def inv(env, k):
        j = integer(env["j"])
        return [("in-range", ctx.And(j >= 0, j < nt)), ("none-skipped", ctx.Or(j == 0, ctx.And(k >= 1, T(j - 1) < R(k - 1))))]

    def bracket(env, k):
        j = integer(env["j"])
        return [("in-range", ctx.And(j >= 0, j < nt)), ("none-skipped", ctx.Or(j == 0, T(j - 1) < R(env["k"])))]

    def each(env, k):
        for e in rs.touched():
            ctx.ensure("only-this-reading-is-written", bool(SymInt(e) == k))
        p, was, j = rs.item(k), make(k.e), integer(env["j"])
        t = was["epoch_timestamp"]
        ctx.assume(t != T(0))  # at the instant of the first record both readings of "before the tide data" are right
        want = was["data"][0][cat] if cat != "usbl" else was["data_target"][4]["depth"]
        if t > T(0) and t <= T(nt - 1) and cat != "altitude":
            ctx.ensure("bracketed", ctx.And(j >= 1, j < nt, T(j - 1) <= t, t <= T(j)))
            want = want - lin(t, T(j - 1), T(j), H(j - 1), H(j))
        d = p["data_target"][4] if cat == "usbl" else p["data"][0]
        name = "depth" if cat == "usbl" else cat
        ctx.ensure_eq("depth", d[name], want, scale=200)
        ctx.ensure_eq("time", p["epoch_timestamp"], t)
        ctx.ensure_eq("id", p["id"], was["id"])
        now, d[name] = d[name], None
        (was["data_target"][4] if cat == "usbl" else was["data"][0])[name] = None
        keep = lambda q: {x: y for x, y in q.items() if x not in ("epoch_timestamp", "id")}
        ctx.ensure("nothing-else-changed", keep(p) == keep(was))
        d[name] = now

    install(ctx, {cat: rs}, tide)
    ctx.patch(repo(P), "parse_interlacer", lambda *a, **k: None)
    f = "parse_single"
    ctx.scratch["loops"] = {(f, "kinds"): "ffwf", (f, 1): Loop("readings", inv, modifies=[rs], each=each), (f, 2): Loop("bracket", bracket, decreases=lambda env: nt - env["j"])}
    with Dataset(tide=True) as d:
        repo(P).parse_single(d.raw[0], True)
        got = load(ctx, d.nav(d.names[0]))
    # the record written is the origin followed by the corrected readings
    ctx.ensure("record", isinstance(got, SymConcat) and len(got.parts) == 2 and len(got.parts[0]) == 1 and got.parts[0][0]["category"] == "origin" and got.parts[1] is rs)
    if cat == "altitude":
        ctx.ensure("altitudes-untouched", rs.touched() == [])


def _parse(ctx, mod, fn, text, tz, off):
    import pathlib

    with Dataset() as d:
        (d.raw[0] / "tide").mkdir()
        (d.raw[0] / "tide" / "t.txt").write_text(text)
        out = pathlib.Path(d.root).resolve() / "processed" / "2020" / d.names[0] / "nav"
        out.mkdir(parents=True)
        M = repo("oplab.mission").Mission()
        M.tide.filepath = "tide"
        M.tide.timezone, M.tide.timeoffset_s, M.tide.std_offset = tz, off, 0.01
        return getattr(repo(mod), fn)(M, None, "tide", "oplab", out)


def _tide_file(name, mod, fn, line, head):
    def h(ctx):
        silence(ctx)
        import calendar

        hs = [ctx.real("h%d" % k, lo=-9, hi=9) for k in range(2)]
        cell = [("%s" % x).rjust(6) if ctx.symbolic else ("%.2f" % x).rjust(6) for x in hs]
        if not ctx.symbolic:
            hs = [float(c) for c in cell]
        tz = ctx.choice("tz", [0, 9, -3.5])
        off = ctx.real("timeoffset", lo=-100, hi=100)
        stamps = [(2019, 9, 6, 0, 45), (2020, 2, 29, 23, 30)]
        text = head + "".join(line(*s, c) for s, c in zip(stamps, cell))
        got = _parse(ctx, mod, fn, text, tz, off)
        ctx.ensure("one-per-line", len(got) == 2, str(got)[:200])
        for k, g in enumerate(got):
            y, mo, d, hh, mi = stamps[k]
            ctx.ensure_eq("time-%d" % k, g["epoch_timestamp"], calendar.timegm((y, mo, d, hh, mi, 0)) - tz * 3600 + off)
            ctx.ensure_eq("height-%d" % k, g["data"][0]["height"], hs[k])
            ctx.ensure("std-not-negative-%d" % k, g["data"][0]["height_std"] >= 0, str(g))

    h.__name__ = name
    REG.harness([mod + "." + fn], kind="bounded", bound="two lines with fixed dates, three time zones, symbolic heights and time offset", samples=20)(h)


_tide_file("polpred_file", "auv_nav.parsers.parse_NOC_polpred", "parse_NOC_polpred", lambda y, m, d, h, mi, c: "%2d/%2d/%4d  %02d:%02d     %6s      0.14       51\n" % (d, m, y, h, mi, c), "x\n" * 6)
_tide_file("cti_file", "auv_nav.parsers.parse_tide_CTI", "parse_tide_CTI", lambda y, m, d, h, mi, c: "%04d-%02d-%02dT%02d:%02d:00Z,%s,0.1,74\n" % (y, m, d, h, mi, c), "x\n" * 6)
