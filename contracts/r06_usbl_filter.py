"""R06: which USBL fixes survive the outlier filters."""
from common import *

REG = Registry("R06")
U = "auv_nav.localisation.usbl_filter"


def fix(ctx, i, t=None):
    u = repo("auv_nav.sensors").Usbl()
    u.epoch_timestamp = ctx.real("ut%d" % i, lo=0, hi=100) if t is None else t
    for a in ("northings", "eastings"):
        setattr(u, a, ctx.real("%s%d" % (a, i), lo=-50, hi=50))
        setattr(u, a + "_std", ctx.real("%s_std%d" % (a, i), lo=-5, hi=5))
    u.depth = ctx.real("depth%d" % i, lo=-50, hi=50)
    u.depth_std = ctx.real("depth_std%d" % i, lo=-5, hi=5)
    return u


def depths(ctx, n, span=100):
    ts = ctx.increasing("dt", n, hi=span)
    out = []
    for i in range(n):
        d = repo("auv_nav.sensors").Depth()
        d.epoch_timestamp = ts[i]
        d.depth = ctx.real("d%d" % i, lo=-50, hi=50)
        d.depth_std = ctx.real("ds%d" % i, lo=0, hi=5)
        out.append(d)
    return out


def near(ctx, u, d, ds, k):
    return abs(u.depth - d) <= k * (abs(u.depth_std) + abs(ds))


def reachable(ctx, a, b, k, vmax):
    dist = ctx.sqrt((a.northings - b.northings) ** 2 + (a.eastings - b.eastings) ** 2)
    env = ctx.sqrt(a.northings_std ** 2 + a.eastings_std ** 2) + ctx.sqrt(b.northings_std ** 2 + b.eastings_std ** 2) + abs(a.epoch_timestamp - b.epoch_timestamp) * vmax
    return dist <= k * env


def margin(ctx, x, y):
    """replays stay off the rounding boundary of a comparison"""
    if not ctx.symbolic:
        ctx.assume(abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)))


@REG.harness([U + ".depth_filter"])
def depth_envelope(ctx):
    u = fix(ctx, 0)
    d, ds, k = ctx.real("d", lo=-50, hi=50), ctx.real("ds", lo=-5, hi=5), ctx.real("k", lo=0, hi=10)
    margin(ctx, abs(u.depth - d), k * (abs(u.depth_std) + abs(ds)))
    got = repo(U).depth_filter(u, d, ds, k)
    ctx.ensure("kept-iff-within-envelope", ctx.iff(got, near(ctx, u, d, ds, k)))


@REG.harness([U + ".distance_filter"], timeout_ms=20000)
def travel_envelope(ctx):
    a, b = fix(ctx, 0), fix(ctx, 1)
    k, v = ctx.real("k", lo=0, hi=10), ctx.real("v", lo=0, hi=10)
    margin(ctx, ctx.sqrt((a.northings - b.northings) ** 2 + (a.eastings - b.eastings) ** 2),
           k * (ctx.sqrt(a.northings_std ** 2 + a.eastings_std ** 2) + ctx.sqrt(b.northings_std ** 2 + b.eastings_std ** 2) + abs(a.epoch_timestamp - b.epoch_timestamp) * v))
    got = repo(U).distance_filter(a, b, k, v)
    ctx.ensure("kept-iff-reachable", ctx.iff(got, reachable(ctx, a, b, k, v)))


def same(ctx, name, got, want):
    ctx.ensure(name, len(got) == len(want) and all(x is y for x, y in zip(got, want)), "got %d expected %d fixes" % (len(got), len(want)))


def in_time(us, ds):
    return [u for u in us if not (u.epoch_timestamp < ds[0].epoch_timestamp + 1) and not (u.epoch_timestamp + 1 > ds[-1].epoch_timestamp)]


def oracles(ctx):
    """callee contracts: the two pairwise envelope tests are uninterpreted
    predicates of exactly the fixes / numbers they are given"""
    m = repo(U)
    if ctx.symbolic:
        from pyvc.sym import SymBool, rv, z3

        def dep(u, d, s, k):
            f = uf_bool("within_depth", 5)
            return SymBool(f(rv(u.depth), rv(u.depth_std), ctx.norm_arg(rv(d)), ctx.norm_arg(rv(s)), rv(k)))

        def dis(a, b, k, v):
            f = uf_bool("reachable", 12)
            q = lambda u: [rv(x) for x in (u.northings, u.eastings, u.northings_std, u.eastings_std, u.epoch_timestamp)]
            return SymBool(f(*(q(a) + q(b) + [rv(k), rv(v)])))

        ctx.patch(m, "interpolate", lambda t, t1, t2, a, b: lin(t, t1, t2, a, b))  # contract proved in R02
        ctx.patch(m, "depth_filter", dep)
        ctx.patch(m, "distance_filter", dis)
        return dep, dis

    def dep(u, d, s, k):
        margin(ctx, abs(u.depth - d), k * (abs(u.depth_std) + abs(s)))
        return near(ctx, u, d, s, k)

    return dep, lambda a, b, k, v: reachable(ctx, a, b, k, v)


def time_case(ctx, n, nd, span=100):
    silence(ctx)
    us, ds = [fix(ctx, i) for i in range(n)], depths(ctx, nd, span=span)
    _, got = repo(U).usbl_filter(list(us), ds, 2, 1, apply_north_east_filter=False, apply_depth_filter=False)
    same(ctx, "exactly-the-fixes-inside-the-depth-record", got, in_time(us, ds))


def depth_at(ctx, ds, t, a):
    k = 1
    while k < len(ds) - 1 and ds[k].epoch_timestamp < t:
        k += 1
    return lin(t, ds[k - 1].epoch_timestamp, ds[k].epoch_timestamp, getattr(ds[k - 1], a), getattr(ds[k], a))


def depth_case(ctx, n, nd, order=True, span=100):
    silence(ctx)
    dep, _ = oracles(ctx)
    ds = depths(ctx, nd, span=span)
    ts = ctx.increasing("ut", n, strict=False, lo=-10 - span, hi=10 + 2 * span, around=(ds[0].epoch_timestamp, ds[-1].epoch_timestamp))
    us = [fix(ctx, i, ts[i]) for i in range(n)]
    k = ctx.real("k", lo=0, hi=10)
    _, got = repo(U).usbl_filter(list(us), ds, k, 1, apply_north_east_filter=False, apply_depth_filter=True)
    want = [u for u in in_time(us, ds) if dep(u, depth_at(ctx, ds, u.epoch_timestamp, "depth"), depth_at(ctx, ds, u.epoch_timestamp, "depth_std"), k)]
    same(ctx, "exactly-the-fixes-within-the-interpolated-depth-envelope", got, want)


def dist_case(ctx, n, depth=False, nd=2, span=300):
    silence(ctx)
    dep, dis = oracles(ctx)
    ds = depths(ctx, nd, span=span)
    # all fixes inside the depth record
    ctx.assume(ds[-1].epoch_timestamp - ds[0].epoch_timestamp > 4 + n / 20 * (not ctx.symbolic))
    ts = ctx.increasing("ut", n, lo=0, hi=span, around=(ds[0].epoch_timestamp + 1, ds[-1].epoch_timestamp - 1.2 - n / 50), inside=True)
    ctx.assume(ts[0] >= ds[0].epoch_timestamp + 1)
    ctx.assume(ts[-1] + 1 <= ds[-1].epoch_timestamp)
    us = [fix(ctx, i, ts[i]) for i in range(n)]
    if not ctx.symbolic:  # plausible geometry, so that some fixes are kept
        for i, u in enumerate(us):
            u.northings, u.eastings = u.northings * ctx.choice("scale", [0.02, 0.2, 1]), u.eastings * 0.1
    k, v = ctx.real("k", lo=0, hi=10), ctx.real("v", lo=0, hi=10)
    first, got = repo(U).usbl_filter(list(us), ds, k, v, apply_depth_filter=depth)
    base = us
    if depth:
        base = [u for u in us if dep(u, depth_at(ctx, ds, u.epoch_timestamp, "depth"), depth_at(ctx, ds, u.epoch_timestamp, "depth_std"), k)]
    same(ctx, "list-before-the-distance-filter", first, base)
    want = [base[i] for i in range(2, len(base) - 2) if all(dis(base[i], base[i + j], k, v) for j in (-2, -1, 1, 2))]
    same(ctx, "exactly-the-fixes-reachable-from-their-four-neighbours", got, want)


for _n, _d in ((0, 2), (1, 1), (1, 2), (2, 2), (2, 3)):
    def _f(ctx, n=_n, d=_d):
        time_case(ctx, n, d)
    _f.__name__ = "time_window_%d_fixes_%d_depths" % (_n, _d)
    REG.harness([U + ".usbl_filter"], kind="bounded", bound="%d fixes, %d depths" % (_n, _d))(_f)

for _n, _d in ((1, 2), (2, 2), (1, 4), (2, 3), (3, 3)):
    def _f(ctx, n=_n, d=_d):
        depth_case(ctx, n, d)
    _f.__name__ = "depth_filter_%d_fixes_%d_depths" % (_n, _d)
    REG.harness([U + ".usbl_filter"], kind="bounded", bound="%d fixes, %d depths" % (_n, _d), thorough_only=(_n, _d) == (3, 3))(_f)

for _n in (4, 5, 6, 7):
    def _f(ctx, n=_n):
        dist_case(ctx, n)
    _f.__name__ = "distance_filter_%d_fixes" % _n
    REG.harness([U + ".usbl_filter"], kind="bounded", bound="%d fixes" % _n, samples=300)(_f)


@REG.harness([U + ".usbl_filter"], kind="bounded", bound="6 fixes, 2 depths", samples=300, thorough_only=True)
def both_filters_6(ctx):
    dist_case(ctx, 6, True)


@REG.harness([U + ".usbl_filter"], kind="bounded", bound="5 fixes, 2 depths", samples=300)
def both_filters_5(ctx):
    dist_case(ctx, 5, True)


@REG.harness([U + ".usbl_filter"])
def no_depth_record(ctx):
    silence(ctx)
    us = [fix(ctx, 0)]
    a, b = repo(U).usbl_filter(us, [], 2, 1)
    ctx.ensure("nothing-kept", len(a) == 0 and len(b) == 0)


@REG.harness([U + ".usbl_filter"], kind="sample", bound="about 1100 drawn fixes and 1200 depths", samples=6)
def long_records_depth_filter(ctx):
    depth_case(ctx, 1100, 1200, span=5000)


@REG.harness([U + ".usbl_filter"], kind="sample", bound="about 1100 drawn fixes and 1200 depths", samples=6)
def long_records_both_filters(ctx):
    dist_case(ctx, 1100, True, nd=1200, span=5000)


@REG.harness([U + ".usbl_filter"], kind="sample", bound="15 drawn fixes and 25 depths", samples=100)
def medium_records_depth_filter(ctx):
    depth_case(ctx, 15, 25, span=300)


@REG.harness([U + ".usbl_filter"], kind="sample", bound="15 drawn fixes and 12 depths", samples=100)
def medium_records_both_filters(ctx):
    dist_case(ctx, 15, True, nd=12)


# ------------------------------------------------- records of any length
def any_length(ctx, ne, depth):
    """usbl_filter on a USBL record and a depth record of any length"""
    from pyvc.loops import Loop
    from pyvc.symlist import Acc, SymList
    from pyvc.sym import SymInt, SymReal, z3

    silence(ctx)
    S = repo("auv_nav.sensors")
    I, R = z3.IntSort(), z3.RealSort()

    def record(name, cls, fields):
        f = {a: z3.Function("%s_%s" % (name, a), I, R) for a in fields}

        def make(e):
            o = cls()
            for a in fields:
                setattr(o, a, SymReal(f[a](e)))
            return o

        return SymList(name, make, key=f["epoch_timestamp"], strict=name == "depth")

    U_ = record("usbl", S.Usbl, ["epoch_timestamp", "northings", "eastings", "northings_std", "eastings_std", "depth", "depth_std"])
    D_ = record("depth", S.Depth, ["epoch_timestamp", "depth", "depth_std"])
    ctx.assume(D_.n >= 1)
    nd = D_.n
    k_, v_ = ctx.real("k", lo=0, hi=10), ctx.real("v", lo=0, hi=10)
    dep, dis = oracles(ctx)
    lin5 = lambda *a: apply_uf(ctx, "line", *a)  # R02: the chord through two points
    ctx.patch(repo(U), "interpolate", lin5)
    inside = lambda t: bool(t >= D_.item(SymInt(z3.IntVal(0))).epoch_timestamp + 1) and bool(t + 1 <= D_.item(nd - 1).epoch_timestamp)
    T = Acc("in_time", lambda i: [U_.item(i)] if inside(U_.item(i).epoch_timestamp) else [])
    br = z3.Function("bracket", I, I)
    base = [None]

    def at(i, field):
        """the depth record at the time of fix i, by its definition: the reading
        b with time(b-1) < t <= time(b) (it exists for fixes inside the record)"""
        t = base[0].item(i).epoch_timestamp
        b = SymInt(br(i.e))
        ctx.axiom(("br", i.e.get_id()), z3.And(b.e >= 1, b.e < nd.e))
        p, q = D_.item(b - 1), D_.item(b)
        ctx.axiom(("br2", i.e.get_id()), z3.And(p.epoch_timestamp.e < t.e, t.e <= q.epoch_timestamp.e))
        return lin5(t, p.epoch_timestamp, q.epoch_timestamp, getattr(p, field), getattr(q, field))

    A, B = Acc("depth_at", lambda i: [at(i, "depth")], one=True), Acc("depth_std_at", lambda i: [at(i, "depth_std")], one=True)
    F = Acc("at_depth", lambda i: [base[0].item(i)] if dep(base[0].item(i), at(i, "depth"), at(i, "depth_std"), k_) else [])
    src = [None]
    G = Acc("reachable", lambda i: [src[0].item(i)] if all(bool(dis(src[0].item(i), src[0].item(i + j), k_, v_)) for j in (-2, -1, 1, 2)) else [], start=2)

    def behind(env, i):
        j = env["j"]
        r = [("reading-in-range", ctx.And(j >= 0, j <= nd - 1))]
        if j > 0:
            if i is None:
                return r + [("no-reading-skipped", False)]
            t = env["usbl_list"].item(i).epoch_timestamp
            r.append(("no-reading-skipped", D_.item(j - 1).epoch_timestamp < t))
        return r

    def inv1(env, k):
        base[0] = env["usbl_list"]
        r = [("depths", A.holds(env["depth_interpolated"], k)), ("deviations", B.holds(env["depth_std_interpolated"], k))]
        return r + behind(env, k - 1 if k >= 1 else None)

    def inv4(env, k):
        src[0] = env["usbl_list"]
        i, n, m = env["i"], env["n"], env["usbl_list"].sym_len()
        n = n if isinstance(n, SymInt) else SymInt(z3.IntVal(n))
        i = i if isinstance(i, SymInt) else SymInt(z3.IntVal(i))
        r = [("position", ctx.And(i >= 2, ctx.Or(i == 2, i <= m - 2))), ("neighbour", ctx.Or(n == -2, n == -1, n == 1, n == 2)),
             ("kept", G.holds(env["usbl_filtered_list"], i))]
        if i < m - 2:
            for j in (-2, -1, 1):
                if n > j:
                    r.append(("reachable-so-far", dis(src[0].item(i), src[0].item(i + j), k_, v_)))
        return r

    def havoc4(env, k):
        i = ctx.fresh_int("i")
        return {"i": i, "n": ctx.fresh_int("n"), "usbl_filtered_list": G.state(i)}

    def inv2(env, k):
        return behind(env, env["i"])

    ctx.scratch["loops"] = {
        ("usbl_filter", "kinds"): "ffwfw",
        ("usbl_filter", 0): Loop("time-window", lambda env, k: [("kept", T.holds(env["usbl_filtered_list"], k))], lambda env, k: {"usbl_filtered_list": T.state(k)}),
        ("usbl_filter", 1): Loop("depth-at-fix", inv1, lambda env, k: {"depth_interpolated": A.state(k), "depth_std_interpolated": B.state(k)},
                                 modifies=lambda env: [env["depth_interpolated"], env["depth_std_interpolated"]]),
        ("usbl_filter", 2): Loop("bracket", inv2, decreases=lambda env: nd - env["j"]),
        ("usbl_filter", 3): Loop("depth-envelope", lambda env, k: [("kept", F.holds(env["usbl_filtered_list"], k))], lambda env, k: {"usbl_filtered_list": F.state(k)}),
        ("usbl_filter", 4): Loop("distance", inv4, havoc4),
    }
    first, got = repo(U).usbl_filter(U_, D_, k_, v_, apply_north_east_filter=ne, apply_depth_filter=depth)
    whole = lambda l, acc, k: ctx.And(getattr(l, "acc", None) is acc and not l.appended, l.k == k) if getattr(l, "acc", None) is acc else False
    last = got
    if ne:
        m = first.sym_len()
        ctx.ensure("exactly-the-fixes-reachable-from-their-four-neighbours", whole(got, G, ctx.ite(m >= 4, m - 2, 2)))
        last = first
    if depth:
        ctx.ensure("exactly-the-fixes-within-the-interpolated-depth-envelope", whole(last, F, base[0].sym_len()))
        last = base[0]
    ctx.ensure("exactly-the-fixes-inside-the-depth-record", whole(last, T, U_.n))


for _ne in (False, True):
    for _de in (False, True):
        def _f(ctx, ne=_ne, de=_de):
            if ctx.symbolic:
                return any_length(ctx, ne, de)
            if ne:
                return dist_case(ctx, ctx.choice("n", [5, 9, 40]), de, nd=ctx.choice("nd", [2, 6, 30]))
            if de:
                return depth_case(ctx, ctx.choice("n", [1, 9, 40]), ctx.choice("nd", [2, 6, 30]), span=300)
            return time_case(ctx, ctx.choice("n", [1, 9, 40]), ctx.choice("nd", [2, 6, 30]), span=300)
        _f.__name__ = "records_of_any_length" + ("_depth" if _de else "") + ("_distance" if _ne else "")
        REG.harness([U + ".usbl_filter"], loops=[U + ".usbl_filter"])(_f)
