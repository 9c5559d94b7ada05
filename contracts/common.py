"""Shared specification vocabulary (used on symbolic and on concrete values)."""
from pyvc.harness import Registry, repo


def rot_zyx(ctx, roll, pitch, yaw, v):
    """Rz(yaw) Ry(pitch) Rx(roll) v, angles in degrees: body -> north/east/down"""
    r, p, y = ctx.rad(roll), ctx.rad(pitch), ctx.rad(yaw)
    x, yy, z = v
    # Rx
    x1, y1, z1 = x, ctx.cos(r) * yy - ctx.sin(r) * z, ctx.sin(r) * yy + ctx.cos(r) * z
    # Ry
    x2, y2, z2 = ctx.cos(p) * x1 + ctx.sin(p) * z1, y1, -ctx.sin(p) * x1 + ctx.cos(p) * z1
    # Rz
    return (ctx.cos(y) * x2 - ctx.sin(y) * y2, ctx.sin(y) * x2 + ctx.cos(y) * y2, z2)


def lin(t, t1, t2, a, b):
    """value at t on the straight line through (t1, a) and (t2, b)"""
    return a + (b - a) * (t - t1) / (t2 - t1)


def angles(ctx, tag="", deg=400):
    return (ctx.real("roll" + tag, lo=-deg, hi=deg), ctx.real("pitch" + tag, lo=-deg, hi=deg), ctx.real("yaw" + tag, lo=-deg, hi=deg))


def vec(ctx, tag, lo=-1000, hi=1000):
    return tuple(ctx.real("%s_%s" % (tag, a), lo=lo, hi=hi) for a in "xyz")


def silence(ctx):
    """Console output is irrelevant to every contract: replace by no-ops; quit
    must end the program (contract: raises SystemExit)."""
    C = repo("oplab.console").Console
    for n in ("info", "warn", "error", "progress", "banner", "warn_verbose", "info_verbose", "debug"):
        if hasattr(C, n):
            ctx.patch(C, n, staticmethod(lambda *a, **k: None))

    def quit(*a, **k):
        raise Quit(" ".join(str(x) for x in a))

    ctx.patch(C, "quit", staticmethod(quit))


class Quit(Exception):
    pass


def set_fields(o, **k):
    for a, b in k.items():
        setattr(o, a, b)
    return o


def congruent_360(ctx, name, got, expected, tol=1e-6):
    """got == expected modulo 360"""
    if ctx.symbolic:
        from pyvc.sym import SymBool, z3, rv

        d = (rv(got) - rv(expected)) / 360
        ctx.ensure(name, SymBool(z3.Or(*[d == k for k in (-2, -1, 0, 1, 2)])))
    else:
        d = (float(got) - float(expected)) / 360.0
        ctx.ensure(name, abs(d - round(d)) < tol, "got %r expected %r (mod 360)" % (got, expected))


def shortest(ctx, a, b):
    """signed heading change from a to b, within (-180, 180] for a, b in [0,360]"""
    d = b - a
    if d > 180:
        return d - 360
    if d < -180:
        return d + 360
    return d


# ------------------------------------------------------------------ callee contracts
def _swap(v, old, new):
    """v with every occurrence of the function `old` (dispatch tables) replaced"""
    if v is old:
        return new
    if isinstance(v, dict):
        w = {k: _swap(x, old, new) for k, x in v.items()}
        return w if any(w[k] is not x for k, x in v.items()) else v
    if type(v) in (list, tuple):
        w = [_swap(x, old, new) for x in v]
        return type(v)(w) if any(a is not b for a, b in zip(w, v)) else v
    return v


def replace_everywhere(ctx, modname, fname, new):
    """callee contract: every repository module that imported modname.fname uses
    the contract `new` instead of the body"""
    import sys

    old = getattr(repo(modname), fname)
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "") or ""
        if n.split(".")[0] in ("auv_nav", "auv_cal", "correct_images", "oplab", "scripts"):
            for k, v in list(vars(m).items()):
                if v is old:
                    ctx.patch(m, k, new)
                elif isinstance(v, (dict, list, tuple)) and not k.startswith("__"):
                    w = _swap(v, old, new)
                    if w is not v:
                        ctx.patch(m, k, w)


_UF = {}


def uf(name, n):
    from pyvc.sym import z3

    if (name, n) not in _UF:
        _UF[(name, n)] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UF[(name, n)]


def uf_bool(name, n):
    from pyvc.sym import z3

    if (name, n, "b") not in _UF:
        _UF[(name, n, "b")] = z3.Function(name, *([z3.RealSort()] * n + [z3.BoolSort()]))
    return _UF[(name, n, "b")]


def apply_uf(ctx, name, *args):
    from pyvc.sym import SymReal, rv

    return SymReal(uf(name, len(args))(*[ctx.norm_arg(rv(a)) for a in args]))


def geodesy(ctx):
    """-> latlon(lat_ref, lon_ref, eastings, northings), the specification of the
    WGS84 direct problem (uninterpreted in proofs, geographiclib in replays).
    In proofs the repository's metres_to_latlon is replaced by its contract."""
    if ctx.symbolic:
        def m2l(latitude, longitude, eastings, northings):
            return (
                apply_uf(ctx, "geo_lat", latitude, longitude, eastings, northings),
                apply_uf(ctx, "geo_lon", latitude, longitude, eastings, northings),
            )

        def l2m(latitude, longitude, latitude_reference, longitude_reference):
            return (
                apply_uf(ctx, "geo_dist", latitude, longitude, latitude_reference, longitude_reference),
                apply_uf(ctx, "geo_bear", latitude, longitude, latitude_reference, longitude_reference),
            )

        replace_everywhere(ctx, "auv_nav.tools.latlon_wgs84", "metres_to_latlon", m2l)
        replace_everywhere(ctx, "auv_nav.tools.latlon_wgs84", "latlon_to_metres", l2m)
        ctx.trusted.add("assumed contract: geographiclib Geodesic.WGS84.Direct/Inverse (uninterpreted)")
        return m2l, l2m
    import math
    from geographiclib.geodesic import Geodesic

    def m2l(la, lo, e, n):
        r = Geodesic.WGS84.Direct(la, lo, math.degrees(math.atan2(e, n)), math.hypot(e, n))
        return r["lat2"], r["lon2"]

    def l2m(la, lo, la0, lo0):
        r = Geodesic.WGS84.Inverse(la0, lo0, la, lo)
        return r["s12"], r["azi1"]

    return m2l, l2m


class _Str(str):
    def __getitem__(self, k):
        return self


class Anything:
    """stand-in for log-message formatting of times"""

    def __getattr__(self, n):
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __getitem__(self, k):
        return self

    def __str__(self):
        return "?"


def stub_clock(ctx, *mods):
    """time / datetime are only used to format log messages in these modules"""
    if ctx.symbolic:
        for m in mods:
            for a in ("time", "datetime"):
                if hasattr(m, a):
                    ctx.patch(m, a, Anything())


def out_of_reach(ctx, what):
    """the code uses something the stand-in does not model: no verdict from this harness"""
    if ctx.symbolic:
        from pyvc.sym import Unsupported

        raise Unsupported(what)
    from pyvc.engine import Discard

    raise Discard(what)
