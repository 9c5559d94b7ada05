"""R21: laser planes are computed from simultaneous detections of the same laser."""
from imgspec import *
import pathlib, shutil, tempfile, math

REG = Registry("R21")
L = "auv_cal.laser_calibrator"
PF = "auv_cal.plane_fitting"
CM = "oplab.camera_models"


def arr(ctx, xs):
    return np_(ctx).array(xs, dtype=float) if not ctx.symbolic else np_(ctx).array(xs)


def coeffs(ctx):
    return [ctx.real("a", lo=0.05, hi=3), ctx.real("b", lo=-3, hi=3), ctx.real("c", lo=-3, hi=3), ctx.real("d", lo=-20, hi=20)]


def at(p, x):
    return p[0] * x[0] + p[1] * x[1] + p[2] * x[2] + p[3]


# ------------------------------------------------------------------ planes
@REG.harness([PF + ".Plane.from_coeffs"], samples=40)
def plane_of_coefficients(ctx):
    """coefficients of the same plane with a normal of length one, and a point of the plane"""
    k = coeffs(ctx)
    if ctx.flag("negative"):
        k = [-x for x in k]
    p = repo(PF).Plane(list(k))
    n = ctx.sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2])
    for i in range(4):
        ctx.ensure_eq("same-plane-%d" % i, p.coeffs[i] * n, k[i])
    for i in range(3):
        ctx.ensure_eq("normal-%d" % i, p.normal[i] * n, k[i])
    ctx.ensure_eq("point-on-plane", at(k, p.point), 0, scale=100)


@REG.harness([PF + ".Plane.distance"], samples=40)
def distance_to_plane(ctx):
    k, x = coeffs(ctx), vec(ctx, "x", -20, 20)
    p = repo(PF).Plane(list(k))
    d = p.distance(arr(ctx, x))
    n = ctx.sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2])
    e = at(k, x) / n
    if e >= 0:
        ctx.ensure_eq("distance-in-front", d, e)
    else:
        ctx.ensure_eq("distance-behind", d, -e)


@REG.harness([PF + ".Plane.ray_intersection"], samples=40)
def ray_meets_plane(ctx):
    """the intersection lies on the plane and on the ray; there is none only for a parallel ray"""
    k, o, v = coeffs(ctx), vec(ctx, "o", -5, 5), vec(ctx, "v", -2, 2)
    ctx.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] > 0.01)
    s = k[0] * v[0] + k[1] * v[1] + k[2] * v[2]
    if not ctx.symbolic:
        ctx.assume(abs(s) > 0.05)
    p = repo(PF).Plane(list(k))
    r = p.ray_intersection(arr(ctx, o), arr(ctx, v))
    if r is None:
        # replays only use rays well away from parallel
        ctx.ensure("only-parallel-rays-miss", ctx.symbolic)
        return
    ctx.ensure_eq("on-plane", at(k, r), 0, scale=1000)
    w = [r[i] - o[i] for i in range(3)]
    for i, j in ((0, 1), (1, 2), (2, 0)):
        ctx.ensure_eq("on-ray-%d%d" % (i, j), w[i] * v[j], w[j] * v[i], scale=1000)


@REG.harness([L + ".build_plane"], samples=40)
def plane_of_angles(ctx):
    """the plane contains the point and its normal has the given pitch and yaw"""
    pi, ya = ctx.real("pitch", lo=-80, hi=80), ctx.real("yaw", lo=-80, hi=80)
    x = vec(ctx, "x", -20, 20)
    if ctx.symbolic:
        ctx.assume(ctx.cos(ctx.rad(pi)) > 0)
        ctx.assume(ctx.cos(ctx.rad(ya)) > 0)
    plane, normal, _ = repo(L).build_plane(pi, ya, arr(ctx, x))
    ctx.ensure_eq("contains-point", at(plane, x), 0, scale=1000)
    for q, what in ((plane, "plane"), (normal, "normal")):
        ctx.ensure_eq(what + "-pitch", q[2] * ctx.cos(ctx.rad(pi)), q[0] * ctx.sin(ctx.rad(pi)))
        ctx.ensure_eq(what + "-yaw", q[1] * ctx.cos(ctx.rad(ya)), q[0] * ctx.sin(ctx.rad(ya)))
    ctx.ensure_eq("unit-normal", normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2], 1)
    ctx.ensure("forward", normal[0] > 0)


@REG.harness([L + ".plane_through_3_points"], samples=60)
def plane_of_three_points(ctx):
    ps = [vec(ctx, "p%d" % i, -20, 20) for i in range(3)]
    u = [ps[1][i] - ps[0][i] for i in range(3)]
    v = [ps[2][i] - ps[0][i] for i in range(3)]
    n0 = u[1] * v[2] - u[2] * v[1]
    ctx.assume(ctx.abs(n0) > 0.5)
    before = [tuple(p) for p in ps]
    plane = repo(L).plane_through_3_points([arr(ctx, p) for p in ps])
    ctx.ensure_eq("scaled-to-the-laser-axis", plane[0], 1)
    for k, p in enumerate(before):
        ctx.ensure_eq("contains-point-%d" % k, at(plane, p), 0, scale=10000)


@REG.harness([L + ".plane_through_3_points"], samples=60)
def plane_parallel_to_the_axis(ctx):
    """also when the plane contains the x direction: it is still the plane of the three points"""
    y = [ctx.real("y%d" % i, lo=-20, hi=20) for i in range(2)]
    z = [ctx.real("z%d" % i, lo=-20, hi=20) for i in range(2)]
    ps = [(0.0, y[0], z[0]), (1.0, y[0], z[0]), (0.0, y[1], z[1])]
    ctx.assume(ctx.abs(y[0] - y[1]) > 0.5)
    plane = repo(L).plane_through_3_points([arr(ctx, p) for p in ps])
    ctx.ensure_eq("normal-across-the-axis", plane[0], 0)
    ctx.ensure("is-a-plane", ctx.Or(ctx.abs(plane[1]) > 0, ctx.abs(plane[2]) > 0))
    for k, p in enumerate(ps):
        ctx.ensure_eq("contains-point-%d" % k, at(plane, p), 0, scale=1000)


@REG.harness([L + ".opencv_to_ned"], samples=20)
def axes_of_the_vehicle(ctx):
    """camera axes (right, down, forward) become vehicle axes with the camera looking down:
    forward is up in the image, starboard is right in the image, down is away from the camera"""
    x = vec(ctx, "x", -20, 20)
    r = repo(L).opencv_to_ned(arr(ctx, x))
    ctx.ensure_eq("forward", r[0][0], -x[1], tol=1e-5)
    ctx.ensure_eq("starboard", r[1][0], x[0], tol=1e-5)
    ctx.ensure_eq("down", r[2][0], x[2], tol=1e-5)


@REG.harness([L + ".get_angles", L + ".get_angle"], kind="sample", samples=200)
def angles_of_a_plane(ctx):
    """the angles describe the plane whichever way its normal points, and build that plane again"""
    m = repo(L)
    pi, ya = ctx.real("pitch", lo=-85, hi=85), ctx.real("yaw", lo=-85, hi=85)
    s = ctx.choice("scale", [1.0, -1.0, 7.0, -0.3])
    n = [s, s * math.tan(math.radians(ya)), s * math.tan(math.radians(pi))]
    a, gp, gy = m.get_angles(n)
    ctx.ensure_eq("pitch", gp, pi, tol=1e-6)
    ctx.ensure_eq("yaw", gy, ya, tol=1e-6)
    ctx.ensure_eq("angle-to-axis", math.cos(math.radians(a)), 1 / math.sqrt(1 + math.tan(math.radians(ya)) ** 2 + math.tan(math.radians(pi)) ** 2), tol=1e-9)


# ------------------------------------------------------------------ triangulation
def cameras(ctx):
    """two rectified cameras"""
    f, cx, cy = ctx.real("f", lo=500, hi=3000), ctx.real("cx", lo=300, hi=1500), ctx.real("cy", lo=300, hi=1500)
    b = ctx.real("baseline", lo=0.2, hi=3)
    P1 = [[f, 0.0, cx, 0.0], [0.0, f, cy, 0.0], [0.0, 0.0, 1.0, 0.0]]
    if ctx.flag("vertical_pair"):
        P2 = [[f, 0.0, cx, 0.0], [0.0, f, cy, -f * b], [0.0, 0.0, 1.0, 0.0]]
    else:
        P2 = [[f, 0.0, cx, -f * b], [0.0, f, cy, 0.0], [0.0, 0.0, 1.0, 0.0]]
    return arr(ctx, P1), arr(ctx, P2)


def project(P, X):
    w = [P[i, 0] * X[0] + P[i, 1] * X[1] + P[i, 2] * X[2] + P[i, 3] for i in range(3)]
    return w[0] / w[2], w[1] / w[2], w[2]


def svd_contract(ctx, X, w1, w2):
    """assumed contract of numpy.linalg.svd: the last row of V spans the null space of
    the matrix when it has a null vector. The obligation on the caller is that the
    point sought is that null vector."""
    if not ctx.symbolic:
        return
    m = np_(ctx)
    t = ctx.real("t")
    ctx.assume(ctx.Or(t > 0, t < 0))

    def svd(M, *a, **k):
        M = m.array(M)
        r, c = M.shape
        cand = {4: list(X) + [1.0], 6: list(X) + [1.0, w1, w2]}.get(c)
        if cand is None or a or k:
            out_of_reach(ctx, "svd of a %dx%d matrix" % (r, c))
        for i in range(r):
            ctx.ensure_eq("point-solves-equation-%d" % i, sum(M[i, j] * cand[j] for j in range(c)), 0)
        V = m.zeros((c, c))
        for j in range(c):
            V[c - 1, j] = t * cand[j]
        return None, None, V

    ctx.patch(m.linalg, "svd", svd)
    ctx.trusted.add("assumed contract: numpy.linalg.svd returns the null vector as the last row of V")


def _tri(which):
    def h(ctx):
        P1, P2 = cameras(ctx)
        X = [ctx.real("X", lo=-3, hi=3), ctx.real("Y", lo=-3, hi=3), ctx.real("Z", lo=1, hi=15)]
        u1, v1, w1 = project(P1, X)
        u2, v2, w2 = project(P2, X)
        svd_contract(ctx, X, w1, w2)
        if which == "point":
            sc = repo(CM).StereoCamera.__new__(repo(CM).StereoCamera)
            set_fields(sc, left=set_fields(repo(CM).MonoCamera(), P=P1), right=set_fields(repo(CM).MonoCamera(), P=P2))
            got = sc.triangulate_point([u1, v1], [u2, v2])
        else:
            # detections are (row, column)
            got = getattr(repo(L), "triangulate_" + which)([v1, u1], [v2, u2], P1, P2)
        for i in range(3):
            ctx.ensure_eq("point-%d" % i, got[i], X[i], tol=1e-5)

    h.__name__ = "triangulate_" + which
    fn = CM + ".StereoCamera.triangulate_point" if which == "point" else L + ".triangulate_" + which
    REG.harness([fn], samples=40)(h)


_tri("lst")
_tri("dlt")
_tri("point")


@REG.harness([CM + ".StereoCamera.project_point", CM + ".MonoCamera.return_valid"], samples=60)
def projection_of_a_point(ctx):
    """pixel of the point in each rectified image, if inside that image"""
    m = repo(CM)
    P1, P2 = cameras(ctx)
    X = [ctx.real("X", lo=-3, hi=3), ctx.real("Y", lo=-3, hi=3), ctx.real("Z", lo=1, hi=15)]
    W, H = ctx.real("W", lo=500, hi=3000), ctx.real("H", lo=500, hi=3000)
    sc = m.StereoCamera.__new__(m.StereoCamera)
    set_fields(sc, left=set_fields(m.MonoCamera(), P=P1, image_width=W, image_height=H), right=set_fields(m.MonoCamera(), P=P2, image_width=W, image_height=H))
    got = sc.project_point(X)
    for P, g, n in ((P1, got[0], "left"), (P2, got[1], "right")):
        u, v, _ = project(P, X)
        inside = bool(ctx.And(u > 0, u < W, v > 0, v < H))
        ctx.ensure(n + "-inside-image", (g is not None) == inside)
        if inside:
            ctx.ensure_eq(n + "-column", g[0], u, tol=1e-6)
            ctx.ensure_eq(n + "-row", g[1], v, tol=1e-6)


def calibrator(ctx, **k):
    m = repo(L)
    lc = m.LaserCalibrator.__new__(m.LaserCalibrator)
    d = dict(camera_name="cam1", overwrite=False, remap=True, two_lasers=False, min_greenness_ratio=0.01, k=5, num_columns=1024, start_row=0, end_row=-1, start_row_b=0, end_row_b=-1,
             left_maps="left maps", right_maps="right maps", min_z_m=1, max_z_m=20, number_of_bins=5, max_points_per_bin=300, max_point_cloud_size=10000, mdt=0.002, gip=0.999, num_uncert_planes=5)
    d.update(k)
    return set_fields(lc, **d)


class Cam:
    pass


def _pairs(n1, n2):
    def h(ctx):
        """every laser point seen in the same column of both images is triangulated, once,
        unless behind the camera, and turned back into the unrectified camera"""
        m = repo(L)
        c1 = [ctx.int("c1_%d" % i, lo=0, hi=9) for i in range(n1)]
        c2 = [ctx.int("c2_%d" % i, lo=0, hi=9) for i in range(n2)]
        if n1 > 4:
            c1, c2 = (sorted(ctx.rng.sample(range(3 * n), n)) if ctx.rng else list(range(n)) for n in (n1, n2))
        for c in (c1, c2):
            for i in range(len(c) - 1):
                ctx.assume(c[i] < c[i + 1])
        remap = ctx.flag("remap")
        P = {(i, j): vec(ctx, "p%d%d" % (i, j), -5, 5) for i in range(n1) for j in range(n2)}
        R = grid(ctx, "R", (3, 3), -1, 1)
        left, right = set_fields(Cam(), P="PL", R=R), set_fields(Cam(), P="PR", R="unused")
        lc = calibrator(ctx, remap=remap, sc=set_fields(Cam(), left=left, right=right))
        pk1 = [[100 + i, c1[i]] for i in range(n1)]
        pk2 = [[200 + j, c2[j]] for j in range(n2)]

        def tri(a, b, A, B):
            ctx.ensure("left-with-left-matrix", A == "PL" and B == "PR")
            return arr(ctx, P[(int(a[0]) - 100, int(b[0]) - 200)])

        ctx.patch(m, "triangulate_lst", tri)
        got, good, bad = lc.pointcloud_from_peaks(pk1, pk2)
        want, behind = [], 0
        for i in range(n1):
            for j in range(n2):
                if c1[i] == c2[j]:
                    p = P[(i, j)]
                    if p[2] < 0:
                        behind += 1
                    else:
                        want.append([sum(R[b, a] * p[b] for b in range(3)) for a in range(3)] if remap else p)
        ctx.ensure("number-of-points", len(got) == len(want), "%d for %d" % (len(got), len(want)))
        ctx.ensure("counts", good == len(want) and bad == behind)
        for a, (g, w) in enumerate(zip(got, want)):
            for b in range(3):
                ctx.ensure_eq("point-%d-%d" % (a, b), g[b], w[b])

    if n1 > 4:
        return h
    h.__name__ = "points_of_an_image_pair_%d_%d" % (n1, n2)
    REG.harness([L + ".LaserCalibrator.pointcloud_from_peaks"], kind="bounded", bound="%d and %d detections in symbolic columns with symbolic points" % (n1, n2), samples=40, max_paths=4000, budget_s=150)(h)


_pairs(2, 2)
_pairs(2, 3)
_pairs(3, 1)


@REG.harness([L + ".LaserCalibrator.pointcloud_from_peaks"], loops=[L + ".LaserCalibrator.pointcloud_from_peaks"], samples=8)
def points_of_an_image_pair_any_number_of_detections(ctx):
    """detections in order of their columns, at most one per column, in both images"""
    if not ctx.symbolic:
        return _pairs(*ctx.choice("size", [(12, 9), (30, 30), (7, 40)]))(ctx)
    from anylen import integer
    from pyvc.loops import Loop
    from pyvc.symlist import SymList, Acc
    from pyvc.sym import SymInt, SymReal, SymBool, z3

    silence(ctx)
    m = repo(L)
    I, R_ = z3.IntSort(), z3.RealSort()
    col = {n: z3.Function("column_" + n, I, I) for n in ("pk1", "pk2")}
    row = {n: z3.Function("row_" + n, I, R_) for n in ("pk1", "pk2")}
    pk1, pk2 = (SymList(n, lambda e, n=n: [SymReal(row[n](e)), SymInt(col[n](e))], key=col[n]) for n in ("pk1", "pk2"))
    c1, c2 = (lambda i: pk1.item(integer(i))[1]), (lambda j: pk2.item(integer(j))[1])
    n2 = pk2.n
    remap = ctx.flag("remap")
    R = grid(ctx, "R", (3, 3), -1, 1)
    left, right = set_fields(Cam(), P="PL", R=R), set_fields(Cam(), P="PR", R="unused")
    lc = calibrator(ctx, remap=remap, sc=set_fields(Cam(), left=left, right=right))

    def tri(a, b, A, B):
        ctx.ensure("left-with-left-matrix", A == "PL" and B == "PR")
        return arr(ctx, [apply_uf(ctx, "tri%d" % q, a[0], a[1], b[0], b[1]) for q in range(3)])

    ctx.patch(m, "triangulate_lst", tri)
    first = z3.Function("first_not_left_of", I, I)

    def partner(i):
        """the detection of the second image in the column of detection i, if there is one:
        the first that is not left of it (columns increase)"""
        j = SymInt(first(i.e))
        ctx.axiom(("first", i.e.get_id()), z3.And(j.e >= 0, j.e <= n2.e))
        if j >= 1:
            ctx.axiom(("first-l", i.e.get_id()), (c2(j - 1) < c1(i)).e)
        if j < n2:
            ctx.axiom(("first-r", i.e.get_id()), (c2(j) >= c1(i)).e)
            if c2(j) == c1(i):
                return j
        return None

    def seen(i):
        j = partner(i)
        return None if j is None else tri(pk1.item(i), pk2.item(j), "PL", "PR")

    def point(i):
        p = seen(i)
        if p is None or p[2] < 0:
            return []
        return [[sum(R[b, a] * p[b] for b in range(3)) for a in range(3)] if remap else list(p)]

    good, bad = z3.Function("good", I, I), z3.Function("bad", I, I)

    def count(f, k):
        return SymInt(f(integer(k).e))

    ctx.assume(ctx.And(count(good, 0) == 0, count(bad, 0) == 0))
    cloud_ = Acc("cloud", point, match=lambda a, b: ctx.And(*[x == y for x, y in zip(a, b)]))

    def behind(env, k):
        i2 = integer(env["i2"])
        r = [("in-range", ctx.And(i2 >= 0, i2 <= n2))]
        if i2 > 0:
            r.append(("none-skipped", c2(i2 - 1) < c1(k)))
        return r

    def inv(env, k):
        if k >= 1:
            r = behind(env, k - 1)
            # counting the points of detection k - 1
            p = seen(k - 1)
            ctx.assume(count(good, k) == count(good, k - 1) + (1 if p is not None and p[2] >= 0 else 0))
            ctx.assume(count(bad, k) == count(bad, k - 1) + (1 if p is not None and p[2] < 0 else 0))
        else:
            r = [("starts-at-the-first", integer(env["i2"]) == 0)]
        return r + [("points", cloud_.holds(env["cloud"], k)), ("number", env["count"] == count(good, k)), ("number-behind", env["count_inversed"] == count(bad, k))]

    f = "LaserCalibrator.pointcloud_from_peaks"
    ctx.scratch["loops"] = {
        (f, "kinds"): "fw",
        (f, 0): Loop("detections", inv, lambda env, k: {"cloud": cloud_.state(k)}),
        (f, 1): Loop("columns", lambda env, k: behind(env, env["i1"]), decreases=lambda env: n2 - env["i2"]),
    }
    got, g, b = lc.pointcloud_from_peaks(pk1, pk2)
    n1 = pk1.n
    ctx.ensure("exactly-the-pairs-in-a-column", ctx.And(not got.appended, got.k == n1) if getattr(got, "acc", None) is cloud_ else False)
    ctx.ensure("counts", ctx.And(g == count(good, n1), b == count(bad, n1)))


# ------------------------------------------------------------------ detection
def _float_image():
    import numpy
    from pyvc.shims import SymArray

    class FloatImage(SymArray):
        dtype = numpy.dtype("float64")

    return FloatImage


def _detect(n, k):
    def h(ctx):
        """the detection is the intensity centroid of the brightest window of k rows
        (weighted towards its centre), if bright enough"""
        silence(ctx)
        m = repo(L)
        if not ctx.symbolic:
            import numpy

            img = numpy.zeros((n, 3))
        else:
            img = np_(ctx).zeros((n, 3))
        col = [ctx.real("i%d" % v, lo=0.01, hi=1) for v in range(n)]
        for v in range(n):
            img[v, 1] = col[v]
            img[v, 0] = ctx.real("x%d" % v, lo=0, hi=1)
        ratio = ctx.real("ratio", lo=0.01, hi=k)
        start = ctx.choice("start", [0, 1] if n < 12 else [0, 1, 4])
        if ctx.symbolic:
            img = img.view(_float_image())
        best, at_ = 0, None
        sums = [sum((1 - 2 * abs((k - 1) / 2.0 - r) / k) * col[w + r] for r in range(k)) for w in range(start, n - k)]
        if not ctx.symbolic:
            ctx.assume(all(abs(x - y) > 1e-9 for i, x in enumerate(sums) for y in sums[:i]) and all(abs(x - ratio) > 1e-9 for x in sums))
        for w in range(start, n - k):
            s = sum((1 - 2 * abs((k - 1) / 2.0 - r) / k) * col[w + r] for r in range(k))
            if s > best:
                best, at_ = s, w + sum(r * col[w + r] for r in range(k)) / sum(col[w + r] for r in range(k))
        got = m.findLaserInImage(img, ratio, k, 0, start_row=start, prior=[(0, 1)])
        if best > ratio:
            ctx.ensure("one-detection", len(got) == 1)
            ctx.ensure_eq("row", got[0][0], at_)
            ctx.ensure_eq("column", got[0][1], 1)
        else:
            ctx.ensure("no-detection", len(got) == 0)

    if n > 10:
        return h
    h.__name__ = "laser_row_%d_%d" % (n, k)
    REG.harness([L + ".findLaserInImage"], kind="bounded", bound="column of %d pixels, window of %d, symbolic intensities" % (n, k), samples=40)(h)


def _any_detect(whole):
    def h(ctx):
        """image, window and number of columns of any size: per column the first of the
        brightest windows, if bright enough"""
        if not ctx.symbolic:
            return _detect(*ctx.choice("size", [(15, 3), (40, 5), (30, 8), (12, 11)]))(ctx)
        from anylen import integer
        from pyvc.loops import Loop
        from pyvc.shims import SeqArray
        from pyvc.symlist import SymList, Acc
        from pyvc.sym import SymInt, SymReal, z3
        import numpy

        silence(ctx)
        m = repo(L)
        I, R_ = z3.IntSort(), z3.RealSort()
        height, width, k = ctx.int("height", lo=1), ctx.int("width", lo=1), ctx.int("window", lo=1)
        start = ctx.int("start", lo=0)
        end = height if whole else ctx.int("end", lo=0)
        ctx.assume(end <= height)
        ratio = ctx.real("ratio", lo=0.01, hi=1000)
        light = z3.Function("light", I, I, R_)

        def at(v, u):
            x = SymReal(light(integer(v).e, integer(u).e))
            ctx.assume(x >= 0)
            return x

        class Image:
            shape, dtype, ndim = (height, width), numpy.dtype("float64"), 2

            def __getitem__(self, q):
                v, u = q
                ctx.ensure("inside-the-image", ctx.And(v >= 0, v < height, u >= 0, u < width))
                return at(v, u)

        columns = z3.Function("column", I, I)

        def item(e):
            ctx.assume(ctx.And(SymInt(columns(e)) >= 0, SymInt(columns(e)) < width))
            return [0, SymInt(columns(e))]

        prior = SymList("prior", item)
        S = {n: z3.Function("sum_" + n, I, I, I, R_) for n in ("weighted", "plain", "moment")}

        def part(n, w, j, u):
            """sum over the first j rows of the window at w"""
            return SymReal(S[n](integer(w).e, integer(j).e, integer(u).e))

        def define(w, v, u):
            j = v - w
            x = at(v, u)
            wt = 1 - 2 * abs((k - 1) / 2 - j) / k
            for n, a in (("weighted", wt * x), ("plain", x), ("moment", j * x)):
                ctx.assume(part(n, w, 0, u) == 0)
                ctx.assume(part(n, w, j + 1, u) == part(n, w, j, u) + a)

        bright = lambda w, u: part("weighted", w, k, u)
        best_, where = z3.Function("best", I, R_), z3.Function("where", I, I)

        def best(u, *ws):
            """the largest brightness (0 if none is above) and the first window that has it"""
            b, w0 = SymReal(best_(integer(u).e)), SymInt(where(integer(u).e))
            ctx.assume(b >= 0)
            ctx.assume(ctx.Or(b == 0, ctx.And(w0 >= start, w0 < end - k, bright(w0, u) == b)))
            for w in ws:
                ctx.assume(ctx.Or(w < start, w >= end - k, ctx.And(bright(w, u) <= b, ctx.Or(w >= w0, bright(w, u) < b, b == 0))))
            return b, w0

        def centre(w, u):
            # where it is used the sum is positive ("light")
            return w + SymReal(part("moment", w, k, u).e / part("plain", w, k, u).e)

        def found(i):
            u = prior.item(i)[1]
            b, w0 = best(u)
            if not b > ratio:
                return []
            ctx.assume(part("plain", w0, k, u) >= b)  # shown for every window by the innermost invariant
            return [[centre(w0, u), u]]

        peaks = Acc("peaks", found, match=lambda a, b: ctx.And(*[x == y for x, y in zip(a, b)]))

        def search(env, n):
            u, vw = env["u"], env["vw"]
            b, w0 = best(u, vw - 1, vw)
            g = env["gmax"]
            r = [("start", vw >= start), ("not-beyond", ctx.Or(vw == start, vw <= end - k)), ("never-above", ctx.And(g >= 0, g <= b)), ("none-found", ctx.Or(b > 0, g == 0))]
            if b > 0:
                if vw > w0:
                    r += [("brightest", g == b), ("light", part("plain", w0, k, u) >= b), ("centre", env["vgmax"] == centre(w0, u))]
                else:
                    r.append(("still-to-come", g < b))
            return r

        def window(env, n):
            u, vw, v = env["u"], env["vw"], env["v"]
            define(vw, v, u)
            j = v - vw
            r = [(q, env[x] == part(p, vw, j, u)) for q, x, p in (("brightness", "gt", "weighted"), ("light", "gt_m", "plain"), ("moment", "gt_mv", "moment"))]
            return r + [("row", ctx.And(j >= 0, j <= k)), ("light-at-least-brightness", ctx.And(env["gt_m"] >= 0, env["gt"] <= env["gt_m"]))]

        fresh = lambda *ns: lambda env, n: {x: ctx.fresh_real(x) for x in ns}
        f = "findLaserInImage"
        ctx.scratch["loops"] = {
            (f, "kinds"): "fww",
            (f, 0): Loop("columns", lambda env, n: [("peaks", peaks.holds(env["peaks"], n))], lambda env, n: {"peaks": peaks.state(n)}),
            (f, 1): Loop("windows", search, fresh("gmax", "vgmax"), decreases=lambda env: end - k - env["vw"]),
            (f, 2): Loop("rows", window, fresh("gt", "gt_m", "gt_mv"), decreases=lambda env: env["vw"] + k - env["v"]),
        }
        got = m.findLaserInImage(Image(), ratio, k, 0, start_row=start, end_row=-1 if whole else end, prior=prior)
        got = got.seq if isinstance(got, SeqArray) else got
        ctx.ensure("exactly-the-bright-columns", ctx.And(not got.appended, got.k == prior.n) if getattr(got, "acc", None) is peaks else False)

    h.__name__ = "laser_rows_any_image%s" % ("" if whole else "_part")
    REG.harness([L + ".findLaserInImage"], loops=[L + ".findLaserInImage"], samples=12)(h)


_any_detect(True)
_any_detect(False)
_detect(6, 3)
_detect(7, 2)


@REG.harness([L + ".findLaserInImage"], kind="sample", samples=40)
def laser_line_is_found(ctx):
    """a bright line on a dark image is found at its row in every searched column, for every
    pixel depth, and nowhere else"""
    import numpy as np

    silence(ctx)
    H, W = 40, 260
    dt, top = ctx.choice("depth", [(np.uint8, 255), (np.uint16, 65535), (np.float32, 1.0)])
    r0, slope, k = ctx.int("row", lo=12, hi=20), ctx.real("slope", lo=-0.02, hi=0.02), ctx.choice("k", [3, 5])
    img = np.zeros((H, W), dtype=np.float64)
    lit = [u for u in range(W) if u % 7 != 3]
    rows = {}
    for u in lit:
        rows[u] = int(round(r0 + slope * u))
        img[rows[u], u] = 0.9
        img[rows[u] - 1, u] = img[rows[u] + 1, u] = 0.3
    got = repo(L).findLaserInImage((img * top).astype(dt), 0.1, k, ctx.choice("columns", [0, 1024, 20]))
    ctx.ensure("found", len(got) > 10)
    ctx.ensure("increasing-columns", all(got[i][1] < got[i + 1][1] for i in range(len(got) - 1)))
    for v, u in got:
        ctx.ensure("only-where-lit", u in rows, str(u))
        ctx.ensure("at-the-line", abs(v - rows[int(u)]) < 0.02, "%s instead of %s" % (v, rows[int(u)]))


class _Scratch:
    def __enter__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root)


@REG.harness([L + ".get_laser_pixels_in_image_pair"], kind="sample", samples=16)
def detections_are_remembered(ctx):
    """detections are those of the image of that name, each laser within its own rows; a second run
    without overwriting uses the same ones, also of images without laser; overwriting looks again"""
    import cv2
    import numpy as np

    silence(ctx)
    two = ctx.flag("two_lasers")
    H, W = 60, 200
    maps = tuple(x.astype(np.float32) for x in np.meshgrid(np.arange(W), np.arange(H)))

    def scene(tag, f):
        """writes the image; the rows of its two lasers"""
        img = np.zeros((H, W), dtype=np.uint8)
        rows = [None, None]
        a, b = (ctx.int("from_%s_%s" % (x, tag), lo=86, hi=110) for x in ("top", "bottom"))
        if not ctx.flag("dark_" + tag):
            rows[0] = ctx.int("top_" + tag, lo=6, hi=20), a
            img[rows[0][0], a:] = 200
        if ctx.flag("bottom_visible_" + tag):
            rows[1] = ctx.int("bottom_" + tag, lo=36, hi=42), b
            img[rows[1][0], b:] = 200
        # a reflection below the rows of both lasers
        img[56, :] = 250
        cv2.imwrite(str(f), img)
        return rows

    def check(what, got, truth):
        for k, (laser, side) in enumerate(((0, 0), (0, 1), (1, 0), (1, 1))):
            g = np.array(got[k]).reshape(-1, 2)
            row = truth[side][laser] if laser == 0 or two else None
            ctx.ensure("%s-%d-seen" % (what, k), (len(g) > 0) == (row is not None), "%d detections" % len(g))
            if row is not None and len(g):
                ctx.ensure("%s-%d-row" % (what, k), np.allclose(g[:, 0], row[0], atol=0.01), "%s instead of %s" % (g[:3, 0], row))
                ctx.ensure("%s-%d-columns" % (what, k), list(g[:, 1]) == list(range(row[1], row[1] + len(g))) and row[1] + len(g) >= W - 80, "columns from %s instead of %s" % (g[:3, 1], row))

    with _Scratch() as root:
        d = root / "raw" / "2020" / "dive"
        (d / "l").mkdir(parents=True)
        (d / "r").mkdir(parents=True)
        m = repo(L)
        pairs, truth = [], []
        for n in ("20200101_000000_000000.png", "20200101_000000_500000.png", "20200101_000000_500000_pcoa1.png", "20200101_000000_500000_pcoa1.2.png"):
            pairs.append([d / s / n for s in "lr"])
            truth.append([scene(s + n[16] + n[26:-4], d / s / n) for s in "lr"])
        args = lambda p: (p[0], maps, p[1], maps, 0.01, 5, 1024, 0, 30, 30, 50, two, True)
        first = [m.get_laser_pixels_in_image_pair(*args(p), False, "cam") for p in pairs]
        for i, (x, t) in enumerate(zip(first, truth)):
            check("image-%d" % i, x, t)
        one, again = first[0], m.get_laser_pixels_in_image_pair(*args(pairs[0]), False, "cam")
        for k in range(4):
            x, y = np.array(one[k]).reshape(-1, 2), np.array(again[k]).reshape(-1, 2)
            ctx.ensure("same-detections-%d" % k, x.shape == y.shape and np.allclose(x, y, atol=1e-3), "%s, then %s" % (x.shape, y.shape))
        new = [scene(s + "new", pairs[0][i]) for i, s in enumerate("lr")]
        check("overwritten", m.get_laser_pixels_in_image_pair(*args(pairs[0]), True, "cam"), new)
        check("remembered", m.get_laser_pixels_in_image_pair(*args(pairs[0]), False, "cam"), new)


# ------------------------------------------------------------------ from images to planes
def run_cal(ctx, lc, limages, rimages, root):
    """lc.cal with the image work and plotting replaced by recorders"""
    m = repo(L)
    rec = {"pairs": [], "clouds": []}
    ctx.patch(m, "joblib", _Joblib)

    def pixels(l, lm, r, rm, *a):
        rec["pairs"].append((l, lm, r, rm, a))
        i = len(rec["pairs"])
        return [("t", i)], [("t", i)], [("b", i)], [("b", i)]

    ctx.patch(m, "get_laser_pixels_in_image_pair", pixels)

    def cloud(self, a, b):
        ctx.ensure("both-images-of-one-pair-and-laser", a == b)
        side, i = a[0]
        return [("p", side, i)], 1, 0

    ctx.patch(m.LaserCalibrator, "pointcloud_from_peaks", cloud)
    ctx.patch(m, "opencv_to_ned", lambda p: ("ned",) + p)
    ctx.patch(m, "save_cloud", lambda *a: None)
    ctx.patch(m.LaserCalibrator, "z_stratified_sampling", lambda self, c: list(c))
    ctx.patch(m.random, "sample", lambda c, n: list(c)[:n])

    class NP:
        def __getattr__(self, n):
            import numpy

            return getattr(numpy, n)

        def array(self, x, *a, **k):
            return Bag(x)

    ctx.patch(m, "np", NP())

    def fit(self, c, folder):
        rec["clouds"].append(list(c))
        return "planes of cloud %d" % len(rec["clouds"])

    ctx.patch(m.LaserCalibrator, "fit_and_save", fit)
    lc.cal(limages, rimages, root)
    return rec


class Bag(list):
    def reshape(self, *a):
        return self


from imgspec import _Joblib  # noqa


def _sync(fmt):
    def h(ctx):
        """the point clouds are those of image pairs taken together (same name, or within 50 ms,
        nearest first), each laser from its own detections"""
        silence(ctx)
        two = ctx.flag("two_lasers")
        many = ctx.flag("many") and fmt == "name"
        n1, n2 = (520, 520) if many else (ctx.int("n1", lo=1, hi=5), ctx.int("n2", lo=1, hi=5))
        base = pathlib.Path("/nowhere")
        want = []
        if fmt == "name":
            # some images have no counterpart
            off = ctx.int("offset", lo=-2, hi=2)
            pre = "image" if ctx.flag("prefix") else ""
            decoys = [base / "r" / ("%d%07d.png" % (i + 1, i + 2)) for i in range(2)] if ctx.flag("decoys") else []
            ra = [base / "r" / ("%07d.png" % (i + off + 2)) for i in range(n2)] + decoys
            la = [base / "l" / ("%s%07d.png" % (pre, i + 2)) for i in range(n1)]
            for l in la:
                for r in ra:
                    if l.stem[-7:] == r.stem:
                        want.append((l, r))
        else:
            tl, tr = [], []
            t = 0.0
            for i in range(n1):
                t += ctx.real("gap%d" % i, lo=0.2, hi=1)
                tl.append(t)
            for j in range(n2):
                i = ctx.int("of%d" % j, lo=0, hi=n1 - 1)
                tr.append(tl[i] + ctx.choice("late%d" % j, [0.001 + 0.002 * j, -0.03 + 0.001 * j, 0.07 + 0.001 * j]))
            name = lambda s: pathlib.Path(base / s)
            fn = lambda t, c: "20200101_1200%02d_%06d_20200101_1200%02d_%06d_%s" % (int(t), int(round((t - int(t)) * 1e6)), int(t), 0, c)
            q = lambda t: int(t) + round((t - int(t)) * 1e6) / 1e6
            la = [base / "l" / (fn(t, "pcoc") + ".png") for t in tl]
            ra = [base / "r" / (fn(t, "pcom") + ".png") for t in tr]
            for i, a in enumerate(tl):
                d, j = min((abs(q(a) - q(b)), j) for j, b in enumerate(tr))
                ctx.assume(abs(d - 0.05) > 1e-4)
                if d < 0.05:
                    want.append((la[i], ra[j]))
        lc = calibrator(ctx, two_lasers=two)
        with _Scratch() as root:
            rec = run_cal(ctx, lc, la, ra, root)
        got = [(p[0], p[2]) for p in rec["pairs"]]
        if many:
            ctx.ensure("a-subset-of-pairs", set(got) <= set(want) and len(set(got)) == len(got) == min(500, len(want)), "%d of %d" % (len(got), len(want)))
        else:
            ctx.ensure("pairs", got == want, "%s instead of %s" % (got, want))
        for p in rec["pairs"]:
            ctx.ensure("maps-of-their-camera", (p[1], p[3]) == ("left maps", "right maps"))
        n = len(got)
        ctx.ensure("clouds", rec["clouds"] == [[("ned", "p", s, i + 1) for i in range(n)] for s in ("tb" if two else "t")], str(rec["clouds"])[:300])
        ctx.ensure("first-laser", lc.yaml() == "planes of cloud 1")
        if two:
            ctx.ensure("second-laser", lc.yaml_b() == "planes of cloud 2")

    h.__name__ = "synchronised_images_by_" + fmt
    REG.harness([L + ".LaserCalibrator.cal"], kind="sample", samples=40)(h)


_sync("name")
_sync("time")


def _strat(n):
    def h(ctx):
        """only points inside the depth range, at most the configured number per depth bin, and
        all of them where there are not more; every point at most once"""
        silence(ctx)
        m = repo(L)
        lo, size = ctx.real("min", lo=0, hi=2), ctx.real("range", lo=1, hi=10)
        cap = ctx.choice("cap", [1, 2])
        zs = [ctx.real("z%d" % i, lo=-1, hi=13) for i in range(n)]
        nb = 2
        if n > 4:
            cap, nb = ctx.int("entries", lo=1, hi=n), ctx.int("bins", lo=1, hi=7)
        if not ctx.symbolic:
            lo, size, zs = round(lo, 3), round(size, 3), [round(z, 2) + 0.0003 for z in zs]
        pts = [[i, i, z] for i, z in enumerate(zs)]
        ctx.patch(m.random, "shuffle", lambda c: c.reverse())
        lc = calibrator(ctx, min_z_m=lo, max_z_m=lo + size, number_of_bins=nb, max_points_per_bin=cap)
        out = lc.z_stratified_sampling(list(pts))
        ids = [p[0] for p in out]
        ctx.ensure("each-once", len(set(ids)) == len(ids))
        for b in range(nb):
            inb = [i for i in range(n) if lo + b * size / nb <= zs[i] and zs[i] < lo + (b + 1) * size / nb]
            kept = [i for i in ids if i in inb]
            ctx.ensure("bin-%d" % b, len(kept) == min(cap, len(inb)), "%s of %s" % (kept, inb))
        ctx.ensure("inside-range", all(bool(lo <= zs[i]) and bool(zs[i] < lo + size) for i in ids))
        for p in out:
            ctx.ensure_eq("point-kept-%d" % p[0], p[2], zs[p[0]])

    if n > 4:
        return h
    h.__name__ = "stratified_points_%d" % n
    REG.harness([L + ".LaserCalibrator.z_stratified_sampling"], kind="bounded", bound="%d points in two depth bins, symbolic depths and range" % n, samples=40, max_paths=3000, budget_s=150)(h)


_strat(2)
_strat(3)


@REG.harness([L + ".LaserCalibrator.z_stratified_sampling"], loops=[L + ".LaserCalibrator.z_stratified_sampling"], samples=10)
def stratified_points_any_number(ctx):
    """any number of points and bins: point k is kept exactly if it lies in the range and
    fewer points before it than a bin may hold lie in its bin"""
    if not ctx.symbolic:
        return _strat(ctx.choice("n", [12, 60]))(ctx)
    from anylen import integer
    from pyvc.loops import Loop
    from pyvc.symlist import SymList, SymBins, Acc
    from pyvc.sym import SymInt, SymReal, z3

    silence(ctx)
    m = repo(L)
    I, R_ = z3.IntSort(), z3.RealSort()
    lo, size = ctx.real("min", lo=0, hi=2), ctx.real("range", lo=1, hi=10)
    cap, nb = ctx.int("entries", lo=1), ctx.int("bins", lo=1)
    xyz = [z3.Function(n, I, R_) for n in "xyz"]
    pts = SymList("cloud", lambda e: [SymReal(f(e)) for f in xyz])
    z = lambda k: pts.item(integer(k))[2]
    binof, seen = z3.Function("bin", I, I), z3.Function("seen", I, I, I)
    ctx.patch(m.random, "shuffle", lambda c: None)  # any order: the points are arbitrary
    width = size / nb

    def bin_of(k):
        """the bin of point k: it reaches from min + b * width up to the next"""
        k = integer(k)
        if not (lo <= z(k) and z(k) < lo + size):
            return None
        b = SymInt(binof(k.e))
        ctx.axiom(("bin", k.e.get_id()), z3.And(b.e >= 0, b.e < nb.e))
        ctx.axiom(("bin-l", k.e.get_id()), (lo + b * width <= z(k)).e)
        ctx.axiom(("bin-r", k.e.get_id()), (z(k) < lo + (b + 1) * width).e)
        return b

    def before(b, k):
        """points among the first k in bin b"""
        n = SymInt(seen(integer(b).e, integer(k).e))
        ctx.assume(n >= 0)
        return n

    def held(b, k):
        n = before(b, k)
        return ctx.ite(n < cap, n, cap)

    kept = Acc("kept", lambda k: [pts.item(k)] if bin_of(k) is not None and before(bin_of(k), k) < cap else [])
    star = ctx.int("some_bin", lo=0)
    ctx.assume(star < nb)
    ctx.assume(before(star, 0) == 0)
    state = [None]

    def inv(env, k):
        bins = env["bins"]
        if k >= 1:
            b = bin_of(k - 1)
            for x in [star] + ([b] if b is not None else []):
                ctx.assume(before(x, k) == before(x, k - 1) + (ctx.ite(x == b, 1, 0) if b is not None else 0))
        if not isinstance(bins, SymBins):
            return [("as-many-bins-as-asked", bins.sym_len() == nb), ("empty", bins.item(star) is None), ("kept", kept.holds(env["output_cloud"], k))]
        return [("bin", bins.count(star) == held(star, k)), ("kept", kept.holds(env["output_cloud"], k))]

    def havoc(env, k):
        if not isinstance(env["bins"], SymBins):
            state[0] = SymBins(nb, lambda b: held(b, k))
        return {"bins": state[0], "output_cloud": kept.state(k)}

    f = "LaserCalibrator.z_stratified_sampling"
    ctx.scratch["loops"] = {(f, "kinds"): "ff", (f, 0): Loop("points", inv, havoc, modifies=lambda env: [env["bins"]]), (f, 1): Loop("summary", lambda env, k: [])}
    lc = calibrator(ctx, min_z_m=lo, max_z_m=lo + size, number_of_bins=nb, max_points_per_bin=cap)
    got = lc.z_stratified_sampling(pts)
    ctx.ensure("exactly-those", ctx.And(not got.appended, got.k == pts.n) if getattr(got, "acc", None) is kept else False)


def cloud(ctx, rng, k, n, noise, outliers=0):
    import numpy as np

    y, z = rng.uniform(-4, 4, n), rng.uniform(2, 12, n)
    x = -(k[1] * y + k[2] * z + k[3]) / k[0]
    e = rng.uniform(-noise, noise, n)
    nn = math.sqrt(k[0] ** 2 + k[1] ** 2 + k[2] ** 2)
    c = np.stack([x, y, z], 1) + e[:, None] * np.array(k[:3])[None] / nn
    c[:outliers, 0] += 0.5
    return c


@REG.harness([PF + ".Plane.fit", PF + ".Plane.residuals", PF + ".Plane.fit_non_robust"], kind="sample", samples=10)
def fitted_plane_is_the_plane_of_the_points(ctx):
    import numpy as np

    silence(ctx)
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10 ** 6))
    k = [1.0, ctx.real("b", lo=-0.5, hi=0.5), ctx.real("c", lo=-0.5, hi=0.5), ctx.real("d", lo=-3, hi=3)]
    pts = cloud(ctx, rng, k, 150, 0.0005, 8)
    m = repo(PF)
    co, inl = m.Plane([1, 0, 0, 1.5]).fit(pts, 0.03, verbose=False)
    n = math.sqrt(sum(x * x for x in k[:3]))
    for i in range(4):
        ctx.ensure_eq("robust-%d" % i, co[i], k[i] / n, tol=0.08)
    dist = np.abs(pts @ np.array(co[:3]) + co[3])
    ctx.assume(np.all(np.abs(dist - 0.03) > 1e-9))
    ctx.ensure("inliers", [tuple(p) for p in inl] == [tuple(p) for p, d in zip(pts, dist) if d < 0.03], str(len(inl)))
    co = m.Plane().fit_non_robust([p for p in pts[8:]])
    for i in range(4):
        ctx.ensure_eq("least-squares-%d" % i, co[i], k[i] / n, tol=0.02)


@REG.harness([L + ".LaserCalibrator.fit_and_save"], kind="sample", samples=8)
def planes_of_each_laser(ctx):
    """the written mean plane is that of the point cloud, each uncertainty plane passes through
    three of its points, and a second laser has its own"""
    import numpy as np
    import yaml

    silence(ctx)
    m = repo(L)
    C = repo("oplab.console").Console
    for n in ("get_date", "get_username", "get_hostname", "get_version"):
        ctx.patch(C, n, staticmethod(lambda: "x"))
    ctx.patch(m, "plot_pointcloud_and_planes", lambda *a: None)
    import random

    random.seed(ctx.int("pyseed", lo=0, hi=10 ** 6))
    rng = np.random.default_rng(ctx.int("seed", lo=0, hi=10 ** 6))
    npl = ctx.int("planes", lo=0, hi=6)
    lc = calibrator(ctx, num_uncert_planes=npl, mdt=0.1)
    set_fields(lc, triples=[], uncertainty_planes=[], inliers_1=None)
    for laser in range(2):
        k = [1.0, ctx.real("b%d" % laser, lo=-0.4, hi=0.4), ctx.real("c%d" % laser, lo=-0.4, hi=0.4), ctx.real("d%d" % laser, lo=-3, hi=3)]
        pts = cloud(ctx, rng, k, 120, 0.0005, 6)
        y = yaml.safe_load(lc.fit_and_save(pts, pathlib.Path("/nowhere")))
        p = y["mean_plane"]
        for i in range(4):
            ctx.ensure_eq("laser-%d-mean-plane-%d" % (laser, i), p[i], k[i], tol=0.15)
        dist = np.abs(pts @ np.array(p[:3]) + p[3]) / np.linalg.norm(p[:3])
        ctx.assume(np.all(np.abs(dist - 0.1) > 1e-6))
        inl = pts[dist < 0.1]
        for i in range(3):
            ctx.ensure_eq("laser-%d-mean-point-%d" % (laser, i), y["mean_xyz_m"][i], inl[:, i].mean(), tol=1e-6)
        ups = y.get("uncertainty_planes") or []
        ctx.ensure("laser-%d-number-of-planes" % laser, len(ups) == npl, "%d of %d" % (len(ups), npl))
        for u in ups:
            on = np.abs(inl @ np.array(u[:3]) + u[3]) < 1e-9
            ctx.ensure("laser-%d-through-three-points" % laser, on.sum() >= 3, "%d points on %s" % (on.sum(), u))


@REG.harness([L + ".LaserCalibrator.__init__"], kind="sample", samples=20)
def configured_values_are_used(ctx):
    """every value of the configuration file is the one used; both cameras are rectified with their own calibration"""
    import yaml

    silence(ctx)
    m = repo(L)
    cfg = yaml.safe_load(open(pathlib.Path(m.__file__).parent / "default_yaml" / "default_calibration.yaml"))["laser_calibration"]
    known = {}
    for sec in ("detection", "stratify", "ransac"):
        for k, v in list((cfg.get(sec) or {}).items()):
            if not isinstance(v, bool):
                v = cfg[sec][k] = ctx.int(sec + k, lo=2, hi=900)
            else:
                v = cfg[sec][k] = ctx.flag(sec + k)
            known[k] = v
    names = {"window_size": "k", "max_cloud_size": "max_point_cloud_size", "min_distance_threshold": "mdt", "sample_size_ratio": "ssp", "goal_inliers_ratio": "gip"}
    log = []

    class CV:
        def __getattr__(self, n):
            return getattr(m_cv2, n)

        def initUndistortRectifyMap(self, *a):
            log.append(a)
            return "maps %d" % len(log)

    m_cv2 = m.cv2
    ctx.patch(m, "cv2", CV())
    cam = lambda s: set_fields(Cam(), name=s, K=s + "K", d=s + "d", R=s + "R", P=s + "P", image_width=s + "w", image_height=s + "h")
    lc = m.LaserCalibrator(set_fields(Cam(), left=cam("l"), right=cam("r")), cfg, 17, True)
    for k, v in known.items():
        a = names.get(k, k)
        if hasattr(lc, a):
            ctx.ensure("configured-" + k, getattr(lc, a) == v, "%s: %s instead of %s" % (k, getattr(lc, a), v))
    maps = {lc.left_maps: "l", lc.right_maps: "r"}
    for i, a in enumerate(log):
        s = maps["maps %d" % (i + 1)]
        ctx.ensure("maps-of-" + s, a[:5] == (s + "K", s + "d", s + "R", s + "P", (s + "w", s + "h")), str(a))
    ctx.ensure("both-rectified", len(log) == 2 and lc.camera_name == "l" and lc.num_uncert_planes == 17 and lc.overwrite is True)
