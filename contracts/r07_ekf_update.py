"""R07: EKF measurement update, angle wrapping and outlier rejection."""
from ekfspec import *

REG = Registry("R07")


def _cl(k):
    def h(ctx):
        silence(ctx)
        r = ctx.real("r", lo=(2 * k - 1) * 3.1415926, hi=(2 * k + 1) * 3.1415927)
        g = repo(E).EkfImpl().clamp_rotation(r)
        ctx.ensure("within-pi", ctx.And(ctx.le(-ctx.pi, g, 1e-9), ctx.le(g, ctx.pi, 1e-9)))
        congruent_2pi(ctx, "same-angle", g, r)

    h.__name__ = "angle_wrapped_%d_turns" % k if k >= 0 else "angle_wrapped_minus_%d_turns" % -k
    return h


for _k in range(-4, 5):
    REG.harness([E + ".EkfImpl.clamp_rotation"], kind="bounded", bound="%d full turns" % _k, samples=15)(_cl(_k))


@REG.harness([E + ".EkfImpl.wrap_state_angles"])
def only_the_three_angles_are_wrapped(ctx):
    silence(ctx)
    x = state(ctx, ang=9)
    impl = repo(E).EkfImpl()
    impl.state = arr(ctx, x)
    if ctx.symbolic:
        ctx.patch(repo(E).EkfImpl, "clamp_rotation", lambda self, r: apply_uf(ctx, "wrap", item(r)))
    impl.wrap_state_angles()
    got = impl.state
    ctx.ensure_eq("other-components", [got[i, 0] for i in range(DIM) if not 3 <= i <= 5], [x[i, 0] for i in range(DIM) if not 3 <= i <= 5])
    for i in (3, 4, 5):
        if ctx.symbolic:
            ctx.ensure_eq("angle", got[i, 0], apply_uf(ctx, "wrap", x[i, 0]))
        else:
            congruent_2pi(ctx, "angle", got[i, 0], x[i, 0])
            ctx.ensure("angle-range", abs(got[i, 0]) <= 3.14159265358980)


KINDS = {"depth": [2], "usbl": [0, 1], "orientation": [3, 4, 5], "dvl": [6, 7, 8], "heading": [5]}


def inverse_contract(ctx):
    """numpy.linalg.inv: returns some matrix W (its argument is recorded)"""
    rec = {}
    if ctx.symbolic:
        def inv(M):
            n = M.shape[0]
            W = sym_matrix(ctx, "W", n)
            rec["M"], rec["W"] = np.array(M), W
            from pyvc.shims import SA
            return SA(np.array(W, dtype=object))

        ctx.scratch["linalg_inv"] = inv
        ctx.trusted.add("assumed contract: numpy.linalg.inv (result W opaque; its argument is checked)")
    return rec


def mk_measurement(ctx, idx, rlo, ang=3, corr=False):
    m = repo(E).Measurement({})
    for a in idx if corr else []:
        for b in idx:
            if a != b:
                m.covariance[a, b] = ctx.real("R_%d_%d" % (min(a, b), max(a, b)), lo=-0.9 * rlo, hi=0.9 * rlo)
    for i in idx:
        m.measurement[i] = ctx.real("z_%d" % i, lo=-20, hi=20) if not 3 <= i <= 5 else ctx.real("z_%d" % i, lo=-ang, hi=ang)
        m.covariance[i, i] = ctx.real("R_%d" % i, lo=rlo, hi=5)
        m.update_vector[i] = 1
    m.time = ctx.real("tm", lo=0, hi=100)
    m.type = "kind"
    return m


def innovation(ctx, z, x, angle):
    d = z - x
    if angle:
        while d > ctx.pi:
            d = d - 2 * ctx.pi
        while d < -ctx.pi:
            d = d + 2 * ctx.pi
    return d


def setup(ctx, idx, cov_idx=None, rlo=0.001, turns=True, ang=3, corr=False, first=False):
    silence(ctx)
    m = repo(E)
    impl = m.EkfImpl()
    x, P = state(ctx), sym_matrix(ctx, "P", idx=cov_idx)
    impl.state, impl.covariance = arr(ctx, x), mat(ctx, P)
    impl.last_update_time = ctx.real("t_last", lo=0, hi=100)
    impl.mahalanobis_threshold = ctx.real("thr", lo=0.2, hi=10)
    old = m.EkfState(ctx.real("t_old", lo=0, hi=100), arr(ctx, x * 2), mat(ctx, P))
    cur = m.EkfState(impl.last_update_time, impl.state, impl.covariance)
    impl.states_vector = [cur] if first else [old, cur]
    meas = mk_measurement(ctx, idx, rlo, ang, corr)
    if ctx.symbolic:
        ctx.patch(m.EkfImpl, "wrap_state_angles", lambda self: None)  # under contract above
    rec = inverse_contract(ctx)
    if ctx.symbolic:
        import inspect
        sig = inspect.signature(m.EkfImpl.check_mahalanobis_distance)

        def gate(*a, **k):
            # callee contract (check_mahalanobis_distance is verified below):
            # any verdict, on the innovation and inverse covariance it is given
            b = list(sig.bind(*a, **k).arguments.values())
            rec["gate"] = (np.array(b[1]), np.array(b[2]))
            rec["accepted"] = ctx.flag("accepted")
            return rec["accepted"]

        ctx.patch(m.EkfImpl, "check_mahalanobis_distance", gate)
    R = np.empty((len(idx), len(idx)), dtype=object)
    R[:, :] = 0
    for a, i in enumerate(idx):
        r = ctx.real("R_%d" % i, lo=rlo, hi=5)
        if rlo < 0:  # negative variances count by magnitude, tiny ones as 1e-9
            r = abs(r)
            r = ctx.ite(r < 1e-9, 1e-9, r) if ctx.symbolic else max(r, 1e-9)
        R[a, a] = r
        for b, j in enumerate(idx) if corr else []:
            if i != j:
                R[a, b] = ctx.real("R_%d_%d" % (min(i, j), max(i, j)))
        if 3 <= i <= 5 and turns is not True and i not in turns:
            ctx.assume(abs(ctx.real("z_%d" % i) - x[i, 0]) <= 3.1)
    y = np.array([innovation(ctx, ctx.real("z_%d" % i), x[i, 0], 3 <= i <= 5) for i in idx], dtype=object).reshape(-1, 1)
    S = np.array([[P[i, j] + R[a, b] for b, j in enumerate(idx)] for a, i in enumerate(idx)], dtype=object)
    return impl, meas, x, P, R, y, S, rec, old, cur


def upd(kind, cov_idx, full, rlo=0.001, turns=True, name=None, first=False, nan=None, **kw):
    idx = KINDS[kind]

    def h(ctx):
        impl, meas, x, P, R, y, S, rec, old, cur = setup(ctx, idx, cov_idx, rlo, turns, first=first, **kw)
        if nan is not None:  # a component that was not measured
            meas.measurement[nan] = float("nan")
            meas.update_vector[nan] = 1 if not ctx.symbolic and ctx.flag("wanted") else meas.update_vector[nan]
            meas.covariance[nan, nan] = 1
        t0, tm, thr = impl.last_update_time, meas.time, impl.mahalanobis_threshold
        ctx.ensure_eq("pre", 0, 0)
        if not ctx.symbolic:
            W = np.linalg.inv(S.astype(float))
            d2 = float(mm(y.T, W, y)[0, 0])
            ctx.assume(abs(d2 - thr ** 2) > 1e-6 * (1 + d2))
            for i in range(len(y)):
                if 3 <= idx[i] <= 5:
                    ctx.assume(abs(abs(y[i, 0]) - np.pi) > 1e-6)
        oldx, oldP = np.array(old.state), np.array(old.covariance)
        impl.correct(meas)
        if ctx.symbolic:
            ctx.ensure("one-inverse", "M" in rec)
            ctx.ensure_eq("innovation-covariance", rec["M"], S)
            W = rec["W"]
            d2 = mm(y.T, W, y)[0, 0]
        sel = lambda M, c: np.asarray(M)[:, c]
        K = mm(sel(P, idx), W)
        Kf = np.zeros((DIM, DIM), dtype=object)
        Kf[:, idx] = K
        I = np.eye(DIM, dtype=object)
        if "gate" in rec:
            ctx.ensure_eq("tested-innovation", rec["gate"][0], y)
            ctx.ensure_eq("tested-inverse-covariance", rec["gate"][1], W)
            accepted = rec["accepted"]
        else:
            accepted = d2 < thr ** 2
        if accepted:
            want = x + mm(K, y)
            for i in range(DIM):
                if 3 <= i <= 5 and not ctx.symbolic:
                    congruent_2pi(ctx, "state", impl.state[i, 0], want[i, 0])
                else:
                    ctx.ensure_eq("state[%s]" % NAMES[i], impl.state[i, 0], want[i, 0], scale=20)
            G = I - Kf
            want = mm(G, P, G.T) + mm(K, R, K.T)
            got = np.asarray(impl.covariance)
            for i in range(DIM):
                for j in range(DIM) if full else idx:
                    ctx.ensure_eq("covariance", got[i, j], want[i, j], scale=10)
            ctx.ensure_eq("time", impl.last_update_time, tm)
            ctx.ensure("stored", impl.states_vector[-1] is cur)
            ctx.ensure_eq("stored-state", np.asarray(cur.state), np.asarray(impl.state))
            ctx.ensure_eq("stored-covariance", np.asarray(cur.covariance), np.asarray(impl.covariance))
            ctx.ensure("not-listed-as-rejected", not impl.rejected_measurements)
        else:
            ctx.ensure_eq("state-unchanged", np.asarray(impl.state), x)
            ctx.ensure_eq("covariance-unchanged", np.asarray(impl.covariance), P)
            ctx.ensure_eq("time-unchanged", impl.last_update_time, t0)
            ctx.ensure_eq("stored-state-unchanged", np.asarray(cur.state), x)
            ctx.ensure("rejection-recorded", list(impl.rejected_measurements) == ["kind"] and len(impl.rejected_measurements["kind"]) == 1)
            ctx.ensure_eq("rejection-time", impl.rejected_measurements["kind"][0], tm)
        ctx.ensure("history-length", len(impl.states_vector) == (1 if first else 2))
        ctx.ensure_eq("earlier-state-untouched", np.asarray(old.state), oldx)
        r = impl.measurements["kind"]
        ctx.ensure("report", (r.total, r.valid, r.dropped) == (1, 1 if accepted else 0, 0 if accepted else 1))

    h.__name__ = name or "update_with_%s" % kind
    return h


UF_ = [E + ".EkfImpl.correct", E + ".EkfImpl.check_mahalanobis_distance"]
REG.harness(UF_, samples=40, timeout_ms=15000, budget_s=400)(upd("depth", None, True))
for _kind in ("usbl", "dvl"):
    REG.harness(UF_, samples=40, timeout_ms=15000, budget_s=400)(upd(_kind, None, True))
for _a in (3, 4, 5):
    REG.harness(UF_, kind="bounded", bound="%s innovation of any size up to a full turn, the other two within half a turn" % NAMES[_a], samples=40, timeout_ms=15000, budget_s=400)(
        upd("orientation", None, True, turns=[_a], name="update_with_orientation_turning_%s" % NAMES[_a].lower()))
REG.harness(UF_, kind="bounded", bound="covariance symbolic on two components", samples=40, timeout_ms=15000, budget_s=400)(upd("depth", [2, 8], True, rlo=-2, name="bad_variances"))
REG.harness(UF_, kind="bounded", bound="heading innovations of up to three turns", samples=60, timeout_ms=15000, budget_s=400)(
    upd("heading", [4, 5], True, ang=14, name="heading_measured_several_turns_away"))
REG.harness(UF_, samples=40, timeout_ms=15000, budget_s=400)(upd("usbl", None, True, rlo=0.5, corr=True, name="correlated_measurement_noise"))
REG.harness(UF_, samples=20, timeout_ms=15000, budget_s=400)(upd("depth", None, True, first=True, name="update_of_the_initial_state"))
REG.harness(UF_, kind="sample", bound="drawn values; one component of the reading missing", samples=40)(upd("usbl", None, True, nan=7, name="missing_component_leaves_the_others"))


@REG.harness([E + ".EkfImpl.check_mahalanobis_distance"])
def rejected_iff_distance_reaches_threshold(ctx):
    silence(ctx)
    impl = repo(E).EkfImpl()
    thr = ctx.real("thr", lo=0, hi=10)
    impl.set_mahalanobis_distance_threshold(thr)
    y = np.array([[ctx.real("y0", lo=-5, hi=5)], [ctx.real("y1", lo=-5, hi=5)]], dtype=object if ctx.symbolic else float)
    W = sym_matrix(ctx, "W", 2)
    d2 = mm(y.T, W, y)[0, 0]
    ctx.assume(d2 >= 0)
    if not ctx.symbolic:
        ctx.assume(abs(d2 - thr ** 2) > 1e-6)
    got = impl.check_mahalanobis_distance(arr(ctx, y), arr(ctx, W), 0, [0, 1])
    ctx.ensure("decision", ctx.iff(got, d2 < thr * thr))
    ctx.ensure("count", impl.nb_exceeded_mahalanobis == (0 if got else 1))
