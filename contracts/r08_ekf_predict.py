"""R08: EKF prediction and smoothing."""
from ekfspec import *

REG = Registry("R08")
IM = E + ".EkfImpl."
REG.assumptions = ["the pitch is not within 6 degrees of vertical (Euler-rate kinematics are singular there)"]


def kin_state(ctx, tag="x"):
    """any attitude away from the pitch singularity"""
    x = state(ctx, tag, lim=10, pitch=1.39)
    if ctx.symbolic:
        ctx.assume(ctx.cos(x[4, 0]) > 0.1)
    else:
        ctx.assume(abs(x[4, 0]) < 1.4)
    return x


def motion(ctx, x, dt):
    """one Euler step of rigid-body kinematics (angles in radians)"""
    x = [x[i, 0] for i in range(DIM)]
    d = [ctx.deg(a) for a in x[3:6]]
    v = rot_zyx(ctx, d[0], d[1], d[2], x[6:9])
    cr, sr, cp, sp = ctx.cos(x[3]), ctx.sin(x[3]), ctx.cos(x[4]), ctx.sin(x[4])
    p, q, r = x[9:12]
    rates = [p + (q * sr + r * cr) * sp / cp, q * cr - r * sr, (q * sr + r * cr) / cp]
    return [x[i] + v[i] * dt for i in range(3)] + [x[3 + i] + rates[i] * dt for i in range(3)] + x[6:]


@REG.harness([IM + "compute_transfer_function"])
def transition_is_rigid_body_kinematics(ctx):
    silence(ctx)
    x, dt = kin_state(ctx), ctx.real("dt", lo=-10, hi=10)
    F = repo(E).EkfImpl().compute_transfer_function(dt, arr(ctx, x))
    ctx.ensure_eq("next-state", mm(F, x).reshape(-1), motion(ctx, x, dt), scale=200)


def derivative(e, v):
    """d e / d v of a z3 term over + - * / cos sin"""
    from pyvc import sym
    from pyvc.sym import z3

    memo, zero, one = {}, z3.RealVal(0), z3.RealVal(1)

    def D(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = (t, go(t))
        return memo[k][1]

    def go(t):
        if t.eq(v):
            return one
        if t.num_args() == 0:
            return zero
        ch = [t.arg(i) for i in range(t.num_args())]
        if z3.is_add(t):
            return z3.Sum(*[D(c) for c in ch])
        if z3.is_sub(t):
            r = D(ch[0])
            for c in ch[1:]:
                r = r - D(c)
            return r
        if z3.is_mul(t):
            return z3.Sum(*[z3.Product(*([D(c)] + ch[:i] + ch[i + 1:])) for i, c in enumerate(ch)])
        if z3.is_div(t):
            return (D(ch[0]) * ch[1] - ch[0] * D(ch[1])) / (ch[1] * ch[1])
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return -D(ch[0])
        if t.decl().eq(sym.COS):
            return -sym.SIN(ch[0]) * D(ch[0])
        if t.decl().eq(sym.SIN):
            return sym.COS(ch[0]) * D(ch[0])
        raise sym.Unsupported("derivative of %s" % t.decl())

    return z3.simplify(D(e)) if False else D(e)


@REG.harness([IM + "compute_transfer_function_jacobian", IM + "compute_transfer_function"], samples=40)
def jacobian_is_the_derivative_of_the_motion(ctx):
    silence(ctx)
    x, dt = kin_state(ctx), ctx.real("dt", lo=-10, hi=10)
    impl = repo(E).EkfImpl()
    F = impl.compute_transfer_function(dt, arr(ctx, x))
    A = np.asarray(impl.compute_transfer_function_jacobian(dt, arr(ctx, x), F))
    if ctx.symbolic:
        from pyvc.sym import SymReal, rv

        g = motion(ctx, x, dt)
        for i in range(DIM):
            for j in range(DIM):
                ctx.ensure_eq("d%s/d%s" % (NAMES[i], NAMES[j]), A[i, j], SymReal(derivative(rv(g[i]), rv(x[j, 0]))))
    else:
        h = 1e-5
        for j in range(DIM):
            up, dn = x.copy(), x.copy()
            up[j, 0] += h
            dn[j, 0] -= h
            d = [(a - b) / (2 * h) for a, b in zip(motion(ctx, up, dt), motion(ctx, dn, dt))]
            for i in range(DIM):
                ctx.ensure_eq("d%s/d%s" % (NAMES[i], NAMES[j]), A[i, j], d[i], tol=1e-4 * (1 + abs(d[i]) + 1e3 / abs(np.cos(x[4, 0])) ** 3 * 1e-2))


@REG.harness([IM + "compute_transfer_function_jacobian"])
def jacobian_leaves_its_argument_alone(ctx):
    silence(ctx)
    x, dt = kin_state(ctx), ctx.real("dt", lo=-10, hi=10)
    impl = repo(E).EkfImpl()
    F = impl.compute_transfer_function(dt, arr(ctx, x))
    keep = np.array(F)
    impl.compute_transfer_function_jacobian(dt, arr(ctx, x), F)
    ctx.ensure_eq("transition-unchanged", np.asarray(F), keep)


def opaque_motion(ctx, calls, idx=None):
    """callee contracts: transition and Jacobian are any matrices, one pair per
    call (their own contracts are above)"""
    m = repo(E)
    if not ctx.symbolic:
        impl = m.EkfImpl()

        def spec(dt, x):
            F = impl.compute_transfer_function(dt, np.array(x))
            return F, impl.compute_transfer_function_jacobian(dt, np.array(x), F)

        return spec

    def tf(self, delta, st):
        k = len(calls)
        F, A = any_matrix(ctx, "F%d" % k, DIM, DIM, idx=idx), any_matrix(ctx, "A%d" % k, DIM, DIM, idx=idx)
        calls.append((delta, np.array(st), F, A))
        from pyvc.shims import SA
        return SA(np.array(F))

    def jac(self, delta, st, f):
        d, s0, F, A = calls[-1]
        ctx.ensure_eq("jacobian-of-the-same-step", [delta] + list(np.asarray(st).reshape(-1)) + list(np.asarray(f).reshape(-1)), [d] + list(s0.reshape(-1)) + list(F.reshape(-1)))
        from pyvc.shims import SA
        return SA(np.array(A))

    ctx.patch(m.EkfImpl, "compute_transfer_function", tf)
    ctx.patch(m.EkfImpl, "compute_transfer_function_jacobian", jac)
    return None


def wrap_contract(ctx):
    if ctx.symbolic:
        def wrap(self):
            for i in (3, 4, 5):
                self.state[i, 0] = apply_uf(ctx, "wrap", self.state[i, 0])

        ctx.patch(repo(E).EkfImpl, "wrap_state_angles", wrap)


def wrapped(ctx, v):
    if ctx.symbolic:
        return apply_uf(ctx, "wrap", v)
    return v


@REG.harness([IM + "predict"], samples=40)
def prediction_step(ctx):
    silence(ctx)
    m = repo(E)
    impl = m.EkfImpl()
    x, P, Q = kin_state(ctx), sym_matrix(ctx, "P"), sym_matrix(ctx, "Q")
    impl.state, impl.covariance, impl.process_noise_covariance = arr(ctx, x), mat(ctx, P), mat(ctx, Q)
    impl.last_update_time = ctx.real("t0", lo=0, hi=100)
    first = m.EkfState(impl.last_update_time, impl.state, impl.covariance)
    impl.states_vector = [first]
    dt, t1 = ctx.real("dt", lo=-5, hi=5), ctx.real("t1", lo=0, hi=100)
    calls = []
    sp = opaque_motion(ctx, calls)
    wrap_contract(ctx)
    keep = ctx.flag("keep")
    s = impl.predict(t1, dt, keep)
    if ctx.symbolic:
        ctx.ensure("one-transition", len(calls) == 1)
        ctx.ensure_eq("transition-step", calls[0][0], dt)
        ctx.ensure_eq("transition-from", calls[0][1].reshape(-1), x.reshape(-1))
        F, A = calls[0][2], calls[0][3]
    else:
        F, A = sp(dt, x)
    want = mm(F, x)
    for i in range(DIM):
        if 3 <= i <= 5:
            if ctx.symbolic:
                ctx.ensure_eq("state", impl.state[i, 0], apply_uf(ctx, "wrap", want[i, 0]))
            else:
                congruent_2pi(ctx, "state", impl.state[i, 0], want[i, 0])
        else:
            ctx.ensure_eq("state", impl.state[i, 0], want[i, 0], scale=100)
    ctx.ensure_eq("covariance", np.asarray(impl.covariance), mm(A, P, A.T) + np.asarray(Q) * abs(dt), scale=1e3)
    ctx.ensure_eq("time", impl.last_update_time, t1)
    ctx.ensure_eq("saved-time", s.time, t1)
    ctx.ensure_eq("saved-state", np.asarray(s.state), np.asarray(impl.state))
    ctx.ensure_eq("saved-covariance", np.asarray(s.covariance), np.asarray(impl.covariance))
    ctx.ensure("history", len(impl.states_vector) == (2 if keep else 1) and impl.states_vector[0] is first and (not keep or impl.states_vector[1] is s))
    ctx.ensure_eq("previous-state-untouched", np.asarray(first.state), x)
    ctx.ensure_eq("previous-covariance-untouched", np.asarray(first.covariance), P)


def smoothing(n, idx):
    def h(ctx):
        silence(ctx)
        m = repo(E)
        impl = m.EkfImpl()
        ts = ctx.increasing("t", n, lo=0, hi=10)
        Q = sym_matrix(ctx, "Q", idx=idx)
        impl.process_noise_covariance = mat(ctx, Q)
        xs = [kin_state(ctx, "x%d" % k) for k in range(n)]
        Ps = [sym_matrix(ctx, "P%d" % k, idx=idx) for k in range(n)]
        impl.states_vector = [m.EkfState(ts[k], arr(ctx, xs[k]), mat(ctx, Ps[k])) for k in range(n)]
        calls, invs = [], []
        sp = opaque_motion(ctx, calls, idx)
        if ctx.symbolic:
            def inv(M):
                W = sym_matrix(ctx, "W%d" % len(invs), idx=idx)
                invs.append((np.array(M), W))
                return mat(ctx, W)

            ctx.scratch["linalg_inv"] = inv
            ctx.trusted.add("assumed contract: numpy.linalg.inv (result opaque; its argument is checked)")
        on = ctx.flag("enable")
        impl.smooth(enable=on)
        out = impl.get_smoothed_states()
        ctx.ensure("one-smoothed-state-per-state", len(out) == n and len(impl.states_vector) == n)
        for k in range(n):
            ctx.ensure_eq("filtered-state-untouched", np.asarray(impl.states_vector[k].state), xs[k])
            ctx.ensure_eq("filtered-covariance-untouched", np.asarray(impl.states_vector[k].covariance), Ps[k])
            ctx.ensure_eq("time", out[k].time, ts[k])
        ctx.ensure_eq("last-state", np.asarray(out[-1].state), xs[-1])
        ctx.ensure_eq("last-covariance", np.asarray(out[-1].covariance), Ps[-1])
        for k in range(n - 2, -1, -1):
            got_x, got_P = np.asarray(out[k].state), np.asarray(out[k].covariance)
            if not on:
                ctx.ensure_eq("disabled-state", got_x, xs[k])
                ctx.ensure_eq("disabled-covariance", got_P, Ps[k])
                continue
            nx, nP = np.asarray(out[k + 1].state), np.asarray(out[k + 1].covariance)
            dt = ts[k + 1] - ts[k]
            if ctx.symbolic:
                c = n - 2 - k
                ctx.ensure("one-transition-per-step", len(calls) == n - 1 and len(invs) == n - 1)
                ctx.ensure_eq("transition-step", calls[c][0], dt)
                ctx.ensure_eq("transition-from", calls[c][1].reshape(-1), xs[k].reshape(-1))
                F, A = calls[c][2], calls[c][3]
                ctx.ensure_eq("predicted-covariance", invs[c][0], mm(A, Ps[k], A.T) + np.asarray(Q) * dt)
                W = invs[c][1]
            else:
                F, A = sp(dt, xs[k])
                W = np.linalg.inv(mm(A, Ps[k], A.T) + Q * dt)
            PP = mm(A, Ps[k], A.T) + np.asarray(Q) * dt
            J = mm(Ps[k], A.T, W)
            y = nx - mm(F, xs[k])
            for i in (3, 4, 5):
                if ctx.symbolic:
                    from pyvc import sym
                    y[i, 0] = sym.s_atan2(sym.s_sin(y[i, 0]), sym.s_cos(y[i, 0]))
                else:
                    y[i, 0] = np.arctan2(np.sin(y[i, 0]), np.cos(y[i, 0]))
            ctx.ensure_eq("smoothed-state", got_x, xs[k] + mm(J, y), tol=None if ctx.symbolic else 1e-4 * (1 + np.abs(J).max() * 50))
            ctx.ensure_eq("smoothed-covariance", got_P, np.asarray(Ps[k]) + mm(J, np.asarray(nP) - PP, J.T), tol=None if ctx.symbolic else 1e-4 * (1 + np.abs(J).max() ** 2 * (np.abs(PP).max() + np.abs(nP).max())))

    h.__name__ = "smoothing_of_%d_states" % n
    return h


for _n in (2, 3):
    REG.harness([IM + "smooth"], kind="bounded", bound="%d filtered states" % _n, samples=30, timeout_ms=20000)(smoothing(_n, None))


@REG.harness([IM + "smooth"])
def single_state_is_not_smoothed(ctx):
    silence(ctx)
    m = repo(E)
    impl = m.EkfImpl()
    x, P = state(ctx), sym_matrix(ctx, "P", idx=[0])
    impl.states_vector = [m.EkfState(ctx.real("t", lo=0, hi=9), arr(ctx, x), mat(ctx, P))] if ctx.flag("one") else []
    impl.smooth()
    ctx.ensure("nothing", len(impl.get_smoothed_states()) == 0)


@REG.harness([IM + "set_initial_state", IM + "set_state", IM + "set_covariance", IM + "set_process_noise_covariance"])
def initial_state_is_copied(ctx):
    silence(ctx)
    impl = repo(E).EkfImpl()
    x, P, Q = state(ctx), sym_matrix(ctx, "P", idx=[0, 5]), sym_matrix(ctx, "Q", idx=[0, 5])
    t = ctx.real("t", lo=0, hi=100)
    a, b, q = arr(ctx, x), arr(ctx, P), arr(ctx, Q)
    impl.set_initial_state(t, a, b)
    impl.set_process_noise_covariance(q)
    ctx.ensure_eq("state", np.asarray(impl.get_state()), x)
    ctx.ensure_eq("covariance", np.asarray(impl.covariance), P)
    ctx.ensure_eq("noise", np.asarray(impl.process_noise_covariance), Q)
    ctx.ensure_eq("time", impl.get_last_update_time(), t)
    s = impl.get_states()
    ctx.ensure("history", len(s) == 1)
    ctx.ensure_eq("history-time", s[0].get_time(), t)
    ctx.ensure_eq("history-state", np.asarray(s[0].state), x)
    impl.state[0, 0] = impl.state[0, 0] + 1
    ctx.ensure_eq("history-is-not-aliased", np.asarray(s[0].state), x)
    ctx.ensure_eq("caller-array-untouched", np.asarray(a), x)
