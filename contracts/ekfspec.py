"""Vocabulary of the filter contracts."""
from common import *
import numpy as np

E = "auv_nav.localisation.ekf"
NAMES = ["X", "Y", "Z", "ROLL", "PITCH", "YAW", "VX", "VY", "VZ", "VROLL", "VPITCH", "VYAW"]
DIM = 12


def state(ctx, tag="x", ang=3, lim=20, pitch=None):
    if pitch is not None and not ctx.symbolic:
        ctx.real("%s_PITCH" % tag, lo=-pitch, hi=pitch)
    v = [ctx.real("%s_%s" % (tag, n), lo=-lim, hi=lim) if not 3 <= i <= 5 else ctx.real("%s_%s" % (tag, n), lo=-ang, hi=ang) for i, n in enumerate(NAMES)]
    return np.array(v, dtype=object if ctx.symbolic else float).reshape(DIM, 1)


def sym_matrix(ctx, tag, n=DIM, idx=None, spd=True):
    """symmetric n x n; only rows/columns in idx are symbolic when idx is given
    (identity elsewhere). Concrete draws are made positive definite."""
    idx = list(range(n)) if idx is None else idx
    M = np.empty((n, n), dtype=object)
    M[:, :] = 0
    for i in range(n):
        M[i, i] = 1
    for a in idx:
        for b in idx:
            if a <= b:
                M[a, b] = M[b, a] = ctx.real("%s_%d_%d" % (tag, a, b), lo=-4, hi=4)
    if not ctx.symbolic:
        F = M.astype(float)
        return F @ F.T / n + 0.05 * np.eye(n) if spd else F
    return M


def any_matrix(ctx, tag, n, m, lim=3, idx=None):
    M = np.empty((n, m), dtype=object)
    M[:, :] = 0
    for i in range(min(n, m)):
        M[i, i] = 1
    for i in range(n):
        for j in range(m):
            if idx is None or (i in idx and j in idx):
                M[i, j] = ctx.real("%s_%d_%d" % (tag, i, j), lo=-lim, hi=lim)
    return M if ctx.symbolic else M.astype(float)


def mat(ctx, M):
    """the matrix type the filter stores its covariance in"""
    if ctx.symbolic:
        from pyvc.shims import SN

        return SN.mat(M)
    return np.asmatrix(np.array(M, dtype=float))


def arr(ctx, M):
    if ctx.symbolic:
        from pyvc.shims import SA

        return SA(np.array(M, dtype=object))
    return np.array(M, dtype=float)


def mm(*Ms):
    r = np.asarray(Ms[0])
    for M in Ms[1:]:
        r = np.asarray(r).dot(np.asarray(M))
    return r


def pi_(ctx):
    return ctx.pi


def congruent_2pi(ctx, name, got, want):
    if ctx.symbolic:
        from pyvc.sym import SymBool, z3, rv

        d = (rv(got) - rv(want)) / (2 * rv(ctx.pi))
        ctx.ensure(name, SymBool(z3.Or(*[d == k for k in range(-6, 7)])))
    else:
        d = (float(got) - float(want)) / (2 * np.pi)
        ctx.ensure(name, abs(d - round(d)) < 1e-7, "got %r expected %r (mod 2 pi)" % (got, want))


def item(x):
    return x.reshape(-1)[0] if isinstance(x, np.ndarray) else x
