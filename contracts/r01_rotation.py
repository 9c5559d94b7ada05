"""R01: body frame <-> north/east/down rotation."""
from common import Registry, repo, rot_zyx, angles, vec

REG = Registry("R01")
B2I = "auv_nav.tools.body_to_inertial"
I2B = "auv_nav.tools.inertial_to_body"


def b2i(*a):
    return repo(B2I).body_to_inertial(*a)


def i2b(*a):
    return repo(I2B).inertial_to_body(*a)


@REG.harness([B2I + ".body_to_inertial"])
def body_to_ned_is_yaw_pitch_roll_rotation(ctx):
    a, v = angles(ctx), vec(ctx, "v")
    out = b2i(*a, *v)
    ctx.ensure("three-components", len(out) == 3)
    ctx.ensure_eq("R*v", out, rot_zyx(ctx, *a, v), scale=1000)


@REG.harness([B2I + ".body_to_inertial"])
def body_to_ned_preserves_lengths_and_angles(ctx):
    a, v, w = angles(ctx), vec(ctx, "v"), vec(ctx, "w")
    p, q = b2i(*a, *v), b2i(*a, *w)
    ctx.ensure_eq("dot", p[0] * q[0] + p[1] * q[1] + p[2] * q[2], v[0] * w[0] + v[1] * w[1] + v[2] * w[2], scale=1e6)


@REG.harness([B2I + ".body_to_inertial", I2B + ".inertial_to_body"])
def inverse_body_ned_body(ctx):
    a, v = angles(ctx), vec(ctx, "v")
    ctx.ensure_eq("round-trip", i2b(*a, *b2i(*a, *v)), v, scale=1000)


@REG.harness([B2I + ".body_to_inertial", I2B + ".inertial_to_body"])
def inverse_ned_body_ned(ctx):
    a, v = angles(ctx), vec(ctx, "v")
    ctx.ensure_eq("round-trip", b2i(*a, *i2b(*a, *v)), v, scale=1000)


@REG.harness([I2B + ".inertial_to_body"])
def ned_to_body_is_transpose(ctx):
    a, v, w = angles(ctx), vec(ctx, "v"), vec(ctx, "w")
    p, q = i2b(*a, *v), rot_zyx(ctx, *a, w)
    ctx.ensure_eq("<R'v,w> = <v,Rw>", p[0] * w[0] + p[1] * w[1] + p[2] * w[2], v[0] * q[0] + v[1] * q[1] + v[2] * q[2], scale=1e6)
